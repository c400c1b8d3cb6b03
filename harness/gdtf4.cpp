// Fixture file write -> read: protocols (RDM, Art-Net, sACN); breaks, footprints and function ranges of DMX modes.
#include "gdtf.h"
typedef VCOMPtr<IGdtf_FTRDM> IRdmPtr;
extern "C" void sym_main() {
  Walk w; IGdtfFixturePtr f; newFixture(f);
  PART(0) { vary(w, 4, 16);
    auto walk = [&](IGdtfFixturePtr& f) { STransformMatrix m = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0}; IGdtfGeometryPtr g; IGdtfDmxModePtr mode[2]; if (!w.phase) { good(f->CreateGeometry(eGdtfGeometry, "Base", nullptr, m, &g), "geo"); for (int k = 0; k < 2; k++) { good(f->CreateDmxMode(k ? "Mode B" : "Mode A", &mode[k]), "mode"); mode[k]->SetGeometry(g); } }
      if (w.pick != 0) { OBJ(IRdmPtr, r, f->CreateRDM(&r), f->GetRDM(&r)); HEX(r, ManufacturerID); HEX(r, DeviceModelID);
        for (int k = 0; k < 2; k++) { IGdtfSoftwareVersionIDPtr s; if (!w.phase) { size_t v = w.newX("version"); good(r->CreateSoftwareVersionID(v, &s), "version"); } else { good(r->GetSoftwareVersionIDAt(k, &s), "version"); size_t v = 0; good(s->GetValue(v), "version"); w.same(v, "software version"); }
          for (int j = 0; j < 2; j++) { IGdtfDMXPersonalityPtr p; unsigned to = (w.pick + j + k) & 1; if (!w.phase) { size_t v = w.newX("personality"); good(s->CreateDMXPersonality(v, mode[to], &p), "personality"); } else { good(s->GetDMXPersonalityAt(j, &p), "personality"); size_t v = 0; good(p->GetValue(v), "value"); w.same(v, "personality value"); IGdtfDmxModePtr x; good(p->GetDmxMode(&x), "personality mode"); ASSERT(std::string(x->GetName()) == (to ? "Mode B" : "Mode A"), "personality mode"); } } COUNT(s, DMXPersonality, 2); } COUNT(r, SoftwareVersionID, 2); }
      else if (w.phase) { VCOMPtr<IGdtf_FTRDM> r; size_t n_ = 0; ASSERT(!VCOM_SUCCEEDED(f->GetRDM(&r)) || !r || !VCOM_SUCCEEDED(r->GetSoftwareVersionIDCount(n_)), "no rdm"); }
      #define MAPS(P, C, G, on) if (on) { OBJ(P, a, f->C(&a), f->G(&a)); for (int k = 0; k < 2; k++) { IGdtfMapPtr x; if (!w.phase) { Uint32 key = w.newU("key", 32), v = w.newU("value", 32); good(a->CreateMap(key, v, &x), "map"); } else { good(a->GetMapAt(k, &x), "map"); Uint32 key = 0, v = 0; good(x->GetKey(key), "key"); good(x->GetValue(v), "value"); w.same(key, "map key"); w.same(v, "map value"); } } COUNT(a, Map, 2); } else if (w.phase) { P a; size_t n_ = 0; ASSERT(!VCOM_SUCCEEDED(f->G(&a)) || !a || !VCOM_SUCCEEDED(a->GetMapCount(n_)), "protocol absent"); }
      MAPS(IGdtfArtNetPtr, CreateArtNet, GetArtNet, w.pick != 2) MAPS(IGdtfSACNPtr, CreateSACN, GetSACN, w.pick != 3) };
    roundTrip(w, f, walk); REACH("protocols"); }
  PART(1) { // breaks and footprints of a mode against their definition
    STransformMatrix m = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0}; IGdtfGeometryPtr base, cell, pixel, yoke, ref[2], other; good(f->CreateGeometry(eGdtfGeometry, "Base", nullptr, m, &base), "g"); good(f->CreateGeometry(eGdtfGeometry, "Cell", nullptr, m, &cell), "g"); good(cell->CreateGeometry(eGdtfGeometry, "Pixel", nullptr, m, &pixel), "g"); good(base->CreateGeometry(eGdtfGeometry, "Yoke", nullptr, m, &yoke), "g"); good(f->CreateGeometry(eGdtfGeometry, "Other", nullptr, m, &other), "g");
    unsigned refs = symChoose("refs", 3), nb = symChoose("refbreaks", 4); bool loop = sym_param("loop", 0); int rb[2][3], ra[2][3];
    for (unsigned k = 0; k < refs; k++) { good((k ? yoke : base)->CreateGeometry(eGdtfGeometryReference, k ? "Ref B" : "Ref A", nullptr, m, &ref[k]), "r"); good(ref[k]->SetGeometryReference(cell), "link"); for (unsigned j = 0; j < nb; j++) { rb[k][j] = j == 2 ? 3 : 1 + (j + k) % 2; ra[k][j] = 21 + 40 * k + 7 * j; IGdtfBreakPtr b; good(ref[k]->CreateBreak(rb[k][j], ra[k][j], &b), "break"); } }
    if (loop) { IGdtfGeometryPtr r; good(cell->CreateGeometry(eGdtfGeometryReference, "Loop", nullptr, m, &r), "r"); good(r->SetGeometryReference(cell), "link"); IGdtfBreakPtr b; r->CreateBreak(1, 5, &b); }
    IGdtfDmxModePtr mode; good(f->CreateDmxMode("Mode", &mode), "mode"); good(mode->SetGeometry(base), "geometry");
    struct Ch { unsigned geo, bytes; int brk, a[4]; } ch[3]; IGdtfGeometryPtr* geos[] = {std::addressof(base), std::addressof(yoke), std::addressof(cell), std::addressof(pixel), std::addressof(other)};
    ch[0] = {symChoose("geometry", 5), symChoose("bytes", 5), (int)symChoose("break", 3), {0, 0}}; if (ch[0].bytes) { if (ch[0].bytes > 2 || nb > 2) ch[0].a[0] = 30; else { uint16_t a_ = symU16("address"); ASSUME(sym_and(a_ >= 1, a_ <= 600)); ch[0].a[0] = a_; } ch[0].a[1] = ch[0].a[0] + 1; ch[0].a[2] = ch[0].a[0] + 9; ch[0].a[3] = ch[0].a[0] + 17; }
    ch[1] = {symChoose("geometry", 2) * 3, 1, (int)symChoose("break", 3), {15, 0}}; ch[2] = {2, 2, 2, {3, 9}};
    for (int k = 0; k < 3; k++) { IGdtfDmxChannelPtr c; good(mode->CreateDmxChannel(*geos[ch[k].geo], &c), "channel"); good(c->SetDmxBreak(ch[k].brk), "break"); if (ch[k].bytes) good(c->SetCoarse(ch[k].a[0]), "coarse"); if (ch[k].bytes > 1) good(c->SetFine(ch[k].a[1]), "fine"); if (ch[k].bytes > 2) good(c->SetUltra(ch[k].a[2]), "ultra"); if (ch[k].bytes > 3) good(c->SetUber(ch[k].a[3]), "uber"); }
    // definition: the breaks named by the channels; overwritten channels take the last break of each reference to their geometry
    bool used[4] = {}, inSub[4] = {}, over = false; for (auto& c : ch) { if (c.brk) used[c.brk] = true; bool sub = c.geo == 2 || c.geo == 3; if (sub && c.brk) inSub[c.brk] = true; if (sub && !c.brk) over = true; if (!c.brk && c.geo == 2 && nb) for (unsigned k = 0; k < refs; k++) used[rb[k][nb - 1]] = true; if (!c.brk && c.geo == 2 && loop && refs) used[1] = true; }
    size_t n = 0; good(mode->GetBreakCount(n), "count"); size_t at = 0; for (int b = 1; b < 4; b++) if (used[b]) { size_t id = 99; good(mode->GetBreakAt(at++, id), "break at"); ASSERT(id == (size_t)b, "break"); } ASSERT(n == at, "break count");
    for (int b = 1; b < 4; b++) { size_t fp = 99; good(mode->GetFootprintForBreak(b, fp), "footprint"); int lo = 1 << 30, hi = -1; auto add = [&](int a) { lo = sym_ite(a < lo, a, lo); hi = sym_ite(a > hi, a, hi); }; bool any = false;
      for (auto& c : ch) { if (c.geo < 2 && c.brk == b) for (unsigned i = 0; i < c.bytes; i++) { add(c.a[i]); any = true; } }
      for (unsigned k = 0; k < refs; k++) { unsigned idx = b == 2 && inSub[1] ? 1 : 0; if (inSub[b] && idx < nb) for (auto& c : ch) if ((c.geo == 2 || c.geo == 3) && c.brk == b) for (unsigned i = 0; i < c.bytes; i++) { add(c.a[i] + ra[k][idx] - 1); any = true; }
        if (over && nb && rb[k][nb - 1] == b) for (auto& c : ch) if ((c.geo == 2 || c.geo == 3) && !c.brk) for (unsigned i = 0; i < c.bytes; i++) { add(c.a[i] + ra[k][nb - 1] - 1); any = true; } }
      if (!used[b] || !any) ASSERT(fp == 0, "footprint without addresses"); else ASSERT(fp == (size_t)(hi - lo + 1), "footprint"); }
    REACH("footprint"); }
  PART(2) { // the range of a function ends before the next one starts
    STransformMatrix m = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0}; IGdtfGeometryPtr g; f->CreateGeometry(eGdtfGeometry, "Base", nullptr, m, &g); IGdtfAttributePtr at; f->CreateAttribute("Dimmer", "D", &at); IGdtfDmxModePtr mode; f->CreateDmxMode("Mode", &mode); IGdtfDmxChannelPtr c; mode->CreateDmxChannel(g, &c); unsigned bytes = symChoose("bytes", 5); if (bytes) c->SetCoarse(1); if (bytes > 1) c->SetFine(2); if (bytes > 2) c->SetUltra(3); if (bytes > 3) c->SetUber(4);
    DmxValue max = bytes == 0 || bytes == 2 ? 0xFFFF : bytes == 1 ? 0xFF : bytes == 3 ? 0xFFFFFF : 0xFFFFFFFFull; IGdtfDmxLogicalChannelPtr l; c->CreateLogicalChannel(at, &l); unsigned n = symChoose("functions", 4) + 1; DmxValue s[5]; IGdtfDmxChannelFunctionPtr fn[5];
    for (unsigned k = 0; k < n; k++) { s[k] = k ? (DmxValue)symU32("start") : 0; ASSUME(s[k] <= max); char nm[2] = {(char)('A' + k), 0}; good(l->CreateDmxFunction(nm, &fn[k]), "function"); good(fn[k]->SetStartAddress(s[k]), "start"); EGdtfChannelBitResolution r; good(fn[k]->GetResolution(r), "resolution"); ASSERT((unsigned)r == (bytes ? bytes : 2), "resolution"); }
    for (unsigned k = 0; k < n; k++) { DmxValue a = 99, e = 99; good(fn[k]->GetStartAddress(a), "start"); good(fn[k]->GetEndAddress(e), "end"); ASSERT(a == s[k], "function start"); DmxValue want = k + 1 < n ? sym_ite(s[k + 1] > s[k], s[k + 1] - 1, max) : max; ASSERT(e == want, "function end"); IGdtfDmxChannelSetPtr cs; if (sym_param("sets", 1) && k == 0) { good(fn[k]->CreateDmxChannelSet("S", 0, (DmxValue)-1, &cs), "set"); good(cs->GetDmxEndAddress(e), "set end"); ASSERT(e == want, "end of the last channel set"); } IGdtfDmxLogicalChannelPtr pl; good(fn[k]->GetParentLogicalChannel(&pl), "parent"); IGdtfDmxChannelPtr pc; good(pl->GetParentDmxChannel(&pc), "parent channel"); ASSERT(std::string(pl->GetName()) == "Dimmer" && std::string(pc->GetName()) == "Base_Dimmer", "parents"); }
    REACH("ranges"); }
}

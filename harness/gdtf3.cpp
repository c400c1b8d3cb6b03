// Fixture file write -> read: DMX modes with their channels, logical channels, functions, channel sets, mode masters, relations and macros.
#include "gdtf.h"
typedef unsigned long long ull;
#define SAMELINK(P, o, get, on, want) do { P x_; bool h_ = VCOM_SUCCEEDED(o->get(&x_)); ASSERT(h_ == (on), "has " #get); if (h_) ASSERT(std::string(x_->GetName()) == (want), #get); } while (0)
struct Base { IGdtfGeometryPtr geo, head; IGdtfAttributePtr at[3]; };
static const char* const kAt[] = {"Dimmer", "Pan", "Tilt"};
static void base(Walk& w, IGdtfFixturePtr& f, Base& b) { STransformMatrix m = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0};
  if (!w.phase) { good(f->CreateGeometry(eGdtfGeometry, "Base", nullptr, m, &b.geo), "geo"); good(b.geo->CreateGeometry(eGdtfGeometry, "Head", nullptr, m, &b.head), "geo"); IGdtfFeatureGroupPtr g; f->CreateFeatureGroup("Control", "C", &g); IGdtfFeaturePtr t; g->CreateFeature("Control", &t); for (int k = 0; k < 3; k++) { good(f->CreateAttribute(kAt[k], kAt[k], &b.at[k]), "attribute"); b.at[k]->SetFeature(t); } }
  else { good(f->GetGeometryAt(0, &b.geo), "geo"); good(b.geo->GetInternalGeometryAt(0, &b.head), "geo"); for (int k = 0; k < 3; k++) good(f->GetAttributeAt(k, &b.at[k]), "attribute"); } }
// a DMX value of a channel of n bytes: arbitrary in the lowest byte
static DmxValue newD(Walk& w, unsigned n, const char* nm) { DmxValue v = 3 + w.fields * 7; if (n > 1) v |= 0x1200; if (n > 2) v |= 0x340000; if (n > 3) v |= 0x56000000; if (w.fields++ == w.focus) v = (v & ~(DmxValue)255) | symU8(nm); w.num.push_back(v); return v; }
#define DMX(o, N, n) do { if (!w.phase) good(o->Set##N(newD(w, n, #N)), #N); else { DmxValue g_ = 0; good(o->Get##N(g_), #N); w.same(g_, #N); } } while (0)
static void channel(Walk& w, IGdtfDmxModePtr& mode, size_t at, IGdtfGeometryPtr& g, const char* gname, unsigned bytes, IGdtfDmxChannelPtr& c) {
  if (!w.phase) good(mode->CreateDmxChannel(g, &c), "create channel"); else { good(mode->GetDmxChannelAt(at, &c), "get channel"); SAMELINK(IGdtfGeometryPtr, c, GetGeometry, true, gname); }
  if (!w.phase) { if (bytes) good(c->SetCoarse(at * 10 + 1), "coarse"); if (bytes > 1) good(c->SetFine(at * 10 + 2), "fine"); if (bytes > 2) good(c->SetUltra(at * 10 + 3), "ultra"); if (bytes > 3) good(c->SetUber(at * 10 + 4), "uber"); }
  else { Sint32 a = -1, b = -1, d = -1, e = -1; good(c->GetCoarse(a), "coarse"); good(c->GetFine(b), "fine"); good(c->GetUltra(d), "ultra"); good(c->GetUber(e), "uber"); int z = (int)at * 10; ASSERT(a == (bytes ? z + 1 : 0) && b == (bytes > 1 ? z + 2 : 0) && d == (bytes > 2 ? z + 3 : 0) && e == (bytes > 3 ? z + 4 : 0), "channel addresses"); EGdtfChannelBitResolution r; good(c->GetResolution(r), "resolution"); ASSERT((unsigned)r == (bytes ? bytes : 2), "resolution"); } }
static void logical(Walk& w, IGdtfDmxChannelPtr& c, size_t at, IGdtfAttributePtr& a, const char* aname, IGdtfDmxLogicalChannelPtr& l) { if (!w.phase) good(c->CreateLogicalChannel(a, &l), "create logical"); else { good(c->GetLogicalChannelAt(at, &l), "get logical"); SAMELINK(IGdtfAttributePtr, l, GetAttribute, true, aname); } }
static void function(Walk& w, IGdtfDmxLogicalChannelPtr& l, size_t at, IGdtfAttributePtr& a, const char* aname, const char* name, DmxValue start, IGdtfDmxChannelFunctionPtr& f) { if (!w.phase) { good(l->CreateDmxFunction(name, &f), "create function"); good(f->SetAttribute(a), "attribute"); good(f->SetStartAddress(start), "start"); } else { good(l->GetDmxFunctionAt(at, &f), "get function"); ASSERT(std::string(f->GetName()) == name, "function name"); SAMELINK(IGdtfAttributePtr, f, GetAttribute, true, aname); DmxValue s = 99; good(f->GetStartAddress(s), "start"); ASSERT(s == start, "function start"); } }
static void endIs(Walk& w, IGdtfDmxChannelFunctionPtr& f, DmxValue e) { if (w.phase) { DmxValue g = 1; good(f->GetEndAddress(g), "end"); ASSERT(g == e, "function end"); } }
extern "C" void sym_main() {
  Walk w; IGdtfFixturePtr f; newFixture(f);
  PART(0) { vary(w, 6, 12); // one mode with everything that stands in a channel, a logical channel and a function
    auto walk = [&](IGdtfFixturePtr& f) { Base b; base(w, f, b); unsigned bytes = w.pick % 5;
      IGdtfWheelPtr wheel; IGdtfPhysicalEmitterPtr em; IGdtfFilterPtr fi; IGdtfColorSpacePtr cs; IGdtfGamutPtr gm; IGdtfDMXProfilePtr dp; IGdtfColorSpacePtr dcs;
      if (!w.phase) { good(f->CreateWheel("Wheel", &wheel), "wheel"); CieColor c; c.fx = 0.1; c.fy = 0.2; c.f_Y = 0.3; good(f->CreateEmitter("Emitter", c, &em), "emitter"); good(f->CreateFilter("Filter", c, &fi), "filter"); good(f->CreateAdditionalColorSpace("Space", EGdtfColorSpace::Custom, &cs), "space"); good(f->CreateGamut("Gamut", c, &gm), "gamut"); good(f->CreateDMXProfile(&dp), "profile"); good(dp->SetName("Profile"), "profile"); }
      IGdtfDmxModePtr mode[2]; for (int k = 0; k < 2; k++) { if (!w.phase) good(f->CreateDmxMode(k ? "Mode B" : "Mode A", &mode[k]), "mode"); else good(f->GetDmxModeAt(k, &mode[k]), "mode"); NAME(mode[k], k ? "Mode B" : "Mode A"); TEXT(mode[k], Description); if (!w.phase) good(mode[k]->SetGeometry(b.geo), "mode geometry"); else SAMELINK(IGdtfGeometryPtr, mode[k], GetGeometry, true, "Base"); }
      COUNT(f, DmxMode, 2); COUNT(mode[0], DmxChannel, 0); COUNT(mode[1], DmxChannel, 2);
      IGdtfDmxChannelPtr c[2]; IGdtfDmxLogicalChannelPtr l[3]; IGdtfDmxChannelFunctionPtr fn[4];
      channel(w, mode[1], 0, b.head, "Head", bytes, c[0]); channel(w, mode[1], 1, b.geo, "Base", 1 + (bytes + 1) % 4, c[1]); unsigned n0 = bytes ? bytes : 2, n1 = 1 + (bytes + 1) % 4;
      if (w.pick & 1) { DMX(c[0], Highlight, n0); if (w.phase) { bool h = false; c[0]->HasHighlight(h); ASSERT(h, "has highlight"); } } else if (w.phase) { bool h = true; c[0]->HasHighlight(h); ASSERT(!h, "has no highlight"); }
      { Sint32 br = w.pick == 2 ? 0 : w.pick == 3 ? 7 : 1; if (!w.phase) good(c[1]->SetDmxBreak(br), "break"); else { Sint32 g = -1; good(c[1]->GetDmxBreak(g), "break"); ASSERT(g == br, "break"); } }
      logical(w, c[0], 0, b.at[0], "Dimmer", l[0]); logical(w, c[0], 1, b.at[1], "Pan", l[1]); logical(w, c[1], 0, b.at[2], "Tilt", l[2]); COUNT(c[0], LogicalChannel, 2); COUNT(c[1], LogicalChannel, 1);
      for (int k = 0; k < 3; k++) { ENUM(l[k], DmxSnap, EGdtfDmxSnap, 4); ENUM(l[k], DmxMaster, EGdtfDmxMaster, 3); F64(l[k], MoveInBlackFrames); F64(l[k], DmxChangeTimeLimit); }
      function(w, l[0], 0, b.at[0], "Dimmer", "First", 0, fn[0]); function(w, l[0], 1, b.at[1], "Pan", "Second", 100, fn[1]); function(w, l[1], 0, b.at[1], "Pan", "Third", 0, fn[2]); function(w, l[2], 0, b.at[2], "Tilt", "Fourth", 0, fn[3]); COUNT(l[0], DmxFunction, 2); COUNT(l[1], DmxFunction, 1);
      { DmxValue m0 = n0 == 4 ? 0xFFFFFFFFull : (1ull << n0 * 8) - 1, m1 = n1 == 4 ? 0xFFFFFFFFull : (1ull << n1 * 8) - 1; endIs(w, fn[0], 99); endIs(w, fn[1], m0); endIs(w, fn[2], m0); endIs(w, fn[3], m1); }
      int init = w.pick % 3; if (!w.phase) good(c[0]->SetInitialFunction(fn[init]), "initial"), good(c[1]->SetInitialFunction(fn[3]), "initial"); else { SAMELINK(IGdtfDmxChannelFunctionPtr, c[0], GetInitialFunction, true, init == 0 ? "First" : init == 1 ? "Second" : "Third"); SAMELINK(IGdtfDmxChannelFunctionPtr, c[1], GetInitialFunction, true, "Fourth"); }
      for (int k = 0; k < 4; k++) { unsigned n = k < 3 ? n0 : n1; DMX(fn[k], DefaultValue, n); F64(fn[k], PhysicalStart); F64(fn[k], PhysicalEnd); F64(fn[k], RealFade); F64(fn[k], RealAcceleration); F64(fn[k], Min); F64(fn[k], Max); if (k < 2) { TEXT(fn[k], CustomName); TEXT(fn[k], OriginalAttribute); }
        bool on = (w.pick + k) & 1; if (!w.phase && on) { good(fn[k]->SetOnWheel(wheel), "wheel"); good(fn[k]->SetFilter(fi), "filter"); good(fn[k]->SetGamut(gm), "gamut"); } if (!w.phase && !on) { good(fn[k]->SetEmitter(em), "emitter"); good(fn[k]->SetColorSpace(cs), "space"); good(fn[k]->SetDMXProfile(dp), "profile"); }
        if (w.phase) { SAMELINK(IGdtfWheelPtr, fn[k], GetOnWheel, on, "Wheel"); SAMELINK(IGdtfFilterPtr, fn[k], GetFilter, on, "Filter"); SAMELINK(IGdtfGamutPtr, fn[k], GetGamut, on, "Gamut"); SAMELINK(IGdtfPhysicalEmitterPtr, fn[k], GetEmitter, !on, "Emitter"); SAMELINK(IGdtfColorSpacePtr, fn[k], GetColorSpace, !on, "Space"); SAMELINK(IGdtfDMXProfilePtr, fn[k], GetDMXProfile, !on, "Profile"); } } };
    roundTrip(w, f, walk); REACH("channels"); }
  PART(1) { vary(w, 8, 10); // channel sets, sub channel sets, mode masters
    auto walk = [&](IGdtfFixturePtr& f) { Base b; base(w, f, b); unsigned bytes = 1 + w.pick % 4;
      IGdtfSubPhysicalUnitPtr su[2]; IGdtfDMXProfilePtr dp; if (!w.phase) { good(b.at[0]->CreateSubPhysicalUnit(EGdtfSubPhysicalUnitType::Amplitude, &su[0]), "unit"); good(b.at[0]->CreateSubPhysicalUnit(EGdtfSubPhysicalUnitType::Duration, &su[1]), "unit"); good(f->CreateDMXProfile(&dp), "profile"); good(dp->SetName("Profile"), "profile"); }
      IGdtfDmxModePtr mode; if (!w.phase) { good(f->CreateDmxMode("Mode", &mode), "mode"); mode->SetGeometry(b.geo); } else good(f->GetDmxModeAt(0, &mode), "mode");
      IGdtfDmxChannelPtr c[3]; IGdtfDmxLogicalChannelPtr l[3]; IGdtfDmxChannelFunctionPtr fn[4]; DmxValue max = bytes == 4 ? 0xFFFFFFFFull : (1ull << bytes * 8) - 1, half = max / 2 + 1;
      channel(w, mode, 0, b.head, "Head", bytes, c[0]); channel(w, mode, 1, b.geo, "Base", 2, c[1]); channel(w, mode, 2, b.geo, "Base", 1, c[2]);
      logical(w, c[0], 0, b.at[0], "Dimmer", l[0]); logical(w, c[1], 0, b.at[1], "Pan", l[1]); logical(w, c[2], 0, b.at[2], "Tilt", l[2]);
      function(w, l[0], 0, b.at[0], "Dimmer", "A", 0, fn[0]); function(w, l[0], 1, b.at[0], "Dimmer", "B", half, fn[1]); function(w, l[1], 0, b.at[1], "Pan", "C", 0, fn[2]); function(w, l[2], 0, b.at[2], "Tilt", "D", 0, fn[3]);
      // the sets cover the whole function, with and without own physical values
      static const char* const sn[] = {"Open", "", "Closed"}; for (int k = 0; k < 3; k++) { IGdtfDmxChannelSetPtr s; DmxValue from = k == 0 ? 0 : k == 1 ? half / 4 : half / 2, to = k == 0 ? half / 4 - 1 : k == 1 ? half / 2 - 1 : half - 1; if (!w.phase) good(fn[0]->CreateDmxChannelSet(sn[k], from, to, &s), "set"); else good(fn[0]->GetDmxChannelSetAt(k, &s), "set"); NAME(s, sn[k]);
        if (w.phase) { DmxValue g = 1; good(s->GetDmxStartAddress(g), "set start"); ASSERT(g == from, "set start"); good(s->GetDmxEndAddress(g), "set end"); ASSERT(g == to, "set end"); } bool own = (w.pick + k) % 2; if (own) { F64(s, PhysicalStart); F64(s, PhysicalEnd); } if (w.phase) { bool p = own; good(s->GetUsePhysicalFromParent(p), "from parent"); ASSERT(p == !own, "physical values from the function"); }
        UINT(s, WheelSlot, Sint32); } COUNT(fn[0], DmxChannelSet, 3); COUNT(fn[1], DmxChannelSet, 0);
      static const char* const bn[] = {"Sub A", "Sub B"}; for (int k = 0; k < 2; k++) { IGdtfDmxSubChannelSetPtr s; if (!w.phase) good(fn[1]->CreateDmxSubChannelSet(bn[k], su[(w.pick + k) % 2], &s), "sub set"); else { good(fn[1]->GetDmxSubChannelSetAt(k, &s), "sub set"); IGdtfSubPhysicalUnitPtr u; good(s->GetSubPhysicalUnit(&u), "sub unit"); EGdtfSubPhysicalUnitType t; good(u->GetType(t), "type"); ASSERT(t == ((w.pick + k) % 2 ? EGdtfSubPhysicalUnitType::Duration : EGdtfSubPhysicalUnitType::Amplitude), "sub physical unit"); }
        NAME(s, bn[k]); F64(s, PhysicalFrom); F64(s, PhysicalTo); bool on = (w.pick + k) & 1; if (!w.phase && on) good(s->SetDMXProfile(dp), "sub profile"); if (w.phase) SAMELINK(IGdtfDMXProfilePtr, s, GetDMXProfile, on, "Profile"); } COUNT(fn[1], DmxSubChannelSet, 2);
      // mode masters: a channel or a function, with a range
      for (int k = 0; k < 2; k++) { IGdtfDmxChannelFunctionPtr& x = fn[k]; bool byChannel = (w.pick >> 1) + k & 1; DmxValue from, to; if (!w.phase) { from = newD(w, byChannel ? 2 : 1, "from"); to = newD(w, byChannel ? 2 : 1, "to"); if (byChannel) good(x->SetModeMasterChannel(c[1], from, to), "master"); else good(x->SetModeMasterFunction(fn[3], from, to), "master"); }
        else { DmxValue a = 1, z = 1; IGdtfDmxChannelPtr mc; IGdtfDmxChannelFunctionPtr mf; bool hc = VCOM_SUCCEEDED(x->GetModeMasterChannel(&mc, a, z)); bool hf = VCOM_SUCCEEDED(x->GetModeMasterFunction(&mf, a, z)); ASSERT(hc == byChannel && hf == !byChannel, "mode master kind"); if (hc) ASSERT(std::string(mc->GetName()) == "Base_Pan", "mode master channel"); else ASSERT(std::string(mf->GetName()) == "D", "mode master function"); w.same(a, "mode master from"); w.same(z, "mode master to"); } } };
    roundTrip(w, f, walk); REACH("sets"); }
  PART(2) { // the channel sets of a function are written so that they cover its range without gap and overlap
    unsigned bytes = symChoose("bytes", sym_param("bytes", 2)) + 1; unsigned n = symChoose("sets", sym_param("sets", 2)) + 1; bool second = symBool("second"); DmxValue hi = bytes == 1 ? 0 : bytes == 2 ? 0x4100 : 0x410000;
    DmxValue next = hi | 200, s[3], e[3]; DmxValue max = bytes == 1 ? 255 : bytes == 2 ? 65535 : 0xFFFFFF, end = second ? next - 1 : max, prev = 0;
    for (unsigned k = 0; k < n; k++) { bool h = k == n - 1 || !hi; s[k] = (h ? hi : 0) | symU8("start"); e[k] = (k == n - 1 ? hi : 0) | symU8("end"); ASSUME(sym_and(s[k] <= e[k], e[k] <= end)); if (k) ASSUME(s[k] > prev); prev = e[k]; }
    unsigned order = symChoose("order", n);
    Base b; base(w, f, b); IGdtfDmxModePtr mode; f->CreateDmxMode("Mode", &mode); mode->SetGeometry(b.geo); IGdtfDmxChannelPtr c; IGdtfDmxLogicalChannelPtr l; IGdtfDmxChannelFunctionPtr fn, fn2;
    channel(w, mode, 0, b.head, "Head", bytes, c); logical(w, c, 0, b.at[0], "Dimmer", l); function(w, l, 0, b.at[0], "Dimmer", "A", 0, fn); if (second) function(w, l, 1, b.at[0], "Dimmer", "B", next, fn2);
    for (unsigned j = 0; j < n; j++) { unsigned k = (j + order) % n; IGdtfDmxChannelSetPtr x; char nm[3] = {'S', (char)('0' + k), 0}; good(fn->CreateDmxChannelSet(nm, s[k], e[k], &x), "set"); }
    FakeZip* z = writeZip(f); ASSERT(z->files.size() == 1, "written"); IGdtfFixturePtr g; readZip(g, z); ASSERT(errorsOf(g) == 0, "errors reported for a written file");
    IGdtfFixturePtr* fs[] = {std::addressof(f), std::addressof(g)};
    for (int r = 0; r < 2; r++) { IGdtfDmxModePtr m2; (*fs[r])->GetDmxModeAt(0, &m2); IGdtfDmxChannelPtr c2; m2->GetDmxChannelAt(0, &c2); IGdtfDmxLogicalChannelPtr l2; c2->GetLogicalChannelAt(0, &l2); IGdtfDmxChannelFunctionPtr f2; l2->GetDmxFunctionAt(0, &f2); size_t cnt = 0; good(f2->GetDmxChannelSetCount(cnt), "count"); DmxValue at = 0; unsigned named = 0; bool lastGap = false;
      for (size_t k = 0; k < cnt; k++) { IGdtfDmxChannelSetPtr x; good(f2->GetDmxChannelSetAt(k, &x), "set"); DmxValue a = 0, y = 0; good(x->GetDmxStartAddress(a), "start"); good(x->GetDmxEndAddress(y), "end"); ASSERT(a == at, "sets follow each other without gap"); ASSERT(sym_and(a <= y, y <= end), "set range"); std::string nm = str(x->GetName());
        if (nm.empty()) { ASSERT(!lastGap, "gaps are not split"); lastGap = true; } else { lastGap = false; ASSERT(named < n && nm.size() == 2 && nm[1] == (char)('0' + named), "named sets in order"); ASSERT(sym_and(a == s[named], y == e[named]), "range of a named set"); named++; } at = y + 1; }
      ASSERT(named == n, "all sets kept"); ASSERT(at == end + 1, "the sets cover the function"); }
    REACH("cover"); }
  PART(3) { vary(w, 4, 8); // relations and macros
    auto walk = [&](IGdtfFixturePtr& f) { Base b; base(w, f, b); unsigned bytes = 1 + w.pick % 4; IGdtfDmxModePtr mode; if (!w.phase) { good(f->CreateDmxMode("Mode", &mode), "mode"); mode->SetGeometry(b.geo); } else good(f->GetDmxModeAt(0, &mode), "mode");
      IGdtfDmxChannelPtr c[2]; IGdtfDmxLogicalChannelPtr l[2]; IGdtfDmxChannelFunctionPtr fn[3]; channel(w, mode, 0, b.head, "Head", bytes, c[0]); channel(w, mode, 1, b.geo, "Base", 2, c[1]); logical(w, c[0], 0, b.at[0], "Dimmer", l[0]); logical(w, c[1], 0, b.at[1], "Pan", l[1]); function(w, l[0], 0, b.at[0], "Dimmer", "A", 0, fn[0]); function(w, l[0], 1, b.at[0], "Dimmer", "B", 100, fn[1]); function(w, l[1], 0, b.at[1], "Pan", "C", 0, fn[2]);
      for (int k = 0; k < 3; k++) { IGdtfDmxRelationPtr r; unsigned v = w.pick + k; EGdtfDmxRelationType t = v & 1 ? eGdtfDmxRelationType_Override : eGdtfDmxRelationType_Multiply; const char* nm = k == 0 ? "Rel A" : k == 1 ? "Rel B" : "Rel C"; if (!w.phase) good(mode->CreateDmxRelation(nm, t, c[v & 1], fn[v % 3], &r), "relation"); else { good(mode->GetDmxRelationAt(k, &r), "relation"); EGdtfDmxRelationType g; good(r->GetRelationType(g), "type"); ASSERT(g == t, "relation type"); IGdtfDmxChannelPtr mc; good(r->GetMasterChannel(&mc), "master"); ASSERT(std::string(mc->GetName()) == (v & 1 ? "Base_Pan" : "Head_Dimmer"), "relation master"); IGdtfDmxChannelFunctionPtr sf; good(r->GetSlaveChannel(&sf), "slave"); DmxValue st = 1; sf->GetStartAddress(st); ASSERT(std::string(sf->GetName()) == (v % 3 == 0 ? "A" : v % 3 == 1 ? "B" : "C") && st == (v % 3 == 1 ? 100 : 0), "relation slave"); } NAME(r, nm); } COUNT(mode, DmxRelation, 3);
      for (int k = 0; k < 2; k++) { IGdtfMacroPtr m; const char* nm = k ? "Macro B" : "Macro A"; OBJ(IGdtfMacroPtr, mm, mode->CreateDmxMacro(nm, &mm), mode->GetDmxMacroAt(k, &mm)); NAME(mm, nm); unsigned v = w.pick + k; if (!w.phase) { if (v & 1) good(mm->SetChannelFunction(fn[v % 3]), "macro function"); } else { IGdtfDmxChannelFunctionPtr x; bool h = VCOM_SUCCEEDED(mm->GetChannelFunction(&x)) && *x->GetName(); ASSERT(h == !!(v & 1), "has macro function"); if (h) ASSERT(std::string(x->GetName()) == (v % 3 == 0 ? "A" : v % 3 == 1 ? "B" : "C"), "macro function"); }
        bool hasD = v != 1, hasV = v != 2; IGdtfMacroDMXPtr d; IGdtfMacroVisualPtr vi; if (hasD) { if (!w.phase) good(mm->CreateMacroDMX(&d), "macro dmx"); else good(mm->GetMacroDMX(&d), "macro dmx");
          for (int j = 0; j < 2; j++) { IGdtfMacroDMXStepPtr st; if (!w.phase) { double du = w.newF("duration"); good(d->CreateStep(du, &st), "step"); } else { good(d->GetStepAt(j, &st), "step"); double g = 0; good(st->GetDuration(g), "duration"); w.sameF(g, "step duration"); } for (int i = 0; i < 2; i++) { unsigned u = (v + i) & 1; IGdtfMacroDMXValuePtr va; if (!w.phase) { DmxValue x = newD(w, u ? 2 : bytes, "value"); good(st->CreateDMXValue(x, c[u], &va), "value"); } else { good(st->GetDMXValueAt(i, &va), "value"); DmxValue g = 1; good(va->GetDmxValue(g), "value"); w.same(g, "macro dmx value"); SAMELINK(IGdtfDmxChannelPtr, va, GetDmxChannel, true, u ? "Base_Pan" : "Head_Dimmer"); } } COUNT(st, DMXValue, 2); } COUNT(d, Step, 2); }
        if (hasV) { if (!w.phase) good(mm->CreateMacroVisual(&vi), "macro visual"); else good(mm->GetMacroVisual(&vi), "macro visual");
          for (int j = 0; j < 2; j++) { OBJ(IGdtfMacroVisualStepPtr, st, vi->CreateVisualStep(&st), vi->GetVisualStepAt(j, &st)); F64(st, Duration); F64(st, Fade); F64(st, Delay); for (int i = 0; i < 2; i++) { unsigned u = (v + i) & 1; IGdtfMacroVisualValuePtr va; if (!w.phase) { DmxValue x = newD(w, u ? 2 : bytes, "value"); good(st->CreateVisualValue(x, fn[u ? 2 : 0], &va), "value"); } else { good(st->GetVisualValueAt(i, &va), "value"); DmxValue g = 1; good(va->GetDmxValue(g), "value"); w.same(g, "macro visual value"); SAMELINK(IGdtfDmxChannelFunctionPtr, va, GetDmxChannel, true, u ? "C" : "A"); } } COUNT(st, VisualValue, 2); } COUNT(vi, VisualStep, 2); } } COUNT(mode, DmxMacro, 2); };
    roundTrip(w, f, walk); REACH("macros"); }
}

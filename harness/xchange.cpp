// MVR-xchange: the messages stations send each other, over the wire and back, and the same with hostile input
#include "common.h"
#include <unistd.h>
#include <pwd.h>
#include "mvrxchange/mvrxchange_message.h"
using namespace MVRxchangeNetwork;
using X = IMVRxchangeService; using T = X::MVRxchangeMessageType; using Message = X::IMVRxchangeMessage;
static const T kTypes[] = {T::MVR_JOIN, T::MVR_JOIN_RET, T::MVR_LEAVE, T::MVR_LEAVE_RET, T::MVR_COMMIT, T::MVR_COMMIT_RET, T::MVR_REQUEST, T::MVR_REQUEST_RET};
static const char* kNames[] = {"MVR_JOIN", "MVR_JOIN_RET", "MVR_LEAVE", "MVR_LEAVE_RET", "MVR_COMMIT", "MVR_COMMIT_RET", "MVR_REQUEST", "MVR_REQUEST_RET"};
static std::string stext(const MVRxchangeString& s) { size_t n = 0; while (n < 1024 && s.fBuffer[n]) n++; ASSERT(n < 1024, "text_terminated"); return std::string(s.fBuffer, n); }
static int same(const MVRxchangeString& a, const MVRxchangeString& b) { return eqs(stext(a), stext(b)); }
static int same(const MvrUUID& a, const MvrUUID& b) { return sym_and(sym_and(a.a == b.a, a.b == b.b), sym_and(a.c == b.c, a.d == b.d)); }
static int same(const std::vector<MvrUUID>& a, const std::vector<MvrUUID>& b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t k = 0; k < a.size(); k++) r = sym_and(r, same(a[k], b[k])); return r; }
// fills a message; the field number `focus` takes an arbitrary value
struct Fill {
  int focus, n = 0; bool wild; Fill(int f, bool w = false) : focus(f), wild(w) {}
  bool here() { return n++ == focus; }
  void text(MVRxchangeString& s) {
    if (!here()) { std::string v = "Text " + std::to_string(n) + " \"/\\"; s = v.c_str(); return; }
    REACH("text"); std::string v;
    switch (symChoose("text", wild ? 9 : 7)) {
      case 0: break;
      case 1: v = "a?"; v[1] = symRange("ch", 1, 127); break;
      case 2: v = "??b"; v[0] = "\\\"\n"[symChoose("first", 3)]; v[1] = symRange("ch", 1, 127); break;
      case 3: v = "x\xC3?y"; v[1] = "\xC2\xC3\xDF"[symChoose("lead", 3)]; v[2] = symRange("ch", 0x80, 0xBF); break;
      case 4: v = "\xE2\x80?"; v[0] = "\xE1\xE2\xEF"[symChoose("lead", 3)]; v[2] = symRange("ch", 0x80, 0xBF); break;
      case 5: v = "\xF0\x9F\x98?"; v[3] = symRange("ch", 0x80, 0xBF); break;
      case 6: v = std::string(symChoose("long", 2) ? 1023 : 1022, 'l'); break;
      case 7: v = "a?b"; v[1] = symRange("ch", 1, 255); break;
      case 8: v = std::string(1022, 'l') + "\xC3\xA4"; break; // cut in the middle of a character
    }
    s = v.c_str();
  }
  uint64_t number(int bits) {
    if (!here()) return n;
    REACH("number"); uint64_t max = bits == 32 ? 0xFFFFFFFFull : ~0ull;
    switch (symChoose("number", 6)) { case 0: return symRange("value", 0, 109); case 1: return max - (uint64_t)symRange("value", 0, 5); case 2: return max / 2 + (uint64_t)symRange("value", 0, 3); case 3: return bits == 32 ? 65536 : 0x100000000ull; case 4: return bits == 32 ? 16777217 : 9007199254740993ull; default: return 1000 + (uint64_t)symRange("value", 0, 20); }
  }
  MvrUUID uuid() {
    MvrUUID u(0x01234567 + n, 0x89ABCDEF, 0x0F1E2D3C, 0x4B5A6978); if (!here()) return u;
    REACH("uuid"); switch (symChoose("zero", 2)) { case 1: return MvrUUID(0, 0, 0, 0); }
    uint32_t* w[] = {&u.a, &u.b, &u.c, &u.d}; int p = symChoose("digit", 32); uint32_t d = symRange("value", 0, 15); uint32_t& x = *w[p / 8]; int s = p % 8 * 4; x = (x & ~(15u << s)) | d << s; return u;
  }
  int count() { if (!here()) return 1; REACH("count"); return symChoose("count", 3); }
  bool flag() { if (!here()) return true; REACH("flag"); return symBool("flag"); }
  void uuids(std::vector<MvrUUID>& v) { int c = count(); for (int k = 0; k < c; k++) v.push_back(uuid()); }
  void commit(X::MVR_COMMIT_MESSAGE& m) { text(m.FileName); text(m.Comment); m.VersionMajor = number(32); m.VersionMinor = number(32); m.FileSize = number(64); m.FileUUID = uuid(); m.StationUUID = uuid(); uuids(m.ForStationsUUID); }
  void join(X::MVR_JOIN_MESSAGE& m) { text(m.Provider); text(m.StationName); m.StationUUID = uuid(); m.VersionMajor = number(32); m.VersionMinor = number(32); int c = count(); m.Commits.resize(c); for (auto& e : m.Commits) commit(e); }
  void ret(Message& m) { m.RetIsOK = flag(); text(m.RetError); }
  void message(Message& m, T t) {
    m.Type = t;
    switch (t) {
      case T::MVR_JOIN: join(m.JOIN); break;
      case T::MVR_JOIN_RET: join(m.JOIN); ret(m); break;
      case T::MVR_LEAVE: m.LEAVE.FromStationUUID = uuid(); break;
      case T::MVR_COMMIT: commit(m.COMMIT); break;
      case T::MVR_REQUEST: m.REQUEST.FileUUID = uuid(); uuids(m.REQUEST.FromStationUUID); break;
      case T::MVR_REQUEST_RET: ret(m); m.RetIsOK = false; break;
      default: ret(m);
    }
  }
};
static int fieldsOf(T t) { static const int n[] = {15, 17, 1, 2, 9, 2, 3, 2}; for (int k = 0; k < 8; k++) if (kTypes[k] == t) return n[k]; return 0; }
static void sameCommit(const X::MVR_COMMIT_MESSAGE& a, const X::MVR_COMMIT_MESSAGE& b) {
  ASSERT(same(a.FileName, b.FileName), "commit_file"); ASSERT(same(a.Comment, b.Comment), "commit_comment"); ASSERT(a.VersionMajor == b.VersionMajor, "commit_major"); ASSERT(a.VersionMinor == b.VersionMinor, "commit_minor");
  ASSERT(a.FileSize == b.FileSize, "commit_size"); ASSERT(same(a.FileUUID, b.FileUUID), "commit_file_id"); ASSERT(same(a.StationUUID, b.StationUUID), "commit_station"); ASSERT(same(a.ForStationsUUID, b.ForStationsUUID), "commit_for");
}
static void sameJoin(const X::MVR_JOIN_MESSAGE& a, const X::MVR_JOIN_MESSAGE& b) {
  ASSERT(same(a.Provider, b.Provider), "join_provider"); ASSERT(same(a.StationName, b.StationName), "join_station"); ASSERT(same(a.StationUUID, b.StationUUID), "join_id"); ASSERT(a.VersionMajor == b.VersionMajor, "join_major"); ASSERT(a.VersionMinor == b.VersionMinor, "join_minor");
  ASSERT(a.Commits.size() == b.Commits.size(), "join_commits"); for (size_t k = 0; k < a.Commits.size() && k < b.Commits.size(); k++) sameCommit(a.Commits[k], b.Commits[k]);
}
static void sameRet(const Message& a, const Message& b) { ASSERT((int)a.RetIsOK == (int)b.RetIsOK, "ret_ok"); ASSERT(same(a.RetError, b.RetError), "ret_text"); }
static void sameMessage(const Message& a, const Message& b) {
  ASSERT(a.Type == b.Type, "type");
  switch (a.Type) {
    case T::MVR_JOIN: sameJoin(a.JOIN, b.JOIN); ASSERT(b.RetIsOK, "accepted"); break;
    case T::MVR_JOIN_RET: sameJoin(a.JOIN, b.JOIN); sameRet(a, b); break;
    case T::MVR_LEAVE: ASSERT(same(a.LEAVE.FromStationUUID, b.LEAVE.FromStationUUID), "leave_station"); ASSERT(b.RetIsOK, "accepted"); break;
    case T::MVR_COMMIT: sameCommit(a.COMMIT, b.COMMIT); ASSERT(b.RetIsOK, "accepted"); break;
    case T::MVR_REQUEST: ASSERT(same(a.REQUEST.FileUUID, b.REQUEST.FileUUID), "request_file"); ASSERT(same(a.REQUEST.FromStationUUID, b.REQUEST.FromStationUUID), "request_from"); ASSERT(b.RetIsOK, "accepted"); break;
    default: sameRet(a, b);
  }
}
static uint64_t be(const std::string& s, size_t at, int n) { uint64_t v = 0; for (int k = 0; k < n; k++) v = v << 8 | (uint8_t)s[at + k]; return v; }
static std::string put(uint64_t v, int n) { std::string r; while (n--) r += (char)(v >> 8 * n); return r; }
static std::string header(uint64_t len, uint32_t type, uint32_t flag = 778682, uint32_t version = 1, uint32_t number = 0, uint32_t count = 1) { return put(flag, 4) + put(version, 4) + put(number, 4) + put(count, 4) + put(type, 4) + put(len, 8); }
// what leaves the sender
static std::string wire(const Message& m) { MVRxchangePacket p; p.FromExternalMessage(m); return std::string(p.GetData(), p.GetLength()); }
static void checkHeader(const std::string& w, uint32_t type) {
  ASSERT(w.size() >= 28, "header_complete"); ASSERT(be(w, 0, 4) == 778682, "header_flag"); ASSERT(be(w, 4, 4) == 1, "header_version"); ASSERT(be(w, 8, 4) == 0, "header_number"); ASSERT(be(w, 12, 4) == 1, "header_count"); ASSERT(be(w, 16, 4) == type, "header_type"); ASSERT(be(w, 20, 8) == w.size() - 28, "header_length");
}
// what the other station makes of it, as its session receives it: header first, then the announced number of bytes
static bool receive(const std::string& w, Message& out) {
  MVRxchangePacket p; memcpy(p.GetData(), w.data(), 28); if (!p.DecodeHeader()) return false;
  ASSERT(p.GetBodyLength() == w.size() - 28, "announced_length"); memcpy(p.GetBody(), w.data() + 28, w.size() - 28); p.ToExternalMessage(out); return true;
}
static void message() {
  int t = symChoose("type", 8); int focus = symChoose("field", fieldsOf(kTypes[t])); Message a; Fill f(focus); f.message(a, kTypes[t]); if (sym_param("dbg", 0)) { printf("%s %d fields\n", kNames[t], f.n); }
  std::string w = wire(a); checkHeader(w, 0); ASSERT(w.find(std::string("\"Type\":\"") + kNames[t] + "\"") != std::string::npos, "type_named");
  Message b; ASSERT(receive(w, b), "received"); sameMessage(a, b); REACH("done");
}
static void wild() { // texts that are no proper text: still sent, still understood
  static const int which[] = {0, 1, 3, 4}; int t = which[symChoose("type", 4)]; static const int texts[4][2] = {{0, 1}, {0, 1}, {1, 1}, {0, 1}}; int k = 0; for (; which[k] != t;) k++;
  Message a; Fill f(texts[k][symChoose("field", 2)], true); f.message(a, kTypes[t]); std::string w = wire(a); checkHeader(w, 0); Message b; ASSERT(receive(w, b), "received"); ASSERT(b.Type == a.Type, "type"); stext(b.JOIN.Provider); REACH("done");
}
static void file() {
  static const int sizes[] = {1, 2, 7, 40, 5000}; int n = sizes[symChoose("size", 5)]; std::string bytes(n, 'b'); for (int k = 0; k < n; k++) bytes[k] = (char)(k * 7 + 1); int at[] = {0, n / 2, n - 1}; for (int k = 0; k < 3; k++) bytes[at[k]] = (char)symU8("byte");
  Message a; a.Type = T::MVR_REQUEST_RET; a.RetIsOK = true; int from = symChoose("from", 3);
  if (from != 1) { a.BufferToFile = new char[n]; memcpy(a.BufferToFile, bytes.data(), n); a.BufferToFileLength = n; }
  if (from) { std::string path = std::string(getpwuid(getuid())->pw_dir) + "/sent.mvr"; FILE* f = fopen(path.c_str(), "wb"); if (from == 2) fputs("something else", f); else fwrite(bytes.data(), 1, n, f); fclose(f); a.PathToFile = path.c_str(); }
  std::string w = wire(a); checkHeader(w, 1); ASSERT(w.size() == 28u + n, "size"); ASSERT(eqs(w.substr(28), bytes), "sent_bytes");
  Message b; ASSERT(receive(w, b), "received"); ASSERT(b.Type == T::MVR_REQUEST_RET && b.RetIsOK, "answer"); ASSERT(b.BufferToFile && b.BufferToFileLength == (size_t)n, "received_size"); ASSERT(eqs(std::string(b.BufferToFile, n), bytes), "received_bytes"); delete[] b.BufferToFile; REACH("done");
}
static void headers() { // any header: refused, or there is room for what it announces
  static const uint64_t base[] = {0, 30 * 1024 * 1024 - 30, 30 * 1024 * 1024, 0xFFFFFFF0ull, 1ull << 62, 0x7FFFFFFFFFFFFFF0ull, ~0ull - 63}; int b = symChoose("length", 7); uint64_t len = base[b]; if (b == 0) len += (uint64_t)symChoose("more", 40); if (b == 1) len += (uint64_t)symChoose("more", 5); if (b == 6) len += (uint64_t)symChoose("more", 64);
  uint32_t flag = 778682; if (symChoose("flag", 2)) flag = symU32("flag"); uint32_t version = symU32("version"), number = symU32("number"), count = symU32("count"), type = symU32("type"); { unsigned c = symChoose("kind", 3); if (c < 2) type = c; else ASSUME(type > 1); }
  std::string w = header(len, type, flag, version, number, count); MVRxchangePacket p; memcpy(p.GetData(), w.data(), 28); bool ok = p.DecodeHeader();
  if (!ok) { REACH("refused"); ASSERT(p.GetBodyLength() == 0, "nothing_expected"); return; } // the receiver reads nothing more
  ASSERT(flag == 778682, "flag"); ASSERT(p.GetBodyLength() == len, "length"); REACH("accepted"); if (len > 64ull * 1024 * 1024) return;
  char* d = p.GetBody(); if (len) { d[0] = '{'; d[len - 1] = '}'; d[len / 2] = 'x'; }
  if (len > 64) return;
  Message m; m.RetIsOK = true; p.ToExternalMessage(m); if (type > 1 || !len) ASSERT(!m.RetIsOK && m.Type == T::MVR_UNDEFINED, "unknown_refused"); delete[] m.BufferToFile;
}

// a JSON text written by somebody else
struct Key { const char* name; int kind; }; // 0 text, 1 uuid, 2 number, 3 flag, 4 list of uuids, 5 list of commits
static const Key kCommit[] = {{"FileName", 0}, {"Comment", 0}, {"FileSize", 6}, {"FileUUID", 1}, {"StationUUID", 1}, {"ForStationsUUID", 4}, {"verMajor", 6}, {"verMinor", 6}};
static const Key kJoin[] = {{"Provider", 0}, {"StationName", 0}, {"StationUUID", 1}, {"verMajor", 2}, {"verMinor", 2}, {"Commits", 5}, {"OK", 3}, {"Message", 0}};
static const Key kRet[] = {{"OK", 3}, {"Message", 0}};
static const Key kRequest[] = {{"FileUUID", 1}, {"FromStationUUID", 4}};
static const Key kLeave[] = {{"FromStationUUID", 1}};
static const Key* keysOf(int t, int& n) {
  switch (kTypes[t]) { case T::MVR_JOIN: n = 6; return kJoin; case T::MVR_JOIN_RET: n = 8; return kJoin; case T::MVR_LEAVE: n = 1; return kLeave; case T::MVR_COMMIT: n = 8; return kCommit; case T::MVR_REQUEST: n = 2; return kRequest; default: n = 2; return kRet; }
}
static std::string object(const Key* k, int n, int bad, const std::string& repl, const char* type, int innerBad, const std::string& inner);
static std::string value(int kind, int innerBad, const std::string& inner) {
  switch (kind) { case 0: return "\"A text\""; case 1: return "\"01234567-89AB-CDEF-0F1E-2D3C4B5A6978\""; case 3: return "true"; case 4: return "[\"01234567-89AB-CDEF-0F1E-2D3C4B5A6978\"" + (innerBad == -2 ? "," + inner : std::string()) + "]"; case 5: return "[" + object(kCommit, 8, innerBad, inner, "MVR_COMMIT", -1, "") + (innerBad == -2 ? "," + inner : std::string()) + "]"; default: return "7"; }
}
static std::string object(const Key* k, int n, int bad, const std::string& repl, const char* type, int innerBad, const std::string& inner) {
  std::string r = "{"; for (int i = 0; i < n; i++) { if (i == bad && repl.empty()) continue; r += std::string("\"") + k[i].name + "\":" + (i == bad ? repl : value(k[i].kind, innerBad, inner)) + ","; }
  return r + "\"Type\":" + (bad == -3 ? repl : std::string("\"") + type + "\"") + "}";
}
// what takes the place of a value; fits: whether it is a value of that kind
static std::string wrong(int kind, bool& fits) {
  fits = false; std::string one(1, '?');
  switch (symChoose("value", 14)) {
    case 0: return ""; case 1: return "null"; case 2: fits = kind == 3 || kind == 6; return "false"; case 3: fits = kind == 2 || kind == 6; one[0] = (char)symRange("digit", '0', '9'); return one; case 4: fits = kind == 2 || kind == 6; return "-1"; case 5: fits = kind == 2 || kind == 6; return "1e300"; case 6: fits = kind == 2 || kind == 6; return "18446744073709551616";
    case 7: fits = kind == 0; return "\"" + std::string(1024 + 1000 * symChoose("size", 2), 'q') + "\""; case 8: one[0] = (char)symRange("ch", 32, 127); ASSUME(one[0] != '"' && one[0] != '\\'); fits = kind == 0 || kind == 2 || kind == 3; return "\"" + one + "\""; case 9: fits = kind == 0 || kind == 3; return "\"\"";
    case 10: fits = kind == 4 || kind == 5; return "[]"; case 11: fits = kind == 4 || kind == 5; return "{}"; case 12: fits = true; return "\"01234567-89AB-CDEF-0F1E-2D3C4B5A6978\""; default: fits = true; return "[[[[]]],{\"a\":[1,2,\"x\"]}]";
  }
}
static void check(const std::string& body, int t, bool ok, bool bad) {
  Message m; m.RetIsOK = true; ASSERT(receive(header(body.size(), 0) + body, m), "received"); stext(m.RetError); stext(m.JOIN.Provider); stext(m.JOIN.StationName); stext(m.COMMIT.FileName); stext(m.COMMIT.Comment); for (auto& c : m.JOIN.Commits) { stext(c.FileName); stext(c.Comment); }
  ASSERT(!m.BufferToFile, "no_file"); if (bad) { REACH("refused"); ASSERT(!m.RetIsOK, "reported"); } if (ok) { REACH("accepted"); ASSERT(m.Type == kTypes[t], "type"); }
}
static void hostile() {
  int t = symChoose("type", 8), n; const Key* k = keysOf(t, n); int what = symChoose("what", n + 2); bool fits; std::string body;
  if (what < n) { std::string v = wrong(k[what].kind, fits); bool optional = kTypes[t] == T::MVR_LEAVE; body = object(k, n, what, v, kNames[t], -1, ""); check(body, t, false, !fits && !(v.empty() && optional) && !(v == "null" && k[what].kind >= 4) && !(v[0] == '"' && (k[what].kind == 4 || (kTypes[t] == T::MVR_COMMIT && k[what].kind == 1)))); }
  else if (what == n) { std::string v = wrong(7, fits); body = object(k, n, -3, v, "", -1, ""); if (v.empty()) body = "{}"; check(body, t, false, true); }
  else { // inside a list
    bool list = false; for (int i = 0; i < n; i++) list |= k[i].kind == 4 || k[i].kind == 5; if (!list) { check(object(k, n, -1, "", kNames[t], -1, ""), t, true, false); return; }
    int inner = -2; if (kTypes[t] == T::MVR_JOIN || kTypes[t] == T::MVR_JOIN_RET) { inner = symChoose("inner", 9); if (inner == 8) inner = -2; } std::string v = wrong(inner < 0 ? 0 : kCommit[inner].kind, fits); if (v.empty() && inner < 0) return; body = object(k, n, -1, "", kNames[t], inner, v); check(body, t, false, false);
  }
  REACH("done");
}
static void mutated() { // any byte of a message is another one, or the message ends early
  static const int which[] = {2, 3, 6}; int t = which[symChoose("type", 3)], n; const Key* k = keysOf(t, n); std::string b = object(k, n, -1, "", kNames[t], -1, ""); unsigned at = symChoose("at", (unsigned)b.size()); if (symChoose("cut", 2)) b = b.substr(0, at); else { uint8_t v = symU8("byte"); b[at] = (char)v; }
  Message m; m.RetIsOK = true; ASSERT(receive(header(b.size(), 0) + b, m), "received"); stext(m.RetError); ASSERT(!m.BufferToFile, "no_file"); ASSERT(!m.RetIsOK || m.Type == kTypes[t] , "accepted_type"); REACH("done");
}
static void bytes() { // any few bytes
  unsigned n = symChoose("length", sym_param("length", 3)) + 1; std::string b(n, 0); for (unsigned k = 0; k < n; k++) b[k] = (char)symU8("byte"); Message m; m.RetIsOK = true; ASSERT(receive(header(n, 0) + b, m), "received"); ASSERT(!m.RetIsOK && m.Type == T::MVR_UNDEFINED, "refused"); stext(m.RetError); REACH("done");
}
extern "C" void sym_main() { PART(0) message(); PART(1) wild(); PART(2) file(); PART(3) headers(); PART(4) hostile(); PART(5) mutated(); PART(6) bytes(); }

// announcing and finding services over a stand-in network: the sockets hand out packets and keep what is sent
#include "sym.h"
#include <string>
#include <vector>
#include <deque>
#include <atomic>
#include <cstring>
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <ifaddrs.h>
#include <netdb.h>
#include "mdns_cpp/mdns.hpp"
static inline int eqs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t k = 0; k < a.size(); k++) r = sym_and(r, a[k] == b[k]); return r; }
#define PART(n) if (sym_param("part", 0) == (n))
// ---- the network
struct Packet { std::string bytes; uint32_t from; };
static std::deque<Packet> gIn; static std::vector<std::string> gOut; static std::atomic<bool> gIdle{false}; static bool gOddPort = false; static std::string gFill(1, 0); static int gSock = 200; static bool gServing = false;
static sockaddr_in gIfAddr; static sockaddr_in6 gIfAddr6; static ifaddrs gIf, gIf6; static bool gSix = false;
extern "C" {
int socket(int, int, int) __THROW { return gSock++; } int setsockopt(int, int, int, const void*, socklen_t) __THROW { return 0; } int bind(int, const struct sockaddr*, socklen_t) __THROW { return 0; }
int getsockname(int, struct sockaddr* a, socklen_t* n) __THROW { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = gOddPort ? 0x1234 : htons(5353); memcpy(a, &s, sizeof s); *n = sizeof s; return 0; }
ssize_t sendto(int, const void* p, size_t n, int, const struct sockaddr*, socklen_t) { gOut.push_back(std::string((const char*)p, n)); return (ssize_t)n; }
ssize_t recvfrom(int, void* p, size_t cap, int, struct sockaddr* a, socklen_t* alen) {
  if (gIn.empty()) return -1; Packet k = gIn.front(); gIn.pop_front(); size_t n = k.bytes.size() < cap ? k.bytes.size() : cap; memcpy(p, k.bytes.data(), n);
  for (size_t i = n; i < cap; i++) ((char*)p)[i] = gFill[i % gFill.size()]; // what lies behind the packet was left by something else
  sockaddr_in s{}; s.sin_family = AF_INET; s.sin_addr.s_addr = k.from; memcpy(a, &s, sizeof s); *alen = sizeof s; return (ssize_t)n; }
int select(int n, fd_set* r, fd_set*, fd_set*, struct timeval*) { bool first = true; for (int f = 0; f < n; f++) if (FD_ISSET(f, r)) { if (!first || gIn.empty()) FD_CLR(f, r); first = false; } if (gIn.empty()) { gIdle = true; return gServing ? -1 : 0; } return 1; }
int getifaddrs(struct ifaddrs** out) __THROW { gIfAddr = sockaddr_in{}; gIfAddr.sin_family = AF_INET; gIfAddr.sin_addr.s_addr = htonl(0x0A000001); gIf = ifaddrs{}; gIf.ifa_name = (char*)"net0"; gIf.ifa_addr = (sockaddr*)&gIfAddr; if (gSix) { gIfAddr6 = sockaddr_in6{}; gIfAddr6.sin6_family = AF_INET6; for (int k = 0; k < 16; k++) gIfAddr6.sin6_addr.s6_addr[k] = (uint8_t)(0xFD - 7 * k); gIf6 = ifaddrs{}; gIf6.ifa_name = (char*)"net0"; gIf6.ifa_addr = (sockaddr*)&gIfAddr6; gIf.ifa_next = &gIf6; } *out = &gIf; return 0; }
void freeifaddrs(struct ifaddrs*) __THROW {}
static char* dec(char* o, unsigned v) { if (v >= 100) *o++ = (char)('0' + v / 100); if (v >= 10) *o++ = (char)('0' + v / 10 % 10); *o++ = (char)('0' + v % 10); return o; }
int getnameinfo(const struct sockaddr* a, socklen_t n, char* host, socklen_t, char* serv, socklen_t, int) {
  if (n < sizeof(sockaddr_in)) return -6; if (a->sa_family == AF_INET) { const uint8_t* b = (const uint8_t*)&((const sockaddr_in*)a)->sin_addr; for (int k = 0; k < 4; k++) { if (k) *host++ = '.'; host = dec(host, b[k]); } *host = 0; }
  else if (a->sa_family == AF_INET6) { if (n < sizeof(sockaddr_in6)) return -6; const uint8_t* b = (const uint8_t*)&((const sockaddr_in6*)a)->sin6_addr; for (int k = 0; k < 16; k++) { if (k && k % 2 == 0) *host++ = ':'; *host++ = "0123456789abcdef"[b[k] >> 4]; *host++ = "0123456789abcdef"[b[k] & 15]; } *host = 0; } else return -6;
  serv = dec(serv, ntohs(((const sockaddr_in*)a)->sin_port) % 1000); *serv = 0; return 0; }
// under symbolic execution the thread of a service runs when it is started, until there is nothing left to receive
__attribute__((used, noinline)) void symx__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* t, std::unique_ptr<std::thread::_State>* s, void (*)()) { *(long*)t = 1; (*s)->_M_run(); }
__attribute__((used, noinline)) void symx__ZNSt6thread6_StateD2Ev(void*) {}
__attribute__((used, noinline)) void symx__ZNSt6thread4joinEv(std::thread* t) { *(long*)t = 0; }
__attribute__((used, noinline)) long symx__ZNSt6chrono3_V212steady_clock3nowEv() { static long t = 0; return t += 1000000; }
}
// ---- stations
using mdns_cpp::mDNS; using List = mdns_cpp::QueryResList; static const char kService[] = "_mvrxchange._tcp.local.";
struct Station { std::string host, service; uint16_t port; uint8_t ip[4]; std::string txt; };
static std::vector<std::string> serve(const Station& s, std::deque<Packet> in) {
  gIn = in; gOut.clear(); gIdle = false; gServing = true; gSock = 200; { mDNS m; m.setServiceHostname(s.host); m.setServiceName(s.service); m.setServicePort(s.port); uint32_t a; memcpy(&a, s.ip, 4); m.setServiceIP(a); m.setServiceTxtRecord(s.txt); ASSERT(m.getServicePort() == s.port, "own_port"); ASSERT(m.getServiceIP() == a, "own_address"); m.startService(); while (!gIdle) {} m.stopService(); } gServing = false; return gOut;
}
static List look(const std::string& service, std::deque<Packet> in) { gIn = in; gOut.clear(); gSock = 200; mDNS m; return m.executeQuery2(service); }
static std::string queryFor(const std::string& service) { look(service, {}); ASSERT(gOut.size() == (gSix ? 2 : 1), "query_sent"); return gOut[0]; }
static std::string address(const uint8_t* ip) { char b[20], *o = b; for (int k = 0; k < 4; k++) { if (k) *o++ = '.'; o = dec(o, ip[k]); } return std::string(b, o - b); }
static void is(const mdns_cpp::Query_result& r, const Station& s) {
  ASSERT(eqs(r.canonical_hostname, s.host + "." + s.service), "host"); ASSERT(eqs(r.service_name, s.host + "." + s.service), "service"); ASSERT(r.port == s.port, "port"); ASSERT(eqs(r.txt, s.txt), "text");
  ASSERT(r.ipV4_address.size() == 1, "address_count"); ASSERT(eqs(*r.ipV4_address.begin(), address(s.ip)), "address"); ASSERT(r.ipV6_address.size() == (gSix ? 1 : 0), "other_address"); if (gSix) ASSERT(*r.ipV6_address.begin() == "fdf6:efe8:e1da:d3cc:c5be:b7b0:a9a2:9b94", "other_address");
}
static std::string text(unsigned n, unsigned at) { std::string t; for (unsigned k = 0; k < n; k++) t += (char)(k % 7 == 3 ? 0 : k % 5 == 4 ? 0xC5 : 'a' + k % 26); if (at < n) t[at] = (char)symU8("character"); return t; }
static Station any() {
  Station s; static const char* hosts[] = {"desk", "a", "Main-Desk_9"}; unsigned h = symChoose("host", 5); s.host = h < 3 ? hosts[h] : h == 3 ? std::string(63, 'h') : std::string("d?k"); if (h == 4) { uint8_t c = symU8("letter"); ASSUME(c != '.' && c != 0); s.host[1] = (char)c; }
  static const char* services[] = {kService, "_x._udp.local.", "_a.local."}; s.service = services[symChoose("service", 3)]; s.port = symU16("port"); s.ip[0] = 10; s.ip[1] = 0; s.ip[2] = 200; s.ip[3] = 7; s.ip[symChoose("part", 4)] = symU8("address"); ASSUME(s.ip[0] | s.ip[1] | s.ip[2] | s.ip[3]);
  static const unsigned lens[] = {0, 1, 20, 255}; unsigned n = lens[symChoose("text", 4)]; if (gSix && h == 3 && n == 255) n = 200; /* an answer has room for 512 bytes */ s.txt = text(n, n > 1 ? symChoose("at", 2) * (n - 1) : 0); return s;
}
// a query reaches a station, the answer of the station tells what it announces
static void answered() {
  gSix = symChoose("six", 2); Station s = any(); gOddPort = symChoose("own_port", 2); std::string q = queryFor(s.service); std::string other = queryFor("_other._tcp.local."); std::deque<Packet> in = {{q, 0x0900000A}}; switch (symChoose("noise", 3)) { case 1: in.push_front({other, 0x0800000A}); break; case 2: in.push_front({std::string("\0\0\0", 3), 0x0800000A}); }
  auto a = serve(s, in); ASSERT(a.size() == 1, "answered_once"); std::deque<Packet> back = {{q, 0x0900000A}, {a[0], 0x0700000A}}; if (symChoose("twice", 2)) back.push_back({a[0], 0x0700000A}); List l = look(s.service, back); ASSERT(l.size() == 1, "found_once"); is(l[0], s); ASSERT(eqs(l[0].mdnsAddress, "10.0.0.7"), "sender"); REACH("done");
}
// several stations, on one computer or on several, answer in any order
static void several() {
  static const char* names[][3] = {{"desk", "desk2", "d"}, {"one", "two", "three"}, {"a", "A", "b"}}; unsigned set = symChoose("names", 3), n = 2 + symChoose("count", 2), same = symChoose("same", 2), order = symChoose("order", n == 2 ? 2 : 6); static const int perm[6][3] = {{0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}};
  std::vector<Station> st; for (unsigned k = 0; k < n; k++) { Station s; s.host = names[set][k]; s.service = kService; s.port = symU16("port"); uint8_t ip[4] = {10, 0, 0, (uint8_t)(same ? 7 : 7 + k)}; memcpy(s.ip, ip, 4); s.txt = std::string("x=") + (char)symU8("character") + (char)('0' + k); st.push_back(s); }
  std::string q = queryFor(kService); std::deque<Packet> back; for (unsigned k = 0; k < n; k++) { const Station& s = st[perm[order][k]]; auto a = serve(s, {{q, 0x0900000A}}); ASSERT(a.size() == 1, "answered_once"); uint32_t from; memcpy(&from, s.ip, 4); back.push_back({a[0], from}); }
  List l = look(kService, back); ASSERT(l.size() == n, "found_each_once"); for (unsigned k = 0; k < n; k++) is(l[k], st[perm[order][k]]); REACH("done");
}
// ---- packets that are no proper answers
static int sameList(const List& a, const List& b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t k = 0; k < a.size(); k++) { r = sym_and(r, sym_and(eqs(a[k].service_name, b[k].service_name), eqs(a[k].canonical_hostname, b[k].canonical_hostname))); r = sym_and(r, sym_and(eqs(a[k].txt, b[k].txt), a[k].port == b[k].port)); if (a[k].ipV4_address.size() != b[k].ipV4_address.size() || a[k].ipV6_address.size() != b[k].ipV6_address.size()) return 0;
  auto i = b[k].ipV4_address.begin(); for (auto& s : a[k].ipV4_address) r = sym_and(r, eqs(s, *i++)); i = b[k].ipV6_address.begin(); for (auto& s : a[k].ipV6_address) r = sym_and(r, eqs(s, *i++)); } return r; }
static const std::string kFill[] = {std::string("\0", 1), std::string("\0\1", 2), std::string("\xC0\x0C", 2), std::string("Q", 1)};
static Station good() { Station s; s.host = "good"; s.service = kService; s.port = 4711; uint8_t ip[4] = {10, 0, 0, 5}; memcpy(s.ip, ip, 4); s.txt = "t=1"; return s; }
static std::string proper(bool unicast) { Station s = good(); s.host = "bad"; s.ip[3] = 6; gOddPort = unicast; std::string q = queryFor(kService); auto a = serve(s, {{q, 0x0900000A}}); gOddPort = false; ASSERT(a.size() == 1, "answered_once"); return a[0]; }
static void tolerated(const std::string& bad) {
  static std::string fine; if (fine.empty()) { std::string q = queryFor(kService); fine = serve(good(), {{q, 0x0900000A}})[0]; }
  std::deque<Packet> in = {{bad, 0x0600000A}, {fine, 0x0500000A}}; gFill = kFill[0]; List a = look(kService, in); unsigned n = 0; for (auto& r : a) if (eqs(r.mdnsAddress, "10.0.0.5")) { n++; is(r, good()); } ASSERT(n == 1, "others_found");
  gFill = kFill[1 + symChoose("behind", 3)]; List b = look(kService, in); gFill = kFill[0]; ASSERT(sameList(a, b), "only_from_the_packet"); REACH("done");
}
static void cut() { std::string p = proper(symChoose("unicast", 2)); size_t n = symChoose("length", (unsigned)p.size() + 1); tolerated(p.substr(0, n)); }
static void changed() { std::string p = proper(symChoose("unicast", 2)); unsigned step = sym_param("step", 1); size_t at = symChoose("at", (unsigned)(p.size() + step - 1) / step) * step; if (sym_param("ref", 0) && at + 1 < p.size()) { p[at] = (char)0xC0; at++; } p[at] = (char)symU8("byte"); tolerated(p); }
// anything short: a header that counts up to two entries and a body of a few arbitrary bytes
static void shorts() {
  std::string p(12, 0); static const uint8_t counts[][4] = {{1, 1, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {0, 1, 1, 1}}; unsigned c = symChoose("counts", 5); for (int k = 0; k < 4; k++) p[5 + 2 * k] = counts[c][k]; unsigned n = symChoose("length", sym_param("bytes", 4)); bool root = symChoose("root", 2); if (root && symChoose("service", 2)) { for (int k : {7, 9, 11}) if (p[k]) { p[k]++; break; } p += std::string("\0\0\x21\0\1\0\0\0\12\0\10\0\0\0\0\0\7\0\0", 19); } /* a service for what follows to belong to */ if (root) { p += '\0'; static const uint8_t types[] = {1, 12, 16, 28, 33}; p += '\0'; p += (char)types[symChoose("type", 5)]; p += std::string("\0\1\0\0\0\12\0", 7); }
  static const uint8_t some[] = {0, 1, 4, 0x0C, 0xC0, 0xFF}; unsigned wild = n ? symChoose("wild", n) : 0; for (unsigned k = 0; k < n; k++) p += k == wild ? (char)symU8("byte") : (char)some[symChoose("some", 6)]; tolerated(p);
}
// a packet that uses up the whole buffer, with its last record reaching to the end or beyond
static void full() {
  std::string p(12, 0); p[7] = 2; auto rec = [&](uint8_t type, unsigned len, unsigned have) { p += '\1'; p += 'n'; p += '\0'; p += '\0'; p += (char)type; p += std::string("\0\1\0\0\0\12", 6); p += (char)(len >> 8); p += (char)len; for (unsigned k = 0; k < have; k++) p += (char)('a' + k % 26); };
  unsigned before = symChoose("before", 2) ? 1900 : 600; rec(16, before, before); static const uint8_t types[] = {1, 12, 16, 28, 33}; unsigned left = 2048 - (unsigned)p.size() - 13; rec(types[symChoose("type", 5)], left + symChoose("more", 3) * 40 - 20 * (unsigned)symChoose("less", 2), left); switch (symChoose("tail", 4)) { case 1: p[2047] = (char)0xC0; break; case 2: p[2047] = 5; break; case 3: p[2046] = (char)0xC0; p[2047] = (char)symU8("to"); } unsigned keep = symChoose("keep", 3); p = p.substr(0, 2048 - keep); tolerated(p);
}
// queries a station is asked: whatever comes, the proper one is answered, and one answer is all
static void asked(bool cutIt) {
  Station s = good(); gOddPort = symChoose("own_port", 2); std::string q = queryFor(kService), bad = symChoose("kind", 2) ? queryFor("_services._dns-sd._udp.local.") : q;
  if (cutIt) bad = bad.substr(0, symChoose("length", (unsigned)bad.size())); else { size_t at = symChoose("at", (unsigned)bad.size()); bad[at] = (char)symU8("byte"); }
  gFill = kFill[0]; auto a = serve(s, {{bad, 0x0600000A}, {q, 0x0900000A}}); ASSERT(a.size() == 1 || a.size() == 2, "answers"); List l = look(kService, {{a.back(), 0x0500000A}}); ASSERT(l.size() == 1, "found"); is(l[0], s);
  gFill = kFill[1 + symChoose("behind", 3)]; auto b = serve(s, {{bad, 0x0600000A}, {q, 0x0900000A}}); gFill = kFill[0]; ASSERT(a.size() == b.size(), "only_from_the_packet"); for (size_t k = 0; k < a.size(); k++) ASSERT(eqs(a[k], b[k]), "only_from_the_packet"); if (cutIt) ASSERT(a.size() == 1, "cut_not_answered"); REACH("done");
}
// what does not fit into an answer is not announced, and nothing breaks
static void big() {
  Station s = good(); static const unsigned lens[] = {63, 64, 127, 191, 192, 255, 300, 400, 460}; s.host = std::string(lens[symChoose("host", 9)], 'h'); if (symChoose("dots", 2)) for (size_t k = 40; k < s.host.size(); k += 41) s.host[k] = '.'; static const unsigned texts[] = {0, 100, 255, 256, 600}; s.txt = text(texts[symChoose("text", 5)], 9999); if (symChoose("long_service", 2)) s.service = std::string("_") + std::string(60, 's') + "." + std::string(60, 't') + "._tcp.local."; gOddPort = symChoose("own_port", 2);
  std::string q = queryFor(s.service); auto a = serve(s, {{q, 0x0900000A}}); ASSERT(a.size() <= 1, "answers"); std::deque<Packet> in; for (auto& p : a) in.push_back({p, 0x0500000A}); List l = look(s.service, in); ASSERT(l.size() <= 1, "found");
  bool fits = (s.host.find('.') != std::string::npos || s.host.size() <= 63) && 2 * s.host.size() + 2 * s.service.size() + (s.txt.size() <= 255 ? s.txt.size() : 0) + 110 <= 512 && s.host.size() + s.service.size() < 250; if (fits) { ASSERT(a.size() == 1 && l.size() == 1, "fits"); if (s.txt.size() > 255) s.txt = ""; is(l[0], s); } REACH("done");
}
// discovery of services goes through whatever is answered
static void discovered() { Station s = good(); gIn.clear(); gOut.clear(); { mDNS m; m.executeDiscovery(); } ASSERT(gOut.size() == 1, "asked"); std::string d = gOut[0]; auto a = serve(s, {{d, 0x0600000A}}); ASSERT(a.size() == 1, "answered_once"); std::string p = a[0]; unsigned kind = symChoose("kind", 4); if (kind == 1) p = p.substr(0, symChoose("length", (unsigned)p.size())); if (kind == 2) p[symChoose("at", (unsigned)p.size())] = (char)symU8("byte"); if (kind == 3) p = proper(false); std::string s1 = proper(true); gFill = kFill[symChoose("behind", 4)]; gIn = {{p, 0x0600000A}, {s1, 0x0700000A}}; gSock = 200; mDNS m; m.executeDiscovery(); ASSERT(gIn.empty(), "all_received"); REACH("done"); }
extern "C" void sym_main() { PART(0) answered(); PART(1) several(); PART(2) cut(); PART(3) changed(); PART(4) shorts(); PART(5) full(); PART(6) asked(false); PART(7) asked(true); PART(8) big(); PART(9) discovered(); }

// what a station makes of the announcements of the others: the network side is a stand-in that hands out the records
#include "common.h"
#include "mvrxchange/CMVRxchangeService.h"
static mdns_cpp::QueryResList gFound;
namespace mdns_cpp {
mDNS::~mDNS() {} void mDNS::startService() {} void mDNS::stopService() {} bool mDNS::isServiceRunning() { return false; }
void mDNS::setServiceHostname(const std::string&) {} void mDNS::setServicePort(std::uint16_t) {} void mDNS::setServiceIP(std::uint32_t) {} void mDNS::setServiceName(const std::string&) {} void mDNS::setServiceTxtRecord(const std::string&) {}
std::vector<std::pair<std::string, uint32_t>> mDNS::getInterfaces() { return {}; } std::uint16_t mDNS::getServicePort() { return 0; } std::uint32_t mDNS::getServiceIP() { return 0; } void mDNS::executeDiscovery() {}
std::string mDNS::getServiceIPPort() { return "10.0.0.1:4"; }
QueryResList mDNS::executeQuery2(const std::string&) { return gFound; }
}
using Service = VectorworksMVR::CMVRxchangeServiceImpl; using Args = IMVRxchangeService::ConnectToLocalServiceArgs;
static const char kId[] = "01234567-89AB-CDEF-0F1E-2D3C4B5A6978";
static std::string entry(const std::string& t) { return std::string(1, (char)t.size()) + t; }
static mdns_cpp::Query_result record(const std::string& host, int ip, uint16_t port, const std::string& txt) {
  mdns_cpp::Query_result r; r.service_name = host + "._mvrxchange._tcp.local."; r.canonical_hostname = host + "._mvrxchange._tcp.local."; r.port = port; r.ipV4_address.insert("10.0.0." + std::to_string(ip)); r.txt = txt; return r;
}
static size_t found_(Service& s) { size_t n = 99; ASSERT(VCOM_SUCCEEDED(s.QueryLocalServices(n)), "query"); return n; }
static Args get(Service& s, size_t k) { Args a; a.Port = 0; ASSERT(VCOM_SUCCEEDED(s.GetLocalServiceAt(k, a)), "get"); return a; }
static std::string stext(const MVRxchangeString& s) { size_t n = 0; while (n < 1024 && s.fBuffer[n]) n++; ASSERT(n < 1024, "text_terminated"); return std::string(s.fBuffer, n); }
static void known(const Args& a, const std::string& host, int ip, uint16_t port) { ASSERT(eqs(stext(a.Service), host + "._mvrxchange._tcp.local."), "host"); ASSERT(a.Port == port, "port"); ASSERT(a.IPv4_list.size() == 1 && eqs(stext(a.IPv4_list[0]), "10.0.0." + std::to_string(ip)), "address"); }
static void outside(Service& s, size_t n) { Args a; ASSERT(VCOM_FAILED(s.GetLocalServiceAt(n, a)), "index"); ASSERT(VCOM_FAILED(s.GetLocalServiceAt(n + 1, a)), "index"); ASSERT(VCOM_FAILED(s.GetLocalServiceAt((size_t)-1, a)), "index"); }
// an announcement as it should be, with anything else between its entries
static void announced() {
  std::string name; switch (symChoose("name", 5)) { case 0: name = "Desk"; break; case 1: name = "a?b"; name[1] = (char)symRange("ch", 1, 127); break; case 2: name = std::string(243, 'n'); break; case 3: name = "A=B"; break; default: name = "\xC3\xA4 desk"; name[1] = (char)symRange("ch", 0x80, 0xBF); }
  std::string id = kId; unsigned at = symChoose("digit", 4); static const int pos[] = {0, 9, 24, 35}; uint8_t h = symRange("value", 0, 15); id[pos[at]] = hexUp(h);
  std::string more; switch (symChoose("more", 6)) { case 1: more = entry(""); break; case 2: more = entry("flag"); break; case 3: more = entry("a=b"); break; case 4: more = entry("x="); break; case 5: { std::string e = "?="; e[0] = (char)symRange("key", 1, 255); more = entry(e); } }
  std::string a = entry("StationName=" + name), b = entry("StationUUID=" + id), txt; unsigned o = symChoose("order", 6); switch (o) { case 0: txt = a + b; break; case 1: txt = b + a; break; case 2: txt = more + a + b; break; case 3: txt = b + more + a; break; case 4: txt = a + b + more; break; default: txt = a + more + b; }
  uint16_t port = symU16("port"); gFound = {record("desk", 7, port, txt)}; Service s; ASSERT(found_(s) == 1, "found"); Args r = get(s, 0); known(r, "desk", 7, port); ASSERT(eqs(stext(r.StationName), name), "name");
  static const uint32_t w[] = {0x01234567, 0x89ABCDEF, 0x0F1E2D3C, 0x4B5A6978}; VWUUID u; (void)w; MvrUUID want; ASSERT(GdtfConverter::ConvertUUID(TXString(id.c_str()), want), "id_text"); ASSERT(sym_and(sym_and(r.StationUUID.a == want.a, r.StationUUID.b == want.b), sym_and(r.StationUUID.c == want.c, r.StationUUID.d == want.d)), "id"); outside(s, 1); REACH("done");
}
// anything at all in the text record: the station is listed, what is no name is no name
static void anything() {
  // up to two entries, each of up to three bytes behind a length that is theirs (then they are arbitrary) or not
  std::string txt; unsigned n = symChoose("entries", 3); bool aligned = true; static const uint8_t lens[] = {0, 1, 2, 4, 14, 127, 128, 255}; static const char some[] = {0, 1, 3, '=', 'S', (char)200};
  for (unsigned k = 0; k < n; k++) { unsigned c = symChoose("bytes", sym_param("bytes", 3) - (k && !sym_param("more", 0))); aligned = aligned && symChoose("fits", 2); if (aligned) { txt += (char)c; for (unsigned i = 0; i < c; i++) txt += (char)symU8("byte"); } else { txt += (char)lens[symChoose("declared", 8)]; for (unsigned i = 0; i < c; i++) txt += some[i ? (i + c + k) % 6 : symChoose("byte", 6)]; } }
  switch (symChoose("tail", 4)) { case 1: txt += "StationName=q"; break; case 2: txt += entry("StationName=q"); break; case 3: txt += std::string("\x05Stati", 6); }
  unsigned which = symChoose("other", n < 2 ? 2 : 1); gFound.clear(); if (which) gFound.push_back(record("first", 3, 30, entry("StationName=F"))); gFound.push_back(record("wild", 5, 50, txt)); gFound.push_back(record("last", 6, 60, entry("StationName=L")));
  Service s; ASSERT(found_(s) == 2 + which, "found"); if (which) { Args f = get(s, 0); known(f, "first", 3, 30); ASSERT(eqs(stext(f.StationName), "F"), "name"); } Args r = get(s, which); known(r, "wild", 5, 50); stext(r.StationName); Args l = get(s, which + 1); known(l, "last", 6, 60); ASSERT(eqs(stext(l.StationName), "L"), "name"); outside(s, 2 + which); REACH("done");
}
// which records make a station
static void filtered() {
  struct Want { int id, ip, port; }; gFound.clear(); std::vector<Want> want; unsigned n = symChoose("count", 4);
  for (unsigned k = 1; k <= n; k++) { Want q = {(int)k, (int)k, (int)(1000 + k)}; bool in = true; unsigned kind = symChoose("kind", 8); if (!want.empty()) { if (kind == 4 || kind == 6) q.port = want[0].port; if (kind == 4 || kind == 7) q.ip = want[0].ip; if (kind == 4) in = false; }
    auto r = record("s" + std::to_string(k), q.ip, q.port, entry("StationName=S" + std::to_string(k)));
    switch (kind) { case 1: r.ipV4_address.clear(); in = false; break; case 2: r.service_name = "p._http._tcp.local."; in = false; break; case 3: r.service_name = "local."; in = false; break; case 5: r.service_name = std::string("_mvrxchange._tcp.local."); }
    if (in) want.push_back(q); gFound.push_back(r); }
  Service s; ASSERT(found_(s) == want.size(), "found"); for (size_t k = 0; k < want.size(); k++) { Args a = get(s, k); known(a, "s" + std::to_string(want[k].id), want[k].ip, want[k].port); ASSERT(eqs(stext(a.StationName), "S" + std::to_string(want[k].id)), "name"); } outside(s, want.size());
  gFound.clear(); ASSERT(found_(s) == 0, "gone"); outside(s, 0); REACH("done");
}
extern "C" void sym_main() { PART(0) announced(); PART(1) anything(); PART(2) filtered(); }

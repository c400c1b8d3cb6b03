// Native side of the harness interface: takes the values of the symbolic inputs from a case file and reports
// whether the assertion really fails in the compiled code.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <vector>
#include <map>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <pwd.h>
#include <sys/stat.h>
#include <errno.h>
#include <grp.h>
#include <string>
extern "C" void sym_main();
namespace { struct Obj { std::string name; std::vector<unsigned char> bytes; }; std::vector<Obj> gObjs; size_t gNext; std::map<std::string, uint64_t> gParams; std::vector<std::pair<std::string, std::string>> gExp; size_t gObs; bool gObsBad; std::string gMsg; int gFd = 2; }
static void out(const char* f, const char* a, const char* b = "") { char buf[2048]; int n = snprintf(buf, sizeof buf, f, a, b); if (n > 2047) n = 2047; if (write(1, buf, n)) {} }
enum { X_ASSERT = 41, X_ASSUME = 42, X_MISMATCH = 43, X_EXC = 44, X_OBS = 45, X_END = 46 };
static std::vector<unsigned char> unhex(const char* s) { std::vector<unsigned char> r; for (; s[0] && s[1]; s += 2) { unsigned v; if (sscanf(s, "%2x", &v) != 1) break; r.push_back(v); } return r; }
static Obj* take(const char* name, size_t n) {
  if (gNext >= gObjs.size()) { static Obj z; z.name = name; z.bytes.assign(n, 0); return &z; }
  Obj* o = &gObjs[gNext++]; if (o->name != name || o->bytes.size() != n) { out("REPLAY mismatch: case has %s, harness wants %s\n", o->name.c_str(), name); _exit(X_MISMATCH); } return o;
}
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) { Obj* o = take(name, n); memcpy(p, o->bytes.data(), n); }
uint64_t __sym_int(const char* name, unsigned bits) { Obj* o = take(name, 8); uint64_t v = 0; memcpy(&v, o->bytes.data(), o->bytes.size() < 8 ? o->bytes.size() : 8); return bits < 64 ? v & ((1ull << bits) - 1) : v; }
void __sym_assume(int c) { if (!c) { out("REPLAY assumption false%s\n", ""); _exit(X_ASSUME); } }
void __sym_assert(int c, const char* label) { if (!c) { out("REPLAY assert failed: %s\n", label); _exit(X_ASSERT); } }
void sym_fail(const char* label) { out("REPLAY assert failed: %s\n", label); _exit(X_ASSERT); }
void sym_reach(const char*) {}
void sym_observe(const char* label, uint64_t v) {
  if (gExp.empty()) return; char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)v);
  if (gObs >= gExp.size() || gExp[gObs].first != label || strtoull(gExp[gObs].second.c_str(), 0, 16) != v) { if (!gObsBad) { std::string m = std::string(label) + " native " + b + " predicted " + (gObs < gExp.size() ? gExp[gObs].first + "=" + gExp[gObs].second : "none"); out("REPLAY observation differs: %s\n", m.c_str()); } gObsBad = true; }
  gObs++;
}
// what the code under test writes, creates and deletes: the harness may look at it first, and nothing outside the scratch folder is touched
void (*sym_fs_hook)(const char*, int);
static bool inside(const char* p, int op) {
  if (sym_fs_hook) { void (*h)(const char*, int) = sym_fs_hook; sym_fs_hook = 0; h(p, op); sym_fs_hook = h; } if (op == 0) return true;
  char c[2048]; if (!getcwd(c, sizeof c)) return false; std::string s = p[0] == '/' ? p : std::string(c) + "/" + p, n; size_t i = 0;
  while (i <= s.size()) { size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string k = s.substr(i, j - i); i = j + 1; if (k.empty() || k == ".") continue; if (k == "..") { size_t q = n.rfind('/'); n.erase(q == std::string::npos ? 0 : q); continue; } n += "/" + k; }
  return n.size() > strlen(c) && !n.compare(0, strlen(c), c) && n[strlen(c)] == '/' && !strncmp(c, "/tmp/", 5);
}
FILE* __real_fopen(const char*, const char*); FILE* __wrap_fopen(const char* p, const char* m) { if (!inside(p, m[0] != 'r' || strchr(m, '+'))) { errno = EACCES; return 0; } return __real_fopen(p, m); }
FILE* __real_fopen64(const char*, const char*); FILE* __wrap_fopen64(const char* p, const char* m) { if (!inside(p, m[0] != 'r' || strchr(m, '+'))) { errno = EACCES; return 0; } return __real_fopen64(p, m); }
int __real_mkdir(const char*, mode_t); int __wrap_mkdir(const char* p, mode_t m) { if (!inside(p, 2)) { errno = EACCES; return -1; } return __real_mkdir(p, m); }
int __real_remove(const char*); int __wrap_remove(const char* p) { if (!inside(p, 3)) { errno = EACCES; return -1; } return __real_remove(p); }
int __real_unlink(const char*); int __wrap_unlink(const char* p) { if (!inside(p, 3)) { errno = EACCES; return -1; } return __real_unlink(p); }
int __real_rmdir(const char*); int __wrap_rmdir(const char* p) { if (!inside(p, 3)) { errno = EACCES; return -1; } return __real_rmdir(p); }
int __real_rename(const char*, const char*); int __wrap_rename(const char* p, const char* q) { if (!inside(p, 3) || !inside(q, 1)) { errno = EACCES; return -1; } return __real_rename(p, q); }
// the code under test creates and deletes folders below the home folder: here that is a folder below the scratch folder the replay runs in
struct passwd* getpwuid(uid_t) { static struct passwd p; static char d[4096]; if (!p.pw_dir) { char c[2048]; if (!getcwd(c, sizeof c) || strncmp(c, "/tmp/", 5)) { out("REPLAY not in a scratch folder%s\n", ""); _exit(X_END); } snprintf(d, sizeof d, "%s/home%d", c, (int)getpid()); mkdir(d, 0755); p.pw_dir = d; p.pw_name = (char*)"user"; } return &p; }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_param(const char* n, uint64_t d) { auto i = gParams.find(n); return i == gParams.end() ? d : i->second; }
double sym_rfmt(double v, unsigned fn) { char f[16], b[512]; if (fn == 0) strcpy(f, "%f"); else if (fn >= 100) snprintf(f, sizeof f, "%%.%uf", fn - 100); else snprintf(f, sizeof f, "%%.%ug", fn); snprintf(b, sizeof b, f, v); return strtod(b, 0); }
double sym_r6(double v) { return sym_rfmt(v, 0); }
int sym_is_symbolic(uint64_t) { return 0; }
void sym_print(const char* s, uint64_t v) { fprintf(stderr, "[print] %s = %llx\n", s, (unsigned long long)v); }
void sym_prune() { _exit(X_ASSUME); }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
}
static bool load(const char* f) {
  FILE* h = fopen(f, "r"); if (!h) return false; char* line = 0; size_t cap = 0; gObjs.clear(); gExp.clear(); gNext = 0; gObs = 0; gObsBad = false;
  while (getline(&line, &cap, h) > 0) {
    if (line[0] == 'S') { char name[512]; size_t n; int pos = 0; if (sscanf(line, "S %511s %zu %n", name, &n, &pos) >= 2) { Obj o; o.name = name; o.bytes = unhex(line + pos); o.bytes.resize(n); gObjs.push_back(o); } }
    else if (line[0] == 'O') { char name[512], v[64]; if (sscanf(line, "O %511s %63s", name, v) == 2) gExp.push_back({name, v}); }
    else if (line[0] == 'P') { char name[512]; unsigned long long v; if (sscanf(line, "P %511s %llu", name, &v) == 2) gParams[name] = v; }
  }
  free(line); fclose(h); return true;
}
static int one(const char* f) {
  if (!load(f)) return 2; if (!getuid()) { if (chown(".", 65534, 65534) == 0 && setgroups(0, 0) == 0 && setgid(65534) == 0 && setuid(65534) == 0) umask(022); } // unprivileged where that is possible
  try { sym_main(); }
  catch (std::exception& e) { out("REPLAY uncaught exception %s: %s\n", typeid(e).name(), e.what()); _exit(X_EXC); }
  catch (...) { out("REPLAY uncaught exception%s\n", ""); _exit(X_EXC); }
  if (gObsBad || gObs < gExp.size()) _exit(X_OBS);
  out("REPLAY completed%s\n", ""); _exit(0);
}
int main(int argc, char** argv) {
  // usage: replay [--param=k=v ...] case...   ; one process per case, prints "CASE file status"
  std::vector<const char*> cases; int timeout = 20;
  for (int i = 1; i < argc; i++) { if (!strncmp(argv[i], "--param=", 8)) { char* eq = strchr(argv[i] + 8, '='); if (eq) gParams[std::string(argv[i] + 8, eq)] = strtoull(eq + 1, 0, 0); } else if (!strncmp(argv[i], "--timeout=", 10)) timeout = atoi(argv[i] + 10); else cases.push_back(argv[i]); }
  bool anyFail = false;
  for (auto c : cases) {
    fflush(0); pid_t p = fork(); if (!p) { alarm(timeout); signal(SIGALRM, SIG_DFL); _exit(one(c)); }
    int st; waitpid(p, &st, 0); char b[64]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "exit %d", WEXITSTATUS(st));
    out("CASE %s %s\n", c, b); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) anyFail = true;
  }
  return anyFail ? 1 : 0;
}

// Concrete implementation of the harness API: runs the same harness natively on given variable values.
// usage: replay CASES   one case per line:  name=value;name=value;...
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
static std::map<std::string, long> vals; static std::map<std::string, bool> used; static int out = 1;
static std::ostringstream g_cap;
static void emit(const std::string &s) { std::string l = s + "\n"; ssize_t r = write(out, l.data(), l.size()); (void)r; }
static std::string hexs(const char *p, unsigned long n) { std::string o; char b[4]; for (unsigned long i = 0; i < n; i++) { snprintf(b, 4, "%02x", (unsigned char)p[i]); o += b; } return o; }
static std::string uniq(const char *n) { std::string s = n; int k = 1; while (used.count(s)) s = std::string(n) + "#" + std::to_string(++k); return s; }
extern "C" {
long sym_long(const char *name, long lo, long hi) { if (lo == hi) return lo; std::string u = uniq(name); used[u] = true; auto it = vals.find(u); if (it == vals.end()) return lo + (hi - lo) / 2; return it->second; }
int sym_int(const char *name, int lo, int hi) { return (int)sym_long(name, lo, hi); }
long sym_conc(long v) { return v; }
void sym_assume(bool c) { if (!c) { emit("ASSUME"); _exit(0); } }
void sym_assert(bool c, const char *label) { if (!c) { emit(std::string("FAIL ") + label); _exit(0); } }
void sym_observe(const char *name, long v) { emit(std::string("OBS ") + name + " " + std::to_string(v)); }
void sym_observe_str(const char *name, const char *p, unsigned long n) { emit(std::string("OBSS ") + name + " " + hexs(p, n)); }
long sym_eom(long y, long m) { bool l = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; return m == 2 ? 28 + l : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
void sym_end() { emit("END"); _exit(0); }
int sym_mode() { return 0; }
void sym_show(const char *, long) {}
unsigned long sym_stdout(const char **p) { static std::string s; s = g_cap.str(); *p = s.data(); return s.size(); }
}
int main(int argc, char **argv) {
  std::ifstream f(argv[1]); std::string line; int n = 0, hung = 0;
  out = dup(1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("REPLAY_STDERR")) dup2(dn, 2);
  while (hung < 2 && std::getline(f, line)) {
    emit("CASE " + std::to_string(n++));
    pid_t p = fork();
    if (p == 0) {
      alarm(12); std::cout.rdbuf(g_cap.rdbuf());
      size_t i = 0; while (i < line.size()) { size_t j = line.find(';', i); if (j == std::string::npos) j = line.size(); std::string kv = line.substr(i, j - i); size_t e = kv.rfind('='); if (e != std::string::npos) vals[kv.substr(0, e)] = atol(kv.c_str() + e + 1); i = j + 1; }
      sym_main(); emit("END"); _exit(0);
    }
    int st; waitpid(p, &st, 0); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung++; if (WIFSIGNALED(st)) emit("SIGNAL " + std::to_string(WTERMSIG(st)));
  }
  return 0;
}

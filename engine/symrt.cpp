// Runtime of the symbolic executor (native code).  See DESIGN.md, "Engine".
#include "expr.h"
#include <z3.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <atomic>
#include <unordered_set>
#include <iostream>
#include <cmath>
#include <array>
#include <locale>
#include <cwchar>
#include <execinfo.h>
#include <dlfcn.h>
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64;
extern "C" {
void *symrt_g_callee; Expr *symrt_g_args[64]; Expr *symrt_g_zero[64]; Expr *symrt_g_ret[8]; u64 symrt_g_cval; u64 symrt_g_dummy[16];
extern void *symrt_fn_addrs[]; extern const u64 symrt_fn_naddrs; extern const char *const symrt_fn_names[]; extern const u64 symrt_fn_nnames;
void sym_main();
}
// ------------------------------------------------------------------------------------------- shared state
struct Label { char name[120]; std::atomic<u64> reached, z3, folded, violated, unknown; };
struct Shared {
  std::atomic<int> tokens; std::atomic<int> stop; std::atomic<int> lock; std::atomic<int> nlabels;
  std::atomic<u64> paths, branches, forks, queries, sat, unsat, unknown, solver_us, maxq_us, ended_early, infeasible, engine_err, crashed, unary, folded, conc, maxvars, xchecks, xcheck_bad, traces, pruned, assumes, steps, simpfold, cut, hangs;
  Label labels[256];
  unsigned char fnseen[65536];
};
static Shared *S;
__attribute__((constructor(101))) static void initShared() { S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static int logfd = -1;
static double t_end; static u64 path_cap; static unsigned z3_rlimit = 40000000; static int trace_cap = 300; static int xcheck_mod = 64;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void logLine(const std::string &s) { std::string l = s + "\n"; ssize_t r = write(logfd, l.data(), l.size()); (void)r; }
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void slock() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(1); } }
static void sunlock() { S->lock = 0; }
static bool holdsToken = false, isRoot = true;
// ------------------------------------------------------------------------------------------- path state
static std::vector<Expr*> pc; static std::unordered_set<Expr*> known; static std::vector<I> model; static VSet entangled = 0;
typedef std::vector<bool> Bits;
static std::unordered_map<Expr*, Bits> allowed;   // per base atom
static std::vector<std::pair<std::string, Expr*>> observed; static std::vector<std::pair<std::string, I>> observedC;
struct Obs { std::string name; Expr *e; I v; bool isStr; std::vector<Expr*> chars; std::vector<unsigned char> cb; };
static std::vector<Obs> obs;
static std::string varsJson(const std::vector<I> &m) { std::string s = "{"; for (size_t i = 0; i < g_vars.size(); i++) { if (i) s += ","; s += jstr(g_vars[i].name) + ":" + i2s(m[i]); } return s + "}"; }
static I evalM(Expr *e, const std::vector<I> &m) { EvalCtx c{&m, {}}; return evalE(e, c); }
static void reapAll(bool block) { (void)block; }
[[noreturn]] static void endPath(bool counted, const char *why) {
  if (counted) {
    u64 n = S->paths.fetch_add(1);
    bool rec = (int)S->traces.load() < trace_cap && (n < 100 || (n * 2654435761u >> 7) % 7 == 0);
    if (rec) {
      S->traces++;
      EvalCtx c{&model, {}}; std::string o = "[";
      for (auto &x : obs) {
        if (o.size() > 1) o += ",";
        if (x.isStr) { std::string t; for (size_t i = 0; i < x.chars.size(); i++) t += (char)(x.chars[i] ? (unsigned char)evalE(x.chars[i], c) : x.cb[i]); o += "[" + jstr(x.name) + "," + jstr(t) + "]"; }
        else o += "[" + jstr(x.name) + "," + i2s(x.e ? evalE(x.e, c) : x.v) + "]";
      }
      logLine("{\"type\":\"trace\",\"vars\":" + varsJson(model) + ",\"obs\":" + o + "]}");
    }
    u64 mv = S->maxvars; while (g_vars.size() > mv && !S->maxvars.compare_exchange_weak(mv, g_vars.size())) {}
  }
  if (why) { }
  if (holdsToken) S->tokens++;
  fflush(nullptr);
  _exit(0);
}
static void engineError(const std::string &m) {
  if (S->engine_err++ < 20) logLine("{\"type\":\"engine_error\",\"msg\":" + jstr(m) + ",\"vars\":" + varsJson(model) + "}");
  endPath(false, "engine");
}
// paths cut off by the time limit: some of their inputs are still run natively
static void stopped() { S->stop = 1; S->ended_early++; if (S->cut++ < 12) logLine("{\"type\":\"cut\",\"vars\":" + varsJson(model) + "}"); endPath(false, "stop"); }
static void checkStop() {
  if (S->stop || now() > t_end || S->paths > path_cap) stopped();
}
// ------------------------------------------------------------------------------------------- solver
static double mySolver, cpuAtFork;   // seconds this process spent in the solver, and its processor time when its path began
static double cpuNow() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
struct Z3Ctx { Z3_context c = nullptr; int uses = 0; };
static Z3Ctx zc;
static bool z3failed = false;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); z3failed = true; }
struct Tr {
  Z3_context c; unsigned W; std::unordered_map<Expr*, Z3_ast> memo, bmemo; std::unordered_map<int, Z3_ast> vars; std::vector<Z3_ast> side; Z3_sort bv; std::unordered_map<Expr*, std::array<Z3_ast,3>> cal; int fresh = 0;
  bool useInt = false;
  Z3_ast num(I v) {
    if (useInt) { return Z3_mk_numeral(c, i2s(v).c_str(), Z3_mk_int_sort(c)); }
    unsigned __int128 m = W >= 128 ? ~(unsigned __int128)0 : (((unsigned __int128)1 << W) - 1); unsigned __int128 u = (unsigned __int128)v & m;
    std::string s; if (!u) s = "0"; while (u) { s += '0' + (int)(u % 10); u /= 10; } std::reverse(s.begin(), s.end());
    return Z3_mk_numeral(c, s.c_str(), bv);
  }
  Z3_ast add(Z3_ast a, Z3_ast b) { if (useInt) { Z3_ast x[2] = {a, b}; return Z3_mk_add(c, 2, x); } return Z3_mk_bvadd(c, a, b); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { if (useInt) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(c, 2, x); } return Z3_mk_bvsub(c, a, b); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { if (useInt) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(c, 2, x); } return Z3_mk_bvmul(c, a, b); }
  Z3_ast le(Z3_ast a, Z3_ast b) { return useInt ? Z3_mk_le(c, a, b) : Z3_mk_bvsle(c, a, b); }
  Z3_ast eq(Z3_ast a, Z3_ast b) { return Z3_mk_eq(c, a, b); }
  Z3_ast fvar(I lo, I hi) { char n[32]; snprintf(n, 32, "t!%d", fresh++); Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, n), useInt ? Z3_mk_int_sort(c) : bv); side.push_back(le(num(lo), v)); side.push_back(le(v, num(hi))); return v; }
  Z3_ast var(int i) {
    auto it = vars.find(i); if (it != vars.end()) return it->second;
    char n[32]; snprintf(n, 32, "v%d", i); Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, n), useInt ? Z3_mk_int_sort(c) : bv);
    vars[i] = v; side.push_back(le(num(g_vars[i].lo), v)); side.push_back(le(v, num(g_vars[i].hi))); return v;
  }
  Z3_ast inSet(Z3_ast a, I lo, const std::vector<bool> &in) { // membership as union of intervals
    std::vector<Z3_ast> o; size_t n = in.size();
    for (size_t i = 0; i < n;) { if (!in[i]) { i++; continue; } size_t j = i; while (j + 1 < n && in[j + 1]) j++;
      if (i == j) o.push_back(eq(a, num(lo + (I)i)));
      else { std::vector<Z3_ast> x; if (i > 0) x.push_back(le(num(lo + (I)i), a)); if (j + 1 < n) x.push_back(le(a, num(lo + (I)j))); o.push_back(x.empty() ? Z3_mk_true(c) : Z3_mk_and(c, x.size(), x.data())); }
      i = j + 1; }
    return o.empty() ? Z3_mk_false(c) : o.size() == 1 ? o[0] : Z3_mk_or(c, o.size(), o.data());
  }
  Z3_ast calForm(Z3_ast y, Z3_ast m, I ylo, I yhi) { // Julian day of the first of month m of year y
    // y' = y - (m<=2)
    Z3_ast le2 = le(m, num(2)); Z3_ast yy = add(sub(y, Z3_mk_ite(c, le2, num(1), num(0))), num(4800));
    static const int off[13] = {0, 306, 337, 0, 31, 61, 92, 122, 153, 184, 214, 245, 275};
    Z3_ast o = num(off[12]); for (int i = 11; i >= 1; i--) o = Z3_mk_ite(c, eq(m, num(i)), num(off[i]), o);
    Z3_ast r = add(o, add(mul(num(365), yy), num(1 - 32045)));
    I lo = ylo - 1 + 4800, hi = yhi + 4800;
    r = add(r, divc(yy, 4, lo, hi)); r = sub(r, divc(yy, 100, lo, hi)); r = add(r, divc(yy, 400, lo, hi)); return r;
  }
  static I fd(I a, I k) { I q = a / k; if (a % k < 0) q--; return q; }
  Z3_ast divc(Z3_ast a, I k, I lo, I hi) { Z3_ast q = fvar(fd(lo, k), fd(hi, k)); Z3_ast p = mul(num(k), q); side.push_back(le(p, a)); side.push_back(le(a, add(p, num(k - 1)))); return q; }
  std::unordered_map<Expr*, std::pair<Z3_ast, std::map<std::string, Z3_ast>>> divs;
  std::map<std::pair<Expr*, std::string>, Z3_ast> divm;
  Z3_ast divOf(Expr *a, I k) { auto key = std::make_pair(a, i2s(k)); auto it = divm.find(key); if (it != divm.end()) return it->second; Z3_ast q = divc(T(a), k, a->lo, a->hi); divm[key] = q; return q; }
  Z3_ast eomForm(Z3_ast y, Z3_ast m, I y0, I y1) {
    Z3_ast leap;
    if (y1 - y0 < 900) { std::vector<bool> in; for (I q = y0; q <= y1; q++) in.push_back((q % 4 == 0 && q % 100 != 0) || q % 400 == 0); leap = inSet(y, y0, in); }
    else { auto mult = [&](I k) { return eq(mul(num(k), divc(y, k, y0, y1)), y); }; Z3_ast a[2] = {mult(4), Z3_mk_not(c, mult(100))}, b[2] = {Z3_mk_and(c, 2, a), mult(400)}; leap = Z3_mk_or(c, 2, b); }
    Z3_ast feb = Z3_mk_ite(c, leap, num(29), num(28));
    Z3_ast x30[4] = {eq(m, num(4)), eq(m, num(6)), eq(m, num(9)), eq(m, num(11))};
    return Z3_mk_ite(c, eq(m, num(2)), feb, Z3_mk_ite(c, Z3_mk_or(c, 4, x30), num(30), num(31)));
  }
  std::array<Z3_ast,3> calOf(Expr *dn) {
    auto it = cal.find(dn); if (it != cal.end()) return it->second;
    long y0, m0, d0, y1, m1, d1; cal_ymd((long)dn->lo, y0, m0, d0); cal_ymd((long)dn->hi, y1, m1, d1);
    Z3_ast y = fvar(y0, y1), m = fvar(1, 12), d = fvar(1, 31), x = T(dn);
    Z3_ast f = calForm(y, m, y0, y1); side.push_back(eq(add(f, sub(d, num(1))), x));
    side.push_back(le(d, eomForm(y, m, y0, y1)));
    std::array<Z3_ast,3> r{y, m, d}; cal[dn] = r; return r;
  }
  Z3_ast T(Expr *e) {
    if (e->op == CONST) return num(e->k);
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
      case VAR: r = var((int)e->k); break;
      case LIN: { r = nullptr; for (auto &t : e->t) { Z3_ast x = t.c == 1 ? T(t.x) : mul(num(t.c), T(t.x)); r = r ? add(r, x) : x; } if (e->k != 0) r = add(r, num(e->k)); break; }
      case MUL: r = mul(T(e->a), T(e->b)); break;
      case DIV: r = divOf(e->a, e->k); break;
      case MOD: r = sub(T(e->a), mul(num(e->k), divOf(e->a, e->k))); break;
      case ITE: r = Z3_mk_ite(c, B(e->a), T(e->b), T(e->c)); break;
      case EQ0: case LE0: case NOT: case AND: case OR: r = Z3_mk_ite(c, B(e), num(1), num(0)); break;
      case TAB: {
        if (e->lo == 0 && e->hi == 1) { r = Z3_mk_ite(c, B(e), num(1), num(0)); break; }
        // group runs of equal values
        Z3_ast a = T(e->a); size_t n = e->tab.size(); r = nullptr;
        std::map<std::string, std::pair<I, std::vector<bool>>> g; for (size_t i = 0; i < n; i++) { auto &p = g[i2s(e->tab[i])]; p.first = e->tab[i]; p.second.resize(n); p.second[i] = true; }
        if (g.size() * 2 > n) { r = num(e->tab[n - 1]); for (size_t i = n - 1; i-- > 0;) { if (e->tab[i] == e->tab[i + 1]) { continue; } r = Z3_mk_ite(c, le(a, num(e->k + (I)i)), num(e->tab[i]), r); } 
          // the chain above must test from low to high: rebuild
          r = num(e->tab[n - 1]); for (size_t i = n - 1; i-- > 0;) if (e->tab[i] != e->tab[i + 1]) r = Z3_mk_ite(c, le(a, num(e->k + (I)i)), num(e->tab[i]), r); }
        else for (auto &p : g) { Z3_ast v = num(p.second.first); r = r ? Z3_mk_ite(c, inSet(a, e->k, p.second.second), v, r) : v; }
        break; }
      case CALY: r = calOf(e->a)[0]; break; case CALM: r = calOf(e->a)[1]; break; case CALD: r = calOf(e->a)[2]; break;
      case EOM: r = eomForm(T(e->a), T(e->b), e->a->lo, e->a->hi); break;
      case CALN: r = add(calForm(T(e->a), T(e->b), e->a->lo, e->a->hi), sub(T(e->c), num(1))); break;
      default: fprintf(stderr, "symexec: cannot translate op %d\n", e->op); z3failed = true; r = num(0);
    }
    memo[e] = r; return r;
  }
  Z3_ast B(Expr *e) {
    if (e->op == CONST) return e->k ? Z3_mk_true(c) : Z3_mk_false(c);
    auto it = bmemo.find(e); if (it != bmemo.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
      case EQ0: {
        if (e->a->op == LIN && e->a->t.size() == 2 && e->a->k == 0 && e->a->t[0].c == 1 && e->a->t[1].c == -1) r = eq(T(e->a->t[0].x), T(e->a->t[1].x));
        else r = eq(T(e->a), num(0)); break; }
      case LE0: { // keep constants on the other side
        if (e->a->op == LIN) { Z3_ast l = nullptr, rr = num(-e->a->k); for (auto &t : e->a->t) { if (t.c > 0) { Z3_ast x = t.c == 1 ? T(t.x) : mul(num(t.c), T(t.x)); l = l ? add(l, x) : x; } else { Z3_ast x = t.c == -1 ? T(t.x) : mul(num(-t.c), T(t.x)); rr = add(rr, x); } } r = le(l ? l : num(0), rr); }
        else r = le(T(e->a), num(0)); break; }
      case NOT: r = Z3_mk_not(c, B(e->a)); break;
      case AND: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_and(c, 2, x); break; }
      case OR: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_or(c, 2, x); break; }
      case ITE: r = Z3_mk_ite(c, B(e->a), B(e->b), B(e->c)); break;
      case TAB: { std::vector<bool> in; for (auto &v : e->tab) in.push_back(v != 0); r = inSet(T(e->a), e->k, in); break; }
      default: r = Z3_mk_not(c, eq(T(e), num(0)));
    }
    bmemo[e] = r; return r;
  }
};
static void rangeBits(Expr *e, I &mx, std::unordered_set<Expr*> &seen) {
  if (!e || !seen.insert(e).second) return;
  auto upd = [&](I v) { if (v < 0) v = -v; if (v > mx) mx = v; };
  if (e->op == CALY || e->op == CALM || e->op == CALD || e->op == CALN || e->op == EOM) upd((I)365 * 20000);
  if (e->op == MOD || e->op == DIV) { upd(e->k); I x = e->a->lo < 0 ? -e->a->lo : e->a->lo, y = e->a->hi < 0 ? -e->a->hi : e->a->hi; upd((x > y ? x : y) + 2 * e->k); }
  upd(e->lo); upd(e->hi); upd(e->k);
  I s = e->op == LIN ? (e->k < 0 ? -e->k : e->k) : 0;
  for (auto &t : e->t) { I c = t.c < 0 ? -t.c : t.c, x = t.x->lo < 0 ? -t.x->lo : t.x->lo, y = t.x->hi < 0 ? -t.x->hi : t.x->hi; s += c * (x > y ? x : y); rangeBits(t.x, mx, seen); }
  upd(s); rangeBits(e->a, mx, seen); rangeBits(e->b, mx, seen); rangeBits(e->c, mx, seen);
}
static const char *dumpDir = nullptr;
// 1 sat (out = model of the slice merged into base), 0 unsat, -1 unknown
static int solve(Expr *q, std::vector<I> *out) {
  if (q->op == CONST) { if (!q->k) return 0; if (out) *out = model; return 1; }
  VSet vs = q->vars; std::vector<Expr*> sl; std::vector<bool> used(pc.size());
  for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i] && (pc[i]->vars & vs)) { used[i] = true; sl.push_back(pc[i]); if ((pc[i]->vars | vs) != vs) vs |= pc[i]->vars; ch = true; } }
  double t0 = now();
  if (!zc.c || zc.uses++ > 60) {
    if (zc.c) Z3_del_context(zc.c);
    Z3_config cfg = Z3_mk_config(); zc.c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(zc.c, z3err); zc.uses = 0;
  }
  Tr tr; tr.c = zc.c; I mx = 1; std::unordered_set<Expr*> seen; rangeBits(q, mx, seen); for (auto *e : sl) rangeBits(e, mx, seen);
  for (size_t i = 0; i < g_vars.size(); i++) if (vs >> i & 1) { I a = g_vars[i].lo, b = g_vars[i].hi; if (a < 0) a = -a; if (b < 0) b = -b; mx = std::max(mx, std::max(a, b)); }
  unsigned W = 2; while (W < 120 && ((I)1 << (W - 2)) <= mx) W++;
  tr.W = W; tr.useInt = W > 44; tr.bv = Z3_mk_bv_sort(zc.c, W);
  z3failed = false;
  Z3_solver s = tr.useInt ? Z3_mk_simple_solver(zc.c) : Z3_mk_solver_for_logic(zc.c, Z3_mk_string_symbol(zc.c, "QF_BV"));
  Z3_solver_inc_ref(zc.c, s);
  Z3_params p = Z3_mk_params(zc.c); Z3_params_inc_ref(zc.c, p); Z3_params_set_uint(zc.c, p, Z3_mk_string_symbol(zc.c, "rlimit"), z3_rlimit); Z3_solver_set_params(zc.c, s, p); Z3_params_dec_ref(zc.c, p);
  std::vector<Z3_ast> as; as.push_back(tr.B(q)); for (auto *e : sl) as.push_back(tr.B(e));
  for (size_t i = 0; i < g_vars.size(); i++) if (vs >> i & 1) tr.var((int)i);
  for (auto &al : allowed) if (al.first->op == VAR && (al.first->vars & vs)) { bool all = true; for (bool b : al.second) all = all && b; if (!all) as.push_back(tr.inSet(tr.var((int)al.first->k), al.first->lo, al.second)); }
  for (auto &x : tr.side) as.push_back(x);
  for (auto &x : as) Z3_solver_assert(zc.c, s, x);
  int res = -1;
  if (!z3failed) { Z3_lbool r = Z3_solver_check(zc.c, s); res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; }
  if (z3failed) res = -1;
  if (res == 1 && out) {
    *out = model; Z3_model m = Z3_solver_get_model(zc.c, s); Z3_model_inc_ref(zc.c, m);
    for (auto &v : tr.vars) {
      Z3_ast val; if (!Z3_model_eval(zc.c, m, v.second, true, &val)) { res = -1; break; }
      std::string ss = Z3_get_numeral_string(zc.c, val); I x = 0; bool neg = false; for (char ch : ss) { if (ch == '-') neg = true; else if (ch >= '0' && ch <= '9') x = x * 10 + (ch - '0'); } if (neg) x = -x;
      if (!tr.useInt && (x >> (W - 1) & 1)) x -= (I)1 << W;
      (*out)[v.first] = x;
    }
    Z3_model_dec_ref(zc.c, m);
    // the model must satisfy query and path condition under the evaluator: cross-validates the translation
    if (res == 1) { EvalCtx ec{out, {}}; bool ok = evalE(q, ec) != 0; for (auto *e : sl) ok = ok && evalE(e, ec) != 0; if (!ok) { S->xcheck_bad++; logLine("{\"type\":\"engine_error\",\"msg\":" + jstr("model does not satisfy query: " + str(q, 8)) + "}"); res = -1; } }
  }
  double dt = now() - t0; u64 us = (u64)(dt * 1e6);
  S->queries++; S->solver_us += us; mySolver += dt; u64 mq = S->maxq_us; while (us > mq && !S->maxq_us.compare_exchange_weak(mq, us)) {}
  if (res == 1) S->sat++; else if (res == 0) S->unsat++; else S->unknown++;
  if (dumpDir && (dt > 0.02 || res < 0)) { std::string f = std::string(dumpDir) + "/q" + std::to_string(getpid()) + "_" + std::to_string((u64)S->queries) + ".smt2"; if (FILE *o = fopen(f.c_str(), "w")) { fprintf(o, "; %.3fs res=%d W=%u int=%d\n; %s\n%s(check-sat)\n", dt, res, W, tr.useInt, str(q, 6).c_str(), Z3_solver_to_string(zc.c, s)); fclose(o); } }
  Z3_solver_dec_ref(zc.c, s);
  return res;
}
// ------------------------------------------------------------------------------------------- constraints and branching
static Bits &allowedOf(Expr *b) { auto it = allowed.find(b); if (it != allowed.end()) return it->second; return allowed[b] = Bits((size_t)span(b), true); }
// variables that the path condition has narrowed down to one value
static std::vector<signed char> isFixed; static std::vector<I> fixVal; static VSet fixedVars; static std::unordered_map<Expr*, Expr*> fixMemo;
static void noteFixed(Expr *v) {
  size_t i = (size_t)v->k; if (i < isFixed.size() && isFixed[i]) return;
  Bits &al = allowedOf(v); int n = 0; I x = 0; for (size_t q = 0; q < al.size() && n < 2; q++) if (al[q]) { n++; x = v->lo + (I)q; }
  if (n != 1) return;
  if (isFixed.size() <= i) { isFixed.resize(i + 1); fixVal.resize(i + 1); }
  isFixed[i] = 1; fixVal[i] = x; fixedVars |= v->vars; fixMemo.clear();
}
static Expr *simp(Expr *e) { return (e->vars & fixedVars) ? substE(e, isFixed, fixVal, fixedVars, fixMemo) : e; }
static void addPC(Expr *c) {
  if (isC(c)) { if (!c->k) engineError("contradictory constraint added"); return; }
  if (c->op == AND) { addPC(c->a); addPC(c->b); return; }
  if (c->op == NOT && c->a->op == OR) { addPC(mkNot(c->a->a)); addPC(mkNot(c->a->b)); return; }
  if (!known.insert(c).second) return;
  Expr *b = c->op == TAB ? c->a : (c->base && c->base != c) ? c->base : (c->op == VAR ? c : nullptr);
  if (b) {
    Bits &al = allowedOf(b); for (I v = b->lo; v <= b->hi; v++) if (!evalAt(c, b, v)) al[(size_t)(v - b->lo)] = false;
    if (b->op == VAR) { noteFixed(b); return; }
  }
  pc.push_back(c); if (__builtin_popcountll((u64)c->vars) + __builtin_popcountll((u64)(c->vars >> 64)) > 0) entangled |= c->vars;
}
static int pendingChildren = 0;
// forks; returns true in the child
static bool forkPath() {
  checkStop();
  S->forks++;
  bool tok = false; int t = S->tokens; while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { tok = true; break; }
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { S->tokens += tok; if (S->engine_err++ < 20) logLine("{\"type\":\"engine_error\",\"msg\":\"fork failed\"}"); S->ended_early++; return false; }
  if (p == 0) { isRoot = false; holdsToken = tok; mySolver = 0; cpuAtFork = cpuNow(); prctl(PR_SET_PDEATHSIG, 0); alarm(2); return true; }
  if (!tok) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) { S->crashed++; logLine("{\"type\":\"engine_error\",\"msg\":\"path process killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); } }
  return false;
}
static bool take(Expr *c, bool side) { addPC(side ? c : mkNot(c)); return side; }
static bool branchE(Expr *c) {
  c = asBool(c);
  if (isC(c)) return c->k != 0;
  S->branches++;
  c = simp(c); if (isC(c)) return c->k != 0;
  if (known.count(c)) return true;
  Expr *nc = mkNot(c); if (known.count(nc)) return false;
  Expr *b = c->op == TAB ? c->a : c->base && c->base != c ? c->base : c->op == VAR ? c : nullptr;
  bool simple = false;
  if (b) {
    Bits &al = allowedOf(b); bool t = false, f = false;
    for (I v = b->lo; v <= b->hi && !(t && f); v++) if (al[(size_t)(v - b->lo)]) { if (evalAt(c, b, v)) t = true; else f = true; }
    if (!t || !f) { S->unary++;
      if (xcheck_mod && S->unary % xcheck_mod == 0) { S->xchecks++; int r = solve(t ? nc : c, nullptr); if (r == 1) { S->xcheck_bad++; engineError("domain reasoning disagrees with z3 on " + str(c)); } }
      return t; }
    simple = b->op == VAR && !(b->vars & entangled);
  }
  bool cv = evalM(c, model) != 0; std::vector<I> om;
  if (simple) {
    om = model; Bits &al = allowedOf(b); bool found = false;
    for (I v = b->lo; v <= b->hi; v++) if (al[(size_t)(v - b->lo)] && (evalAt(c, b, v) != 0) != cv) { om[(size_t)b->k] = v; found = true; break; }
    S->unary++; if (!found) return cv;
  } else {
    int r = solve(cv ? nc : c, &om);
    if (r == 0) { known.insert(cv ? c : nc); return cv; }
    if (r < 0) { // undecided: continue on the model's side only, and say so
      S->ended_early++; return take(c, cv); }
  }
  if (forkPath()) { model = om; return take(c, !cv); }
  return take(c, cv);
}
static I concE(Expr *e) {
  if (isC(e)) return e->k;
  S->conc++;
  if (dumpDir) { void *bt[12]; int n = backtrace(bt, 12); std::string o = "CONC"; char b[32]; Dl_info di; static u64 base = dladdr((void*)&sym_main, &di) ? (u64)di.dli_fbase : 0; for (int i = 1; i < n; i++) { snprintf(b, 32, " 0x%llx", (unsigned long long)((u64)bt[i] - base)); o += b; } dprintf(2, "%s | %s\n", o.c_str(), str(e, 5).c_str()); }
  for (int n = 0;; n++) {
    I v = evalM(e, model);
    Expr *q = mkEq(e, mkC(v));
    if (branchE(q)) return v;
    if (n > 5000) engineError("concretisation exceeds cap: " + str(e));
  }
}
// ------------------------------------------------------------------------------------------- shadow memory
struct Sh { Expr *e; uint8_t idx, size; };
struct Page { Sh s[4096]; };
static std::unordered_map<u64, Page*> pages; static u64 bloom[4096]; // 262144 bits over addr>>4
static inline bool maybe(u64 a) { u64 h = (a >> 4) & 262143; return bloom[h >> 6] >> (h & 63) & 1; }
static inline void mark(u64 a) { u64 h = (a >> 4) & 262143; bloom[h >> 6] |= 1ull << (h & 63); }
static inline Sh *slot(u64 a, bool make) {
  auto it = pages.find(a >> 12); if (it == pages.end()) { if (!make) return nullptr; it = pages.emplace(a >> 12, (Page*)calloc(1, sizeof(Page))).first; }
  return &it->second->s[a & 4095];
}
static inline Sh get(u64 a) { if (!maybe(a)) return Sh{nullptr, 0, 0}; Sh *s = slot(a, false); return s ? *s : Sh{nullptr, 0, 0}; }
static inline void put(u64 a, Sh v) { if (v.e) { mark(a); *slot(a, true) = v; } else if (maybe(a)) { if (Sh *s = slot(a, false)) s->e = nullptr; } }
static I sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; if (w == 1) return v & 1; u64 m = 1ull << (w - 1); v &= (1ull << w) - 1; return (i64)(v ^ m) - (i64)m; }
static Expr *loadE(u64 a, unsigned n) {   // null when all bytes are concrete
  Sh s0 = get(a); bool any = s0.e;
  if (s0.e && s0.idx == 0 && s0.size == n) { bool ok = true; for (unsigned i = 1; i < n; i++) { Sh s = get(a + i); if (s.e != s0.e || s.idx != i || s.size != n) { ok = false; break; } } if (ok) return s0.e; }
  if (!any) for (unsigned i = 1; i < n; i++) if (get(a + i).e) { any = true; break; }
  if (!any) return nullptr;
  Expr *r = mkC(0);
  for (unsigned i = 0; i < n; i++) {
    Sh s = get(a + i); Expr *x;
    if (s.e && s.idx == 0 && s.size > 1 && i + s.size <= n && s.e->op != I2F) { // a whole stored value inside the loaded range
      bool whole = true; for (unsigned q = 1; q < s.size; q++) { Sh u = get(a + i + q); if (u.e != s.e || u.idx != q || u.size != s.size) whole = false; }
      if (whole) { r = mkAdd(r, mkMulC(UW(s.e, 8 * s.size), (I)1 << (8 * i))); i += s.size - 1; continue; }
    }
    if (s.e && s.size > 1 && s.e->op != I2F) { // consecutive bytes of one stored value, taken together
      unsigned m = 1; while (i + m < n && s.idx + m < s.size) { Sh u = get(a + i + m); if (u.e != s.e || u.idx != s.idx + m || u.size != s.size) break; m++; }
      if (m > 1) { r = mkAdd(r, mkMulC(mkMod(mkDiv(UW(s.e, 8 * s.size), (I)1 << (8 * s.idx)), (I)1 << (8 * m)), (I)1 << (8 * i))); i += m - 1; continue; }
    }
    if (!s.e) x = mkC(*(unsigned char*)(a + i));
    else { if (s.e->op == I2F) engineError("partial load of a symbolic float"); x = s.size == 1 ? UW(s.e, 8) : mkMod(mkDiv(UW(s.e, 8 * s.size), (I)1 << (8 * s.idx)), 256); }
    r = mkAdd(r, mkMulC(x, (I)1 << (8 * i)));
  }
  return r;
}
static Expr *retE(Expr *e, unsigned w) {
  if (!e) return nullptr;
  if (e->op == CONST) { symrt_g_cval = w >= 64 ? (u64)e->k : (u64)e->k & ((1ull << w) - 1); return nullptr; }
  symrt_g_cval = 0;
  if (e->op != I2F) { I lim = (I)1 << (w + 8); if (e->lo < -lim || e->hi > lim) { e = SW(e, w); if (isC(e)) return retE(e, w); } }
  return e;
}
static Expr *opE(Expr *e, u64 v, unsigned w) { return e ? e : mkC(sx(v, w)); }
enum { oAdd = 13, oFAdd, oSub, oFSub, oMul, oFMul, oUDiv, oSDiv, oFDiv, oURem, oSRem, oFRem, oShl, oLShr, oAShr, oAnd, oOr, oXor };
static Expr *fold2E(Expr *a, Expr *b, unsigned w, I (*f)(I, I, unsigned)) {
  Expr *s = isC(a) ? b->base : a->base; if (!s) return nullptr; if (!isC(a) && a->base != s) return nullptr; if (!isC(b) && b->base != s) return nullptr;
  std::vector<I> v; for (I q = s->lo; q <= s->hi; q++) v.push_back(f(evalAt(a, s, q), evalAt(b, s, q), w)); return mkTab(s, s->lo, v);
}
static Expr *maskRuns(Expr *a, u64 c, unsigned w) { // sum of ((a >> lo) mod 2^len) << lo over the runs of set bits of c
  Expr *r = mkC(0);
  for (unsigned i = 0; i < w;) { if (!(c >> i & 1)) { i++; continue; } unsigned j = i; while (j < w && (c >> j & 1)) j++; r = mkAdd(r, mkMulC(mkMod(mkDiv(a, (I)1 << i), (I)1 << (j - i)), (I)1 << i)); i = j; }
  return r;
}
static Expr *andC(Expr *a, u64 c, unsigned w) {
  u64 m = w >= 64 ? ~0ull : (1ull << w) - 1; c &= m; a = UW(a, w);
  if (c == m) return a; if (!c) return mkC(0);
  auto runs = [&](u64 x) { int n = 0; for (unsigned i = 0; i < w; i++) if ((x >> i & 1) && (i == 0 || !(x >> (i - 1) & 1))) n++; return n; };
  if (runs(~c & m) < runs(c)) return mkSub(a, maskRuns(a, ~c & m, w));
  return maskRuns(a, c, w);
}
static unsigned tz(Expr *e) { // multiple of 2^tz
  if (isC(e)) { if (e->k == 0) return 64; unsigned n = 0; I k = e->k; while (!(k & 1) && n < 64) { k >>= 1; n++; } return n; }
  if (e->op != LIN) return 0; unsigned n = e->k == 0 ? 64 : tz(mkC(e->k)); for (auto &t : e->t) n = std::min(n, tz(mkC(t.c))); return n;
}
static I fOr(I x, I y, unsigned w) { u64 m = w >= 64 ? ~0ull : (1ull << w) - 1; return sx(((u64)x | (u64)y) & m, w); }
static I fAnd(I x, I y, unsigned w) { u64 m = w >= 64 ? ~0ull : (1ull << w) - 1; return sx(((u64)x & (u64)y) & m, w); }
static I fXor(I x, I y, unsigned w) { u64 m = w >= 64 ? ~0ull : (1ull << w) - 1; return sx(((u64)x ^ (u64)y) & m, w); }
static I fShl(I x, I y, unsigned w) { u64 m = w >= 64 ? ~0ull : (1ull << w) - 1; u64 s = (u64)y & m; return s >= w ? 0 : sx((u64)x << s, w); }
static I fLshr(I x, I y, unsigned w) { u64 m = w >= 64 ? ~0ull : (1ull << w) - 1; u64 s = (u64)y & m; return s >= w ? 0 : sx(((u64)x & m) >> s, w); }
static I fAshr(I x, I y, unsigned w) { u64 m = w >= 64 ? ~0ull : (1ull << w) - 1; u64 s = (u64)y & m; return s >= w ? 0 : sx((u64)((i64)sx((u64)x, w) >> s), w); }
static Expr *binE(unsigned op, unsigned w, Expr *a, Expr *b) {
  if (a->op == I2F || b->op == I2F) engineError("integer operation on a float expression");
  u64 m = w >= 64 ? ~0ull : (1ull << w) - 1;
  if (w == 1) { // booleans
    Expr *x = asBool(a), *y = asBool(b);
    switch (op) { case oAnd: case oMul: return mkAnd(x, y); case oOr: return mkOr(x, y); case oXor: case oAdd: case oSub: if (isC(x)) return x->k ? mkNot(y) : y; if (isC(y)) return y->k ? mkNot(x) : x; return mkNot(mkEq(x, y)); }
  }
  switch (op) {
    case oAdd: return mkAdd(a, b); case oSub: return mkSub(a, b);
    case oMul: { a = SW(a, w); b = SW(b, w); return mkMul(a, b); }
    case oUDiv: case oURem: case oSDiv: case oSRem: {
      bool sg = op == oSDiv || op == oSRem; bool rem = op == oURem || op == oSRem;
      a = sg ? SW(a, w) : UW(a, w); b = sg ? SW(b, w) : UW(b, w);
      if (!isC(b)) b = mkC(concE(b));
      I d = b->k; if (d == 0) engineError("division by zero");
      if (a->lo >= 0 && d > 0) return rem ? mkMod(a, d) : mkDiv(a, d);
      I ad = d < 0 ? -d : d; // truncated division
      Expr *neg = mkLe0(mkAddC(a, 1)); Expr *na = mkMulC(a, -1);
      // keep both branches well ranged
      Expr *q = mkIte(neg, mkMulC(mkDiv(na, ad), -1), mkDiv(a, ad)); 
      if (rem) return mkIte(neg, mkMulC(mkMod(na, ad), -1), mkMod(a, ad));
      return d < 0 ? mkMulC(q, -1) : q; }
    case oShl: { b = UW(b, w); if (!isC(b)) { if (Expr *f = fold2E(a, b, w, fShl)) return f; b = mkC(concE(b)); } if (b->k >= w) return mkC(0); return mkMulC(SW(a, w), (I)1 << (int)b->k); }
    case oLShr: { b = UW(b, w); if (!isC(b)) { if (Expr *f = fold2E(a, b, w, fLshr)) return f; b = mkC(concE(b)); } if (b->k >= w) return mkC(0); return mkDiv(UW(a, w), (I)1 << (int)b->k); }
    case oAShr: { b = UW(b, w); if (!isC(b)) { if (Expr *f = fold2E(a, b, w, fAshr)) return f; b = mkC(concE(b)); } return mkDiv(SW(a, w), (I)1 << (int)std::min<I>(b->k, w - 1)); }
    case oAnd: if (Expr *f = fold2E(a, b, w, fAnd)) return f; if (isC(a)) std::swap(a, b); if (isC(b)) return andC(a, (u64)b->k, w);
      break;
    case oOr: { if (Expr *f = fold2E(a, b, w, fOr)) return f; if (isC(a)) std::swap(a, b); if (isC(b)) return mkSub(mkAddC(a, b->k), andC(a, (u64)b->k & m, w)); break; }
    case oXor: { if (Expr *f = fold2E(a, b, w, fXor)) return f; if (isC(a)) std::swap(a, b); if (isC(b)) { if (((u64)b->k & m) == m) return mkAddC(mkMulC(a, -1), -1); return mkSub(mkAddC(a, (I)((u64)b->k & m)), mkMulC(andC(a, (u64)b->k, w), 2)); } break; }
  }
  // symbolic and/or/xor
  Expr *x = UW(a, w), *y = UW(b, w);
  if (x->hi <= 1 && y->hi <= 1) { if (op == oAnd) return mkAnd(x, y); if (op == oOr) return mkOr(x, y); return mkNot(mkEq(x, y)); }
  if (tz(x) < tz(y)) std::swap(x, y);
  if (tz(x) >= 1 && y->hi < ((I)1 << tz(x))) { if (op == oAnd) return mkC(0); return mkAdd(x, y); }
  if (x->hi < 65536 && y->hi < 65536) { // bit by bit (cheap when only the sign or a mask of the result is used)
    Expr *r = mkC(0); for (unsigned i = 0; i < 16 && ((I)1 << i) <= std::max(x->hi, y->hi); i++) { auto bit = [&](Expr *e) { return mkMod(mkDiv(e, (I)1 << i), 2); }; Expr *p = mkEq(bit(x), mkC(1)), *q = mkEq(bit(y), mkC(1)); Expr *z = op == oAnd ? mkAnd(p, q) : op == oOr ? mkOr(p, q) : mkNot(mkEq(bit(x), bit(y))); r = mkAdd(r, mkMulC(z, (I)1 << i)); }
    return r;
  }
  if (span(x) < span(y)) std::swap(x, y);
  return binE(op, w, x, mkC(concE(y)));
}
// ------------------------------------------------------------------------------------------- the ABI used by instrumented code
extern "C" {
Expr *symrt_bin(u32 op, u32 w, Expr *a, u64 av, Expr *b, u64 bv) { return retE(binE(op, w, opE(a, av, w), opE(b, bv, w)), w); }
Expr *symrt_sext_opt(Expr *e, u32 w) { return e ? SW(e, w) : nullptr; }
static Expr *cmpE(unsigned p, unsigned w, Expr *a, Expr *b) {
  if (a->op == I2F || b->op == I2F) engineError("integer comparison of a float expression");
  if (w == 1) { a = UW(a, 1); b = UW(b, 1); }
  if (p == 32 || p == 33) {
    I m = (I)1 << (w - 1); auto fs = [&](Expr *e) { return e->lo >= -m && e->hi < m; };
    Expr *x, *y; if (fs(a) && fs(b)) { x = a; y = b; } else { x = UW(a, w); y = UW(b, w); }
    Expr *e = mkEq(x, y); return p == 32 ? e : mkNot(e);
  }
  bool sg = p >= 38; Expr *x = sg ? SW(a, w) : UW(a, w), *y = sg ? SW(b, w) : UW(b, w);
  switch (p) { case 34: case 38: return mkLt(y, x); case 35: case 39: return mkLe(y, x); case 36: case 40: return mkLt(x, y); default: return mkLe(x, y); }
}
Expr *symrt_cmp(u32 p, u32 w, Expr *a, u64 av, Expr *b, u64 bv) { return retE(cmpE(p, w, opE(a, av, w), opE(b, bv, w)), 1); }
static bool fval(u64 v, unsigned w, double &d) { if (w == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &v, 8); return true; }
static u64 fbits(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
static Expr *fconst(double d) { return d == std::floor(d) && std::fabs(d) < 1e15 ? mkI2F(mkC((I)d)) : nullptr; }
static Expr *retF(Expr *e, unsigned w) { if (e->op == I2F && isC(e->a)) { symrt_g_cval = fbits((double)(i64)e->a->k, w); return nullptr; } symrt_g_cval = 0; return e; }
static I flim(unsigned w) { return w == 32 ? (I)1 << 24 : (I)1 << 53; }
static Expr *toInt(Expr *e) { if (e->op != I2F) engineError("float operation on an integer expression"); return e->a; }
static Expr *i2f(Expr *x, unsigned w) { I l = flim(w); if (x->lo < -l || x->hi > l) { I v = concE(x); return mkI2F(mkC((I)(i64)(w == 32 ? (double)(float)(i64)v : (double)(i64)v))); } return mkI2F(x); }
Expr *symrt_fbin(u32 op, u32 w, Expr *a, u64 av, Expr *b, u64 bv) {
  double x, y; fval(av, w, x); fval(bv, w, y);
  Expr *p = a ? a : fconst(x), *q = b ? b : fconst(y);
  if (p && q && (op == oFAdd || op == oFSub || op == oFMul)) {
    Expr *r = op == oFAdd ? mkAdd(toInt(p), toInt(q)) : op == oFSub ? mkSub(toInt(p), toInt(q)) : mkMul(toInt(p), toInt(q));
    I l = flim(w); if (r->lo >= -l && r->hi <= l) return retF(mkI2F(r), w);
  }
  if (a) x = (double)(i64)concE(toInt(a)); if (b) y = (double)(i64)concE(toInt(b));
  double r; if (w == 32) { float f = (float)x, g = (float)y; r = op == oFAdd ? f + g : op == oFSub ? f - g : op == oFMul ? f * g : op == oFDiv ? f / g : fmodf(f, g); } else r = op == oFAdd ? x + y : op == oFSub ? x - y : op == oFMul ? x * y : op == oFDiv ? x / y : fmod(x, y);
  symrt_g_cval = fbits(r, w); return nullptr;
}
Expr *symrt_fcmp(u32 p, u32 w, Expr *a, u64 av, Expr *b, u64 bv) {
  double x, y; fval(av, w, x); fval(bv, w, y);
  u32 q = p & 7;  // 1 eq, 2 gt, 3 ge, 4 lt, 5 le, 6 ne ; expressions are never NaN
  if ((!a && std::isnan(x)) || (!b && std::isnan(y))) { symrt_g_cval = p >= 8; return nullptr; }
  Expr *r;
  if (a && b) { Expr *d = mkSub(toInt(a), toInt(b)); r = q == 1 ? mkEq0(d) : q == 2 ? mkLe0(mkAddC(mkMulC(d, -1), 1)) : q == 3 ? mkLe0(mkMulC(d, -1)) : q == 4 ? mkLe0(mkAddC(d, 1)) : q == 5 ? mkLe0(d) : q == 6 ? mkNot(mkEq0(d)) : mkC(q == 7 ? 1 : 0); return retE(r, 1); }
  if (!a) { std::swap(a, b); std::swap(x, y); u32 sw[8] = {0, 1, 4, 5, 2, 3, 6, 7}; q = sw[q]; }
  Expr *e = toInt(a); double fl = std::floor(y); bool integral = fl == y;
  if (std::fabs(y) > 1e18) { symrt_g_cval = q == 6 || q == 7 || (y > 0 ? (q == 4 || q == 5) : (q == 2 || q == 3)); return nullptr; }
  I k = (I)(i64)fl; // e < y  <=>  e <= k (non-integral) ; e <= y <=> e <= k
  switch (q) {
    case 1: r = integral ? mkEq(e, mkC(k)) : mkC(0); break;
    case 6: r = integral ? mkNot(mkEq(e, mkC(k))) : mkC(1); break;
    case 4: r = integral ? mkLt(e, mkC(k)) : mkLe(e, mkC(k)); break;
    case 5: r = mkLe(e, mkC(k)); break;
    case 2: r = mkLt(mkC(k), e); break;
    case 3: r = integral ? mkLe(mkC(k), e) : mkLt(mkC(k), e); break;
    default: r = mkC(q == 7);
  }
  return retE(r, 1);
}
Expr *symrt_cast(u32 op, u32 fw, u32 tw, Expr *e) {
  switch (op) {
    case 38: if (tw == 1) return retE(asBool(e), 1); return retE(e, tw);
    case 39: return retE(fw == 1 ? asBool(e) : UW(e, fw), tw);
    case 40: return retE(fw == 1 ? mkMulC(asBool(e), -1) : SW(e, fw), tw);
    case 41: case 42: { Expr *x = toInt(e); return retE(x, tw); }
    case 43: return retF(i2f(UW(e, fw), tw), tw);
    case 44: return retF(i2f(SW(e, fw), tw), tw);
    case 45: { Expr *x = toInt(e); return retF(i2f(x, tw), tw); }
    case 46: return retF(e, tw);
    case 47: case 48: return retE(e, tw);
    case 49: if (e->op == I2F) { I v = concE(e->a); symrt_g_cval = fbits((double)(i64)v, fw); return nullptr; } return retE(e, tw);
  }
  engineError("cast op"); return nullptr;
}
bool symrt_br(Expr *c, bool v) { if (!c) return v; return branchE(c); }
Expr *symrt_select(Expr *c, u64 cv, u32 w, Expr *a, u64 av, Expr *b, u64 bv) {
  (void)cv; c = asBool(c);
  bool isF = (a && a->op == I2F) || (b && b->op == I2F);
  if (isC(c)) { bool t = c->k; symrt_g_cval = t ? av : bv; Expr *r = t ? a : b; if (r) symrt_g_cval = 0; return r; }
  if (isF) {
    double x, y; fval(av, w, x); fval(bv, w, y); Expr *p = a ? a : fconst(x), *q = b ? b : fconst(y);
    if (p && q) return retF(mkIte(c, p, q), w);
  }
  bool ptr = w == 64 && ((!a && av > (1ull << 40) && av < (1ull << 48)) || (!b && bv > (1ull << 40) && bv < (1ull << 48)));
  if (isF || ptr) { bool t = branchE(c); symrt_g_cval = t ? av : bv; Expr *r = t ? a : b; if (r) symrt_g_cval = 0; return r; }
  Expr *x = opE(a, av, w), *y = opE(b, bv, w);
  if (w == 1) { x = asBool(x); y = asBool(y); }
  return retE(mkIte(c, x, y), w);
}
Expr *symrt_gep(Expr *b, u64 bv, Expr *i, u64 iv, u64 scale, u64 off) {
  Expr *e = opE(b, bv, 64); Expr *ix = i ? SW(i, 64) : mkC((i64)iv);
  return retE(mkAddC(mkAdd(e, mkMulC(ix, (i64)scale)), (i64)off), 64);
}
Expr *symrt_intr(u32 id, u32 w, Expr *a, u64 av, Expr *b, u64 bv) {
  if (id >= 10 && id != 13) { // float
    if (!a) engineError("float intrinsic");
    if (id == 10 || id == 11 || id == 14) return retF(a, w);
    if (id == 15) return retF(mkI2F(mkMulC(toInt(a), -1)), w);
    if (id == 12) { Expr *x = toInt(a); return retF(mkI2F(mkIte(mkLe0(mkAddC(x, 1)), mkMulC(x, -1), x)), w); }
    engineError("float intrinsic");
  }
  Expr *x = opE(a, av, w), *y = opE(b, bv, w);
  switch (id) {
    case 0: x = UW(x, w); y = UW(y, w); return retE(mkIte(mkLe(x, y), x, y), w);
    case 1: x = UW(x, w); y = UW(y, w); return retE(mkIte(mkLe(x, y), y, x), w);
    case 2: x = SW(x, w); y = SW(y, w); return retE(mkIte(mkLe(x, y), x, y), w);
    case 3: x = SW(x, w); y = SW(y, w); return retE(mkIte(mkLe(x, y), y, x), w);
    case 4: x = SW(x, w); return retE(mkIte(mkLe0(mkAddC(x, 1)), mkMulC(x, -1), x), w);
    case 5: x = UW(x, w); y = UW(y, w); return retE(mkIte(mkLe(x, y), mkC(0), mkSub(x, y)), w);
    case 6: { x = UW(x, w); y = UW(y, w); Expr *s = mkAdd(x, y); I m = ((I)1 << w) - 1; return retE(mkIte(mkLe(s, mkC(m)), s, mkC(-1)), w); }
  }
  // ctlz, cttz, bswap, ctpop
  auto f = [&](I v) -> I { u64 u = (u64)v & (w >= 64 ? ~0ull : (1ull << w) - 1); switch (id) { case 7: return u ? __builtin_clzll(u) - (64 - (int)w) : (int)w; case 8: return u ? __builtin_ctzll(u) : (int)w; case 13: return __builtin_popcountll(u); default: { u64 r = 0; for (unsigned i = 0; i < w; i += 8) r |= (u >> i & 255) << (w - 8 - i); return sx(r, w); } } };
  if (x->base) { Expr *s = x->base; std::vector<I> v; for (I q = s->lo; q <= s->hi; q++) v.push_back(f(evalAt(x, s, q))); return retE(mkTab(s, s->lo, v), w); }
  return retE(mkC(f(concE(x))), w);
}
Expr *symrt_ovf(u32 id, u32 w, Expr *a, u64 av, Expr *b, u64 bv) {
  Expr *x = opE(a, av, w), *y = opE(b, bv, w); bool sg = id == 0 || id == 2 || id == 4;
  x = sg ? SW(x, w) : UW(x, w); y = sg ? SW(y, w) : UW(y, w);
  Expr *r = id <= 1 ? mkAdd(x, y) : id <= 3 ? mkSub(x, y) : mkMul(x, y);
  I lo = sg ? -((I)1 << (w - 1)) : 0, hi = sg ? ((I)1 << (w - 1)) - 1 : ((I)1 << w) - 1;
  Expr *o = mkOr(mkLt(r, mkC(lo)), mkLt(mkC(hi), r));
  Expr *oe = retE(o, 1); u64 ov = symrt_g_cval; Expr *re = retE(r, w);
  symrt_g_ret[1] = oe; symrt_g_ret[2] = (Expr*)ov; return re;
}
u64 symrt_conc(Expr *e, u64 v, u32 w) {
  if (!e) return v;
  if (e->op == I2F) return fbits((double)(i64)concE(e->a), w);
  I r = concE(w == 64 ? SW(e, 64) : UW(e, w)); return (u64)r;
}
u64 symrt_switch(Expr *c, u32 w, u32 n, const u64 *cases, const u32 *groups) {
  Expr *e = SW(c, w); if (isC(e)) return (u64)e->k;
  // decide one successor group at a time
  std::map<u32, std::vector<u64>> g; for (u32 i = 0; i < n; i++) if (groups[i] != 0) g[groups[i]].push_back(cases[i]);
  for (auto &p : g) {
    Expr *in = mkC(0); for (u64 v : p.second) in = mkOr(in, mkEq(e, mkC(sx(v, w))));
    if (branchE(in)) return p.second[0];
  }
  // default group: any value that is not a case, or a case of group 0
  for (u32 i = 0; i < n; i++) if (groups[i] == 0) return cases[i];
  for (u64 v = 0;; v++) { bool used = false; for (u32 i = 0; i < n; i++) if (cases[i] == v) used = true; if (!used) return v; }
}
Expr *symrt_load(u64 a, u32 n) {
  if (n <= 16 && !maybe(a) && !maybe(a + n - 1)) return nullptr;
  Expr *e = loadE(a, n); if (!e) return nullptr;
  if (isC(e)) { // part of a stored value that is the same for every input: the load that follows reads it from memory
    if (n > 8) engineError("wide constant part of a symbolic value"); u64 v = (u64)e->k; memcpy((void*)a, &v, n);
    return nullptr;
  }
  return e;
}
Expr *symrt_load_sa(Expr *addr, u32 n) {
  unsigned w = n * 8; addr = SW(addr, 64);
  auto fin = [&](Expr *e) -> Expr* { if (isC(e)) { symrt_g_dummy[0] = (u64)e->k; return nullptr; } symrt_g_dummy[0] = 0; return e; };
  Expr *b = addr->base;
  if (b && !isC(addr)) {
    Bits al = allowedOf(b); std::vector<I> v((size_t)span(b)); std::vector<std::pair<I, Expr*>> se; bool anySym = false; I some = 0; bool have = false;
    for (I q = b->lo; q <= b->hi; q++) if (al[(size_t)(q - b->lo)]) {
      u64 p = (u64)evalAt(addr, b, q); Expr *e = loadE(p, n);
      if (e) { anySym = true; } else { u64 x = 0; memcpy(&x, (void*)p, n); v[(size_t)(q - b->lo)] = sx(x, w); e = mkC(sx(x, w)); if (!have) { some = sx(x, w); have = true; } }
      se.push_back({q, e});
    }
    if (!anySym) { for (I q = b->lo; q <= b->hi; q++) if (!al[(size_t)(q - b->lo)]) v[(size_t)(q - b->lo)] = some; return fin(mkTab(b, b->lo, v)); }
    if (se.size() <= 40) { bool fl = false; for (auto &x : se) if (x.second->op == I2F) fl = true; if (!fl) { Expr *r = se.back().second; for (size_t i = se.size() - 1; i-- > 0;) r = mkIte(mkEq(b, mkC(se[i].first)), se[i].second, r); return fin(r); } }
  }
  u64 p = (u64)concE(addr); Expr *e = loadE(p, n);
  symrt_g_dummy[0] = 0; if (!e) { memcpy(symrt_g_dummy, (void*)p, n); return nullptr; }
  return e;
}
void symrt_store(u64 a, u32 n, Expr *e) {
  if (!e) { for (u32 i = 0; i < n; i++) put(a + i, Sh{nullptr, 0, 0}); return; }
  if (n == 1 && e->op != I2F && (e->lo < -128 || e->hi > 255)) e = UW(e, 8);
  for (u32 i = 0; i < n; i++) put(a + i, Sh{e, (uint8_t)i, (uint8_t)n});
}
void symrt_memcpy(u64 d, u64 s, u64 n) {
  if (d == s || !n) return;
  if (d < s) for (u64 i = 0; i < n; i++) put(d + i, get(s + i));
  else for (u64 i = n; i-- > 0;) put(d + i, get(s + i));
}
void symrt_memset(u64 d, Expr *e, u64 n) { for (u64 i = 0; i < n; i++) put(d + i, e ? Sh{UW(e, 8), 0, 1} : Sh{nullptr, 0, 0}); }
void symrt_clear(u64 d, u64 n) { if (n > (1u << 20)) return; for (u64 i = 0; i < n;) { if (!maybe(d + i)) { i += 16 - ((d + i) & 15); continue; } put(d + i, Sh{nullptr, 0, 0}); i++; } }
void symrt_free(void *p) { if (p) symrt_clear((u64)p, malloc_usable_size(p)); }
void symrt_check_concrete(u64 p, u64 n, const char *what) {
  for (u64 i = 0; i < n; i++) if (get(p + i).e) { Expr *e = get(p + i).e; concE(e->op == I2F ? e->a : e); 
      // write the concrete bytes back
      Sh s = get(p + i); u64 st = p + i - s.idx; I v = evalM(e->op == I2F ? e->a : e, model); u64 u = e->op == I2F ? fbits((double)(i64)v, s.size * 8) : (u64)v; memcpy((void*)st, &u, s.size); for (unsigned k = 0; k < s.size; k++) put(st + k, Sh{nullptr, 0, 0}); (void)what; }
}
void symrt_byval(u64, Expr *, u64) {}
static std::unordered_set<void*> *instrSet;
bool symrt_is_instr(void *f) { if (!instrSet) { instrSet = new std::unordered_set<void*>(); for (u64 i = 0; i < symrt_fn_naddrs; i++) instrSet->insert(symrt_fn_addrs[i]); } return instrSet->count(f); }
u64 symrt_ext_arg(Expr *e, u64 v, u32 w, const char *name) { (void)name; return symrt_conc(e, v, w); }
u64 symrt_sink_arg(void *stream, Expr *e, u64 v, u32 w, const char *name) { if (!e) return v; if (stream == (void*)&std::cout || stream == (void*)&std::cerr) return v; return symrt_conc(e, v, w); }
void symrt_unknown_ext(u64 p, const char *name);
void symrt_sink_mem(void *stream, u64 p, const char *name) { if (stream == (void*)&std::cout || stream == (void*)&std::cerr) return; symrt_unknown_ext(p, name); }
bool symrt_any_sym(u64 p, u64 n) { for (u64 i = 0; i < n; i++) if (get(p + i).e) return true; return false; }
void symrt_unknown_ext(u64 p, const char *name) {
  if (p < 4096) return;
  for (u64 i = 0; i < 64; i++) if (get(p + i).e) engineError(std::string("symbolic memory passed to external function ") + name);
}
// natively compiled character-classification targets of indirect calls: pure functions of one byte
struct CtypeProbe : std::ctype<char> { using std::ctype<char>::do_tolower; };
static Expr *pure_tab[3]; static Expr *g_pureArg; static void *g_pureFn; static int g_pureIdx;
static Expr *g_pureRes; static u64 g_pureVal; static void *g_pureThis; static u64 g_pureDef;
static u64 pureThunk() { symrt_g_ret[0] = g_pureRes; return g_pureVal; }
void *symrt_icall(void *f, u32 n, Expr **e, u64 *v) {
  if (symrt_is_instr(f)) return f;
  static void *tl = nullptr, *tu = nullptr, *wd = nullptr, *nw = nullptr;
  if (!tl) { // vtable slots of the classic ctype<char> facet: [2]=do_toupper(c) [4]=do_tolower(c) [6]=do_widen(c) [8]=do_narrow(c,d)
    const std::ctype<char> &ct = std::use_facet<std::ctype<char>>(std::locale::classic()); void **vt = *(void***)&ct; tu = vt[2]; tl = vt[4]; wd = vt[6]; nw = vt[8]; }
  if (n >= 2 && e[1] && (f == tl || f == tu || f == wd || f == nw)) {
    Expr *x = UW(e[1], 8);
    if (x->base) {
      typedef char (*F1)(void*, char); typedef char (*F2)(void*, char, char);
      Expr *s = x->base; std::vector<I> t; for (I q = s->lo; q <= s->hi; q++) { char c = (char)evalAt(x, s, q); c = f == nw ? ((F2)f)((void*)v[0], c, (char)v[2]) : ((F1)f)((void*)v[0], c); t.push_back((I)(signed char)c); }
      Expr *r = mkTab(s, s->lo, t); g_pureRes = isC(r) ? nullptr : r; g_pureVal = isC(r) ? (u64)(unsigned char)r->k : 0;
      return (void*)pureThunk;
    }
  }
  for (u32 i = 0; i < n; i++) if (e[i]) v[i] = symrt_conc(e[i], v[i], 64);
  { // facet functions of libstdc++ over a range [lo,hi): only the range counts, not what happens to lie behind it
    static std::unordered_map<void*, bool> facet; auto it = facet.find(f);
    if (it == facet.end()) { Dl_info di{}; bool y = dladdr(f, &di) && di.dli_sname && (strstr(di.dli_sname, "St5ctypeIcE10do_to") || strstr(di.dli_sname, "collateIcE12do_transform")); it = facet.emplace(f, y).first; }
    if (it->second && n >= 3 && v[n - 2] <= v[n - 1] && v[n - 1] - v[n - 2] < 4096) { if (symrt_any_sym(v[n - 2], v[n - 1] - v[n - 2])) engineError("facet function over a symbolic range"); return f; }
  }
  for (u32 i = 0; i < n; i++) if (v[i] > 4096 && v[i] < (1ull << 47)) { for (u64 k = 0; k < 32; k++) if (get(v[i] + k).e) { /* object passed to native virtual function */ { Dl_info di{}; dladdr(f, &di); engineError(std::string("symbolic memory passed to native indirect target ") + (di.dli_sname ? di.dli_sname : "?") + " argument " + std::to_string(i)); } } }
  return f;
}
void symrt_fn(u32 i) { if (i < 65536 && !S->fnseen[i]) S->fnseen[i] = 1; }

// ------------------------------------------------------------------------------------------- harness API (shadow ABI)
static Label &label(const char *n) {
  static std::unordered_map<std::string, int> cache; auto it = cache.find(n); if (it != cache.end()) return S->labels[it->second];
  slock(); int k = S->nlabels, i; for (i = 0; i < k; i++) if (!strncmp(S->labels[i].name, n, 119)) break;
  if (i == k && k < 255) { strncpy(S->labels[i].name, n, 119); S->nlabels = k + 1; } sunlock();
  cache[n] = i; return S->labels[i];
}
static std::string uniq(const char *n) { std::string s = n; int k = 1; for (;;) { bool u = false; for (auto &v : g_vars) if (v.name == s) u = true; if (!u) return s; s = std::string(n) + "#" + std::to_string(++k); } }
int sym_int(const char *name, int lo, int hi) {
  static std::unordered_set<std::string> fixed; 
  I l = lo, h = hi; if (symrt_g_args[1] || symrt_g_args[2]) engineError("symbolic bounds");
  if (h < l) engineError("empty domain");
  Expr *e = l == h ? mkC(l) : mkVar(uniq(name), l, h);
  if (l != h) model.push_back(l + (h - l) / 2);
  if (isC(e)) { symrt_g_ret[0] = nullptr; return lo; }
  symrt_g_ret[0] = e; return 0;
}
long sym_long(const char *name, long lo, long hi) {
  I l = lo, h = hi; Expr *e = l == h ? mkC(l) : mkVar(uniq(name), l, h); if (l != h) model.push_back(l + (h - l) / 2);
  if (isC(e)) { symrt_g_ret[0] = nullptr; return lo; } symrt_g_ret[0] = e; return 0;
}
long sym_conc(long v) { Expr *e = symrt_g_args[0]; symrt_g_ret[0] = nullptr; if (!e) return v; return (long)concE(SW(e, 64)); }
void sym_assume(bool c) {
  Expr *e = symrt_g_args[0]; S->assumes++;
  if (!e) { if (!c) { S->pruned++; endPath(false, "assume"); } return; }
  e = asBool(e); if (isC(e)) { if (!e->k) { S->pruned++; endPath(false, "assume"); } return; }
  if (evalM(e, model)) { addPC(e); return; }
  std::vector<I> om; int r = solve(e, &om);
  if (r == 0) { S->pruned++; endPath(false, "assume"); }
  if (r < 0) { S->ended_early++; endPath(false, "assume"); }
  model = om; addPC(e);
}
static void violation(const char *lab, const std::vector<I> &m, const char *kind) {
  logLine(std::string("{\"type\":\"violation\",\"kind\":\"") + kind + "\",\"label\":" + jstr(lab) + ",\"vars\":" + varsJson(m) + "}");
}
void sym_assert(bool c, const char *lab) {
  Expr *e = symrt_g_args[0]; Label &L = label(lab); L.reached++;
  if (e) { // decided by rewriting under the variables fixed on this path: a sample of these decisions is given to z3 as well
    Expr *raw = asBool(e); e = simp(raw);
    if (isC(e) && !isC(raw)) { u64 n = S->simpfold++; if (xcheck_mod && (n < 16 || n % (xcheck_mod * 4) == 0)) { int r = solve(e->k ? mkNot(raw) : raw, nullptr); if (r < 0) S->unknown--; else { S->xchecks++; if (r == 1) { S->xcheck_bad++; engineError("rewriting disagrees with z3 on " + str(raw)); } } } }
  }
  if (!e || isC(e)) { bool ok = e ? e->k != 0 : c; if (ok) { L.folded++; S->folded++; } else { if (L.violated++ < 12) violation(lab, model, "assert"); endPath(false, "violated"); } return; }
  if (!evalM(e, model)) { if (L.violated++ < 12) violation(lab, model, "assert"); }
  else {
    std::vector<I> om; int r = solve(mkNot(e), &om);
    if (r == 0) { L.z3++; known.insert(e); return; }
    if (r < 0) { L.unknown++; S->ended_early++; }
    else if (L.violated++ < 12) violation(lab, om, "assert");
  }
  // continue on the inputs for which the assertion holds
  symrt_g_args[0] = e; sym_assume(c);
}
void sym_observe(const char *name, long v) { Expr *e = symrt_g_args[1]; obs.push_back({name, e ? SW(e, 64) : nullptr, (I)v, false, {}, {}}); }
void sym_observe_str(const char *name, const char *p, unsigned long n) {
  Obs o; o.name = name; o.isStr = true; o.e = nullptr; o.v = 0; if (symrt_g_args[2]) n = (unsigned long)concE(UW(symrt_g_args[2], 64));
  for (unsigned long i = 0; i < n; i++) { Sh s = get((u64)p + i); o.cb.push_back((unsigned char)p[i]); o.chars.push_back(s.e ? UW(s.size == 1 ? s.e : loadE((u64)p + i, 1), 8) : nullptr); }
  obs.push_back(o);
}
void sym_end() { endPath(true, nullptr); }
void sym_die(const char *msg) { engineError(msg); }
bool sym_is_symbolic(long v) { (void)v; bool r = symrt_g_args[0] != nullptr; symrt_g_ret[0] = nullptr; return r; }
int sym_mode() { return 1; }
void sym_show(const char *n, long v) { Expr *e = symrt_g_args[1]; dprintf(2, "%s = %s\n", n, e ? str(e, 9).c_str() : i2s(v).c_str()); }
// calendar (see models.cpp)
static std::unordered_map<std::string, bool> dummy_;
static Expr *argE(unsigned i, i64 v) { Expr *e = symrt_g_args[i]; return e ? SW(e, 64) : mkC(v); }
struct Triple { Expr *y, *m, *d; };
static std::unordered_map<Expr*, Triple> validTriple;   // day number expression -> (y,m,d) known valid on this path
long sym_cal(long what, long dn) {
  Expr *x = argE(1, dn); Expr *r;
  auto it = validTriple.find(x);
  if (it != validTriple.end()) r = what == 0 ? it->second.y : what == 1 ? it->second.m : it->second.d;
  else r = mkCal(what == 0 ? CALY : what == 1 ? CALM : CALD, x);
  if (isC(r)) { symrt_g_ret[0] = nullptr; return (long)r->k; } symrt_g_ret[0] = r; return 0;
}
long sym_eom(long y, long m) {
  Expr *r = mkEom(argE(0, y), argE(1, m));
  if (isC(r)) { symrt_g_ret[0] = nullptr; return (long)r->k; } symrt_g_ret[0] = r; return 0;
}
long sym_caln(long y, long m, long d) {
  Expr *Y = argE(0, y), *M = argE(1, m), *D = argE(2, d);
  if (M->lo < -24 || M->hi > 40) M = mkC(concE(M));   // the caller passes a validated month (1..12); only its static range may be wider
  Y = simp(Y); M = simp(M); D = simp(D);
  bool same = Y->op == CALY && M->op == CALM && D->op == CALD && Y->a == M->a && M->a == D->a;   // taken from one day number: valid
  bool valid = same || D->hi <= 28 || branchE(mkLe(D, mkEom(Y, M)));
  Expr *r = mkCalN(Y, M, D);
  if (valid && !isC(r) && !validTriple.count(r) && !(r->op == VAR)) { bool caln = r->op == CALN; if (r->op == LIN) for (auto &t : r->t) if (t.x->op == CALN || t.x->op == CALD || t.x->op == TAB) caln = true; if (caln) validTriple[r] = {Y, M, D}; }
  if (isC(r)) { symrt_g_ret[0] = nullptr; return (long)r->k; } symrt_g_ret[0] = r; return 0;
}
} // extern "C"
// ------------------------------------------------------------------------------------------- main
static void onCrash(int sig) {
  violation(sig == SIGABRT ? "abort" : "crash", model, "crash"); S->crashed++;
  if (holdsToken) S->tokens++;
  _exit(0);
}
static volatile sig_atomic_t stepTimeouts;
static void onAlarm(int) { // a single path has run for too long between branches
  bool hang = cpuNow() - cpuAtFork - mySolver > 45;   // its input is run natively to tell an endless loop from a slow path
  if (hang && S->hangs++ < 4) {
    static char b[1 << 16]; int n = snprintf(b, sizeof b, "{\"type\":\"violation\",\"kind\":\"aborted\",\"label\":\"does not end\",\"vars\":{");
    for (size_t i = 0; i < g_vars.size() && n < (int)sizeof b - 300; i++) n += snprintf(b + n, sizeof b - (size_t)n, "%s\"%.200s\":%lld", i ? "," : "", g_vars[i].name.c_str(), (long long)model[i]);
    n += snprintf(b + n, sizeof b - (size_t)n, "}}\n"); ssize_t r = write(logfd, b, (size_t)n); (void)r;
  }
  if (hang || S->stop || now() > t_end) { if (!hang) S->stop = 1; S->ended_early++; if (holdsToken) S->tokens++; _exit(0); }
  alarm(2);
}
extern "C" void symrt_warmup();
int main(int argc, char **argv) {
  std::string logp = "sym.log"; double limit = 120; int procs = 8; path_cap = 2000000;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--log") logp = nx(); else if (a == "--time") limit = atof(nx().c_str()); else if (a == "--procs") procs = atoi(nx().c_str()); else if (a == "--paths") path_cap = atoll(nx().c_str());
    else if (a == "--rlimit") z3_rlimit = atoi(nx().c_str()); else if (a == "--dump") { static std::string d = nx(); dumpDir = d.c_str(); } else if (a == "--traces") trace_cap = atoi(nx().c_str()); else if (a == "--xcheck") xcheck_mod = atoi(nx().c_str()); }
  S->tokens = procs - 1; Z3_global_param_set("memory_high_watermark", "1800000000");
  logfd = open(logp.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  double t0 = now(); t_end = t0 + limit;
  pid_t p = fork();
  if (p == 0) {
    isRoot = false; static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    signal(SIGALRM, onAlarm); alarm(2);
    symrt_g_callee = nullptr;
    sym_main();
    endPath(true, nullptr);
  }
  int killed = 0; bool killedAll = false;
  for (;;) {
    int st; pid_t r = waitpid(-1, &st, killedAll ? 0 : WNOHANG);
    if (r < 0 && errno == ECHILD) break;
    if (r > 0) { if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) killed++; if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !killedAll) { killed++; } continue; }
    if (now() > t_end) S->stop = 1;
    usleep(500);
  }
  double el = now() - t0;
  std::string o = "{\"type\":\"summary\",\"elapsed\":" + std::to_string(el);
  auto add = [&](const char *n, u64 v) { o += std::string(",\"") + n + "\":" + std::to_string(v); };
  add("paths", S->paths); add("branches", S->branches); add("forks", S->forks); add("queries", S->queries); add("sat", S->sat); add("unsat", S->unsat); add("unknown", S->unknown); add("solver_us", S->solver_us); add("maxq_us", S->maxq_us); add("ended_early", S->ended_early); add("engine_err", S->engine_err); add("crashed", S->crashed); add("killed", killed); add("unary", S->unary); add("folded", S->folded); add("conc", S->conc); add("maxvars", S->maxvars); add("xchecks", S->xchecks); add("xcheck_bad", S->xcheck_bad); add("pruned", S->pruned); add("traces", S->traces);
  o += ",\"labels\":{"; for (int i = 0; i < S->nlabels; i++) { Label &l = S->labels[i]; if (i) o += ","; o += jstr(l.name) + ":{\"reached\":" + std::to_string(l.reached) + ",\"z3\":" + std::to_string(l.z3) + ",\"folded\":" + std::to_string(l.folded) + ",\"violated\":" + std::to_string(l.violated) + ",\"unknown\":" + std::to_string(l.unknown) + "}"; }
  o += "},\"functions\":["; bool first = true; for (u64 i = 0; i < symrt_fn_nnames && i < 65536; i++) if (S->fnseen[i]) { if (!first) o += ","; first = false; o += jstr(symrt_fn_names[i]); }
  o += "]}"; logLine(o);
  return 0;
}
extern "C" float symrt_raw_strtof(const char *s, char **e) { return strtof(s, e); }
extern "C" double symrt_raw_strtod(const char *s, char **e) { return strtod(s, e); }

#include "expr.h"
std::vector<VarInfo> g_vars;
static uint32_t g_nextId = 1;
static std::unordered_multimap<uint64_t, Expr*> g_cons;
static const I BIG = (I)1 << 120;

std::string i2s(I v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; while (u) { s += '0' + (int)(u % 10); u /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static uint64_t hashOf(const Expr &e) {
  uint64_t h = e.op * 1315423911ull; h = mix(h, (uint64_t)e.k); h = mix(h, (uint64_t)(e.k >> 64));
  h = mix(h, e.a ? e.a->id : 0); h = mix(h, e.b ? e.b->id : 0); h = mix(h, e.c ? e.c->id : 0);
  for (auto &t : e.t) { h = mix(h, (uint64_t)t.c); h = mix(h, t.x->id); }
  for (auto &v : e.tab) h = mix(h, (uint64_t)v);
  return h;
}
static bool same(const Expr &x, const Expr &y) {
  if (x.op != y.op || x.k != y.k || x.a != y.a || x.b != y.b || x.c != y.c || x.t.size() != y.t.size() || x.tab != y.tab) return false;
  for (size_t i = 0; i < x.t.size(); i++) if (x.t[i].c != y.t[i].c || x.t[i].x != y.t[i].x) return false;
  return true;
}
static Expr *cons(Expr &e) {
  e.h = hashOf(e);
  auto r = g_cons.equal_range(e.h);
  for (auto it = r.first; it != r.second; ++it) if (same(*it->second, e)) return it->second;
  Expr *n = new Expr(std::move(e)); n->id = g_nextId++;
  VSet v = n->vars; uint32_t sz = 1;
  for (Expr *x : {n->a, n->b, n->c}) if (x) { v |= x->vars; sz += x->size; }
  for (auto &t : n->t) { v |= t.x->vars; sz += t.x->size; }
  n->vars = v; n->size = sz > 1000000000u ? 1000000000u : sz;
  // base atom
  switch (n->op) {
    case CONST: case I2F: break;
    case LIN: if (n->t.size() == 1) n->base = n->t[0].x->base; break;
    case TAB: n->base = n->a; break;
    default: if (span(n) <= 256) n->base = n; break;
  }
  g_cons.insert({n->h, n});
  return n;
}
static Expr *g_small[1300];
Expr *mkC(I k) {
  if (k >= -100 && k < 1200) { Expr *&s = g_small[(int)k + 100]; if (!s) { Expr e{}; e.op = CONST; e.k = e.lo = e.hi = k; s = cons(e); } return s; }
  Expr e{}; e.op = CONST; e.k = e.lo = e.hi = k; return cons(e);
}
Expr *mkVar(const std::string &name, I lo, I hi) {
  if (lo == hi) return mkC(lo);
  if (g_vars.size() >= 128) { fprintf(stderr, "symexec: too many variables\n"); abort(); }
  Expr e{}; e.op = VAR; e.k = g_vars.size(); e.lo = lo; e.hi = hi; e.vars = (VSet)1 << g_vars.size();
  g_vars.push_back({name, lo, hi});
  return cons(e);
}
static I clampMul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r) || r > BIG || r < -BIG) { fprintf(stderr, "symexec: range overflow\n"); abort(); } return r; }
// build LIN from terms (may be unsorted, duplicate)
static Expr *mkLin(I k, std::vector<Term> t) {
  // expand nested LIN / NOT / CONST
  std::vector<Term> u; bool again = false;
  for (auto &x : t) {
    if (x.c == 0) continue;
    if (x.x->op == CONST) k += clampMul(x.c, x.x->k);
    else if (x.x->op == LIN) { k += clampMul(x.c, x.x->k); for (auto &y : x.x->t) { u.push_back({clampMul(x.c, y.c), y.x}); if (y.x->op == NOT) again = true; } }
    else if (x.x->op == NOT) { k += x.c; u.push_back({-x.c, x.x->a}); if (x.x->a->op == LIN || x.x->a->op == CONST) again = true; }
    else u.push_back(x);
  }
  if (again) return mkLin(k, u);
  std::sort(u.begin(), u.end(), [](const Term &p, const Term &q) { return p.x->id < q.x->id; });
  std::vector<Term> m;
  for (auto &x : u) { if (!m.empty() && m.back().x == x.x) m.back().c += x.c; else m.push_back(x); }
  m.erase(std::remove_if(m.begin(), m.end(), [](const Term &x) { return x.c == 0; }), m.end());
  // c*DIV(a,d)*d + c*MOD(a,d) -> c*a
  for (size_t i = 0; i < m.size(); i++) if (m[i].x->op == MOD) for (size_t j = 0; j < m.size(); j++)
    if (m[j].x->op == DIV && m[j].x->a == m[i].x->a && m[j].x->k == m[i].x->k && m[j].c == m[i].c * m[i].x->k) {
      I c = m[i].c; Expr *a = m[i].x->a; std::vector<Term> r;
      for (size_t q = 0; q < m.size(); q++) if (q != i && q != j) r.push_back(m[q]);
      r.push_back({c, a}); return mkLin(k, r);
    }
  // c*X - c*d*DIV(X,d) -> c*MOD(X,d)
  for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size(); j++) if (i != j && m[j].x->op == DIV && m[j].x->a == m[i].x && m[j].c == -m[i].c * m[j].x->k) {
    I c = m[i].c; Expr *x = mkMod(m[i].x, m[j].x->k); std::vector<Term> r;
    for (size_t q = 0; q < m.size(); q++) if (q != i && q != j) r.push_back(m[q]);
    r.push_back({c, x}); return mkLin(k, r);
  }
  // c*q*DIV(a,p*q) + c*MOD(DIV(a,p),q) -> c*DIV(a,p)
  for (size_t i = 0; i < m.size(); i++) if (m[i].x->op == MOD && m[i].x->a->op == DIV) for (size_t j = 0; j < m.size(); j++)
    if (m[j].x->op == DIV && m[j].x->a == m[i].x->a->a && m[j].x->k == m[i].x->a->k * m[i].x->k && m[j].c == m[i].c * m[i].x->k) {
      I c = m[i].c; Expr *a = m[i].x->a; std::vector<Term> r;
      for (size_t q = 0; q < m.size(); q++) if (q != i && q != j) r.push_back(m[q]);
      r.push_back({c, a}); return mkLin(k, r);
    }
  if (m.empty()) return mkC(k);
  if (m.size() == 1 && m[0].c == 1 && k == 0) return m[0].x;
  // several terms over one base atom: fold into a table
  if (m.size() > 1) {
    Expr *b = m[0].x->base; bool all = b != nullptr;
    for (auto &x : m) if (x.x->base != b) { all = false; break; }
    if (all) {
      std::vector<I> v; for (I q = b->lo; q <= b->hi; q++) { I s = k; for (auto &x : m) s += x.c * evalAt(x.x, b, q); v.push_back(s); }
      return mkTab(b, b->lo, v);
    }
    // merge only the terms that share a base with another term
    std::map<Expr*, int> cnt; for (auto &x : m) if (x.x->base) cnt[x.x->base]++;
    for (auto &p : cnt) if (p.second > 1) {
      std::vector<Term> rest, part; for (auto &x : m) (x.x->base == p.first ? part : rest).push_back(x);
      std::vector<I> v; for (I q = p.first->lo; q <= p.first->hi; q++) { I s = 0; for (auto &x : part) s += x.c * evalAt(x.x, p.first, q); v.push_back(s); }
      Expr *f = mkTab(p.first, p.first->lo, v);
      if (f->op == LIN && f->t.size() > 1) continue;
      // avoid endless merging: f is a single atom (or affine in base)
      bool progress = true; if (f->op == LIN && f->t.size() == 1 && part.size() <= 1) progress = false;
      if (progress) { rest.push_back({1, f}); return mkLin(k, rest); }
    }
  }
  Expr e{}; e.op = LIN; e.k = k; e.t = m; e.lo = e.hi = k;
  for (auto &x : m) { if (x.c > 0) { e.lo += clampMul(x.c, x.x->lo); e.hi += clampMul(x.c, x.x->hi); } else { e.lo += clampMul(x.c, x.x->hi); e.hi += clampMul(x.c, x.x->lo); } }
  return cons(e);
}
Expr *mkAdd(Expr *a, Expr *b) { if (isC(a) && isC(b)) return mkC(a->k + b->k); return mkLin(0, {{1, a}, {1, b}}); }
Expr *mkSub(Expr *a, Expr *b) { if (a == b) return mkC(0); return mkLin(0, {{1, a}, {-1, b}}); }
Expr *mkAddC(Expr *a, I k) { if (k == 0) return a; if (isC(a)) return mkC(a->k + k); return mkLin(k, {{1, a}}); }
Expr *mkMulC(Expr *a, I k) { if (k == 1) return a; if (k == 0) return mkC(0); if (isC(a)) return mkC(clampMul(a->k, k)); return mkLin(0, {{k, a}}); }

I evalAt(Expr *e, Expr *b, I v) {
  if (e == b) return v;
  switch (e->op) {
    case CONST: return e->k;
    case TAB: return e->tab[(size_t)(v - e->k)];
    case LIN: { I s = e->k; for (auto &t : e->t) s += t.c * evalAt(t.x, b, v); return s; }
    default: fprintf(stderr, "evalAt: bad op %d\n", e->op); abort();
  }
}
Expr *mkTab(Expr *b, I lo, std::vector<I> v) {
  if (v.size() != (size_t)span(b) || lo != b->lo) { fprintf(stderr, "mkTab: bad table\n"); abort(); }
  if (b->op == TAB || (b->op == LIN && b->base)) { // re-base on the inner atom
    Expr *bb = b->base; std::vector<I> w; for (I q = bb->lo; q <= bb->hi; q++) w.push_back(v[(size_t)(evalAt(b, bb, q) - lo)]);
    return mkTab(bb, bb->lo, w);
  }
  bool cst = true; for (auto &x : v) if (x != v[0]) { cst = false; break; }
  if (cst) return mkC(v[0]);
  I d = v[1] - v[0]; bool aff = true; for (size_t i = 2; i < v.size(); i++) if (v[i] - v[i-1] != d) { aff = false; break; }
  if (aff) return mkLin(v[0] - d * lo, {{d, b}});
  Expr e{}; e.op = TAB; e.k = lo; e.a = b; e.lo = e.hi = v[0]; for (auto &x : v) { if (x < e.lo) e.lo = x; if (x > e.hi) e.hi = x; }
  e.tab = std::move(v);
  return cons(e);
}
template <class F> static Expr *fold1(Expr *a, F f) { Expr *b = a->base; std::vector<I> v; for (I q = b->lo; q <= b->hi; q++) v.push_back(f(evalAt(a, b, q))); return mkTab(b, b->lo, v); }
template <class F> static Expr *fold2(Expr *a, Expr *c, F f) {
  Expr *b = isC(a) ? c->base : a->base; std::vector<I> v; for (I q = b->lo; q <= b->hi; q++) v.push_back(f(evalAt(a, b, q), evalAt(c, b, q))); return mkTab(b, b->lo, v);
}
static bool foldable(Expr *a) { return a->base != nullptr; }
static bool foldable(Expr *a, Expr *b) { if (isC(a)) return foldable(b); if (isC(b)) return foldable(a); return a->base && a->base == b->base; }
static Expr *tabFold1(Expr *a, bool isAtomOnly) { (void)a; (void)isAtomOnly; return nullptr; }

static I fdiv(I a, I c) { I q = a / c; if (a % c < 0) q--; return q; }
static I fmod_(I a, I c) { I r = a % c; return r < 0 ? r + c : r; }
static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }

static Expr *rawDiv(Expr *a, I c) { Expr e{}; e.op = DIV; e.a = a; e.k = c; e.lo = fdiv(a->lo, c); e.hi = fdiv(a->hi, c); if (e.lo == e.hi) return mkC(e.lo); return cons(e); }
static Expr *rawMod(Expr *a, I c) {
  I ql = fdiv(a->lo, c), qh = fdiv(a->hi, c);
  if (ql == qh) return mkAddC(a, -ql * c);
  Expr e{}; e.op = MOD; e.a = a; e.k = c; e.lo = 0; e.hi = c - 1; return cons(e);
}
static void divmod(Expr *a, I c, Expr **q, Expr **r) {
  if (isC(a)) { *q = mkC(fdiv(a->k, c)); *r = mkC(fmod_(a->k, c)); return; }
  if (c == 1) { *q = a; *r = mkC(0); return; }
  if (a->base && a->base != a) { if (q) *q = fold1(a, [&](I x) { return fdiv(x, c); }); if (r) *r = fold1(a, [&](I x) { return fmod_(x, c); }); return; }
  if (a->base == a) { *q = fold1(a, [&](I x) { return fdiv(x, c); }); *r = fold1(a, [&](I x) { return fmod_(x, c); }); return; }
  { I ql = fdiv(a->lo, c), qh = fdiv(a->hi, c); if (ql == qh) { *q = mkC(ql); *r = mkAddC(a, -ql * c); return; } }
  if (a->op == LIN) {
    std::vector<Term> A, R; I ka = fdiv(a->k, c), kr = fmod_(a->k, c);
    for (auto &t : a->t) {
      // pull out multiples of c, keeping the remainder coefficient of smallest magnitude with sign chosen to keep ranges tight
      I qc = fdiv(t.c, c), rc = fmod_(t.c, c);
      if (rc != 0 && t.c < 0 && -t.c < c) { qc = 0; rc = t.c; }
      if (qc) A.push_back({qc, t.x});
      if (rc) R.push_back({rc, t.x});
    }
    if (R.empty()) { Expr *e = mkLin(ka, A); *q = e; *r = mkC(kr); return; }
    Expr *Ae = mkLin(ka, A), *Re = mkLin(kr, R);
    if (Re->op == CONST || Re->op != LIN) { Expr *q2, *r2; if (Re == a) { q2 = rawDiv(a, c); r2 = rawMod(a, c); } else divmod(Re, c, &q2, &r2); *q = mkAdd(Ae, q2); *r = r2; return; }
    I ql = fdiv(Re->lo, c), qh = fdiv(Re->hi, c);
    if (ql == qh) { *q = mkAddC(Ae, ql); *r = mkAddC(Re, -ql * c); return; }
    if (Re->base) { *q = mkAdd(Ae, fold1(Re, [&](I x) { return fdiv(x, c); })); *r = fold1(Re, [&](I x) { return fmod_(x, c); }); return; }
    I g = c; for (auto &t : Re->t) g = gcdI(g, t.c);
    if (g > 1) {
      std::vector<Term> R2; for (auto &t : Re->t) R2.push_back({t.c / g, t.x});
      I r0 = fmod_(Re->k, g); Expr *Rs = mkLin(fdiv(Re->k, g), R2);
      Expr *q2, *r2; divmod(Rs, c / g, &q2, &r2);
      *q = mkAdd(Ae, q2); *r = mkAddC(mkMulC(r2, g), r0); return;
    }
    // dominance: split the terms into a coarse part (coefficients with gcd g) and a fine part with range inside [0,g)
    {
      std::vector<Term> ts = Re->t; std::sort(ts.begin(), ts.end(), [](const Term &x, const Term &y) { I p = x.c < 0 ? -x.c : x.c, s = y.c < 0 ? -y.c : y.c; return p > s; });
      for (size_t n = 1; n < ts.size(); n++) {
        I gg = c; for (size_t i = 0; i < n; i++) gg = gcdI(gg, ts[i].c);
        if (gg <= 1) break;
        std::vector<Term> fine(ts.begin() + n, ts.end()), coarse(ts.begin(), ts.begin() + n);
        I kf = fmod_(Re->k, gg), kc = Re->k - kf;
        Expr *F = mkLin(kf, fine); I fq = fdiv(F->lo, gg);
        if (fq == fdiv(F->hi, gg)) {
          F = mkAddC(F, -fq * gg); kc += fq * gg;
          for (auto &t : coarse) t.c /= gg;
          Expr *Cs = mkLin(kc / gg, coarse), *q2, *r2; divmod(Cs, c / gg, &q2, &r2);
          *q = mkAdd(Ae, q2); *r = mkAdd(mkMulC(r2, gg), F); return;
        }
      }
    }
    *q = mkAdd(Ae, rawDiv(Re, c)); *r = rawMod(Re, c); return;
  }
  if (a->op == DIV) { I cc; if (!__builtin_mul_overflow(a->k, c, &cc) && cc < BIG) { *q = mkDiv(a->a, cc); *r = rawMod(a, c); return; } }
  if (a->op == MOD && a->k % c == 0) { *q = rawDiv(a, c); *r = mkMod(a->a, c); return; }
  *q = rawDiv(a, c); *r = rawMod(a, c);
}
Expr *mkDiv(Expr *a, I c) { Expr *q, *r; divmod(a, c, &q, &r); return q; }
Expr *mkMod(Expr *a, I c) { Expr *q, *r; divmod(a, c, &q, &r); return r; }
Expr *mkMul(Expr *a, Expr *b) {
  if (isC(a)) return mkMulC(b, a->k); if (isC(b)) return mkMulC(a, b->k);
  if (foldable(a, b)) return fold2(a, b, [](I x, I y) { return x * y; });
  if (a->id > b->id) std::swap(a, b);
  Expr e{}; e.op = MUL; e.a = a; e.b = b; I v[4] = {clampMul(a->lo, b->lo), clampMul(a->lo, b->hi), clampMul(a->hi, b->lo), clampMul(a->hi, b->hi)};
  e.lo = *std::min_element(v, v + 4); e.hi = *std::max_element(v, v + 4); return cons(e);
}
static bool isBool(Expr *a) { return a->lo >= 0 && a->hi <= 1; }
Expr *mkNot(Expr *a) {
  if (isC(a)) return mkC(!a->k);
  if (a->op == NOT) return a->a;
  if (a->op == LE0) return mkLe0(mkLin(1, {{-1, a->a}}));
  if (a->op == TAB) return fold1(a, [](I x) { return (I)!x; });
  if (a->op == VAR || a->op == LIN) return mkEq0(a);
  Expr e{}; e.op = NOT; e.a = a; e.lo = 0; e.hi = 1; return cons(e);
}
Expr *mkAnd(Expr *a, Expr *b) {
  if (isC(a)) return a->k ? b : mkC(0); if (isC(b)) return b->k ? a : mkC(0);
  if (a == b) return a; if (mkNot(a) == b) return mkC(0);
  if (a->base && a->base == b->base && a->base != a && b->base != b) return fold2(a, b, [](I x, I y) { return (I)(x && y); });
  if (a->id > b->id) std::swap(a, b);
  Expr e{}; e.op = AND; e.a = a; e.b = b; e.lo = 0; e.hi = 1; return cons(e);
}
Expr *mkOr(Expr *a, Expr *b) {
  if (isC(a)) return a->k ? mkC(1) : b; if (isC(b)) return b->k ? mkC(1) : a;
  if (a == b) return a; if (mkNot(a) == b) return mkC(1);
  if (a->base && a->base == b->base && a->base != a && b->base != b) return fold2(a, b, [](I x, I y) { return (I)(x || y); });
  if (a->id > b->id) std::swap(a, b);
  Expr e{}; e.op = OR; e.a = a; e.b = b; e.lo = 0; e.hi = 1; return cons(e);
}
static Expr *normSign(Expr *a) { if (a->op == LIN && a->t[0].c < 0) return mkLin(0, {{-1, a}}); return a; }
Expr *mkEq0(Expr *a) {
  if (isC(a)) return mkC(a->k == 0);
  if (a->lo > 0 || a->hi < 0) return mkC(0);
  if (a->op == LIN) {
    I g = 0; for (auto &t : a->t) g = gcdI(g, t.c);
    if (g > 1) { if (a->k % g) return mkC(0); std::vector<Term> t; for (auto &x : a->t) t.push_back({x.c / g, x.x}); a = mkLin(a->k / g, t); return mkEq0(a); }
    a = normSign(a);
    if (a->t.size() == 1 && isBool(a->t[0].x) && a->t[0].c == 1) { // x + k == 0
      Expr *x = a->t[0].x; if (x->op != VAR) { if (a->k == -1) return x; if (a->k == 0) return mkNot(x); }
    }
  }
  if (isBool(a) && (a->op == EQ0 || a->op == LE0 || a->op == AND || a->op == OR || a->op == NOT)) return mkNot(a);
  if (a->base && (a->base != a || span(a) <= 256)) return fold1(a, [](I x) { return (I)(x == 0); });
  if (a->op == ITE) { Expr *x = mkEq0(a->b), *y = mkEq0(a->c); return mkIte(a->a, x, y); }
  if (a->op == LIN && a->t.size() == 1 && a->t[0].x->op == ITE) {
    Expr *it = a->t[0].x; Expr *x = mkEq0(mkLin(a->k, {{a->t[0].c, it->b}})), *y = mkEq0(mkLin(a->k, {{a->t[0].c, it->c}}));
    if (isC(x) || isC(y)) return mkIte(it->a, x, y);
  }
  Expr e{}; e.op = EQ0; e.a = a; e.lo = 0; e.hi = 1; return cons(e);
}
Expr *mkLe0(Expr *a) {
  if (a->hi <= 0) return mkC(1); if (a->lo > 0) return mkC(0);
  if (a->op == LIN) { // divide by gcd, rounding
    I g = 0; for (auto &t : a->t) g = gcdI(g, t.c);
    if (g > 1) { std::vector<Term> t; for (auto &x : a->t) t.push_back({x.c / g, x.x}); return mkLe0(mkLin(-fdiv(-a->k, g), t)); }
  }
  if (a->base) return fold1(a, [](I x) { return (I)(x <= 0); });
  { // unsigned comparison of a small signed value: x mod M <= k is 0 <= x && x <= k
    Expr *md = a->op == MOD ? a : a->op == LIN && a->t.size() == 1 && a->t[0].x->op == MOD && (a->t[0].c == 1 || a->t[0].c == -1) ? a->t[0].x : nullptr;
    if (md) {
      bool pos = a->op == MOD || a->t[0].c == 1; I k = a->op == MOD ? 0 : pos ? -a->k : a->k - 1; Expr *x = md->a;
      { I sh = fdiv(x->lo + (x->hi - x->lo) / 2 + md->k / 2, md->k); if (sh) x = mkAddC(x, -sh * md->k); }   // the test is  x mod M <= k  (negated when !pos)
      if (x->lo > -md->k && x->hi < md->k && x->lo + md->k > k) { Expr *r = mkAnd(mkLe0(mkMulC(x, -1)), mkLe0(mkAddC(x, -k))); return pos ? r : mkNot(r); }
    }
  }
  if (a->op == LIN && a->t.size() == 2) { // the day of a calendar date never exceeds the length of its month
    Expr *p = a->t[0].x, *q = a->t[1].x; I cp = a->t[0].c, cq = a->t[1].c; if (p->op == EOM) { std::swap(p, q); std::swap(cp, cq); }
    if (cp == -cq && (cp == 1 || cp == -1) && p->op == CALD && q->op == EOM && q->a == mkCal(CALY, p->a) && q->b == mkCal(CALM, p->a)) {
      if (cp == 1 && a->k <= 0) return mkC(1);    // D - EOM + k <= 0
      if (cp == -1 && a->k >= 1) return mkC(0);   // EOM - D + k <= 0
    }
  }
  if (a->op == ITE) { Expr *x = mkLe0(a->b), *y = mkLe0(a->c); return mkIte(a->a, x, y); }
  if (a->op == LIN && a->t.size() == 1 && a->t[0].x->op == ITE) {
    Expr *it = a->t[0].x; Expr *x = mkLe0(mkLin(a->k, {{a->t[0].c, it->b}})), *y = mkLe0(mkLin(a->k, {{a->t[0].c, it->c}}));
    if (isC(x) || isC(y)) return mkIte(it->a, x, y);
  }
  Expr e{}; e.op = LE0; e.a = a; e.lo = 0; e.hi = 1; return cons(e);
}
Expr *mkEq(Expr *a, Expr *b) { return mkEq0(mkSub(a, b)); }
Expr *mkLe(Expr *a, Expr *b) { return mkLe0(mkSub(a, b)); }
Expr *mkLt(Expr *a, Expr *b) { return mkLe0(mkAddC(mkSub(a, b), 1)); }
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (a->op == I2F && b->op == I2F) return mkI2F(mkIte(c, a->a, b->a));
  if (c->op == NOT) return mkIte(c->a, b, a);
  if (isBool(a) && isBool(b)) {
    if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
    if (b == c) return mkAnd(c, a); if (a == c) return mkOr(c, b);
    if (isC(a)) return a->k ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->k ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (c->base && (isC(a) || a->base == c->base) && (isC(b) || b->base == c->base)) {
    Expr *s = c->base; std::vector<I> v; for (I q = s->lo; q <= s->hi; q++) v.push_back(evalAt(c, s, q) ? evalAt(a, s, q) : evalAt(b, s, q)); return mkTab(s, s->lo, v);
  }
  if (isC(a) && isC(b)) return mkLin(b->k, {{a->k - b->k, c}});
  // common difference: ite(c, x+k1, x+k2) = x + k2 + (k1-k2)*c
  { Expr *d = mkSub(a, b); if (isC(d)) return mkLin(0, {{1, b}, {d->k, c}}); }
  if (a->op == ITE && a->a == c) a = a->b;
  if (b->op == ITE && b->a == c) b = b->c;
  I al = a->lo, ah = a->hi, bl = b->lo, bh = b->hi;
  if (c->op == LE0) { // ranges of the sides under the condition (absolute values, clamps)
    auto konst = [](Expr *x, I &k) { if (isC(x)) { k = x->k; return true; } return false; }; I k;
    if (konst(mkSub(a, c->a), k)) ah = std::min(ah, k);
    if (konst(mkAdd(a, c->a), k)) al = std::max(al, k);
    if (konst(mkSub(b, c->a), k)) bl = std::max(bl, k + 1);
    if (konst(mkAdd(b, c->a), k)) bh = std::min(bh, k - 1);
    if (al > ah) { al = a->lo; ah = a->hi; } if (bl > bh) { bl = b->lo; bh = b->hi; }
  }
  Expr e{}; e.op = ITE; e.a = c; e.b = a; e.c = b; e.lo = std::min(al, bl); e.hi = std::max(ah, bh); return cons(e);
}
Expr *mkI2F(Expr *a) { Expr e{}; e.op = I2F; e.a = a; e.lo = a->lo; e.hi = a->hi; return cons(e); }
Expr *UW(Expr *e, unsigned w) { if (w >= 64 && e->lo >= 0 && e->hi < ((I)1 << 64)) return e; I m = (I)1 << w; if (e->lo >= 0 && e->hi < m) return e; return mkMod(e, m); }
Expr *SW(Expr *e, unsigned w) { I m = (I)1 << (w - 1); if (e->lo >= -m && e->hi < m) return e; return mkAddC(mkMod(mkAddC(e, m), 2 * m), -m); }
Expr *asBool(Expr *e) {
  e = UW(e, 1);
  if (e->op == LIN && e->t.size() == 1 && e->k == 1 && e->t[0].c == -1 && isBool(e->t[0].x)) return mkNot(e->t[0].x);
  if (e->op == VAR) return mkNot(mkEq0(e));
  return e;
}
// ------------------------------------------------------------------ calendar
long cal_dn(long y, long m, long d) { long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
void cal_ymd(long dn, long &y, long &m, long &d) {
  long a = dn + 32044, b = (4 * a + 3) / 146097, c = a - 146097 * b / 4, e = (4 * c + 3) / 1461, f = c - 1461 * e / 4, g = (5 * f + 2) / 153;
  d = f - (153 * g + 2) / 5 + 1; m = g + 3 - 12 * (g / 10); y = 100 * b + e - 4800 + g / 10;
}
Expr *mkCal(Op op, Expr *dn) {
  long y0, m0, d0, y1, m1, d1; cal_ymd((long)dn->lo, y0, m0, d0); cal_ymd((long)dn->hi, y1, m1, d1);
  if (isC(dn)) return mkC(op == CALY ? y0 : op == CALM ? m0 : d0);
  if (op == CALY && y0 == y1) return mkC(y0);
  if (dn->base) return fold1(dn, [&](I x) { long y, m, d; cal_ymd((long)x, y, m, d); return (I)(op == CALY ? y : op == CALM ? m : d); });
  if (dn->op == CALN) { // only valid triples are passed (boost validates), see models.cpp
    Expr *x = op == CALY ? dn->a : op == CALM ? dn->b : dn->c; return x; }
  Expr e{}; e.op = op; e.a = dn;
  if (op == CALY) { e.lo = y0; e.hi = y1; } else if (op == CALM) { e.lo = 1; e.hi = 12; if (y0 == y1) { e.lo = m0; e.hi = m1; } if (e.lo == e.hi) return mkC(e.lo); }
  else { e.lo = 1; e.hi = 31; if (y0 == y1 && m0 == m1) { e.lo = d0; e.hi = d1; } }
  return cons(e);
}
int cal_eom(long y, long m) { bool l = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; return m == 2 ? 28 + l : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
Expr *mkEom(Expr *y, Expr *m) {
  auto f = [](I a, I b) { return (I)cal_eom((long)a, (long)b); };
  if (isC(m) && (isC(y) || m->k != 2)) return mkC(f(isC(y) ? y->k : 2000, m->k));
  if (m->base && (isC(y) || m->lo > 2 || m->hi < 2)) return fold1(m, [&](I v) { return f(isC(y) ? y->k : 2000, v); });
  if (isC(m) && y->base) return fold1(y, [&](I v) { return f(v, m->k); });
  if (m->base && m->base == y->base) return fold2(y, m, f);
  Expr e{}; e.op = EOM; e.a = y; e.b = m; e.lo = 28; e.hi = isC(m) ? 29 : 31; return cons(e);
}
// caller guarantees 1<=m<=12 and 1<=d<=days(y,m)
Expr *mkCalN(Expr *y, Expr *m, Expr *d) {
  if (isC(y) && isC(m)) return mkAddC(d, cal_dn((long)y->k, (long)m->k, 0));
  // DN(CALY(x),CALM(x),D) = x - CALD(x) + D
  if (isC(m) || m->op != CALM) {} else if (y->op == CALY ? y->a == m->a : (isC(y) && [&]{ long a, b, c; cal_ymd((long)m->a->lo, a, b, c); return a == (long)y->k; }() && [&]{ long a, b, c; cal_ymd((long)m->a->hi, a, b, c); return a == (long)y->k; }())) {
    Expr *x = m->a; return mkAdd(mkSub(x, mkCal(CALD, x)), d);
  }
  // linear in the day: DN(y,m,d) = DN(y,m,1) + d - 1
  if (isC(d) && d->k == 1) {
    if (y->base && isC(m)) return fold1(y, [&](I v) { return (I)cal_dn((long)v, (long)m->k, 1); });
    if (m->base && (isC(y))) return fold1(m, [&](I v) { return (I)cal_dn((long)y->k, (long)v, 1); });
    if (m->base && m->base == y->base) return fold2(y, m, [&](I v, I u) { return (I)cal_dn((long)v, (long)u, 1); });
    if (y->base && m->base && y->op != CALY && m->lo >= 1 && m->hi <= 12) { // first of January + days in the months before + leap day
      Expr *j = fold1(y, [&](I v) { return (I)cal_dn((long)v, 1, 1); }), *c = fold1(m, [&](I v) { return (I)(cal_dn(2001, (long)v, 1) - cal_dn(2001, 1, 1)); });
      Expr *l = mkAnd(fold1(y, [&](I v) { return (I)(cal_eom((long)v, 2) == 29); }), fold1(m, [](I v) { return (I)(v > 2); }));
      return mkLin(0, {{1, j}, {1, c}, {1, l}});
    }
    Expr e{}; e.op = CALN; e.a = y; e.b = m; e.c = d; e.lo = cal_dn((long)y->lo, (long)std::max<I>(m->lo, 1), 1); e.hi = cal_dn((long)y->hi, (long)std::min<I>(m->hi, 12), 1); return cons(e);
  }
  return mkAddC(mkAdd(mkCalN(y, m, mkC(1)), d), -1);
}
// ------------------------------------------------------------------ evaluation, printing
I evalE(Expr *e, EvalCtx &c) {
  if (e->op == CONST) return e->k;
  if (e->op == VAR) return (*c.vals)[(size_t)e->k];
  auto it = c.memo.find(e); if (it != c.memo.end()) return it->second;
  I r = 0;
  switch (e->op) {
    case LIN: r = e->k; for (auto &t : e->t) r += t.c * evalE(t.x, c); break;
    case MUL: r = evalE(e->a, c) * evalE(e->b, c); break;
    case DIV: r = fdiv(evalE(e->a, c), e->k); break;
    case MOD: r = fmod_(evalE(e->a, c), e->k); break;
    case ITE: r = evalE(e->a, c) ? evalE(e->b, c) : evalE(e->c, c); break;
    case EQ0: r = evalE(e->a, c) == 0; break;
    case LE0: r = evalE(e->a, c) <= 0; break;
    case NOT: r = !evalE(e->a, c); break;
    case AND: r = evalE(e->a, c) && evalE(e->b, c); break;
    case OR: r = evalE(e->a, c) || evalE(e->b, c); break;
    case TAB: r = e->tab[(size_t)(evalE(e->a, c) - e->k)]; break;
    case CALY: case CALM: case CALD: { long y, m, d; cal_ymd((long)evalE(e->a, c), y, m, d); r = e->op == CALY ? y : e->op == CALM ? m : d; break; }
    case CALN: r = cal_dn((long)evalE(e->a, c), (long)evalE(e->b, c), (long)evalE(e->c, c)); break;
    case EOM: r = cal_eom((long)evalE(e->a, c), (long)evalE(e->b, c)); break;
    case I2F: r = evalE(e->a, c); break;
    default: abort();
  }
  c.memo[e] = r; return r;
}
Expr *substE(Expr *e, const std::vector<signed char> &isFixed, const std::vector<I> &val, VSet fixed, std::unordered_map<Expr*, Expr*> &memo) {
  if (e->op == CONST || !(e->vars & fixed)) return e;
  if (e->op == VAR) return isFixed[(size_t)e->k] ? mkC(val[(size_t)e->k]) : e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  auto S = [&](Expr *x) { return substE(x, isFixed, val, fixed, memo); };
  Expr *r = e;
  switch (e->op) {
    case LIN: { r = mkC(e->k); auto ts = e->t; for (auto &t : ts) r = mkAdd(r, mkMulC(S(t.x), t.c)); break; }
    case MUL: r = mkMul(S(e->a), S(e->b)); break;
    case DIV: r = mkDiv(S(e->a), e->k); break;
    case MOD: r = mkMod(S(e->a), e->k); break;
    case ITE: { Expr *c = S(e->a); r = isC(c) ? S(c->k ? e->b : e->c) : mkIte(c, S(e->b), S(e->c)); break; }
    case EQ0: r = mkEq0(S(e->a)); break;
    case LE0: r = mkLe0(S(e->a)); break;
    case NOT: r = mkNot(S(e->a)); break;
    case AND: r = mkAnd(S(e->a), S(e->b)); break;
    case OR: r = mkOr(S(e->a), S(e->b)); break;
    case TAB: { Expr *b = S(e->a); if (isC(b)) r = mkC(e->tab[(size_t)(b->k - e->k)]); break; }
    case CALY: case CALM: case CALD: r = mkCal(e->op, S(e->a)); break;
    case CALN: { Expr *y = S(e->a), *m = S(e->b), *d = S(e->c); if (m->lo >= 1 && m->hi <= 12) r = mkCalN(y, m, d); break; }
    case EOM: { Expr *y = S(e->a), *m = S(e->b); if (m->lo >= 1 && m->hi <= 12) r = mkEom(y, m); break; }
    default: break;
  }
  return memo[e] = r;
}
std::string str(Expr *e, int d) {
  if (!e) return "null"; if (d == 0) return "..";
  switch (e->op) {
    case CONST: return i2s(e->k);
    case VAR: return g_vars[(size_t)e->k].name;
    case LIN: { std::string s = "("; for (auto &t : e->t) { s += (s.size() > 1 ? "+" : "") + (t.c == 1 ? std::string() : i2s(t.c) + "*") + str(t.x, d - 1); } if (e->k != 0) s += "+" + i2s(e->k); return s + ")"; }
    case MUL: return str(e->a, d - 1) + "*" + str(e->b, d - 1);
    case DIV: return str(e->a, d - 1) + "/" + i2s(e->k);
    case MOD: return str(e->a, d - 1) + "%" + i2s(e->k);
    case ITE: return "ite(" + str(e->a, d - 1) + "," + str(e->b, d - 1) + "," + str(e->c, d - 1) + ")";
    case EQ0: return "(" + str(e->a, d - 1) + "==0)";
    case LE0: return "(" + str(e->a, d - 1) + "<=0)";
    case NOT: return "!" + str(e->a, d - 1);
    case AND: return "(" + str(e->a, d - 1) + "&" + str(e->b, d - 1) + ")";
    case OR: return "(" + str(e->a, d - 1) + "|" + str(e->b, d - 1) + ")";
    case TAB: { std::string s = "tab" + std::to_string(e->tab.size()) + "["; if (e->tab.size() <= 16) for (auto &v : e->tab) s += i2s(v) + " "; return s + "](" + str(e->a, d - 1) + ")"; }
    case CALY: return "Y(" + str(e->a, d - 1) + ")"; case CALM: return "M(" + str(e->a, d - 1) + ")"; case CALD: return "D(" + str(e->a, d - 1) + ")";
    case CALN: return "DN(" + str(e->a, d - 1) + "," + str(e->b, d - 1) + "," + str(e->c, d - 1) + ")";
    case EOM: return "EOM(" + str(e->a, d - 1) + "," + str(e->b, d - 1) + ")";
    case I2F: return "f(" + str(e->a, d - 1) + ")";
  }
  return "?";
}

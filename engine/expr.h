// Expressions of the symbolic executor: mathematical integers with ranges (see DESIGN.md, "Engine").
// An expression attached to a w-bit value v means  v == expr (mod 2^w)  (lazy wrapping; UW/SW pick a residue).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
typedef __int128 I;
enum Op : uint8_t { CONST, VAR, LIN, MUL, DIV, MOD, ITE, EQ0, LE0, NOT, AND, OR, TAB, CALY, CALM, CALD, CALN, I2F, EOM };
struct Expr;
struct Term { I c; Expr *x; };
typedef unsigned __int128 VSet;
struct Expr {
  Op op; uint32_t id; uint64_t h;
  I lo, hi;
  I k = 0;                       // CONST value, LIN constant, DIV/MOD divisor, VAR id, TAB lowest index
  Expr *a = nullptr, *b = nullptr, *c = nullptr;
  std::vector<Term> t;           // LIN
  std::vector<I> tab;            // TAB values
  Expr *base = nullptr;          // the one small-range atom this expression is a function of (or null)
  VSet vars = 0;
  uint32_t size = 1;             // rough dag size
};
struct VarInfo { std::string name; I lo, hi; };
extern std::vector<VarInfo> g_vars;

Expr *mkC(I k);
Expr *mkVar(const std::string &name, I lo, I hi);
Expr *mkAdd(Expr *a, Expr *b);
Expr *mkSub(Expr *a, Expr *b);
Expr *mkAddC(Expr *a, I k);
Expr *mkMulC(Expr *a, I k);
Expr *mkMul(Expr *a, Expr *b);
Expr *mkDiv(Expr *a, I c);       // floor division by a positive constant
Expr *mkMod(Expr *a, I c);       // floor remainder
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkEq0(Expr *a);
Expr *mkLe0(Expr *a);
Expr *mkNot(Expr *a);
Expr *mkAnd(Expr *a, Expr *b);
Expr *mkOr(Expr *a, Expr *b);
Expr *mkTab(Expr *base, I lo, std::vector<I> v);
Expr *mkCal(Op op, Expr *dn);
Expr *mkCalN(Expr *y, Expr *m, Expr *d);
Expr *mkEom(Expr *y, Expr *m);   // length of month m of year y
Expr *mkI2F(Expr *a);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkLt(Expr *a, Expr *b);
Expr *mkLe(Expr *a, Expr *b);
Expr *UW(Expr *e, unsigned w);
Expr *SW(Expr *e, unsigned w);
Expr *asBool(Expr *e);           // expression with range within {0,1} from a 1-bit value
inline bool isC(Expr *e) { return e->op == CONST; }
inline I span(Expr *e) { return e->hi - e->lo + 1; }
I evalAt(Expr *e, Expr *base, I v);         // value of e when its base atom equals v
struct EvalCtx { const std::vector<I> *vals; std::unordered_map<Expr*, I> memo; };
I evalE(Expr *e, EvalCtx &c);
Expr *substE(Expr *e, const std::vector<signed char> &isFixed, const std::vector<I> &val, VSet fixed, std::unordered_map<Expr*, Expr*> &memo);   // replaces fixed variables by their values
std::string str(Expr *e, int depth = 6);
std::string i2s(I v);
// proleptic Gregorian calendar (Julian day numbers), the contract of boost::gregorian's calendar
long cal_dn(long y, long m, long d);
int cal_eom(long y, long m);
void cal_ymd(long dn, long &y, long &m, long &d);

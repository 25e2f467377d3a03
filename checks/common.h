// Shared helpers of the property harnesses (compiled both symbolically and natively).
#pragma once
#include "sym.h"
#include <string>
#include <boost/date_time/posix_time/posix_time.hpp>
#include "src/result.hpp"
#include "src/parsers/parsers.hpp"
namespace H {
using std::string;
namespace bg = boost::gregorian; namespace bp = boost::posix_time;
// ---- independent calendar oracle (no Boost): days since 1970-01-01 --------------------------------------------------
inline bool leap(int y) { return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0); }
inline int dim(int y, int m) { int f = leap(y) ? 29 : 28; int o = ((m == 4) | (m == 6) | (m == 9) | (m == 11)) ? 30 : 31; return m == 2 ? f : o; }
inline int choice(const char *n, int k) { return (int)sym_conc(sym_int(n, 0, k - 1)); }
// ---- reference moment: every second of every day in [y0,y1] ----------------------------------------------------------
struct Ref { bg::date d; int h, mi, s, sec; bp::ptime t; };
template <class R> inline void clockOf(R &r, bool withTime) { r.h = withTime ? sym_int("ref.h", 0, 23) : 0; r.mi = withTime ? sym_int("ref.mi", 0, 59) : 0; r.s = withTime ? sym_int("ref.s", 0, 59) : 0; r.sec = r.h * 3600 + r.mi * 60 + r.s; }
inline Ref ref(int y0 = 1890, int y1 = 2199, bool withTime = true) {
  bg::date a(y0, 1, 1), b(y1, 12, 31); int n = (int)(b - a).days();
  int k = sym_int("ref.day", 0, n); Ref r; r.d = a + bg::days(k); clockOf(r, withTime); r.t = bp::ptime(r.d, bp::seconds(r.sec)); return r;
}
// the same moment written as week and day of the week (0 = Sunday)
struct RefWeek : Ref { int w; };
inline RefWeek refWeek(int y0 = 1890, int y1 = 2199, bool withTime = true) {
  bg::date a(y0, 1, 1), b(y1, 12, 31); a -= bg::days((int)((a - bg::date(1700, 1, 3)).days() % 7)); int n = (int)((b - a).days() / 7);   // 1700-01-03 was a Sunday
  RefWeek r; int k = sym_int("ref.week", 0, n); r.w = sym_int("ref.wday", 0, 6); r.d = a + bg::days(7 * k + r.w); clockOf(r, withTime); r.t = bp::ptime(r.d, bp::seconds(r.sec)); return r;
}
// the same moment written as year, month, day (used where the unit under test is a month or a year)
struct RefYMD { int y, mo, d; int h, mi, s, sec; bp::ptime t; };
inline RefYMD refYMD(int y0 = 1890, int y1 = 2199, bool withTime = true) {
  RefYMD r; r.y = sym_int("ref.y", y0, y1); r.mo = sym_int("ref.mo", 1, 12); r.d = sym_int("ref.d", 1, 31); sym_assume(r.d <= sym_eom(r.y, r.mo));
  clockOf(r, withTime); r.t = bp::ptime(bg::date(r.y, r.mo, r.d), bp::seconds(r.sec)); return r;
}
// ---- text ---------------------------------------------------------------------------------------------------------------
// decimal number with exactly `digits` digits, no leading zero unless digits==1 (or zero allowed)
inline int num(string &t, const char *name, int digits, bool leadZero = false) {
  int v = 0; for (int i = 0; i < digits; i++) { int d = sym_int(name, (i == 0 && digits > 1 && !leadZero) ? 1 : 0, 9); t += (char)('0' + d); v = v * 10 + d; } return v;
}
// number with 1..maxd digits (the digit count is a fork)
inline int numUpTo(string &t, const char *name, int maxd) { string nm = string(name) + ".len"; int k = 1 + choice(nm.c_str(), maxd); return num(t, name, k); }
// append a literal whose letters each have a symbolic case when mixed is set
inline void lit(string &t, const char *s) { t += s; }
inline const char *pick(const char *name, const char *const *tab, int n, int *idx = nullptr) { int k = choice(name, n); if (idx) *idx = k; return tab[k]; }
// ---- results ------------------------------------------------------------------------------------------------------------
inline void obsResult(Result &r) {
  sym_observe("n", (long)r.size());
  for (size_t i = 0; i < r.size() && i < 3; i++) {
    sym_observe("idx", r[i].getIndex()); sym_observe("len", (long)r[i].textLength());
    auto &s = r[i].startDate; sym_observe("y", s.getYear()); sym_observe("m", s.getMonth()); sym_observe("d", s.get_mDay()); sym_observe("h", s.getHour()); sym_observe("mi", s.getMinute()); sym_observe("s", s.getSeconds());
    if (r[i].end()) { auto &e = r[i].endDate; sym_observe("ey", e.getYear()); sym_observe("em", e.getMonth()); sym_observe("ed", e.get_mDay()); sym_observe("eh", e.getHour()); sym_observe("emi", e.getMinute()); sym_observe("es", e.getSeconds()); }
  }
}
inline void obsText(const string &t) { sym_observe_str("text", t.data(), t.size()); }
// calendar date of a result, as a Boost date (throws if it is not a real date)
inline bg::date dateOf(parse::ParsedComponents &c) { return bg::date(c.getYear(), c.getMonth(), c.get_mDay()); }
inline bool sameDate(parse::ParsedComponents &c, const bg::date &d) { auto y = d.year_month_day(); return (c.getYear() == (int)y.year) & (c.getMonth() == (int)y.month.as_number()) & (c.get_mDay() == (int)y.day); }
inline bool sameTime(parse::ParsedComponents &c, int h, int m, int s) { return (c.getHour() == h) & (c.getMinute() == m) & (c.getSeconds() == s); }
inline bool sameSec(parse::ParsedComponents &c, int sec) { return (c.getHour() * 3600 + c.getMinute() * 60 + c.getSeconds() == sec) & (c.getMinute() >= 0) & (c.getMinute() < 60) & (c.getSeconds() >= 0) & (c.getSeconds() < 60); }
// runs a parser; any escaping exception is reported under the given label
template <class P> inline Result run(P &p, string &t, bp::ptime &ref) {
  obsText(t);
  try { Result r = p.execute(t, ref); obsResult(r); return r; }
  catch (...) { sym_assert(false, "no-exception"); throw; }
}
}
#define CHECK(c, l) sym_assert((c), l)

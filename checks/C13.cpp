//@bound: reference 1990-01-01..2069-12-31 (every day); every month name and abbreviation; first and last day as 1..2 digits (every value), digits with suffix, or ordinal words; 'to' and dash with and without spaces; optional 4-digit year; in either order
#include "months.h"
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"
using namespace H;
extern "C" void sym_main() {
  static const char *const TO[] = {" to ", " - ", "-"};
  int var = choice("vary", 3), mi = 11, k1 = 0, k2 = 0, to = 0; bool year = choice("year?", 2);
  if (var == 0) { k1 = k2 = FULL ? 0 : 1; mi = choice("month", NMONTHS); to = choice("to", 3); }
  if (var == 1) { k1 = choice("day.form", 6); k2 = FULL ? choice("day2.form", 6) : k1 == 1 ? 0 : k1; to = FULL ? choice("to", 3) : 0; }
  if (var == 2) { int w = choice("words", FULL ? 3 : 2); k1 = w == 0 ? 6 : w == 1 ? 0 : 7; k2 = w == 0 ? 0 : 6 + choice("hyphen", 2); to = choice("to", 2); }
  int m = MONTHS[mi].m; string t = MONTHS[mi].text; t += " "; int d = dayOfMonth(t, "d", k1); t += TO[to]; int e = dayOfMonth(t, "e", k2), y = 0;
  sym_assume((d >= 1) & (e >= 1)); sym_assume(!((m == 2) & ((d == 29) | (e == 29))) | year); int last = d > e ? d : e;
  RefYMD R; bp::ptime rt(bg::date(2016, 2, 29), bp::seconds(0));
  if (year) { t += ", "; y = num(t, "year", 4, true); sym_assume(y >= 1400); } else { R = refYMD(1990, 2069, false); rt = R.t; }
  parser::ENMonthNameMiddleEndianParser p; Result r = run(p, t, rt);
  bool real = year ? (last <= sym_eom(y, m)) : (last <= dim(2001, m));
  if (!real) { CHECK(r.size() == 0, "no such day"); return; }
  CHECK((r.size() == 1) && r[0].end(), "one range"); auto &s = r[0].startDate, &f = r[0].endDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()), "covers the phrase");
  CHECK((s.getMonth() == m) & (s.get_mDay() == d) & noTime(s), "first day"); CHECK((f.getMonth() == m) & (f.get_mDay() == e) & sameTime(f, 23, 59, 0), "last day, to its end");
  CHECK(f.getYear() == s.getYear(), "one year");
  if (year) CHECK(s.getYear() == y, "written year"); else CHECK(closest(R, s.getYear(), m, d), "closest year");
}

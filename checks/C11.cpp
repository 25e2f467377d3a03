//@bound: reference: every day 1800-01-01..2199-12-31 (thorough: and every second); every month name and abbreviation, with and without dot; alone or followed by a 4-digit year (every digit; separated by space, comma, comma and space or dash), optionally with an AD, BE or BC era
#include "months.h"
#include "src/parsers/en/ENMonthNameParser.hpp"
using namespace H;
extern "C" void sym_main() {
  int k = choice("month", NMONTHS), m = MONTHS[k].m; string t = MONTHS[k].text; int form = choice("form", 5);
  parser::ENMonthNameParser p;
  if (form == 0) {
    RefYMD R = refYMD(1800, 2199, FULL); Result r = run(p, t, R.t);
    CHECK(r.size() == 1, "one result"); auto &s = r[0].startDate; CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the name");
    CHECK((s.getMonth() == m) & (s.get_mDay() == 1) & noTime(s), "first of the month"); CHECK(closest(R, s.getYear(), m, 1), "closest year"); return;
  }
  static const char *const SEP[] = {" ", ", ", ",", "-"}, *const ERA[] = {"", " ad", " be", " bc", "ad", "be", "bc"};
  t += SEP[form - 1]; int y = num(t, "year", 4, true); int era = choice("era", (FULL || form == 1) ? 7 : 1); t += ERA[era]; int e = era > 3 ? era - 3 : era;
  sym_assume(y >= 100);
  bp::ptime ref(bg::date(2016, 2, 29), bp::seconds(sym_int("ref.sec", 0, 86399)));
  Result r = run(p, t, ref); int real = e == 2 ? y - 543 : e == 3 ? -y : y;
  if (real < 1400) { CHECK(r.size() == 0, "no such year"); return; }
  CHECK(r.size() == 1, "one result with year"); auto &s = r[0].startDate; CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers name and year");
  CHECK((s.getYear() == real) & (s.getMonth() == m) & (s.get_mDay() == 1) & noTime(s), "first of the month in that year");
  CHECK(s.isCertain("year") & s.isCertain("month") & !s.isCertain("mday"), "written parts are certain");
}

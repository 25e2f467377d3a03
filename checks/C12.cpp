//@bound: reference: every day 1990-01-01..2069-12-31 (thorough: and every second); every month name and abbreviation; day as 1..2 digits (every value 0..99), digits with st/nd/rd/th, or ordinal word (space or hyphen); separator space, dash, slash, comma; optional leading weekday name; optional 4-digit year (every digit), with AD or BE; without a year 29 February is left open and a distance may differ by one day for 28 February
//@assume: years written with fewer than 4 digits are outside
#include "months.h"
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"
using namespace H;
extern "C" void sym_main() {
  static const char *const SEP[] = {" ", "-", "/", ", ", ""}, *const DAYS[] = {"sun", "sunday", "mon", "monday", "tue", "tues", "tuesday", "wed", "wednesday", "thu", "thur", "thurs", "thursday", "fri", "friday", "sat", "saturday"};
  static const int WD[] = {0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5, 6, 6};
  // one dimension varies at a time around a base phrase (thorough: month, day form and separator vary together)
  int dim_ = choice("vary", FULL ? 7 : 6), mi = 5, kind = 0, sep = 0, wd = -1, ys = 0; bool year = false; int era = 0;
  if (dim_ == 0) { mi = choice("month", NMONTHS); kind = choice("day.form", 2); }
  if (dim_ == 1) { mi = 9; kind = choice("day.form", 8); year = choice("year?", 2); }
  if (dim_ == 2) { mi = 24; kind = choice("day.form", 3); sep = choice("sep", 5); }
  if (dim_ == 3) { mi = 3; wd = choice("weekday", 17); year = choice("year?", 2); kind = 2 * choice("suffix", 2); }
  if (dim_ == 4) { mi = choice("month", NMONTHS); year = true; kind = 1; }
  if (dim_ == 5) { mi = 9; year = true; kind = choice("day.form", 2); ys = choice("year.sep", 3); era = choice("era", 5); }
  if (dim_ == 6) { mi = choice("month", NMONTHS); kind = choice("day.form", 8); sep = choice("sep", 5); year = choice("year?", 2); }
  string t; if (wd >= 0) { t = DAYS[wd]; t += choice("comma", 2) ? ", " : " "; }
  int m = MONTHS[mi].m; t += MONTHS[mi].text; t += SEP[sep]; int d = dayOfMonth(t, "d", kind), y = 0;
  if (year) { static const char *const YS[] = {", ", " ", ","}, *const ERA[] = {"", " ad", "ad", " be", "be"}; t += YS[ys]; y = num(t, "year", 4, true); sym_assume(y >= 100); t += ERA[era]; if (era >= 3) y -= 543; }
  parser::ENMonthNameMiddleEndianParser p;
  if (year) {
    bp::ptime rt(bg::date(2016, 2, 29), bp::seconds(sym_int("ref.sec", 0, 86399)));
    Result r = run(p, t, rt);
    if (y < 1400) { CHECK(r.size() == 0, "no such year"); return; }
    bool real = (d >= 1) & (d <= sym_eom(y, m));
    if (!real) { CHECK(r.size() == 0, "no such day in that year"); return; }
    CHECK(r.size() == 1, "one result with year"); auto &s = r[0].startDate;
    CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the dated phrase");
    CHECK((s.getYear() == y) & (s.getMonth() == m) & (s.get_mDay() == d) & noTime(s), "that very date");
    CHECK(s.isCertain("year") & s.isCertain("month") & s.isCertain("mday"), "date is certain");
    if (wd >= 0) CHECK(s.get_wDay() == WD[wd], "weekday with year");
    return;
  }
  RefYMD R = refYMD(1990, 2069, FULL); sym_assume(!((m == 2) & (d == 29)));
  Result r = run(p, t, R.t);
  bool real = (d >= 1) & (d <= dim(2001, m));
  if (!real) { CHECK(r.size() == 0, "no such day"); return; }
  CHECK(r.size() == 1, "one result"); auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
  CHECK((s.getMonth() == m) & (s.get_mDay() == d) & noTime(s), "that day of the month");
  CHECK(closest(R, s.getYear(), m, d), "closest year");
  if (wd >= 0) CHECK(s.get_wDay() == WD[wd], "weekday");
}

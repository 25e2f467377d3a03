//@bound: reference: every second of every day 1800-01-01..2199-12-31 (thorough: 1500..2499); 'this week', 'this month', 'this year' with 0..2 spaces between the words, singular and plural
#include "units.h"
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
using namespace H;
extern "C" void sym_main() {
  static const char *const U[] = {"week", "month", "year", "weeks", "months", "years"};
  int k = choice("unit", 6), u = k % 3; string t = "this"; int sp = choice("spaces", 3); for (int i = 0; i < sp; i++) t += ' '; t += U[k];
  const int y0 = FULL ? 1500 : 1800, y1 = FULL ? 2499 : 2199;
  parser::ENRelativeDateFormatParser p;
  if (u == 0) {
    RefWeek R = refWeek(y0, y1); Result r = run(p, t, R.t);
    CHECK((r.size() == 1) && r[0].end(), "week: one range");
    CHECK(sameDate(r[0].startDate, R.d - bg::days(R.w)), "week starts on Sunday"); CHECK(sameDate(r[0].endDate, R.d + bg::days(6 - R.w)), "week ends on Saturday");
    CHECK(noTime(r[0].startDate) & noTime(r[0].endDate), "week without time");
    return;
  }
  RefYMD Y = refYMD(y0, y1); Result r = run(p, t, Y.t);
  CHECK((r.size() == 1) && r[0].end(), "one range");
  auto &s = r[0].startDate, &e = r[0].endDate;
  CHECK((s.getYear() == Y.y) & (e.getYear() == Y.y), "year"); CHECK(noTime(s) & noTime(e), "without time");
  if (u == 1) CHECK((s.getMonth() == Y.mo) & (s.get_mDay() == 1) & (e.getMonth() == Y.mo) & (e.get_mDay() == dim(Y.y, Y.mo)), "month from first to last day");
  else CHECK((s.getMonth() == 1) & (s.get_mDay() == 1) & (e.getMonth() == 12) & (e.get_mDay() == 31), "year from first to last day");
}

//@bound: reference: every second of every day 1800-01-01..2199-12-31 (thorough: 1500..2499); all 15 weekday spellings; modifier this/last/next before or after (or none); early/earlier/late before; trailing 'week'; one space (thorough: 0..2) between the words
#include "units.h"
#include "src/parsers/en/ENDayOfTheWeekParser.hpp"
using namespace H;
extern "C" void sym_main() {
  static const char *const W[] = {"sun", "sunday", "mon", "monday", "tue", "tues", "tuesday", "wed", "wednesday", "thu", "thur", "thurs", "thursday", "fri", "friday", "sat", "saturday"};
  static const int WD[] = {0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5, 6, 6};
  static const char *const M[] = {"", "this", "last", "next"}, *const E[] = {"", "early", "earlier", "late"};
  int k = choice("day", 17), m = choice("modifier", 4), e = choice("timing", 4); bool post = m ? choice("postfix", 2) : false, week = post ? choice("week", 2) : false;
  string sp = FULL ? string(choice("spaces", 2) + 1, ' ') : " ";
  string t; if (e) t = E[e] + sp; if (m && !post) t += M[m] + sp; t += W[k]; if (m && post) t += sp + M[m]; if (week) t += sp + "week";
  RefWeek R = refWeek(FULL ? 1500 : 1800, FULL ? 2499 : 2199); parser::ENDayOfWeekParser p; Result r = run(p, t, R.t);
  CHECK(r.size() == 1, "one result"); auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
  CHECK(sameDate(s, R.d + bg::days(WD[k] - R.w + (m == 2 ? -7 : m == 3 ? 7 : 0))), "named day of the right week");
  CHECK(s.isCertain("mday") == (m >= 2), "certain only with last or next");
  CHECK(sameTime(s, e == 3 ? 20 : e ? 6 : 0, e ? 1 : 0, 0), "early and late");
  CHECK(!s.isCertain("hour"), "time not certain");
}

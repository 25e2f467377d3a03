//@bound: reference: every second of every day 1800-01-01..2199-12-31 (thorough: 1500..2499); morning, noon, afternoon, evening, night, alone or after 'this' with 0..2 spaces
#include "units.h"
#include "src/parsers/en/ENCasualTimeParser.hpp"
using namespace H;
extern "C" void sym_main() {
  static const char *const W[] = {"morning", "noon", "afternoon", "evening", "night"}; static const int HR[] = {6, 12, 15, 20, 20};
  static const char *const P[] = {"", "this", "this ", "this  "};
  int k = choice("word", 5); string t = string(P[choice("this", 4)]) + W[k]; RefWeek R = refWeek(FULL ? 1500 : 1800, FULL ? 2499 : 2199); parser::ENCasualTimeParser p; Result r = run(p, t, R.t);
  CHECK(r.size() == 1, "one result"); auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
  CHECK(sameDate(s, R.d), "date of the reference"); CHECK(s.getHour() == HR[k], "hour of the day part"); CHECK(s.get_wDay() == R.w, "weekday of the reference"); CHECK((s.getMinute() >= 0) & (s.getMinute() < 60) & (s.getSeconds() >= 0) & (s.getSeconds() < 60), "a minute and a second of the hour");
  CHECK(!s.isCertain("year") & !s.isCertain("month") & !s.isCertain("mday") & !s.isCertain("hour"), "nothing is certain");
}

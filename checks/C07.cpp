//@bound: reference: every second of every day 1800-01-01..2199-12-31 (thorough: 1500..2499); now, today, tonight, last night (0..2 spaces), tomorrow, tmr, yesterday
#include "units.h"
#include "src/parsers/en/ENCasualDateParser.hpp"
using namespace H;
extern "C" void sym_main() {
  static const char *const W[] = {"now", "today", "tonight", "lastnight", "last night", "last  night", "tomorrow", "tmr", "yesterday"};
  int k = choice("word", 9); string t = W[k]; Ref R = ref(FULL ? 1500 : 1800, FULL ? 2499 : 2199); parser::ENCasualDateParser p; Result r = run(p, t, R.t);
  CHECK(r.size() == 1, "one result"); auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
  CHECK(s.isCertain("year") & s.isCertain("month") & s.isCertain("mday"), "date is certain");
  CHECK(s.isCertain("hour") == (k == 0), "only now has a certain time");
  switch (k) {
    case 0: CHECK(sameDate(s, R.d) & sameTime(s, R.h, R.mi, R.s), "now"); break;
    case 1: CHECK(sameDate(s, R.d) & sameTime(s, 0, 0, 0), "today"); break;
    case 2: CHECK(sameDate(s, R.d) & sameTime(s, 22, 0, 0), "tonight"); break;
    case 3: case 4: case 5: CHECK(sameDate(s, R.d - bg::days(R.h > 6 ? 1 : 0)) & sameTime(s, 0, 0, 0), "last night"); break;
    case 6: case 7: CHECK(sameDate(s, R.d + bg::days(R.h > 0 ? 1 : 0)) & sameTime(s, 0, 0, 0), "tomorrow"); break;
    default: CHECK(sameDate(s, R.d - bg::days(1)) & sameTime(s, R.h, 0, 0), "yesterday");
  }
}

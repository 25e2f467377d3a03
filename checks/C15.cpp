//@bound: reference: every second of every day 1800-01-01..2199-12-31 (thorough: 1500..2499); noon, midnight, H, HH, H:MM, HH:M, HH:MM, HH:MM:SS, with fraction, HMM, HHMM, every digit symbolic; ':' or '.' before the minute; every meridiem spelling, 0..2 spaces before it; no word, 'at' or 'from' in front; hour 24 and digits below 100 written with 3 or 4 places are left open
#include "clock.h"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
using namespace H;
extern "C" void sym_main() {
  static const char *const P[] = {"", "at ", "from ", "at"}, *const SEP[] = {":", "."}, *const GAP[] = {"", " ", "  "};
  int form = choice("form", 11); bool digits = form != 8 && form != 9;
  int mer = digits ? choice("meridiem", NMER) : 0, gap = mer ? choice("gap", 3) : 0, sep = digits && form >= 2 && form != 6 && form != 7 ? choice("sep", 2) : 0, pre = choice("word", 4);
  string t = P[pre]; Clock c = clockText(t, "t", form, SEP[sep], MER[mer], GAP[gap]); sym_assume(!((c.h == 24) & !c.mer));
  Ref R = ref(FULL ? 1500 : 1800, FULL ? 2499 : 2199); parser::ENTimeExpressionParser p; Result r = run(p, t, R.t);
  if (!c.real) { CHECK(r.size() == 0, "no such time"); return; }
  CHECK(r.size() == 1, "one result"); auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the time");
  CHECK(sameTime(s, c.h, c.mi, c.s), "time of day"); CHECK(sameDate(s, R.d), "date of the reference");
  CHECK(s.isCertain("hour") & s.isCertain("min") & !s.isCertain("mday") & !s.isCertain("month") & !s.isCertain("year"), "time is certain, date is not");
}

//@bound: reference: every second of every day 1990-01-01..2069-12-31 (thorough: 1800..2199); 45 phrase shapes covering counts, ISO dates, month-day, month-year and clock forms of nine parsers, with every digit of every number symbolic (years 0000..9999, days, months, hours, minutes and seconds 00..99, counts up to 7 digits)
//@time_quick: 300
#include "shapes.h"
using namespace H;
extern "C" void sym_main() {
  
#ifdef ONLY
  const Shape &p = SHAPES[ONLY];
#else
  const Shape &p = SHAPES[choice("template", NSHAPES)];
#endif
   string t = fill(p);
  auto R = FULL ? refYMD(1800, 2199) : refYMD(1990, 2069); Result r = runParser(p.p, t, R.t);
  for (auto &x : r) { CHECK(realDate(x.startDate), "a date of the calendar"); CHECK(realTime(x.startDate), "a time of the day"); if (x.end()) { CHECK(realDate(x.endDate), "an end date of the calendar"); CHECK(realTime(x.endDate), "an end time of the day"); } CHECK(x.hasPossibleDates() && x.startDate.isPossibleDate(), "says so itself"); }
}

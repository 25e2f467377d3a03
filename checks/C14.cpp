//@bound: reference: every second of every day 1900-01-01..2099-12-31 (thorough: 1800..2199); each holiday in each spelling (also with other spacing inside), with and without a following 'day'; oracle: fixed date, or weekday and the range of days of the month that the nth weekday can fall on
#include "units.h"
#include "src/parsers/en/ENUSHolidaysParser.hpp"
using namespace H;
struct Hol { const char *name; int m, lo, hi, w; };   // w: weekday (Sunday 0) or -1; the holiday is the one day in [lo,hi] of month m that falls on w
static const Hol HOL[] = {{"independence", 7, 4, 4, -1}, {"new year's", 1, 1, 1, -1}, {"new year's eve", 12, 31, 31, -1}, {"veterans", 11, 11, 11, -1}, {"veteran's", 11, 11, 11, -1}, {"christmas", 12, 25, 25, -1}, {"christmas eve", 12, 24, 24, -1}, {"christmaseve", 12, 24, 24, -1}, {"newyear'seve", 12, 31, 31, -1}, {"new  year's", 1, 1, 1, -1}, {"new year's  eve", 12, 31, 31, -1}, {"martin  luther king  jr", 1, 15, 21, 1}, {"martinlutherkingjr", 1, 15, 21, 1}, {"black  friday", 11, 23, 29, 5}, {"blackfriday", 11, 23, 29, 5},
  {"mlk", 1, 15, 21, 1}, {"martin luther king jr", 1, 15, 21, 1}, {"martin luther king jnr", 1, 15, 21, 1}, {"martin luther king junior", 1, 15, 21, 1}, {"president's", 2, 15, 21, 1}, {"memorial", 5, 25, 31, 1}, {"labor", 9, 1, 7, 1}, {"columbus", 10, 8, 14, 1}, {"thanksgiving", 11, 22, 28, 4}, {"black friday", 11, 23, 29, 5}};
extern "C" void sym_main() {
  const Hol &h = HOL[choice("holiday", sizeof HOL / sizeof *HOL)]; string t = h.name; if (choice("day", 2)) t += " day";
  RefYMD R = refYMD(FULL ? 1800 : 1900, FULL ? 2199 : 2099, true); parser::ENHolidayParser p; Result r = run(p, t, R.t);
  CHECK(r.size() == 1, "one result"); auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the name");
  CHECK((s.getYear() == R.y) & (s.getMonth() == h.m), "month of the holiday in the reference year");
  int d = s.get_mDay(); CHECK((d >= h.lo) & (d <= h.hi), "day of the month");
  if (h.w >= 0) { int w = (int)((bg::date(R.y, h.m, d) - bg::date(1700, 1, 3)).days() % 7); CHECK(w == h.w, "day of the week"); CHECK(s.get_wDay() == h.w, "weekday component"); }
  CHECK(sameTime(s, 0, 0, 0), "start of the day"); CHECK(s.isCertain("mday") & s.isCertain("month"), "date is certain");
}

// Exhaustive comparison of the calendar contract used by the executor with the real Boost.DateTime, over every day 1400..9999.
#include "expr.h"
#include <boost/date_time/gregorian/gregorian.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <iostream>
extern "C" { long sym_cal(long w, long dn) { long y, m, d; cal_ymd(dn, y, m, d); return w == 0 ? y : w == 1 ? m : d; } long sym_caln(long y, long m, long d) { return cal_dn(y, m, d); } long sym_eom(long y, long m) { return cal_eom(y, m); } }
#include "libmodels.cpp"
int main() {
  using namespace boost::gregorian;
  { date a(1400, 1, 1); boost::posix_time::time_duration z; for (long d = 0; d < 3141000; d += (d % 400 ? 1 : 37)) { date x = a + days(d); if (x.year() > 9998) break; if (d % 9 == 0 && dateText(x) != to_simple_string(x)) { printf("date text mismatch\n"); return 1; } }
    for (long s = -90000; s < 400000; s += 7) { auto td = boost::posix_time::seconds(s); if (durText(td) != boost::posix_time::to_simple_string(td)) { printf("time text mismatch\n"); return 1; } } }
  typedef gregorian_calendar G; unsigned a = G::day_number(G::ymd_type(1400, 1, 1)), b = G::day_number(G::ymd_type(9999, 12, 31)); long n = 0;
  for (unsigned d = a; d <= b; d++) { long y, m, dd; cal_ymd(d, y, m, dd); auto t = G::from_day_number(d); if (t.year != y || t.month != m || t.day != dd || cal_dn(y, m, dd) != (long)d || G::day_of_week(t) != (d + 1) % 7) { printf("mismatch at %u\n", d); return 1; } n++; }
  for (int y = 1400; y <= 9999; y++) for (int m = 1; m <= 12; m++) {
    int e = m == 2 ? ((y % 4 == 0 && y % 100) || y % 400 == 0 ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
    if (G::end_of_month_day(y, m) != e || cal_eom(y, m) != e) { printf("eom mismatch\n"); return 1; }
    for (int d = 1; d <= 31; d++) if (cal_dn(y, m, d) != (long)G::day_number(G::ymd_type(y, m, d))) { printf("dn mismatch\n"); return 1; } }
  printf("calendar contract: %ld days compared\n", n); return 0;
}

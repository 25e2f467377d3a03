//@bound: every 4-digit year, every 1..2-digit month and day (all digits symbolic, calendar validity decided); no time, H:M, H:M:S, H:M:S.f; every 1..2-digit hour, minute, second; no zone, Z, +-HH, +-HHMM, +-HH:MM with every digit; hour 24 is left open
#include "units.h"
#include "src/parsers/en/ENISOFormatParser.hpp"
using namespace H;
extern "C" void sym_main() {
  string t; if (choice("fraction", 2) == 0) {   // fractions that rounding would carry
    static const char *const F[] = {"9", "99", "999", "9999", "5", "0001"}; int c = choice("sec", 2); t = string("2016-02-29t23:59:") + (c ? "59" : "07") + "." + F[choice("f", 6)]; bp::ptime ref(bg::date(2012, 8, 10), bp::seconds(sym_int("ref.sec", 0, 86399))); parser::ENISOFormatParser p; Result r = run(p, t, ref);
    CHECK((r.size() == 1) && (r[0].startDate.getYear() == 2016) & (r[0].startDate.getMonth() == 2) & (r[0].startDate.get_mDay() == 29) & sameTime(r[0].startDate, 23, 59, c ? 59 : 7), "fractions are cut off"); return;
  } int y = num(t, "year", 4, true); t += "-"; 
  int md = 1 + choice("month.len", 2), dd = 1 + choice("day.len", 2);
  int m = num(t, "month", md, true); t += "-"; int d = num(t, "day", dd, true);
  int form = choice("time", 4), zone = 0, h = 0, mi = 0, s = 0, zh = 0, zm = 0, zs = 1;
  if (form) {
    t += "T"; bool two = FULL ? choice("digits", 2) : (md == 2); int nd = two ? 2 : 1;
    h = num(t, "h", nd, true); t += ":"; mi = num(t, "mi", nd, true); sym_assume(h != 24);
    if (form >= 2) { t += ":"; s = num(t, "s", nd, true); }
    if (form == 3) { t += "."; num(t, "f", FULL ? 1 + choice("f.len", 4) : md == 2 ? 4 : 1, true); }
    zone = choice("zone", 5);
    if (zone == 1) t += "Z";
    if (zone >= 2) { zs = choice("west", 2) ? -1 : 1; t += zs < 0 ? "-" : "+"; zh = num(t, "zh", 2, true); if (zone == 4) t += ":"; if (zone >= 3) zm = num(t, "zm", 2, true); }
  }
  // the reference plays no part
  bp::ptime ref(bg::date(2016, 2, 29), bp::seconds(sym_int("ref.sec", 0, 86399)));
  parser::ENISOFormatParser p; size_t len = t.size(); Result r = run(p, t, ref);
  bool valid = (y >= 1400) & (m >= 1) & (m <= 12) & (h <= 23) & (mi <= 59) & (s <= 59);
  if (!valid) { CHECK(r.size() == 0, "not a real date or time"); return; }
  valid = (d >= 1) & (d <= sym_eom(y, m));
  if (!valid) { CHECK(r.size() == 0, "no such day"); return; }
  CHECK(r.size() == 1, "one result"); auto &c = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == len) & !r[0].end(), "covers the text");
  CHECK((c.getYear() == y) & (c.getMonth() == m) & (c.get_mDay() == d), "date");
  CHECK(sameTime(c, h, mi, s), "time of day");
  CHECK(c.isCertain("mday") & c.isCertain("month") & c.isCertain("year") & (c.isCertain("hour") == (form > 0)), "written parts are certain");
  if (form) CHECK(c.isCertain("tzoffset") & (c.getTimeZoneOffset() == zs * (zh * 60 + zm)), "offset from UTC in minutes");
}

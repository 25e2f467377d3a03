//@bound: every date 1400-01-01..9999-12-31 (year, month, day symbolic), every time of day; a single date or a range of two arbitrary dates; with a time-zone offset of -780..+840 minutes or none
#include "units.h"
#include "src/result.hpp"
using namespace H;
static bp::ptime put(parse::ParsedComponents &c, const char *n, bool imply) {
  string s = n; string a = s + ".y", b = s + ".mo", e = s + ".d", f = s + ".sec"; int y = sym_int(a.c_str(), 1401, 9998), m = sym_int(b.c_str(), 1, 12), d = sym_int(e.c_str(), 1, 31), sec = sym_int(f.c_str(), 0, 86399); sym_assume(d <= sym_eom(y, m));
  if (imply) { c.implyComponent("year", y); c.implyComponent("month", m); c.implyComponent("mday", d); c.implyComponent("hour", sec / 3600); c.implyComponent("min", sec / 60 % 60); c.implyComponent("sec", sec % 60); }
  else { c.setYear(y); c.setMonth(m); c.set_mDay(d); c.setHour(sec / 3600); c.setMinute(sec / 60 % 60); c.setSeconds(sec % 60); }
  return bp::ptime(bg::date(y, m, d), bp::seconds(sec));
}
static bool isAt(const string &o, size_t at, const bp::ptime &t) {
  static const char NM[] = "JanFebMarAprMayJunJulAugSepOctNovDec"; if (o.size() < at + 20) return false;
  auto q = t.date().year_month_day(); int y = q.year, m = q.month.as_number(), d = q.day; int h = (int)t.time_of_day().hours(), mi = (int)t.time_of_day().minutes(), s = (int)t.time_of_day().seconds();
  const char *p = o.data() + at; auto two = [&](int i, int v) { return (p[i] == '0' + v / 10) & (p[i + 1] == '0' + v % 10); };
  return two(0, y / 100) & two(2, y % 100) & (p[4] == '-') & (p[5] == NM[3 * m - 3]) & (p[6] == NM[3 * m - 2]) & (p[7] == NM[3 * m - 1]) & (p[8] == '-') & two(9, d) & (p[11] == ' ') & two(12, h) & (p[14] == ':') & two(15, mi) & (p[17] == ':') & two(18, s);
}
extern "C" void sym_main() {
  parse::ParsedResult r; bool end = choice("range", 2), imply = choice("implied", 2); int tz = choice("zone", 3);   // none, offset without the abbreviation tag, tagged
  bp::ptime a = put(r.startDate, "a", imply), b; int oa = 0, ob = 0;
  if (end) { b = put(r.endDate, "b", imply); r.makeEndDateValid(); }
  if (tz) { oa = sym_int("offset", -780, 840); r.startDate.setTimeZoneOffset(oa); if (end) { ob = sym_int("end.offset", -780, 840); r.endDate.setTimeZoneOffset(ob); } if (tz == 2) r.setTag(utils::ExtractTimeZoneAbbreviation); else oa = ob = 0; }
  string o = r.toDate(); sym_observe_str("out", o.data(), o.size());
  CHECK(o.size() == (end ? 43 : 20), "length"); CHECK(isAt(o, 0, a - bp::minutes(oa)), "start in UTC");
  if (end) CHECK(isAt(o, 23, b - bp::minutes(ob)) & (o[20] == ' ') & (o[21] == '-') & (o[22] == ' '), "end in UTC");
}

//@bound: year, month, day, hour, minute and second each any value -100000..100000 (so every real date and time, and every unreal one), each stated, implied or absent in 8 patterns; the end of a result any with a real start, or real with any start
#include "units.h"
#include "src/result.hpp"
using namespace H;
struct V { int v[6]; };
static V put(parse::ParsedComponents &c, const char *n, int pattern, bool within = false) {
  static const int LO[] = {1400, 1, 1, 0, 0, 0}, HI[] = {9999, 12, 31, 23, 59, 59};
  static const char *const K[] = {"year", "month", "mday", "hour", "min", "sec"}; V r;
  for (int i = 0; i < 6; i++) {
    int how = pattern == 0 ? 0 : pattern == 1 ? 1 : pattern == 2 ? i % 2 : pattern == 3 ? 1 - i % 2 : pattern == 4 ? (i < 3 ? 0 : 1) : pattern == 5 ? (i < 3 ? 1 : 0) : pattern == 6 ? (i < 3 ? 0 : 2) : (i == 5 ? 2 : 0);
    string nm = string(n) + "." + K[i]; int v = how == 2 ? 0 : within ? sym_int(nm.c_str(), LO[i], HI[i]) : sym_int(nm.c_str(), -100000, 100000); r.v[i] = v;
    if (how == 1) c.implyComponent(K[i], v); else if (how == 0) switch (i) { case 0: c.setYear(v); break; case 1: c.setMonth(v); break; case 2: c.set_mDay(v); break; case 3: c.setHour(v); break; case 4: c.setMinute(v); break; default: c.setSeconds(v); }
  }
  return r;
}
static bool real(const V &x) {
  const int *v = x.v; bool r = (v[0] >= 1400) & (v[0] <= 9999) & (v[1] >= 1) & (v[1] <= 12) & (v[2] >= 1) & (v[3] >= 0) & (v[3] <= 24) & (v[4] >= 0) & (v[4] <= 59) & (v[5] >= 0) & (v[5] <= 59);
  if (!r) return false; return v[2] <= sym_eom(v[0], v[1]);
}
extern "C" void sym_main() {
  bp::ptime anchor(bg::date(2016, 2, 29)); parse::ParsedResult r(anchor, 3, "text"); int kind = choice("kind", 4);   // no end, any end after a real start, any start before a real end, a real moment
   V a = put(r.startDate, "start", kind == 1 || kind == 2 ? 0 : choice("given", 8), kind == 3), b; bool ra = real(a), rb = true; const int *v = a.v;
  if (kind & 1) sym_assume(ra);
  bool p; try { p = r.startDate.isPossibleDate(); } catch (...) { CHECK(false, "no-exception"); throw; } sym_observe("possible", p); CHECK(p == ra, "possible exactly if the date and the time exist");
  if (kind == 1 || kind == 2) { b = put(r.endDate, "end", 0); rb = real(b); r.makeEndDateValid(); if (kind == 2) sym_assume(rb); }
  bool h; try { h = r.hasPossibleDates(); } catch (...) { CHECK(false, "no-exception"); throw; } sym_observe("has", h); CHECK(h == (ra && rb), "a result is possible exactly if its start and its end are");
  if (kind != 3) return;
  bp::ptime t = r.startDate.date(); bp::ptime e(bg::date(v[0], v[1], v[2]), bp::time_duration(v[3], v[4], v[5])); CHECK(t == e, "the point in time of these components");
}

//@bound: every sequence of 3 (thorough: 4) operations, each giving any of the eight components a certain or an implied value, from a fresh object or one built from given components; values -100000..100000
#include "units.h"
#include "src/result.hpp"
using namespace H;
static const char *const K[] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};
static int get(parse::ParsedComponents &c, int k) { switch (k) { case 0: return c.getYear(); case 1: return c.getMonth(); case 2: return c.get_mDay(); case 3: return c.get_wDay(); case 4: return c.getHour(); case 5: return c.getMinute(); case 6: return c.getSeconds(); default: return c.getTimeZoneOffset(); } }
static void set(parse::ParsedComponents &c, int k, int v) { switch (k) { case 0: c.setYear(v); break; case 1: c.setMonth(v); break; case 2: c.set_mDay(v); break; case 3: c.set_wDay(v); break; case 4: c.setHour(v); break; case 5: c.setMinute(v); break; case 6: c.setSeconds(v); break; default: c.setTimeZoneOffset(v); } }
extern "C" void sym_main() {
  bool known[8] = {}; int val[8] = {}; parse::ParsedComponents c;
  if (choice("prebuilt", 2)) {   // built from a table of components: certain ones stay certain
    Components t; for (int k = 0; k < 8; k++) { int v = sym_int("given", -100000, 100000); bool f = k == 0 || k == 3 || k == 5; t[K[k]] = {f, v}; if (f) { known[k] = true; val[k] = v; } }
    c = parse::ParsedComponents(t);
  }
  for (int i = 0; i < (FULL ? 4 : 3); i++) {
    int op = choice("op", 16), k = op / 2, v = sym_int("value", -100000, 100000);
    if (op % 2) { c.implyComponent(K[k], v); if (!known[k]) val[k] = v; }
    else { set(c, k, v); known[k] = true; val[k] = v; }
    CHECK(get(c, k) == val[k], "the value last given counts, and a guess never displaces a certain one");
  }
  for (int k = 0; k < 8; k++) { sym_observe(K[k], get(c, k)); CHECK(get(c, k) == val[k], "value"); CHECK(c.isCertain(K[k]) == known[k], "certain exactly when stated"); }
}

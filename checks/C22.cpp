//@bound: 0..4 (thorough: 0..5) results in order of position, each of 1..4 (thorough 1..5) characters, starting at any position 0..15
#include "units.h"
#include "src/refiners/OverlapRemovalRefiner.hpp"
using namespace H;
extern "C" void sym_main() {
  int n = choice("n", FULL ? 6 : 5), at[5], len[5]; Result in; string text(24, 'x');
  for (int i = 0; i < n; i++) {
    at[i] = sym_int("at", 0, 15); if (i) sym_assume(at[i] >= at[i - 1]); len[i] = 1 + choice("len", FULL && n < 5 ? 5 : 4);
    parse::ParsedResult r(bp::ptime(bg::date(2016, 2, 29)), at[i], string(len[i], 'a' + i)); r.startDate.setYear(2000 + i); r.endDate.setYear(3000 + i); r.makeEndDateValid(); r.setTag(utils::ENISOFormatParser); in.push_back(r);
  }
  OverlapRemover o; Result out; try { out = o.refine(in, text); } catch (...) { CHECK(false, "no-exception"); throw; }
  sym_observe("n", (long)out.size()); bool kept[5] = {}; int last = -1; bool ok = true;
  for (auto &r : out) { int id = (int)sym_conc(r.startDate.getYear()) - 2000; sym_observe("kept", id); CHECK(id > last && id < n, "a selection of the results, in their order"); kept[id] = true; last = id;
    CHECK((r.getIndex() == (unsigned)at[id]) & (r.textLength() == (size_t)len[id]), "unchanged position and text"); CHECK(r.end() && r.endDate.getYear() == 3000 + id && r.getTag(utils::ENISOFormatParser), "unchanged content"); }
  CHECK(n == 0 || !out.empty(), "something is kept"); auto over = [&](int i, int j) { return (at[i] < at[j] + len[j]) & (at[j] < at[i] + len[i]); };
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (kept[i] && kept[j]) ok &= !over(i, j);
  CHECK(ok, "no two kept results overlap");
  for (int i = 0; i < n; i++) if (!kept[i]) { bool why = false; for (int j = 0; j < n; j++) if (j != i && (len[j] > len[i] || (len[j] == len[i] && j < i))) why |= over(i, j); CHECK(why, "dropped only for an overlapping one that is longer, or as long and earlier"); }
}

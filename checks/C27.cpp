//@bound: a result whose every component is free (stated, implied or absent; any value -100000..100000), with or without an end, at any position 0..1000, text of 0..20 characters, any one or two of the 15 marks; copied, assigned over another (any of the same kinds), moved through a growing vector, or both
#include "phrases.h"
#include <algorithm>
using namespace H;
static const char *const K[] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};
static void fill(parse::ParsedComponents &c, const char *n, int shape) {
  for (int k = 0; k < 8; k++) { int v = sym_int(n, -100000, 100000), how = (shape + k) % 3;
    if (how == 1) c.implyComponent(K[k], v);
    if (how == 2) switch (k) { case 0: c.setYear(v); break; case 1: c.setMonth(v); break; case 2: c.set_mDay(v); break; case 3: c.set_wDay(v); break; case 4: c.setHour(v); break; case 5: c.setMinute(v); break; case 6: c.setSeconds(v); break; default: c.setTimeZoneOffset(v); } }
}
static void check(parse::ParsedResult &a, parse::ParsedResult &b) {
  CHECK((a.getIndex() == b.getIndex()) & (a.textLength() == b.textLength()), "same position and text"); CHECK(a.end() == b.end(), "a range stays a range, and nothing else becomes one");
  CHECK(sameParts(a.startDate, b.startDate), "same start"); if (a.end()) CHECK(sameParts(a.endDate, b.endDate), "same end");
  bool t = true; for (auto m : utils::ModList) t &= a.getTag(m) == b.getTag(m); CHECK(t, "same marks");
}
static parse::ParsedResult make(const char *n, int shape, bool end, int tag) {
  string s = n; parse::ParsedResult r(bp::ptime(bg::date(2016, 2, 29)), sym_int((s + ".at").c_str(), 0, 1000), string((size_t)(tag + shape), 'x')); fill(r.startDate, (s + ".start").c_str(), shape); if (end) { fill(r.endDate, (s + ".end").c_str(), shape + 1); r.makeEndDateValid(); }
  r.setTag((utils::Modifiers)tag); if (shape) r.setTag((utils::Modifiers)((tag + 7) % 15)); return r;
}
extern "C" void sym_main() {
  int s1 = choice("shape", 3), tag = choice("mark", 15), how = choice("way", 4); bool e1 = choice("range", 2); parse::ParsedResult a = make("a", s1, e1, tag), ref = make("a2", 0, false, 0);
  // an independent twin of a, built from its observable parts
  struct Twin { unsigned at; size_t len; bool end; int v[16]; bool k[16], t[15]; } w; auto look = [&](parse::ParsedResult &r) { Twin x; x.at = r.getIndex(); x.len = r.textLength(); x.end = r.end(); for (int i = 0; i < 16; i++) { auto &c = i < 8 ? r.startDate : r.endDate; switch (i % 8) { case 0: x.v[i] = c.getYear(); break; case 1: x.v[i] = c.getMonth(); break; case 2: x.v[i] = c.get_mDay(); break; case 3: x.v[i] = c.get_wDay(); break; case 4: x.v[i] = c.getHour(); break; case 5: x.v[i] = c.getMinute(); break; case 6: x.v[i] = c.getSeconds(); break; default: x.v[i] = c.getTimeZoneOffset(); } x.k[i] = c.isCertain(K[i % 8]); } for (int m = 0; m < 15; m++) x.t[m] = r.getTag((utils::Modifiers)m); return x; };
  auto same = [&](const Twin &x, const Twin &y) { bool r = (x.at == y.at) & (x.len == y.len) & (x.end == y.end); for (int i = 0; i < (x.end ? 16 : 8); i++) r &= (x.v[i] == y.v[i]) & (x.k[i] == y.k[i]); for (int m = 0; m < 15; m++) r &= x.t[m] == y.t[m]; return r; };
  // looking at marks may fill them in, so one way assigns a result that nobody has looked at
  if (how == 1 && choice("unseen", 2)) { parse::ParsedResult b = make("b", choice("other shape", 3), choice("other range", 2), (tag + 3) % 15); b.getTag((utils::Modifiers)((tag + 3) % 15)); b = a; bool t = true; for (int m = 0; m < 15; m++) t &= b.getTag((utils::Modifiers)m) == ((m == tag) | (s1 && m == (tag + 7) % 15)); CHECK(t, "the marks assigned, no others"); check(b, a); return; }
  w = look(a);
  if (how == 0) { parse::ParsedResult b(a); check(b, a); b.startDate.setYear(7); b.endDate.setYear(8); b.setTag(utils::ExtractTimeZoneAbbreviation); b.setIndex(5); b.setText("zzz"); b.makeEndDateValid(); }
  else if (how == 1) { int s2 = choice("other shape", 3); bool e2 = choice("other range", 2); parse::ParsedResult b = make("b", s2, e2, (tag + 3) % 15); b = a; check(b, a); b.startDate.setYear(7); b.endDate.setYear(8); b.setText("zzz"); parse::ParsedComponents c; c = a.startDate; CHECK(sameParts(c, a.startDate), "components alone"); }
  else if (how == 2) { Result v; for (int i = 0; i < 5; i++) v.push_back(a); for (auto &x : v) check(x, a); v[0].startDate.set_mDay(9); CHECK(sameParts(v[1].startDate, a.startDate), "each copy stands alone"); }
  else { bool e2 = choice("other range", 2); parse::ParsedResult b = make("b", (s1 + 1) % 3, e2, (tag + 5) % 15); Twin u = look(b); Result v{a, b}; std::swap(v[0], v[1]); CHECK(same(look(v[0]), u) && same(look(v[1]), w), "exchanged whole"); Result z; z = v; z.insert(z.end(), v.begin(), v.end()); CHECK(same(look(z[0]), u) && same(look(z[3]), w), "lists of results keep them"); }
  CHECK(same(look(a), w), "the original is untouched");
}

//@bound: two results, each any moment 1600..2399 (to the second) and each with or without an end of its own; between them 10 range words, 6 other words, or any 1..2 printable characters; nothing, or an unrelated result, before and after; also two such pairs in one text
#include "units.h"
#include "src/refiners/en/ENMergeDateRangeRefiner.hpp"
using namespace H;
struct M { int y, m, d, h, mi, s; };
static M moment(const char *n) { string s = n; M r; r.y = sym_int((s + ".y").c_str(), 1600, 2399); r.m = sym_int((s + ".mo").c_str(), 1, 12); r.d = sym_int((s + ".d").c_str(), 1, 31); sym_assume(r.d <= sym_eom(r.y, r.m)); r.h = sym_int((s + ".h").c_str(), 0, 23); r.mi = sym_int((s + ".mi").c_str(), 0, 59); r.s = sym_int((s + ".s").c_str(), 0, 59); return r; }
static void put(parse::ParsedComponents &c, const M &v, bool stated) { if (stated) { c.setYear(v.y); c.setHour(v.h); c.setMinute(v.mi); } else { c.implyComponent("year", v.y); c.implyComponent("hour", v.h); c.implyComponent("min", v.mi); } c.setMonth(v.m); c.set_mDay(v.d); c.implyComponent("sec", v.s); }
static bool is(parse::ParsedComponents &c, const M &v) { return (c.getYear() == v.y) & (c.getMonth() == v.m) & (c.get_mDay() == v.d) & (c.getHour() == v.h) & (c.getMinute() == v.mi) & (c.getSeconds() == v.s); }
static bool later(const M &a, const M &b) { auto t = [](const M &v) { return bp::ptime(bg::date(v.y, v.m, v.d), bp::seconds(v.h * 3600 + v.mi * 60 + v.s)); }; return t(a) > t(b); }
// two pairs in one text, each becoming one range
static void twoPairs() {
  string text; Result in; bp::ptime anchor(bg::date(2016, 2, 29)); M m[4]; size_t at[2], to[2]; static const char *const J[] = {" to ", " - ", " and "}, *const A[] = {" qq ", "; ", ", "};
  for (int i = 0; i < 4; i++) { m[i] = moment(("m" + std::to_string(i)).c_str()); size_t p = text.size(); if (!(i & 1)) at[i / 2] = p; text += "mom"; text += (char)('a' + i); if (i & 1) to[i / 2] = text.size(); parse::ParsedResult r(anchor, (long)p, string("mom") + (char)('a' + i)); put(r.startDate, m[i], true); in.push_back(r); if (i != 3) text += i == 1 ? A[choice("apart", 3)] : J[choice("join", 3)]; }
  obsText(text); ENMergeDateRange x; Result out; try { out = x.refine(in, text); obsResult(out); } catch (...) { CHECK(false, "no-exception"); throw; }
  CHECK(out.size() == 2, "two pairs: two ranges"); for (int i = 0; i < 2; i++) { M &a = m[2 * i], &b = m[2 * i + 1]; CHECK((out[i].getIndex() == at[i]) & (out[i].textLength() == to[i] - at[i]) & out[i].end(), "two pairs: each covers its own"); bool l = later(a, b); CHECK(is(out[i].startDate, l ? b : a) & is(out[i].endDate, l ? a : b), "two pairs: each with its own ends"); }
}
extern "C" void sym_main() {
  if (choice("pairs", 2)) { twoPairs(); return; }
  static const char *const JOIN[] = {" and ", " to ", " through ", "-", " - ", "and", " to", "  -", "\nto ", "through"}; static const char *const NOT[] = {" ", "", ", ", " at ", " and to ", " toward "};
  int w = choice("between", 3), ends = w == 0 ? choice("ends", 4) : 0; string between; bool join;
  if (w == 0) { between = JOIN[choice("join", 10)]; join = true; } else if (w == 1) { between = NOT[choice("apart", 6)]; join = false; }
  else { int k = 1 + choice("chars", 2); for (int i = 0; i < k; i++) between += (char)sym_int("char", 32, 126); char a = between[0], b = k > 1 ? between[1] : ' '; join = ((a == '-') & (b == ' ')) | ((a == ' ') & (b == '-')) | ((a == 't') & (b == 'o')); }
  if (ends) join = false; int before = choice("before", 2), after = choice("after", 2); M m1 = moment("first"), m2 = moment("second"); bool s1 = choice("stated", 2), s2 = choice("stated", 2); Result in; string text; bp::ptime anchor(bg::date(2016, 2, 29));
  auto other = [&](const char *x, int h) { parse::ParsedResult r(anchor, (long)text.size(), x); r.startDate.setYear(2010); r.startDate.setMonth(1); r.startDate.set_mDay(1); r.startDate.setHour(h); text += x; in.push_back(r); };
  if (before) { other("2010-1-1T1", 1); text += " qq "; }
  size_t i1 = text.size(); text += "first"; text += between; size_t i2 = text.size(); text += "second!"; parse::ParsedResult a(anchor, (long)i1, "first"), b(anchor, (long)i2, "second!"); put(a.startDate, m1, s1); put(b.startDate, m2, s2); a.setTag(utils::ENMonthNameParser); b.setTag(utils::ENISOFormatParser);
  if (ends & 1) { put(a.endDate, m2, true); a.makeEndDateValid(); } if (ends & 2) { put(b.endDate, m1, true); b.makeEndDateValid(); }
  size_t me = in.size(); in.push_back(a); in.push_back(b); if (after) { text += " qq "; other("2010-1-1T2", 2); }
  obsText(text); ENMergeDateRange m; Result out; try { out = m.refine(in, text); obsResult(out); } catch (...) { CHECK(false, "no-exception"); throw; }
  if (before) { CHECK(out.size() > 0 && out[0].getIndex() == 0 && out[0].startDate.getHour() == 1 && out[0].textLength() == 10 && !out[0].end(), "an unrelated result before stays"); }
  if (after) { CHECK(out.size() > 0 && out.back().startDate.getHour() == 2 && out.back().getIndex() == text.size() - 10 && !out.back().end(), "an unrelated result after stays"); }
  size_t n = (size_t)before + (size_t)after;
  if (!join) { CHECK(out.size() == n + 2, "not joined by other words, nor when one is a range already"); auto &p = out[me], &q = out[me + 1]; CHECK((p.getIndex() == i1) & (q.getIndex() == i2) & (p.textLength() == 5) & (q.textLength() == 7), "both stay"); CHECK(is(p.startDate, m1) & is(q.startDate, m2) & (p.end() == (bool)(ends & 1)) & (q.end() == (bool)(ends & 2)), "both keep their moments"); return; }
  CHECK(out.size() == n + 1, "one result"); auto &r = out[me]; CHECK((r.getIndex() == i1) & (r.textLength() == i2 + 7 - i1), "covers both"); CHECK(r.end(), "a range");
  if (later(m1, m2)) CHECK(is(r.startDate, m2) & is(r.endDate, m1), "from the earlier to the later, when the later is named first"); else CHECK(is(r.startDate, m1) & is(r.endDate, m2), "from the first to the second");
  CHECK(r.getTag(utils::ENMonthNameParser) && r.getTag(utils::ENISOFormatParser), "marks of both");
}

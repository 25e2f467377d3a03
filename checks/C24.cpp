//@bound: a date (year, month, day stated, or only the month and day, or the month and year, meaning its first day (of 2015..2020 when a range of times is added); optionally with an end date) and a time (hour and minute, with or without seconds, with or without offset, or only implied; optionally with an end time) in either order; any calendar date 1600..2399, any time of day; between them 11 connecting texts, or any 1..2 printable characters; nothing, or an unrelated result, before and after; also two such pairs in one text; and two results that are not a date and a time (two dates, two times, a moment and any of these) with 5 connecting texts
#include "units.h"
#include "src/refiners/en/ENMergeDateAndTimeRefiner.hpp"
using namespace H;
struct D { int y, m, d; }; struct T { int h, mi, s; };
static D date(const char *n) { string s = n; D r; string a = s + ".y", b = s + ".mo", c = s + ".d"; r.y = sym_int(a.c_str(), 1600, 2399); r.m = sym_int(b.c_str(), 1, 12); r.d = sym_int(c.c_str(), 1, 31); sym_assume(r.d <= sym_eom(r.y, r.m)); return r; }
static T clock(const char *n) { string s = n; T r; string a = s + ".h", b = s + ".mi", c = s + ".s"; r.h = sym_int(a.c_str(), 0, 23); r.mi = sym_int(b.c_str(), 0, 59); r.s = sym_int(c.c_str(), 0, 59); return r; }
static void put(parse::ParsedComponents &c, const D &v, int kind) { if (kind) c.setYear(v.y); else c.implyComponent("year", v.y); c.setMonth(v.m); if (kind == 2) c.implyComponent("mday", v.d); else c.set_mDay(v.d); c.implyComponent("hour", 12); }   // kind: 0 month and day, 1 and year, 2 month and year
static void put(parse::ParsedComponents &c, const T &v, int kind, int tz) {   // kind: 0 h:m, 1 h:m:s, 2 implied
  if (kind == 2) { c.implyComponent("hour", v.h); c.implyComponent("min", v.mi); c.implyComponent("sec", v.s); } else { c.setHour(v.h); c.setMinute(v.mi); if (kind) c.setSeconds(v.s); else c.implyComponent("sec", v.s); if (tz != -999) c.setTimeZoneOffset(tz); }
  c.implyComponent("year", 2001); c.implyComponent("month", 1); c.implyComponent("mday", 1);
}
static bool is(parse::ParsedComponents &c, const D &d, const T &t) { return (c.getYear() == d.y) & (c.getMonth() == d.m) & (c.get_mDay() == d.d) & (c.getHour() == t.h) & (c.getMinute() == t.mi) & (c.getSeconds() == t.s); }
// two pairs in one text, each becoming one moment
static void twoPairs() {
  string text; Result in; bp::ptime anchor(bg::date(2016, 2, 29)); D d[2]; T t[2]; size_t at[2], to[2]; static const char *const J[] = {" at ", " ", ", "}, *const A[] = {" qq ", " and ", "; "};
  for (int i = 0; i < 2; i++) {
    bool first = choice("time first", 2); d[i] = date(i ? "date2" : "date1"); t[i] = clock(i ? "time2" : "time1"); string s1 = first ? "noon" : "jan 1", s2 = first ? "jan 1" : "noon"; at[i] = text.size(); text += s1 + J[choice("join", 3)]; size_t i2 = text.size(); text += s2; to[i] = text.size();
    parse::ParsedResult dr(anchor, (long)(first ? i2 : at[i]), first ? s2 : s1), tr(anchor, (long)(first ? at[i] : i2), first ? s1 : s2); put(dr.startDate, d[i], 1); put(tr.startDate, t[i], 1, -999); if (first) { in.push_back(tr); in.push_back(dr); } else { in.push_back(dr); in.push_back(tr); }
    if (!i) text += A[choice("apart", 3)];
  }
  obsText(text); ENMergeDateAndTime m; Result out; try { out = m.refine(in, text); obsResult(out); } catch (...) { CHECK(false, "no-exception"); throw; }
  CHECK(out.size() == 2, "two pairs: two results"); for (int i = 0; i < 2; i++) { CHECK((out[i].getIndex() == at[i]) & (out[i].textLength() == to[i] - at[i]) & !out[i].end(), "two pairs: each covers its own"); CHECK(is(out[i].startDate, d[i], t[i]), "two pairs: each with its own date and time"); }
}
// two results that are not a date and a time
static void alike() {
  static const char *const JOIN[] = {"", " ", " at ", ", ", " - "}; bp::ptime anchor(bg::date(2016, 2, 29)); string text; Result in; size_t at[2]; D d[2]; T t[2]; int k[2]; k[0] = choice("first", 5); k[1] = choice("second", 5); bool dt[2] = {k[0] < 3, k[1] < 3}; sym_assume((k[0] == 4) | (k[1] == 4) | (dt[0] == dt[1]));   // 0..2 dates, 3 a time, 4 a moment
  for (int i = 0; i < 2; i++) { at[i] = text.size(); string x = i ? "second" : "first"; parse::ParsedResult r(anchor, (long)at[i], x); d[i] = date(i ? "date2" : "date1"); t[i] = clock(i ? "time2" : "time1"); if (k[i] == 3) put(r.startDate, t[i], 1, -999); else { put(r.startDate, d[i], k[i] == 4 ? 1 : k[i]); if (k[i] == 4) { r.startDate.setHour(t[i].h); r.startDate.setMinute(t[i].mi); r.startDate.setSeconds(t[i].s); } } in.push_back(r); text += x; if (!i) text += JOIN[choice("join", 5)]; }
  obsText(text); ENMergeDateAndTime m; Result out; try { out = m.refine(in, text); obsResult(out); } catch (...) { CHECK(false, "no-exception"); throw; }
  CHECK(out.size() == 2, "not a date and a time: both stay"); for (int i = 0; i < 2; i++) { auto &c = out[i].startDate; CHECK((out[i].getIndex() == at[i]) & (out[i].textLength() == (i ? 6u : 5u)) & !out[i].end(), "not a date and a time: spans stay"); CHECK(k[i] == 3 ? sameTime(c, t[i].h, t[i].mi, t[i].s) : (c.getYear() == d[i].y) & (c.getMonth() == d[i].m) & (c.get_mDay() == d[i].d) & (c.isCertain("hour") == (k[i] == 4)), "not a date and a time: unchanged"); }
}
extern "C" void sym_main() {
  int form = choice("pairs", 3); if (form) { form == 1 ? twoPairs() : alike(); return; }
  static const char *const JOIN[] = {"", " ", "T", " at ", " on ", " of ", ",", ", ", "-", " - ", "\n"}; static const char *const NOT[] = {" and ", " to ", "; ", " at at ", " x", ", at "};
  int kind = choice("time.kind", 3), tz = kind != 2 && choice("time.zone", 2) ? sym_int("zone", -720, 840) : -999; bool timeFirst = choice("time first", 2);
  int year = choice("stated", 3);
  int ends = choice("ends", 4); bool dEnd = ends & 1, tEnd = ends & 2; int w = choice("between", 3); string between; bool join;
  if (w == 0) { between = JOIN[choice("join", 11)]; join = true; } else if (w == 1) { between = NOT[choice("apart", 6)]; join = false; }
  else { int k = 1 + choice("chars", 2); if (ends || kind != 1 || year != 1) { sym_assume(false); } for (int i = 0; i < k; i++) between += (char)sym_int("char", 32, 126);
    auto sp = [](char c) { return c == ' '; }; auto conn = [](char c) { return (c == 'T') | (c == 't') | (c == ',') | (c == '-'); }; auto low = [](char c) { return (char)(c | 32); }; char a = between[0], b = k > 1 ? between[1] : ' ';
    bool word = (k > 1) & (((low(a) == 'a') & (low(b) == 't') & (a >= 'A') & (b >= 'A')) | ((low(a) == 'o') & ((low(b) == 'n') | (low(b) == 'f')) & (a >= 'A') & (b >= 'A'))); join = ((sp(a) | conn(a)) & sp(b)) | (sp(a) & conn(b)) | word; }
  string text = "[d1][t1]"; int before = choice("before", 2), after = choice("after", 2); Result in; string s1 = timeFirst ? "noon" : "jan 1", s2 = timeFirst ? "jan 1" : "noon";
  D d1 = date("date"), d2 = d1; if (year == 2) { sym_assume(d1.d == 1); if (tEnd && !dEnd) sym_assume((d1.y >= 2015) & (d1.y <= 2020)); } T t1 = clock("time"), t2 = t1; bp::ptime anchor(bg::date(2016, 2, 29)); text = "";
  auto other = [&](const char *x, int h) { parse::ParsedResult r(anchor, (long)text.size(), x); r.startDate.setYear(2010); r.startDate.setMonth(1); r.startDate.set_mDay(1); r.startDate.setHour(h); text += x; in.push_back(r); };
  if (before) { other("2010-1-1T1", 1); text += " qq "; }
  size_t i1 = text.size(), i2; text += s1 + between; i2 = text.size(); text += s2; parse::ParsedResult dr(anchor, timeFirst ? (long)i2 : (long)i1, timeFirst ? s2 : s1), tr(anchor, timeFirst ? (long)i1 : (long)i2, timeFirst ? s1 : s2);
  put(dr.startDate, d1, year); put(tr.startDate, t1, kind, tz); tr.setTag(utils::ENTimeExpressionParser); dr.setTag(utils::ENMonthNameMiddleEndianParser);
  if (dEnd) { d2 = date("end.date"); if (year == 2) sym_assume(d2.d == 1); put(dr.endDate, d2, year); dr.makeEndDateValid(); }
  if (tEnd) { t2 = clock("end.time"); put(tr.endDate, t2, kind, tz); tr.makeEndDateValid(); }
  size_t me = in.size(); if (timeFirst) { in.push_back(tr); in.push_back(dr); } else { in.push_back(dr); in.push_back(tr); }
  if (after) { text += " qq "; other("2010-1-1T2", 2); }
  obsText(text); ENMergeDateAndTime m; Result out; try { out = m.refine(in, text); obsResult(out); } catch (...) { CHECK(false, "no-exception"); throw; }
  if (before) { CHECK(out.size() > 0 && out[0].getIndex() == 0 && out[0].startDate.getHour() == 1 && out[0].textLength() == 10, "an unrelated result before stays"); }
  if (after) { CHECK(out.size() > 0 && out.back().startDate.getHour() == 2 && out.back().getIndex() == text.size() - 10, "an unrelated result after stays"); }
  size_t nOther = (size_t)before + (size_t)after;
  if (!join) { CHECK(out.size() == nOther + 2, "not joined by other words"); auto &a = out[me], &b = out[me + 1]; CHECK((a.getIndex() == i1) & (b.getIndex() == i2) & (a.textLength() == s1.size()) & (b.textLength() == s2.size()), "both stay"); return; }
  CHECK(out.size() == nOther + 1, "one result"); auto &r = out[me]; CHECK((r.getIndex() == i1) & (r.textLength() == i2 + s2.size() - i1), "covers both");
  CHECK(is(r.startDate, d1, t1), "the date with the time"); CHECK(r.startDate.isCertain("hour") == (kind != 2) && r.startDate.isCertain("sec") == (kind == 1) && r.startDate.isCertain("month") && r.startDate.isCertain("mday") == (year != 2) && r.startDate.isCertain("year") == (year != 0), "what was stated stays stated");
  if (tz != -999) CHECK(r.startDate.isCertain("tzoffset") && r.startDate.getTimeZoneOffset() == tz, "offset kept");
  CHECK(r.end() == (dEnd || tEnd), "a range when either is one"); CHECK(r.getTag(utils::ENTimeExpressionParser) && r.getTag(utils::ENMonthNameMiddleEndianParser), "marks of both");
  if (!r.end()) return;
  if (dEnd) { CHECK(is(r.endDate, d2, t2), "end date with end time"); return; }
  int a = t1.h * 3600 + t1.mi * 60 + t1.s, b = t2.h * 3600 + t2.mi * 60 + t2.s;
  if (b >= a) CHECK(is(r.endDate, d1, t2), "ends the same day"); else { bg::date n = bg::date(d1.y, d1.m, d1.d) + bg::days(1); CHECK(sameDate(r.endDate, n) & sameTime(r.endDate, t2.h, t2.mi, t2.s), "past midnight it ends the next day"); }
}

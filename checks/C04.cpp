//@bound: reference: every second of every day 1890-01-01..2199-12-31; next/last/past; quantity: none (one), 1..3 decimal digits (4..7 for seconds and minutes, 4..6 for hours, 4..5 for days and 4 for weeks from any second of 2015 and 2016; thorough: 4 throughout), every number word, few, half, half a, half an; every unit spelling
#include "units.h"
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
using namespace H;
static const Spell U[] = {{"second", SECOND}, {"seconds", SECOND}, {"min", MINUTE}, {"mins", MINUTE}, {"minute", MINUTE}, {"minutes", MINUTE}, {"hour", HOUR}, {"hours", HOUR}, {"day", DAY}, {"days", DAY}, {"week", WEEK}, {"weeks", WEEK}, {"month", MONTH}, {"months", MONTH}, {"year", YEAR}, {"years", YEAR}};
extern "C" void sym_main() {
  string t; int kind = choice("quantity", 6);
  static const char *const M[] = {"next", "last", "past"};
  if (kind == 5) {   // long numbers
    Ref R = ref(2015, 2016); int sign = choice("modifier", 2) ? -1 : 1; const LongCount &L = pickLong(7); int n = num(t, "n", L.digits); t = (sign < 0 ? "past " : "next ") + t + " " + L.text; parser::ENRelativeDateFormatParser p; Result r = run(p, t, R.t);
    CHECK(r.size() == 1, "one result"); CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
    auto &s = r[0].startDate; if (L.secs < 86400) CHECK(secondsAfter(s, R, sign * n * L.secs), "long counts of time"); else CHECK(sameDate(s, R.d + bg::days(sign * n * (int)(L.secs / 86400))) & noTime(s), "long counts of days"); return;
  }
  const Spell &S = pickSpell("unit", U, sizeof U / sizeof *U); int u = S.unit; bool half = kind == 4;
  if (half && u == SECOND) sym_end();
  bool ymd = (!half && (u == MONTH || u == YEAR)) || (half && u == YEAR);
  Ref R; RefYMD Y; if (ymd) Y = refYMD(); else R = ref();
  bp::ptime &rt = ymd ? Y.t : R.t; int n = 1;
  if (kind == 0) n = numUpTo(t, "n", MAXDIG);
  if (kind == 1) n = quantityWord(t, 1);
  if (kind == 2) { t = "few"; n = 3; }
  if (half) { n = 0; quantityWord(t, 4); }
  bool vary = FULL || kind == 3 || (kind == 0 && t.size() == 1);
  int m = choice("modifier", vary ? 3 : 2), sign = m ? -1 : 1;
  if (u == YEAR) sym_assume(n <= 480);
  if (u == MONTH) sym_assume(n <= 480 * 12);
  string gap = kind == 0 && t.size() == 1 ? string(1 + choice("spaces", 2), ' ') : t.empty() ? "" : " ";
  t = string(M[m]) + " " + t + gap + S.text;
  parser::ENRelativeDateFormatParser p; Result r = run(p, t, rt);
  CHECK(r.size() == 1, "one result"); auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
  if (half) {
    if (u == YEAR) CHECK(monthsAfter(s, Y, 6 * sign) & noTime(s), "half a year");
    if (u == MONTH) CHECK(sameDate(s, R.d + bg::days(15 * sign)) & noTime(s), "half a month");
    if (u == WEEK) CHECK(sameDate(s, R.d + bg::days(3 * sign)) & noTime(s), "half a week");
    if (u == DAY) { int q = R.sec + 86400 + 43200 * sign; CHECK(sameDate(s, R.d + bg::days(q / 86400 - 1)) & (s.getHour() == (R.h + 12) % 24) & (s.getMinute() == R.mi), "half a day"); }
    if (u == HOUR) CHECK(secondsAfter(s, R, 1800 * sign), "half an hour");
    if (u == MINUTE) CHECK(secondsAfter(s, R, 30 * sign), "half a minute");
    return;
  }
  switch (u) {
    case YEAR: CHECK(monthsAfter(s, Y, 12 * n * sign) & noTime(s), "years"); break;
    case MONTH: CHECK(monthsAfter(s, Y, n * sign) & noTime(s), "months"); break;
    case WEEK: CHECK(sameDate(s, R.d + bg::days(7 * n * sign)) & noTime(s), "weeks"); break;
    case DAY: CHECK(sameDate(s, R.d + bg::days(n * sign)) & noTime(s), "days"); break;
    case HOUR: CHECK(secondsAfter(s, R, n * 3600 * sign), "hours"); break;
    case MINUTE: CHECK(secondsAfter(s, R, n * 60 * sign), "minutes"); break;
    default: CHECK(secondsAfter(s, R, n * sign), "seconds");
  }
}

//@bound: reference: every second of every day 1890-01-01..2199-12-31; prefix in/within; quantity: 1..3 decimal digits (thorough: 4), every number word, a, an, a few, an few, half, half a, half an; every unit spelling; also numbers of 4..7 digits for seconds and minutes, 4..6 for hours, 4..5 for days and 4 for weeks (reference: every second of 2015 and 2016); one space between the parts, 1..2 before the unit after one digit
#include "common.h"
#include "units.h"
#include "src/parsers/en/ENDeadlineFormatParser.hpp"
using namespace H;
extern "C" void sym_main() {
  string t;
  int kind = choice("quantity", 6);
  if (kind == 5) {   // long numbers
    Ref R = ref(2015, 2016); const LongCount &L = pickLong(7); int n = num(t, "n", L.digits); t = "in " + t + " " + L.text; parser::ENDeadlineFormatParser p; Result r = run(p, t, R.t);
    CHECK(r.size() == 1, "one result"); CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
    auto &s = r[0].startDate; if (L.secs < 86400) CHECK(secondsAfter(s, R, n * L.secs), "long counts of time"); else CHECK(sameDate(s, R.d + bg::days(n * (int)(L.secs / 86400))), "long counts of days"); return;
  }
  // spelling of the unit
  const Spell &S = pickSpell("unit", DEADLINE_UNITS, sizeof DEADLINE_UNITS / sizeof *DEADLINE_UNITS); int u = S.unit;
  bool ymd = kind != 4 && (u == MONTH || u == YEAR);
  Ref R; RefYMD Y; if (ymd || (kind == 4 && u == YEAR)) Y = refYMD(); else R = ref();
  bp::ptime &rt = (ymd || (kind == 4 && u == YEAR)) ? Y.t : R.t;
  int n = 0; bool half = kind == 4;
  if (kind == 0) n = numUpTo(t, "n", MAXDIG); else n = quantityWord(t, kind);
  bool vary = FULL || kind == 2 || (kind == 0 && t.size() == 1);   // both prefixes with a/an and with numbers of one digit (thorough: with every quantity)
  string gap = kind == 0 && t.size() == 1 ? string(1 + choice("spaces", 2), ' ') : " ";
  t = string(vary && choice("within", 2) ? "within " : "in ") + t + gap + S.text;
  parser::ENDeadlineFormatParser p; Result r = run(p, t, rt);
  CHECK(r.size() == 1, "one result");
  auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
  if (half) {
    if (u == YEAR) { CHECK(monthsAfter(s, Y, 6), "half a year"); return; }
    if (u == MONTH) CHECK(sameDate(s, R.d + bg::days(15)), "half a month");
    if (u == WEEK) CHECK(sameDate(s, R.d + bg::days(3)), "half a week");
    if (u == DAY) { int q = R.sec + 43200; CHECK(sameDate(s, R.d + bg::days(q / 86400)) & (s.getHour() == (R.h + 12) % 24) & (s.getMinute() == R.mi), "half a day"); }
    if (u == HOUR) CHECK(secondsAfter(s, R, 1800), "half an hour");
    if (u == MINUTE) CHECK(secondsAfter(s, R, 30), "half a minute");
    if (u == SECOND) CHECK(secondsAfter(s, R, 1), "half a second");
    return;
  }
  switch (u) {
    case YEAR: CHECK(monthsAfter(s, Y, 12 * n), "years"); break;
    case MONTH: CHECK(monthsAfter(s, Y, n), "months"); break;
    case WEEK: CHECK(sameDate(s, R.d + bg::days(7 * n)), "weeks"); break;
    case DAY: CHECK(sameDate(s, R.d + bg::days(n)), "days"); break;
    case HOUR: CHECK(secondsAfter(s, R, n * 3600), "hours"); break;
    case MINUTE: CHECK(secondsAfter(s, R, n * 60), "minutes"); break;
    default: CHECK(secondsAfter(s, R, n), "seconds");
  }
}

// quantities and units of time, and what they mean (shared by the harnesses of relative phrases)
#pragma once
#include "common.h"
namespace H {
enum { SECOND, MINUTE, HOUR, DAY, WEEK, MONTH, YEAR };
struct Spell { const char *text; int unit; };
static const Spell DEADLINE_UNITS[] = {{"sec", SECOND}, {"secs", SECOND}, {"second", SECOND}, {"seconds", SECOND}, {"min", MINUTE}, {"mins", MINUTE}, {"minute", MINUTE}, {"minutes", MINUTE}, {"hr", HOUR}, {"hrs", HOUR}, {"hour", HOUR}, {"hours", HOUR}, {"day", DAY}, {"days", DAY}, {"wk", WEEK}, {"wks", WEEK}, {"week", WEEK}, {"weeks", WEEK}, {"month", MONTH}, {"months", MONTH}, {"yr", YEAR}, {"yrs", YEAR}, {"year", YEAR}, {"years", YEAR}};
static const Spell LONG_UNITS[] = {{"sec", SECOND}, {"second", SECOND}, {"seconds", SECOND}, {"min", MINUTE}, {"mins", MINUTE}, {"minute", MINUTE}, {"minutes", MINUTE}, {"hour", HOUR}, {"hours", HOUR}, {"day", DAY}, {"days", DAY}, {"week", WEEK}, {"weeks", WEEK}, {"month", MONTH}, {"months", MONTH}, {"year", YEAR}, {"years", YEAR}};
static const char *const NUMBER_WORDS[] = {"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"};
inline const Spell &pickSpell(const char *n, const Spell *t, int k) { return t[choice(n, k)]; }
#ifdef THOROUGH
enum { MAXDIG = 4, FULL = 1 };
#else
enum { MAXDIG = 3, FULL = 0 };
#endif
// appends a quantity in words; 1: number word, 2: a/an, 3: a few/an few, 4: half/half a/half an. Returns its value (0 for a half)
inline int quantityWord(string &t, int kind) {
  if (kind == 1) { int k = choice("word", 12); t += NUMBER_WORDS[k]; return k + 1; }
  if (kind == 2) { t += choice("article", 2) ? "an" : "a"; return 1; }
  if (kind == 3) { t += choice("few", 2) ? "an few" : "a few"; return 3; }
  static const char *const HW[] = {"half", "half a", "half an"}; t += HW[choice("half", 3)]; return 0;
}
// the same day `n` months away, or that month's last day when the month is shorter or the reference itself is a last day
inline bool monthsAfter(parse::ParsedComponents &s, const RefYMD &R, int n) {
  int k = R.y * 12 + R.mo - 1 + n; int y = k / 12, m = k % 12 + 1, e = sym_eom(y, m); bool last = R.d == sym_eom(R.y, R.mo);
  return (s.getYear() == y) & (s.getMonth() == m) & ((s.get_mDay() == R.d) | ((s.get_mDay() == e) & ((R.d > e) | last)));
}
// numbers of 4 and more digits: as many as keep the result in the calendar
struct LongCount { const char *text; long secs; int digits; };
inline const LongCount &pickLong(int maxd) {
  static const LongCount L[] = {{"seconds", 1, 4}, {"minutes", 60, 4}, {"hours", 3600, 4}, {"days", 86400, 4}, {"weeks", 604800, 4}, {"seconds", 1, 5}, {"minutes", 60, 5}, {"hours", 3600, 5}, {"days", 86400, 5}, {"seconds", 1, 6}, {"minutes", 60, 6}, {"hours", 3600, 6}, {"seconds", 1, 7}, {"minutes", 60, 7}};
  return L[choice("long", maxd == 4 ? 5 : (int)(sizeof L / sizeof *L))];
}
// exactly n seconds away (n may be negative down to -10^9)
inline bool secondsAfter(parse::ParsedComponents &s, const Ref &R, long n) {
  long K = 50000L * 86400; long q = R.sec + n + K; return sameDate(s, R.d + bg::days((int)(q / 86400) - 50000)) & sameSec(s, (int)(q % 86400));
}
}
namespace H {
// ---- phrases "QUANTITY UNIT [QUANTITY UNIT ...] SUFFIX" away from the reference (sign -1: before, +1: after) ------------
inline long secondsIn(int u) { return u == SECOND ? 1 : u == MINUTE ? 60 : u == HOUR ? 3600 : u == DAY ? 86400 : 604800; }
inline bool noTime(parse::ParsedComponents &s) { return sameTime(s, 0, 0, 0) & !s.isCertain("hour"); }
template <class P> inline void awayPhrase(int sign, const char *const *prefix, int nprefix, const char *const *suffix, int nsuffix) {
  string t; int kind = choice("quantity", 7);
  P p; Ref R; RefYMD Y;
  if (kind == 6) {   // long numbers
    R = ref(2015, 2016); const LongCount &L = pickLong(7); int n = num(t, "n", L.digits); t += string(" ") + L.text + " " + suffix[0]; Result r = run(p, t, R.t);
    CHECK(r.size() == 1, "one result"); CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
    auto &s = r[0].startDate; if (L.secs < 86400) CHECK(secondsAfter(s, R, sign * n * L.secs), "long counts of time"); else CHECK(sameDate(s, R.d + bg::days(sign * n * (int)(L.secs / 86400))) & noTime(s), "long counts of days"); return;
  }
  if (kind == 5) {   // two or three units in one phrase
    static const int COMBO[][3] = {{WEEK, DAY, -1}, {DAY, HOUR, -1}, {HOUR, MINUTE, -1}, {MINUTE, SECOND, -1}, {WEEK, HOUR, -1}, {HOUR, SECOND, -1}, {DAY, HOUR, MINUTE}, {HOUR, MINUTE, SECOND}, {DAY, WEEK, -1}, {MINUTE, HOUR, -1}, {YEAR, MONTH, -1}, {MONTH, YEAR, -1}};
    static const char *const NAME[] = {"seconds", "minutes", "hours", "days", "weeks", "months", "years"};
    const int *c = COMBO[choice("combo", 12)]; long total = 0; bool date = false, time = false, ymd = c[0] >= MONTH; if (ymd) { Y = refYMD(); sym_assume(Y.d <= 27); } else R = ref();
    int how = choice("numbers", 4);   // digits, words and a digit, half and a digit, a digit and half
    for (int i = 0; i < 3 && c[i] >= 0; i++) {
      string nm = string("n") + (char)('0' + i); int n = 0; bool half = how > 1 && i == how - 2; string word;
      if (half) { if (c[i] == SECOND || (c[i] == MONTH) || (i && c[i] == WEEK)) sym_end(); t += "half a"; if (c[i] == HOUR) t += 'n'; }
      else if (how == 1 && i == 0) n = quantityWord(t, 1 + choice("words", 3));
      else { n = how ? num(t, nm.c_str(), 1) : numUpTo(t, nm.c_str(), 2); sym_assume(n > 0); }
      t += string(" ") + NAME[c[i]] + " "; int u = c[i];
      if (half) { t.erase(t.size() - 2, 1); if (u == YEAR) total += 6; else if (u == WEEK) total += 3 * 86400; else if (u == DAY) total += 43200; else total += secondsIn(u) / 2; if (u == DAY) u = HOUR; }
      else if (ymd) total += u == YEAR ? 12 * n : n; else total += n * secondsIn(u);
      if (u >= DAY) date = true; else time = true;
    }
    t += suffix[0]; Result r = run(p, t, ymd ? Y.t : R.t);
    CHECK(r.size() == 1, "combined: one result"); auto &s = r[0].startDate;
    CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "combined: covers the phrase");
    if (ymd) { CHECK(monthsAfter(s, Y, sign * (int)total) & noTime(s), "combined months"); return; }
    if (time) CHECK(secondsAfter(s, R, sign * total), "combined with time"); else CHECK(sameDate(s, R.d + bg::days(sign * (int)(total / 86400))) & noTime(s), "combined dates");
    return;
  }
  int us = choice("unit", sizeof LONG_UNITS / sizeof *LONG_UNITS); const Spell &S = LONG_UNITS[us]; int u = S.unit; bool half = kind == 4;
  if (half && u == SECOND) sym_end();
  bool ymd = (!half && (u == MONTH || u == YEAR)) || (half && u == YEAR);
  if (ymd) Y = refYMD(); else R = ref();
  bp::ptime &rt = ymd ? Y.t : R.t; int n = 0;
  if (kind == 0) n = numUpTo(t, "n", MAXDIG); else n = quantityWord(t, kind);
  if (u == YEAR) sym_assume(n <= 480);
  if (u == MONTH) sym_assume(n <= 480 * 12);
  if (kind == 0 && u < DAY) sym_assume(n > 0);
  // every wording with a/an and with numbers of one digit (thorough: with every quantity)
  bool vary = FULL || kind == 2 || (kind == 0 && t.size() == 1);
  string gap = kind == 0 && t.size() == 1 ? string(1 + choice("spaces", 2), ' ') : " ";
  t = string(prefix[vary ? choice("prefix", nprefix) : 0]) + t + gap + S.text + " " + suffix[vary ? choice("suffix", nsuffix) : 0];
  Result r = run(p, t, rt);
  CHECK(r.size() == 1, "one result");
  auto &s = r[0].startDate;
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
  if (half) {
    if (u == YEAR) CHECK(monthsAfter(s, Y, 6 * sign) & noTime(s), "half a year");
    if (u == MONTH) CHECK(sameDate(s, R.d + bg::days(15 * sign)) & noTime(s), "half a month");
    if (u == WEEK) CHECK(sameDate(s, R.d + bg::days(3 * sign)) & noTime(s), "half a week");
    if (u == DAY) CHECK(secondsAfter(s, R, 43200 * sign), "half a day");
    if (u == HOUR) CHECK(secondsAfter(s, R, 1800 * sign), "half an hour");
    if (u == MINUTE) CHECK(secondsAfter(s, R, 30 * sign), "half a minute");
    return;
  }
  switch (u) {
    case YEAR: CHECK(monthsAfter(s, Y, 12 * n * sign) & noTime(s), "years"); break;
    case MONTH: CHECK(monthsAfter(s, Y, n * sign) & noTime(s), "months"); break;
    case WEEK: CHECK(sameDate(s, R.d + bg::days(7 * n * sign)) & noTime(s), "weeks"); break;
    case DAY: CHECK(sameDate(s, R.d + bg::days(n * sign)) & noTime(s), "days"); break;
    case HOUR: CHECK(secondsAfter(s, R, n * 3600 * sign), "hours"); break;
    case MINUTE: CHECK(secondsAfter(s, R, n * 60 * sign), "minutes"); break;
    default: CHECK(secondsAfter(s, R, n * sign), "seconds");
  }
}
}

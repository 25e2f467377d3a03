//@bound: reference: every second of every day 1890-01-01..2199-12-31; last/next with no count, 1..3 digits (thorough: 4), every number word, few; 'this week'; any other lower-case word of 3..4 letters (thorough: 5) in place of the count
#include "units.h"
#include "src/parsers/en/ENWeekExperessionParser.hpp"
using namespace H;
extern "C" void sym_main() {
  int kind = choice("quantity", 6); Ref R = ref(); string t; int n = 1;
  parser::ENWeekExpressionParser p;
  if (kind == 5) {
    t = choice("spaces", 2) ? "this  week" : "this week"; Result r = run(p, t, R.t);
    CHECK(r.size() == 1, "this: one result"); CHECK(sameDate(r[0].startDate, R.d) & !r[0].end(), "this week is the reference date"); return;
  }
  bool last = choice("last", 2); t = last ? "last " : "next ";
  bool known = true;
  if (kind == 0) n = numUpTo(t, "n", MAXDIG);
  if (kind == 1) n = quantityWord(t, 1);
  if (kind == 2) { t += "few"; n = 3; }
  if (kind == 4) { // a word that is no quantity
    int len = 3 + choice("len", FULL ? 3 : 2); string w; for (int i = 0; i < len; i++) { w += (char)('a' + sym_int("letter", 0, 25)); }
    for (auto *q : NUMBER_WORDS) { string nw = q; if (nw.size() == w.size()) { bool eq = true; for (size_t i = 0; i < w.size(); i++) eq &= w[i] == nw[i]; sym_assume(!eq); } }
    if (len == 3) sym_assume(!((w[0] == 'f') & (w[1] == 'e') & (w[2] == 'w')));
    t += w; known = false;
  }
  if (kind != 3) t += " ";
  t += choice("plural", 2) ? "weeks" : "week";
  Result r = run(p, t, R.t);
  if (!known) { CHECK(r.size() == 0, "unknown quantity is no week expression"); return; }
  CHECK(r.size() == 1, "one result"); CHECK((r[0].getIndex() == 0) & (r[0].textLength() == t.size()) & !r[0].end(), "covers the phrase");
  CHECK(sameDate(r[0].startDate, R.d + bg::days(last ? -7 * n : 7 * n)) & noTime(r[0].startDate), "whole weeks");
}

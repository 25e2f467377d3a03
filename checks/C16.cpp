//@bound: reference: every day 1800-01-01..2199-12-31 (thorough: and every second); start and end each H, HH, H:MM, HH:MM, HH:MM:SS or HHMM with every digit symbolic (all 36 pairs); am, pm or nothing after each (all 9 pairs), every meridiem spelling for one base form; 'to', '-', ' - ' or ' ~ ' between; end not before start; hour 24, '12' after a morning start without am or pm, and a dash before HHMM without am or pm (which reads as an offset from UTC), are left open
#include "clock.h"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
#include <cstring>
using namespace H;
extern "C" void sym_main() {
  static const char *const TO[] = {" to ", "-", " - ", " ~ "}; static const int F[] = {0, 1, 2, 3, 4, 7};
  int f1 = 2, f2 = 3, m1 = 0, m2 = 0, to = 0, pre = 0, v = choice("vary", 3);
  if (v == 0) { f1 = F[choice("form", 6)]; f2 = F[choice("end.form", 6)]; m1 = choice("am/pm", 3); m2 = choice("end.am/pm", 3); to = FULL ? choice("to", 4) : 0; }
  if (v == 1) { m1 = choice("meridiem", NMER); m2 = choice("end.meridiem", NMER); }
  if (v == 2) { to = choice("to", 4); pre = choice("word", 3); m1 = choice("am/pm", 3); m2 = choice("end.am/pm", 3); f1 = f2 = F[choice("form", 6)]; }
  static const char *const P[] = {"", "from ", "at "}; string t = P[pre]; Clock a = clockText(t, "t", f1, ":", MER[m1], m1 ? " " : ""); t += TO[to]; Clock b = clockText(t, "u", f2, ":", MER[m2], m2 > 4 ? " " : "");
  if (f2 == 7 && !m2 && TO[to][strspn(TO[to], " ")] == '-') return;   // "1 pm -0500": an offset from UTC, not a range
  sym_assume((a.h < 24) & (b.h < 24)); sym_assume(a.real);
  if (b.mer == 'p' && !a.mer) a.h = (a.h >= 1) & (a.h <= 11) ? a.h + 12 : a.h;
  if (!b.mer && a.mer == 'p') b.h = b.h < 12 ? b.h + 12 : b.h;
  if (!b.mer && a.mer == 'a') sym_assume(b.h != 12);
  Ref R = ref(1800, 2199, FULL); parser::ENTimeExpressionParser p; Result r = run(p, t, R.t);
  if (!b.real) { CHECK(r.size() == 0 || !r[0].end(), "no range to a time that does not exist"); return; }
  sym_assume(b.h * 3600 + b.mi * 60 + b.s >= a.h * 3600 + a.mi * 60 + a.s);
  CHECK(r.size() == 1 && r[0].end(), "one range"); auto &s = r[0].startDate, &e = r[0].endDate;
  size_t dot = m2 && MER[m2].text[3] == '.' ? 1 : 0;   // the dot that ends "p.m." may be left out
  CHECK((r[0].getIndex() == 0) & (r[0].textLength() <= t.size()) & (r[0].textLength() + dot >= t.size()), "covers the range");
  CHECK(sameTime(s, a.h, a.mi, a.s), "start"); CHECK(sameTime(e, b.h, b.mi, b.s), "end"); CHECK(sameDate(s, R.d) & sameDate(e, R.d), "both on the date of the reference");
  CHECK(s.isCertain("hour") & e.isCertain("hour") & !s.isCertain("mday") & !e.isCertain("mday"), "times are certain, dates are not");
}

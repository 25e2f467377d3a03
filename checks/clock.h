// clock times in text, and what they mean
#pragma once
#include "units.h"
namespace H {
struct Mer { const char *text; char kind; };   // 'a', 'p', 'o' (o'clock), 0 none
static const Mer MER[] = {{"", 0}, {"am", 'a'}, {"pm", 'p'}, {"a", 'a'}, {"p", 'p'}, {"a.m.", 'a'}, {"p.m.", 'p'}, {"a.m", 'a'}, {"p.m", 'p'}, {"o'clock", 'o'}, {"oclock", 'o'}};
enum { NMER = sizeof MER / sizeof *MER };
struct Clock { int h = 0, mi = 0, s = 0; char mer = 0; bool real = true, sec = false; };
// appends a clock time. form 0,1: hour with 1 or 2 digits; 2,3: hour:minute; 4: hour:minute:second; 5: with a fraction; 6,7: HMM, HHMM; 8 noon; 9 midnight; 10: hour:minute with a one-digit minute
inline Clock clockText(string &t, const char *name, int form, const char *sep, const Mer &mer, const string &gap) {
  string n = name, hn = n + ".h", mn = n + ".min", sn = n + ".s", fn = n + ".f"; Clock c; c.mer = mer.kind;
  if (form == 8) { t += "noon"; c.h = 12; return c; }
  if (form == 9) { t += "midnight"; return c; }
  if (form == 6 || form == 7) { int v = num(t, hn.c_str(), form == 6 ? 3 : 4, true); sym_assume(v >= 100); c.h = v / 100; c.mi = v % 100; }
  else {
    c.h = num(t, hn.c_str(), (form == 0 || form == 2) ? 1 : 2, true);
    if (form >= 2) { t += sep; c.mi = num(t, mn.c_str(), form == 10 ? 1 : 2, true); }
    if (form == 4 || form == 5) { t += ":"; c.s = num(t, sn.c_str(), 2, true); c.sec = true; }
    if (form == 5) { t += "."; num(t, fn.c_str(), 3, true); }
  }
  if (mer.kind) { t += gap; t += mer.text; }
  c.real = (c.h <= 24) & (c.mi < 60) & (c.s < 60); if (mer.kind) c.real &= c.h <= 12;
  if (mer.kind == 'a') c.h = c.h == 12 ? 0 : c.h; if (mer.kind == 'p') c.h = c.h == 12 ? 12 : c.h + 12;
  return c;
}
}

// month names, and the year meant when none is written
#pragma once
#include "units.h"
namespace H {
struct MonthName { const char *text; int m; };
static const MonthName MONTHS[] = {{"january", 1}, {"jan", 1}, {"jan.", 1}, {"february", 2}, {"feb", 2}, {"feb.", 2}, {"march", 3}, {"mar", 3}, {"mar.", 3}, {"april", 4}, {"apr", 4}, {"apr.", 4}, {"may", 5}, {"may.", 5}, {"june", 6}, {"jun", 6}, {"jun.", 6}, {"july", 7}, {"jul", 7}, {"jul.", 7}, {"august", 8}, {"aug", 8}, {"aug.", 8}, {"september", 9}, {"sep", 9}, {"sep.", 9}, {"sept", 9}, {"sept.", 9}, {"october", 10}, {"oct", 10}, {"oct.", 10}, {"november", 11}, {"nov", 11}, {"nov.", 11}, {"december", 12}, {"dec", 12}, {"dec.", 12}};
enum { NMONTHS = sizeof MONTHS / sizeof *MONTHS };
// day m/d of year y, counted from the reference
template <class R> inline long daysFrom(const R &r, int y, int m, int d) { return (bg::date(y, m, d) - r.t.date()).days(); }
// year y puts m/d closest to the reference, give or take one day: at most 183 days away. (The same day of the neighbouring
// years is 365 or 366 days away, so 184 days or more means another year is closer by more than a day, and 183 or less not.)
template <class R> inline bool closest(const R &r, int y, int m, int d) { long a = daysFrom(r, y, m, d); return (a <= 183) & (a >= -183); }
}
namespace H {
static const char *const ORDINALS[] = {"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth", "eleventh", "twelfth", "thirteenth", "fourteenth", "fifteenth", "sixteenth", "seventeenth", "eighteenth", "nineteenth", "twentieth", "twenty first", "twenty second", "twenty third", "twenty fourth", "twenty fifth", "twenty sixth", "twenty seventh", "twenty eighth", "twenty ninth", "thirtieth", "thirty first"};
// appends a day of the month: kind 0 two digits, 1 one digit, 2..5 digits with a suffix, 6 ordinal word, 7 ordinal word with a hyphen; returns it (0..99)
inline int dayOfMonth(string &t, const char *name, int kind) {
  if (kind >= 6) { string nm = string(name) + ".word"; int k = choice(nm.c_str(), 31); string w = ORDINALS[k]; if (kind == 7) for (auto &c : w) if (c == ' ') c = '-'; t += w; return k + 1; }
  static const char *const SUF[] = {"", "", "st", "nd", "rd", "th"};
  int d = num(t, name, kind == 1 ? 1 : 2, true); t += SUF[kind]; return d;
}
}

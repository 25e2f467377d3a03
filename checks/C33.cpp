//@bound: 110 forms of phrases of all 13 parsers, every digit in them symbolic (+ = 1..9, # = 0..9, * = 1..99 or a number word); reference: every second of every day 1990-01-01..2069-12-31, for month names of 2016-02-29, 2015-12-31 and 2017-06-04
//@labels: understood|a range or not|every component of the start is certain exactly if stated|every component of the end is certain exactly if stated
#include "all.h"
#include "units.h"
using namespace H;
// Y M D W = year, month, day of the month and of the week; h m s z = time and offset; ~ before one leaves it open
struct Form { int p; const char *t, *s, *e; };
static const Form FORMS[] = {{P_CASUAL_DATE, "now", "YMDhms"}, {P_CASUAL_DATE, "today", "YMD"}, {P_CASUAL_DATE, "tonight", "YMD"}, {P_CASUAL_DATE, "last night", "YMD"}, {P_CASUAL_DATE, "tomorrow", "YMD"}, {P_CASUAL_DATE, "tmr", "YMD"}, {P_CASUAL_DATE, "yesterday", "YMD"},
  {P_CASUAL_TIME, "noon", ""}, {P_CASUAL_TIME, "morning", ""}, {P_CASUAL_TIME, "this afternoon", ""}, {P_CASUAL_TIME, "this evening", ""}, {P_CASUAL_TIME, "night", ""},
  {P_DEADLINE, "in * days", ""}, {P_DEADLINE, "in half a day", ""}, {P_DEADLINE, "in * weeks", ""}, {P_DEADLINE, "in * months", ""}, {P_DEADLINE, "within * years", ""}, {P_DEADLINE, "in half a year", ""}, {P_DEADLINE, "in * hours", ""}, {P_DEADLINE, "in half an hour", ""}, {P_DEADLINE, "in * minutes", ""}, {P_DEADLINE, "in * seconds", ""},
  {P_RELATIVE, "next * days", ""}, {P_RELATIVE, "last half day", ""}, {P_RELATIVE, "past * weeks", ""}, {P_RELATIVE, "last * months", ""}, {P_RELATIVE, "next * years", ""}, {P_RELATIVE, "next * hours", ""}, {P_RELATIVE, "last * minutes", ""}, {P_RELATIVE, "past * seconds", ""}, {P_RELATIVE, "this week", "", ""}, {P_RELATIVE, "this month", "YM", "YM"}, {P_RELATIVE, "this year", "Y", "Y"},
  {P_WEEK, "last week", ""}, {P_WEEK, "next * weeks", ""}, {P_WEEK, "this week", ""}, {P_WEEK, "last few weeks", ""},
  {P_AGO, "* days ago", "YMD"}, {P_AGO, "* weeks before", "YMD"}, {P_AGO, "* months earlier", "YMD"}, {P_AGO, "* years ago", "YMD"}, {P_AGO, "* hours ago", "hms"}, {P_AGO, "* minutes ago", "hms"}, {P_AGO, "* seconds ago", "hms"}, {P_AGO, "* weeks * days ago", "YMD"}, {P_AGO, "* days * hours ago", "YMDhms"}, {P_AGO, "* hours * minutes ago", "hms"},
  {P_AGO, "half a day ago", "hms"}, {P_AGO, "half a week ago", "YMD"}, {P_AGO, "half a month ago", "YMD"}, {P_AGO, "half a year ago", "YMD"}, {P_AGO, "half an hour ago", "hms"}, {P_AGO, "half a minute ago", "hms"}, {P_AGO, "a few days ago", "YMD"},
  {P_LATER, "* days later", "YMD"}, {P_LATER, "* weeks after", "YMD"}, {P_LATER, "* months from now", "YMD"}, {P_LATER, "* years out", "YMD"}, {P_LATER, "* hours later", "hms"}, {P_LATER, "* minutes henceforth", "hms"}, {P_LATER, "* seconds forward", "hms"}, {P_LATER, "* weeks * days later", "YMD"}, {P_LATER, "* days * hours later", "YMDhms"}, {P_LATER, "* hours * minutes later", "hms"},
  {P_LATER, "half a day later", "hms"}, {P_LATER, "half a week later", "YMD"}, {P_LATER, "half a year later", "YMD"}, {P_LATER, "half an hour later", "hms"}, {P_LATER, "a few hours later", "hms"},
  {P_WEEKDAY, "monday", ""}, {P_WEEKDAY, "this tue", ""}, {P_WEEKDAY, "last wed", "YMD"}, {P_WEEKDAY, "thursday next week", "YMD"}, {P_WEEKDAY, "next sunday", "YMD"}, {P_WEEKDAY, "early fri", ""}, {P_WEEKDAY, "late last saturday", "YMD"},
  {P_ISO, "20##-0+-1#", "YMD"}, {P_ISO, "19##-+-0+t1#:3#", "YMDhmz"}, {P_ISO, "20##-0+-1+t0#:4#:5#", "YMDhmsz"}, {P_ISO, "2016-0+-1+t1#:1#:1#.#z", "YMDhmsz"}, {P_ISO, "2016-0+-1+t1#:1#-0#:30", "YMDhmz"},
  {P_MONTH_DAY, "feb 1#", "~YMD"}, {P_MONTH_DAY, "march 2+, 20##", "YMD"}, {P_MONTH_DAY, "tue, mar +th", "~YMDW"}, {P_MONTH_DAY, "june twenty first, 2019", "YMD"}, {P_MONTH_DAY, "feb 1# - 2#, 2016", "YMD", "YMDhm"}, {P_MONTH_DAY, "may 1# to 2#", "~YMD", "~YMDhm"}, {P_MONTH_DAY, "sun, may first - second", "~YMDW", "~YMDWhm"},
  {P_MONTH, "february", "~YM"}, {P_MONTH, "jan. 20##", "YM"}, {P_MONTH, "sept, 19##", "YM"}, {P_MONTH, "may 25## be", "YM"},
  {P_TIME, "at 1#", "hm"}, {P_TIME, "noon", "hm"}, {P_TIME, "midnight", "hm"}, {P_TIME, "at +:3# pm", "hm"}, {P_TIME, "1#:3#:5#", "hms"}, {P_TIME, "1#:3#:5#.## ", "hms"}, {P_TIME, "at 1#3#", "hm"}, {P_TIME, "+am - +pm", "hm", "hm"}, {P_TIME, "from 0#:1#:2# to 1#:1#", "hms", "hm"}, {P_TIME, "0#:1# - 1#:1#:4#", "hm", "hms"},
  {P_HOLIDAY, "christmas eve", "YMDhm"}, {P_HOLIDAY, "independence day", "YMDhm"}, {P_HOLIDAY, "new year's day", "YMDhm"}, {P_HOLIDAY, "labor day", "YMDWhm"}, {P_HOLIDAY, "thanksgiving", "YMDWhm"}, {P_HOLIDAY, "memorial day", "YMDWhm"}, {P_HOLIDAY, "mlk day", "YMDWhm"}, {P_HOLIDAY, "black friday", "YMDWhm"}};
enum { NFORMS = sizeof FORMS / sizeof *FORMS };
static bool certain(parse::ParsedComponents &c, const char *m) {
  static const char L[] = "YMDWhmsz"; static const char *const K[] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"}; bool ok = true, open = false, want[8] = {}, any[8] = {};
  for (; *m; m++) { if (*m == '~') { open = true; continue; } for (int i = 0; i < 8; i++) if (L[i] == *m) (open ? any : want)[i] = true; open = false; }
  for (int i = 0; i < 8; i++) if (!any[i]) ok &= c.isCertain(K[i]) == want[i];
  return ok;
}
extern "C" void sym_main() {
  const Form &f = FORMS[choice("form", NFORMS)]; string t; for (const char *c = f.t; *c; c++) { if (*c == '*') { int k = choice("number", 3); if (k < 2) { int n = num(t, "count", k + 1); sym_assume(n > 0); } else t += NUMBER_WORDS[choice("word", 12)]; } else t += *c == '#' ? (char)('0' + sym_int("digit", 0, 9)) : *c == '+' ? (char)('0' + sym_int("digit", 1, 9)) : *c; }
  struct { bp::ptime t; } R; if (f.p == P_MONTH || f.p == P_MONTH_DAY) { static const int D[3][3] = {{2016, 2, 29}, {2015, 12, 31}, {2017, 6, 4}}; const int *d = D[choice("day", 3)]; R.t = bp::ptime(bg::date(d[0], d[1], d[2]), bp::seconds(sym_int("ref.sec", 0, 86399))); } else R.t = f.p == P_WEEKDAY || f.p == P_RELATIVE ? refWeek(1990, 2069).t : ref(1990, 2069).t;
  Result r = runParser(f.p, t, R.t); CHECK(r.size() == 1, "understood"); CHECK(r[0].end() == (f.e != nullptr), "a range or not");
  CHECK(certain(r[0].startDate, f.s), "every component of the start is certain exactly if stated"); if (f.e) CHECK(certain(r[0].endDate, f.e), "every component of the end is certain exactly if stated");
}

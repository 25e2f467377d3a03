//@bound: every parser (the 12 of the program and the relative-date parser); every text of 0..4 arbitrary bytes 1..255 (thorough: 0..5); every phrase of a 43-phrase corpus with an arbitrary byte in place of each of its characters (thorough: also before each, and two adjacent arbitrary bytes); reference 2016-02-29 at every second for the short texts, at 13:45:07 for the phrases
#include "all.h"
using namespace H;
struct Phrase { int parser; const char *text; };
static const Phrase PH[] = {{P_CASUAL_TIME, "this morning"}, {P_DEADLINE, "within half an hour"}, {P_DEADLINE, "in 12 min"}, {P_DEADLINE, "in a few days"}, {P_WEEKDAY, "late sunday"}, {P_WEEKDAY, "last tues"}, {P_WEEKDAY, "wed next week"}, {P_CASUAL_DATE, "last night"}, {P_CASUAL_DATE, "tomorrow"}, {P_MONTH_DAY, "sun, jan 31st, 2016"}, {P_MONTH_DAY, "feb 29 to 30, 2017"}, {P_MONTH_DAY, "june twenty first"}, {P_LATER, "2 weeks and 3 days later"}, {P_LATER, "half an hour from now"},
  {P_MONTH, "sept, 0543 be"}, {P_MONTH, "may 10 ad"}, {P_AGO, "a month ago"}, {P_AGO, "2 hrs and 10 min ago"}, {P_TIME, "from 12:30:15 a.m. to 11pm"}, {P_TIME, "at 2460"}, {P_TIME, "noon - 13:60"}, {P_TIME, "7 o'clock"}, {P_ISO, "2016-02-30t24:60:61.5+05:30"}, {P_ISO, "1-1-1"}, {P_HOLIDAY, "new year's eve"}, {P_HOLIDAY, "martin luther king jr day"}, {P_HOLIDAY, "labor day"}, {P_WEEK, "the week of june 5"}, {P_WEEK, "this weekend"}, {P_RELATIVE, "last 2 weeks"}, {P_RELATIVE, "next few months"}, {P_RELATIVE, "this year"}, {P_RELATIVE, "past half hour"}, {P_RELATIVE, "next tuesday"},
  {P_MONTH_DAY, "feb 20"}, {P_MONTH_DAY, "nov. 31 - 3"}, {P_TIME, "13 pm"}, {P_DEADLINE, "in 99999999999 years"}, {P_AGO, "99999 years ago"}, {P_LATER, "9999999 months later"}, {P_WEEK, "next 9999999999 weeks"}, {P_RELATIVE, "next 9999999999 days"}, {P_ISO, "2016-02-30, 2016-2-3"}};
enum { NPH = sizeof PH / sizeof *PH };
extern "C" void sym_main() {
  string t; int k, sec = 49507;
  int ph = choice("kind", 2); if (!ph) { k = choice("parser", NPARSERS); sec = sym_int("ref.sec", 0, 86399); int n = choice("len", FULL ? 6 : 5); for (int i = 0; i < n; i++) t += (char)sym_int("byte", 1, 255); }
  else {
    const Phrase &p = PH[choice("phrase", NPH)]; k = p.parser; t = p.text; int at = choice("at", (int)t.size()), how = choice("how", FULL ? 3 : 1);
    if (how == 0) t[at] = (char)sym_int("byte", 1, 255);
    if (how == 1) t.insert(at, 1, (char)sym_int("byte", 1, 255));
    if (how == 2) { t[at] = (char)sym_int("byte", 1, 255); if (at + 1 < (int)t.size()) t[at + 1] = (char)sym_int("byte", 1, 255); else t += (char)sym_int("byte", 1, 255); }
  }
  bp::ptime ref(bg::date(2016, 2, 29), bp::seconds(sec)); size_t n = t.size();
  Result r = runParser(k, t, ref);
  CHECK(t.size() == n, "length of the text"); CHECK(r.size() <= n, "number of results");
  for (auto &x : r) {
    CHECK(x.textLength() >= 1, "not empty"); CHECK(x.getIndex() + x.textLength() <= n, "inside the text"); CHECK(realDate(x.startDate) && realTime(x.startDate), "real start");
    if (x.end()) CHECK(realDate(x.endDate) && realTime(x.endDate), "real end");
    if (ph) { string o = x.toDate(); CHECK(o.size() == (x.end() ? 43 : 20), "can be printed"); }
  }
}

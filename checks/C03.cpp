//@bound: reference: every second of every day 1890-01-01..2199-12-31; suffix later/after/from now/henceforth/forward/out; quantity: 1..3 decimal digits (4..7 for seconds and minutes, 4..6 for hours, 4..5 for days and 4 for weeks from any second of 2015 and 2016; thorough: 4 throughout; months and years so far as the result stays after the year 1400), every number word, a, an, a few, an few, half, half a, half an; every unit spelling; combinations of 2 or 3 units (weeks+days, days+hours, hours+minutes, minutes+seconds, weeks+hours, hours+seconds, days+hours+minutes, hours+minutes+seconds, days+weeks, minutes+hours, years+months and months+years from days 1..27) with 1..2 digit counts, a word first, or half of one unit
//@labels: long counts of time|long counts of days|one result|covers the phrase|half a year|half a month|half a week|half a day|half an hour|half a minute|years|months|weeks|days|hours|minutes|seconds|combined: one result|combined: covers the phrase|combined with time|combined dates|combined months
#include "units.h"
#include "src/parsers/en/ENTimeLaterParser.hpp"
using namespace H;
extern "C" void sym_main() {
  static const char *const PRE[] = {""}, *const SUF[] = {"later", "after", "from now", "henceforth", "forward", "out"};
  awayPhrase<parser::ENTimeLaterParser>(+1, PRE, 1, SUF, 6);
}

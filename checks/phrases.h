// one or more phrases of every kind; each is understood by the parser named with it
#pragma once
#include "all.h"
namespace H {
struct Phrase { int parser; const char *text; };
static const Phrase PHRASES[] = {{P_CASUAL_TIME, "this morning"}, {P_CASUAL_TIME, "noon"}, {P_DEADLINE, "within half an hour"}, {P_DEADLINE, "in 12 minutes"}, {P_DEADLINE, "in a few days"}, {P_WEEKDAY, "late sunday"}, {P_WEEKDAY, "last tues"}, {P_WEEKDAY, "wed next week"}, {P_CASUAL_DATE, "last night"}, {P_CASUAL_DATE, "tomorrow"}, {P_CASUAL_DATE, "now"},
  {P_MONTH_DAY, "jan 31st, 2016"}, {P_MONTH_DAY, "feb 2 to 20, 2017"}, {P_MONTH_DAY, "june twenty first"}, {P_LATER, "2 weeks 3 days later"}, {P_LATER, "half an hour from now"}, {P_MONTH, "sept, 2012"}, {P_MONTH, "may 1910 ad"}, {P_AGO, "a month ago"}, {P_AGO, "2 hours 10 minutes ago"}, {P_TIME, "from 10:30:15 am to 11pm"}, {P_TIME, "at 2310"}, {P_TIME, "7 o'clock"}, {P_TIME, "noon - 13:45"}, {P_ISO, "2016-02-28t23:50:51+05:30"}, {P_ISO, "2012-1-9"}, {P_HOLIDAY, "new year's eve"}, {P_HOLIDAY, "martin luther king jr day"}, {P_HOLIDAY, "labor day"}, {P_WEEK, "last week"}, {P_WEEK, "next week"}, {P_RELATIVE, "last 2 weeks"}, {P_RELATIVE, "next few months"}, {P_RELATIVE, "this year"}};
enum { NPHRASES = sizeof PHRASES / sizeof *PHRASES };
inline bool sameParts(parse::ParsedComponents &a, parse::ParsedComponents &b) {
  static const char *const K[] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};
  bool r = (a.getYear() == b.getYear()) & (a.getMonth() == b.getMonth()) & (a.get_mDay() == b.get_mDay()) & (a.get_wDay() == b.get_wDay()) & (a.getHour() == b.getHour()) & (a.getMinute() == b.getMinute()) & (a.getSeconds() == b.getSeconds()) & (a.getTimeZoneOffset() == b.getTimeZoneOffset());
  for (auto k : K) r &= a.isCertain(k) == b.isCertain(k);
  return r;
}
inline bool sameMoment(parse::ParsedResult &a, parse::ParsedResult &b) { return (a.end() == b.end()) && sameParts(a.startDate, b.startDate) && (!a.end() || sameParts(a.endDate, b.endDate)); }
inline Result quiet(int k, string &t, bp::ptime &ref) { // without the observations of run()
  switch (k) {
    case P_CASUAL_TIME: return parser::ENCasualTimeParser().execute(t, ref); case P_DEADLINE: return parser::ENDeadlineFormatParser().execute(t, ref); case P_WEEKDAY: return parser::ENDayOfWeekParser().execute(t, ref); case P_CASUAL_DATE: return parser::ENCasualDateParser().execute(t, ref);
    case P_MONTH_DAY: return parser::ENMonthNameMiddleEndianParser().execute(t, ref); case P_LATER: return parser::ENTimeLaterParser().execute(t, ref); case P_MONTH: return parser::ENMonthNameParser().execute(t, ref); case P_AGO: return parser::ENTimeAgoFormatParser().execute(t, ref);
    case P_TIME: return parser::ENTimeExpressionParser().execute(t, ref); case P_ISO: return parser::ENISOFormatParser().execute(t, ref); case P_HOLIDAY: return parser::ENHolidayParser().execute(t, ref); case P_WEEK: return parser::ENWeekExpressionParser().execute(t, ref); default: return parser::ENRelativeDateFormatParser().execute(t, ref);
  }
}
}

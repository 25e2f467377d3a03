// every parser, by number
#pragma once
#include "units.h"
#include "src/parsers/en/ENISOFormatParser.hpp"
#include "src/parsers/en/ENTimeLaterParser.hpp"
#include "src/parsers/en/ENMonthNameParser.hpp"
#include "src/parsers/en/ENCasualTimeParser.hpp"
#include "src/parsers/en/ENCasualDateParser.hpp"
#include "src/parsers/en/ENUSHolidaysParser.hpp"
#include "src/parsers/en/ENDayOfTheWeekParser.hpp"
#include "src/parsers/en/ENTimeAgoFormatParser.hpp"
#include "src/parsers/en/ENDeadlineFormatParser.hpp"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
#include "src/parsers/en/ENWeekExperessionParser.hpp"
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"
namespace H {
enum { P_CASUAL_TIME, P_DEADLINE, P_WEEKDAY, P_CASUAL_DATE, P_MONTH_DAY, P_LATER, P_MONTH, P_AGO, P_TIME, P_ISO, P_HOLIDAY, P_WEEK, P_RELATIVE, NPARSERS };
inline Result runParser(int k, string &t, bp::ptime &ref) {
  switch (k) {
    case P_CASUAL_TIME: { parser::ENCasualTimeParser p; return run(p, t, ref); }
    case P_DEADLINE: { parser::ENDeadlineFormatParser p; return run(p, t, ref); }
    case P_WEEKDAY: { parser::ENDayOfWeekParser p; return run(p, t, ref); }
    case P_CASUAL_DATE: { parser::ENCasualDateParser p; return run(p, t, ref); }
    case P_MONTH_DAY: { parser::ENMonthNameMiddleEndianParser p; return run(p, t, ref); }
    case P_LATER: { parser::ENTimeLaterParser p; return run(p, t, ref); }
    case P_MONTH: { parser::ENMonthNameParser p; return run(p, t, ref); }
    case P_AGO: { parser::ENTimeAgoFormatParser p; return run(p, t, ref); }
    case P_TIME: { parser::ENTimeExpressionParser p; return run(p, t, ref); }
    case P_ISO: { parser::ENISOFormatParser p; return run(p, t, ref); }
    case P_HOLIDAY: { parser::ENHolidayParser p; return run(p, t, ref); }
    case P_WEEK: { parser::ENWeekExpressionParser p; return run(p, t, ref); }
    default: { parser::ENRelativeDateFormatParser p; return run(p, t, ref); }
  }
}
inline bool realDate(parse::ParsedComponents &c) { int y = c.getYear(), m = c.getMonth(), d = c.get_mDay(); if (!((y >= 1400) & (y <= 9999) & (m >= 1) & (m <= 12))) return false; return (d >= 1) & (d <= sym_eom(y, m)); }
inline bool realTime(parse::ParsedComponents &c) { return (c.getHour() >= 0) & (c.getHour() <= 24) & (c.getMinute() >= 0) & (c.getMinute() <= 59) & (c.getSeconds() >= 0) & (c.getSeconds() <= 59); }
}

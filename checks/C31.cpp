//@bound: every ordered pair of phrases of a corpus of 34 covering every parser: the first one run by its parser with one character (at any place) replaced by an arbitrary printable one or left alone, at any day of 2016 (thorough: every place; quick: the last place), the second one then run by the same parser object when of the same kind, else by its own
#include "phrases.h"
#include <memory>
using namespace H;
static std::unique_ptr<parser::Parser> make(int k) {
  switch (k) { case P_CASUAL_TIME: return std::make_unique<parser::ENCasualTimeParser>(); case P_DEADLINE: return std::make_unique<parser::ENDeadlineFormatParser>(); case P_WEEKDAY: return std::make_unique<parser::ENDayOfWeekParser>(); case P_CASUAL_DATE: return std::make_unique<parser::ENCasualDateParser>();
    case P_MONTH_DAY: return std::make_unique<parser::ENMonthNameMiddleEndianParser>(); case P_LATER: return std::make_unique<parser::ENTimeLaterParser>(); case P_MONTH: return std::make_unique<parser::ENMonthNameParser>(); case P_AGO: return std::make_unique<parser::ENTimeAgoFormatParser>();
    case P_TIME: return std::make_unique<parser::ENTimeExpressionParser>(); case P_ISO: return std::make_unique<parser::ENISOFormatParser>(); case P_HOLIDAY: return std::make_unique<parser::ENHolidayParser>(); case P_WEEK: return std::make_unique<parser::ENWeekExpressionParser>(); default: return std::make_unique<parser::ENRelativeDateFormatParser>(); }
}
extern "C" void sym_main() {
  int a = choice("first", NPHRASES), b = choice("second", NPHRASES); string ta = PHRASES[a].text, tb = PHRASES[b].text, tc = tb; bp::ptime R(bg::date(2016, 2, 29), bp::seconds(49507));
  Result fresh = quiet(PHRASES[b].parser, tc, R);
  auto p = make(PHRASES[a].parser), q = PHRASES[a].parser == PHRASES[b].parser ? nullptr : make(PHRASES[b].parser);
  if (choice("replace", 2)) { size_t at = FULL ? (size_t)choice("place", (int)ta.size()) : ta.size() - 1; ta[at] = (char)sym_int("byte", 32, 126); }
  bp::ptime R1(bg::date(2016, 1, 1), bp::seconds(sym_int("first.sec", 0, 86399))); obsText(ta);
  try { p->execute(ta, R1); Result r = (q ? q : p)->execute(tb, R); obsResult(r);
    CHECK(r.size() == 1 && fresh.size() == 1, "understood"); CHECK(sameMoment(r[0], fresh[0]), "same moment as from a fresh start"); CHECK((r[0].getIndex() == fresh[0].getIndex()) & (r[0].textLength() == fresh[0].textLength()), "same span");
  } catch (...) { CHECK(false, "no-exception"); throw; }
}

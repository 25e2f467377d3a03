//@bound: every phrase of a corpus of 34 covering every parser, with any printable character in place of any one of its letters (thorough: any byte), or as it is, and the 45 phrase shapes of C17 with every digit symbolic; reference any second of 2016-02-29; two adjacent results of any two of the 14 kinds put through each of the four refiners with 8 connecting texts
//@labels: found|the mark of its parser|no other mark|an untouched result keeps its marks|a merged result has the marks of both|and that of the refiner|a zone is marked
#include "phrases.h"
#include "shapes.h"
#include "src/refiners/OverlapRemovalRefiner.hpp"
#include "src/refiners/ExtractTimeZoneAbbreviation.hpp"
#include "src/refiners/en/ENMergeDateAndTimeRefiner.hpp"
#include "src/refiners/en/ENMergeDateRangeRefiner.hpp"
using namespace H;
using utils::Modifiers;
static int markOf(int p) {
  switch (p) { case P_CASUAL_TIME: return utils::ENCasualTimeParser; case P_DEADLINE: return utils::ENDeadlineFormatParser; case P_WEEKDAY: return utils::ENDayOfTheWeekParser; case P_CASUAL_DATE: return utils::ENCasualDateParser; case P_MONTH_DAY: return utils::ENMonthNameMiddleEndianParser; case P_LATER: return utils::ENTimeLaterParser;
    case P_MONTH: return utils::ENMonthNameParser; case P_AGO: return utils::ENTimeAgoFormatParser; case P_TIME: return utils::ENTimeExpressionParser; case P_ISO: return utils::ENISOFormatParser; case P_HOLIDAY: return utils::ENUSHolidaysParser; case P_RELATIVE: return utils::ENRelativeDateFormatParser; default: return -1; }
}
static bool exactly(parse::ParsedResult &r, int a, int b = -1, int c = -1) { bool ok = true; for (int m = 0; m <= utils::ExtractTimeZoneAbbreviation; m++) ok &= r.getTag((Modifiers)m) == (m == a || m == b || m == c); return ok; }
extern "C" void sym_main() {
  int kind = choice("kind", 4);
  if (kind < 3) {
    string t; int p;
    if (kind == 0) { const Shape &s = SHAPES[choice("shape", NSHAPES)]; p = s.p; t = fill(s); }
    else { const Phrase &s = PHRASES[choice("phrase", NPHRASES)]; p = s.parser; t = s.text; if (kind == 2) { int at = choice("at", (int)t.size()); t[at] = (char)(FULL ? sym_int("byte", 1, 255) : sym_int("byte", 32, 126)); } }
    bp::ptime R(bg::date(2016, 2, 29), bp::seconds(sym_int("ref.sec", 0, 86399))); Result r = runParser(p, t, R); if (kind == 1) CHECK(r.size() == 1, "found");
    for (auto &x : r) { int m = markOf(p); CHECK(m < 0 || x.getTag((Modifiers)m), "the mark of its parser"); CHECK(exactly(x, m), "no other mark"); }
    return;
  }
  static const char *const GAP[] = {" ", ", ", " at ", " to ", " - ", " EST ", " (PST)", " qq "}; int g = choice("between", 8), ref = choice("refiner", 4), a = choice("first", 13) - 1, b = choice("second", 13) - 1; if (a == b) sym_end();
  bp::ptime anchor(bg::date(2016, 2, 29)); string t = "q first"; t += GAP[g]; size_t at2 = t.size(); t += "second"; parse::ParsedResult p(anchor, 2, "first"), q(anchor, (long)at2, "second");
  p.startDate.setYear(2016); p.startDate.setMonth(1); p.startDate.set_mDay(sym_int("day", 1, 31)); q.startDate.implyComponent("year", 2016); q.startDate.implyComponent("month", 1); q.startDate.implyComponent("mday", 1); q.startDate.setHour(sym_int("hour", 0, 23)); q.startDate.setMinute(5);
  if (a >= 0) p.setTag((Modifiers)a); if (b >= 0) q.setTag((Modifiers)b); Result in{p, q}, out; obsText(t);
  try { if (ref == 0) out = OverlapRemover().refine(in, t); else if (ref == 1) out = ExtractTimeZoneAbbreviation().refine(in, t); else if (ref == 2) out = ENMergeDateAndTime().refine(in, t); else out = ENMergeDateRange().refine(in, t); } catch (...) { CHECK(false, "no-exception"); throw; }
  bool merged = (ref == 2 && g < 3) || (ref == 2 && g == 4) || (ref == 3 && (g == 3 || g == 4)); bool zone = ref == 1 && a == utils::ENTimeExpressionParser && (g == 5 || g == 6);
  CHECK(out.size() == (merged ? 1 : 2), "merged or not");
  if (merged) { int m = ref == 2 ? utils::ENMergeDateAndTimeRefiner : utils::ENMergeDateRangeRefiner; auto &r = out[0]; CHECK((a < 0 || r.getTag((Modifiers)a)) && (b < 0 || r.getTag((Modifiers)b)), "a merged result has the marks of both"); CHECK(exactly(r, a, b, m), "and that of the refiner"); return; }
  if (zone) CHECK(exactly(out[0], a, utils::ExtractTimeZoneAbbreviation), "a zone is marked"); else CHECK(exactly(out[0], a), "an untouched result keeps its marks"); CHECK(exactly(out[1], b), "an untouched result keeps its marks");
}

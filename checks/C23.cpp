//@bound: every one of 191 time-zone abbreviations after a time, in any mixture of cases; 0..2 spaces before it, bare or in parentheses, then the end of the text or any character that is not a letter, digit or underscore; any other word of 1..3 letters (every one) or 4..6 (each any of q x z j k v); result with or without an end, whose offsets are given already or not (quick: given for 8 of the abbreviations); only after times; also two times and a date in one text, each with a zone of its own or none
#include "units.h"
#include "src/refiners/ExtractTimeZoneAbbreviation.hpp"
#include <cstring>
using namespace H;
struct Z { const char *n; int o; };
static const Z ZONES[] = {{"ACDT", 630}, {"ACST", 570}, {"ADT", -180}, {"AEDT", 660}, {"AEST", 600}, {"AFT", 270}, {"AKDT", -480}, {"AKST", -540}, {"ALMT", 360}, {"AMST", -180}, {"AMT", -240}, {"ANAST", 720}, {"ANAT", 720}, {"AQTT", 300}, {"ART", -180}, {"AST", -240}, {"AWDT", 540}, {"AWST", 480}, {"AZOST", 0}, {"AZOT", -60}, {"AZST", 300}, {"AZT", 240}, {"BNT", 480}, {"BOT", -240}, {"BRST", -120}, {"BRT", -180}, {"BST", 60}, {"BTT", 360}, {"CAST", 480}, {"CAT", 120}, {"CCT", 390}, {"CDT", -300}, {"CEST", 120}, {"CET", 60}, {"CHADT", 825}, {"CHAST", 765}, {"CKT", -600}, {"CLST", -180}, {"CLT", -240}, {"COT", -300}, {"CST", -360}, {"CVT", -60}, {"CXT", 420}, {"CHST", 600}, {"DAVT", 420}, {"EASST", -300}, {"EAST", -360}, {"EAT", 180}, {"ECT", -300}, {"EDT", -240}, {"EEST", 180}, {"EET", 120}, {"EGST", 0}, {"EGT", -60}, {"EST", -300}, {"ET", -300}, {"FJST", 780}, {"FJT", 720}, {"FKST", -180}, {"FKT", -240}, {"FNT", -120}, {"GALT", -360}, {"GAMT", -540}, {"GET", 240}, {"GFT", -180}, {"GILT", 720}, {"GMT", 0}, {"GST", 240}, {"GYT", -240}, {"HAA", -180}, {"HAC", -300}, {"HADT", -540}, {"HAE", -240}, {"HAP", -420}, {"HAR", -360}, {"HAST", -600}, {"HAT", -150}, {"HAY", -480}, {"HKT", 480}, {"HLV", -270}, {"HNA", -240}, {"HNC", -360}, {"HNE", -300}, {"HNP", -480}, {"HNR", -420}, {"HNT", -210}, {"HNY", -540}, {"HOVT", 420}, {"ICT", 420}, {"IDT", 180}, {"IOT", 360}, {"IRDT", 270}, {"IRKST", 540}, {"IRKT", 540}, {"IRST", 210}, {"IST", 330}, {"JST", 540}, {"KGT", 360}, {"KRAST", 480}, {"KRAT", 480}, {"KST", 540}, {"KUYT", 240}, {"LHDT", 660}, {"LHST", 630}, {"LINT", 840}, {"MAGST", 720}, {"MAGT", 720}, {"MART", -570}, {"MAWT", 300}, {"MDT", -360}, {"MESZ", 120}, {"MEZ", 60}, {"MHT", 720}, {"MMT", 390}, {"MSD", 240}, {"MSK", 240}, {"MST", -420}, {"MUT", 240}, {"MVT", 300}, {"MYT", 480}, {"NCT", 660}, {"NDT", -150}, {"NFT", 690}, {"NOVST", 420}, {"NOVT", 360}, {"NPT", 345}, {"NST", -210}, {"NUT", -660}, {"NZDT", 780}, {"NZST", 720}, {"OMSST", 420}, {"OMST", 420}, {"PDT", -420}, {"PET", -300}, {"PETST", 720}, {"PETT", 720}, {"PGT", 600}, {"PHOT", 780}, {"PHT", 480}, {"PKT", 300}, {"PMDT", -120}, {"PMST", -180}, {"PONT", 660}, {"PST", -480}, {"PT", -480}, {"PWT", 540}, {"PYST", -180}, {"PYT", -240}, {"RET", 240}, {"SAMT", 240}, {"SAST", 120}, {"SBT", 660}, {"SCT", 240}, {"SGT", 480}, {"SRT", -180}, {"SST", -660}, {"TAHT", -600}, {"TFT", 300}, {"TJT", 300}, {"TKT", 780}, {"TLT", 540}, {"TMT", 300}, {"TVT", 720}, {"ULAT", 480}, {"UTC", 0}, {"UYST", -120}, {"UYT", -180}, {"UZT", 300}, {"VET", -270}, {"VLAST", 660}, {"VLAT", 660}, {"VUT", 660}, {"WAST", 120}, {"WAT", 60}, {"WEST", 60}, {"WESZ", 60}, {"WET", 0}, {"WEZ", 0}, {"WFT", 720}, {"WGST", -120}, {"WGT", -180}, {"WIB", 420}, {"WIT", 540}, {"WITA", 480}, {"WST", 780}, {"WT", 0}, {"YAKST", 600}, {"YAKT", 600}, {"YAPT", 600}, {"YEKST", 360}, {"YEKT", 360}};
enum { NZ = sizeof ZONES / sizeof *ZONES };
static void zone(int kind) {   // kind 0: known zone; 1: unknown word; 2: other kinds of result
  string t = "at 12:30", zn; int o = 0;
  bool end = choice("range", 2), given = false, egiven = false; size_t l0;
  if (kind != 1 ) { int k = kind == 2 ? 0 : choice("zone", NZ); if (FULL || k % 24 == 7) { given = choice("start given", 2); egiven = end && choice("end given", 2); } zn = ZONES[k].n; o = ZONES[k].o; for (auto &c : zn) c = (char)(c + 32 * sym_int("lower", 0, 1)); }
  else { int n = 1 + choice("letters", 6); for (int i = 0; i < n; i++) { int c = n <= 3 ? sym_int("letter", 0, 25) : 0; zn += n <= 3 ? (char)('a' + c) : "qxzjkv"[sym_int("letter", 0, 5)]; }
    for (auto &z : ZONES) if (strlen(z.n) == zn.size()) { bool same = true; for (size_t i = 0; i < zn.size(); i++) same &= zn[i] == (char)(z.n[i] + 32); sym_assume(!same); } }
  int x0 = sym_int("offset", -720, 840), x1 = sym_int("end.offset", -720, 840); l0 = t.size(); string lead = "ab "; t = lead + t; size_t at = lead.size();
  int sp = choice("spaces", kind ? 2 : 3), par = choice("parentheses", kind ? 1 : 2), fol = choice("followed", FULL || (sp == 1 && !end) ? 3 : 2); t.append(sp, ' '); if (par) t += '('; t += zn; if (par) t += ')'; size_t fin = t.size();
  if (fol) { char c = (char)sym_int("next", 1, 127); sym_assume(!(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_'))); if (!par) sym_assume(c != ')'); t += c; if (fol == 2) t += "est"; }
  Result in; parse::ParsedResult r(bp::ptime(bg::date(2016, 2, 29)), (long)at, t.substr(at, l0)); r.startDate.setHour(12); r.startDate.setMinute(30); r.endDate.setHour(13); if (end) r.makeEndDateValid();
  if (given) r.startDate.setTimeZoneOffset(x0); if (egiven) r.endDate.setTimeZoneOffset(x1);
  utils::Modifiers mark = utils::ENTimeExpressionParser; if (kind == 2) { static const utils::Modifiers OTHER[] = {utils::ENCasualTimeParser, utils::ENISOFormatParser, utils::ENMonthNameParser, utils::ENDeadlineFormatParser}; mark = OTHER[choice("kind", 4)]; }
  r.setTag(mark); in.push_back(r); obsText(t); ExtractTimeZoneAbbreviation e; Result out; try { out = e.refine(in, t); } catch (...) { CHECK(false, "no-exception"); throw; }
  CHECK(out.size() == 1, "one result"); auto &q = out[0]; sym_observe("tz", q.startDate.getTimeZoneOffset()); sym_observe("len", (long)q.textLength());
  CHECK(q.getIndex() == at && q.end() == end && q.getTag(mark) && q.startDate.getHour() == 12 && q.startDate.getMinute() == 30, "the rest stays as it was");
  if (kind) { CHECK(!q.getTag(utils::ExtractTimeZoneAbbreviation) && q.textLength() == l0 && q.startDate.isCertain("tzoffset") == given && q.startDate.getTimeZoneOffset() == (given ? x0 : 0), kind == 1 ? "unknown words change nothing" : "only times take a zone"); return; }
  CHECK(q.startDate.isCertain("tzoffset") && q.startDate.getTimeZoneOffset() == (given ? x0 : o), "offset of the zone, unless one was given"); if (end) CHECK(q.endDate.isCertain("tzoffset") && q.endDate.getTimeZoneOffset() == (egiven ? x1 : o), "end offset of the zone, unless one was given");
  CHECK(q.textLength() == fin - at, "covers the abbreviation"); CHECK(q.getTag(utils::ExtractTimeZoneAbbreviation), "marked as having a zone");
}
static void several() {   // two times, each with a zone of its own or none, and a date
  string t; Result in; bp::ptime anchor(bg::date(2016, 2, 29)); int z[2], dateAt = choice("date", 3); size_t at[3], len[3], n = 0; bool time[3]; int off[3];
  static const int PICK[] = {-1, 54, 123, 96};   // none, EST, NZDT, IST
  for (int i = 0, k = 0; i < 3; i++) {
    at[i] = t.size(); time[i] = i != dateAt; off[i] = 9999; string x = time[i] ? "12:30" : "june 5"; t += x; parse::ParsedResult r(anchor, (long)at[i], x); r.setTag(time[i] ? utils::ENTimeExpressionParser : utils::ENMonthNameMiddleEndianParser); in.push_back(r); len[i] = x.size();
    int c = PICK[time[i] ? choice("zone", 4) : 1]; if (c >= 0) { string a = ZONES[c].n; for (auto &ch : a) ch = (char)(ch + 32 * sym_int("lower", 0, 1)); t += " " + a; if (time[i]) { off[i] = ZONES[c].o; len[i] = t.size() - at[i]; } }
    if (i < 2) t += ", ";
  }
  obsText(t); ExtractTimeZoneAbbreviation e; Result out; try { out = e.refine(in, t); } catch (...) { CHECK(false, "no-exception"); throw; }
  CHECK(out.size() == 3, "several: all stay"); for (int i = 0; i < 3; i++) { auto &q = out[i]; bool has = off[i] != 9999; CHECK((q.getIndex() == at[i]) & (q.textLength() == len[i]), "several: each covers its own"); CHECK(q.startDate.isCertain("tzoffset") == has && (!has || q.startDate.getTimeZoneOffset() == off[i]) && q.getTag(utils::ExtractTimeZoneAbbreviation) == has, "several: each has its own zone"); }
}
extern "C" void sym_main() { int k = choice("case", 4); if (k == 3) several(); else zone(k); }

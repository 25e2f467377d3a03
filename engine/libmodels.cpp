// Replacements of third-party library functions (Boost.DateTime kernel and console/stream formatting), compiled with
// instrumentation.  Each one states the documented contract of the function it replaces; engine/selftest.cpp compares them
// with the real Boost functions exhaustively (every day 1400-01-01..9999-12-31).
#include <string>
#include <boost/date_time/posix_time/posix_time.hpp>
using namespace boost;
typedef gregorian::gregorian_calendar::ymd_type ymd;
extern "C" long sym_cal(long what, long dn);
extern "C" long sym_caln(long y, long m, long d);
extern "C" long sym_eom(long y, long m);
#define CAL "symredir._ZN5boost9date_time23gregorian_calendar_baseINS0_19year_month_day_baseINS_9gregorian9greg_yearENS3_10greg_monthENS3_8greg_dayEEEjE"
#define CALK "symredir._ZN5boost9date_time23gregorian_calendar_baseINS0_19year_month_day_baseINS_9gregorian9greg_yearENS3_10greg_monthENS3_8greg_dayEEEjE"
bool m_leap(gregorian::greg_year y) asm(CAL "12is_leap_yearES4_");
bool m_leap(gregorian::greg_year y) { unsigned short v = y; return ((v % 4 == 0) & (v % 100 != 0)) | (v % 400 == 0); }
unsigned short m_eom(gregorian::greg_year y, gregorian::greg_month m) asm(CAL "16end_of_month_dayES4_S5_");
unsigned short m_eom(gregorian::greg_year y, gregorian::greg_month m) { return (unsigned short)sym_eom((unsigned short)y, m.as_number()); }
unsigned m_dn(const ymd &t) asm(CAL "10day_numberERKS7_");
unsigned m_dn(const ymd &t) { return (unsigned)sym_caln((unsigned short)t.year, t.month.as_number(), (unsigned short)t.day); }
ymd m_fdn(unsigned dn) asm(CAL "15from_day_numberEj");
ymd m_fdn(unsigned dn) { return ymd((unsigned short)sym_cal(0, dn), (unsigned short)sym_cal(1, dn), (unsigned short)sym_cal(2, dn)); }
unsigned short m_dow(const ymd &t) asm(CAL "11day_of_weekERKS7_");
unsigned short m_dow(const ymd &t) { return (unsigned short)((m_dn(t) + 1) % 7); }

// ---- text rendering: "2016-Feb-29 13:45:07" -------------------------------------------------------------------------------
static void two(std::string &o, long v) { o += (char)('0' + v / 10 % 10); o += (char)('0' + v % 10); }
static std::string dateText(const gregorian::date &d) {
  if (d.is_special()) return d.is_not_a_date() ? "not-a-date-time" : d.is_neg_infinity() ? "-infinity" : "+infinity";
  static const char NAMES[] = "JanFebMarAprMayJunJulAugSepOctNovDec"; ymd t = d.year_month_day(); unsigned y = (unsigned short)t.year, m = t.month.as_number(); std::string o;
  o += (char)('0' + y / 1000); o += (char)('0' + y / 100 % 10); two(o, y % 100); o += '-'; for (int i = 0; i < 3; i++) o += NAMES[3 * (m - 1) + i]; o += '-'; two(o, (unsigned short)t.day); return o;
}
static std::string durText(posix_time::time_duration td) {
  if (td.is_special()) return td.is_not_a_date_time() ? "not-a-date-time" : td.is_neg_infinity() ? "-infinity" : "+infinity";
  std::string o; if (td.is_negative()) { o += '-'; td = td.invert_sign(); }
  long h = td.hours(); if (h >= 100) o += std::to_string(h); else two(o, h); o += ':'; two(o, td.minutes()); o += ':'; two(o, td.seconds());
  long f = td.fractional_seconds(); if (f != 0) { o += '.'; for (long k = 100000; k; k /= 10) o += (char)('0' + f / k % 10); } return o;
}
std::string m_datestr(const gregorian::date &d) asm("symredir._ZN5boost9gregorian21to_simple_string_typeIcEENSt7__cxx1112basic_stringIT_St11char_traitsIS4_ESaIS4_EEERKNS0_4dateE");
std::string m_datestr(const gregorian::date &d) { return dateText(d); }
std::string m_durstr(posix_time::time_duration td) asm("symredir._ZN5boost10posix_time21to_simple_string_typeIcEENSt7__cxx1112basic_stringIT_St11char_traitsIS4_ESaIS4_EEENS0_13time_durationE");
std::string m_durstr(posix_time::time_duration td) { return durText(td); }
// ---- console output: what is written to std::cout is kept, std::cerr is dropped, other streams are left to the library -------
static std::string g_out;
extern "C" unsigned long sym_stdout(const char **p) { *p = g_out.data(); return g_out.size(); }
static std::ostream &insert(std::ostream &os, const char *s, unsigned long n) { if (&os == &std::cout) g_out.append(s, n); else if (&os != &std::cerr) std::__ostream_insert(os, s, (std::streamsize)n); return os; }
std::ostream &m_outs(std::ostream &os, const char *s) asm("symredir._ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
std::ostream &m_outs(std::ostream &os, const char *s) { unsigned long n = 0; while (s[n]) n++; return insert(os, s, n); }
std::ostream &m_outstr(std::ostream &os, const std::string &s) asm("symredir._ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::ostream &m_outstr(std::ostream &os, const std::string &s) { return insert(os, s.data(), s.size()); }
std::ostream &m_outc(std::ostream &os, char c) asm("symredir._ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
std::ostream &m_outc(std::ostream &os, char c) { return insert(os, &c, 1); }
std::ostream &m_outm(std::ostream *os, std::ostream &(*f)(std::ostream &)) asm("symredir._ZNSolsEPFRSoS_E");
std::ostream &m_outm(std::ostream *os, std::ostream &(*f)(std::ostream &)) { if (os == &std::cout) { if (f == (std::ostream & (*)(std::ostream &)) std::endl) g_out += '\n'; return *os; } if (os == &std::cerr) return *os; return f(*os); }
// ---- "2016-02-29 13:45:07" -> moment; any other form is left to the library ---------------------------------------------------
posix_time::ptime m_fromstr(const std::string &s) asm("symredir._ZN5boost10posix_time16time_from_stringERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
posix_time::ptime m_fromstr(const std::string &s) {
  bool ok = s.size() == 19; if (ok) for (unsigned i = 0; i < 19; i++) { char c = s[i]; ok &= i == 4 || i == 7 ? c == '-' : i == 10 ? c == ' ' : i == 13 || i == 16 ? c == ':' : (c >= '0') & (c <= '9'); }
  if (!ok) return date_time::parse_delimited_time<posix_time::ptime>(s, ' ');
  auto v = [&](int a, int n) { int r = 0; while (n--) r = r * 10 + (s[a++] - '0'); return r; };
  return posix_time::ptime(gregorian::date((unsigned short)v(0, 4), (unsigned short)v(5, 2), (unsigned short)v(8, 2)), posix_time::time_duration(v(11, 2), v(14, 2), v(17, 2)));
}

//@bound: the program itself (argument handling, all its parsers and refiners, output) on any reference moment 1990..2069 to the second, given as text: wrong argument counts; texts with nothing to find (up to 4 letters, each any of q x z j k v); counts of 1..2 digits (from 1) of days, weeks, hours, minutes with in/ago/later; today/tomorrow/yesterday with any H:MM am/pm in either order and 3 connections; any H:MM am/pm, or range of such, with 6 zones; any pair of month-day-year dates (every day, 1900..2099) joined as a range in either order; ISO dates, moments and ranges; two separate phrases; three holidays; every phrase of a corpus of 30 covering every parser, alone or followed by another one after a word; each alone or within other words
//@labels: exit status|the phrase alone|the meaning of the first phrase|one line with the date|the moment meant|and its end|usage for a wrong number of arguments|nothing found is said so
#include "phrases.h"
#define main chrono_main
#include "time.cpp"
#undef main
using namespace H;
static string refText;
static int go(int argc, const string &t) { string a = t, b = refText; char p0[] = "main"; char *av[] = {p0, &a[0], &b[0], p0, p0, nullptr}; av[argc] = nullptr; return chrono_main(argc, av); }
// the present moment, when no reference is given
static const RefYMD *fromClock; static bool plain;
extern "C" time_t time(time_t *t) { if (t) *t = 0; return 0; }
extern "C" struct tm *localtime_r(const time_t *, struct tm *o) { memset(o, 0, sizeof *o); o->tm_year = fromClock->y - 1900; o->tm_mon = fromClock->mo - 1; o->tm_mday = fromClock->d; o->tm_hour = fromClock->h; o->tm_min = fromClock->mi; o->tm_sec = fromClock->s; return o; }
static bool isAt(const char *p, const bp::ptime &t) { string e = bp::to_simple_string(t); bool r = e.size() == 20; for (size_t i = 0; i < 20 && i < e.size(); i++) r &= p[i] == e[i]; return r; }
static bool starts(const char *o, const char *x) { while (*x) if (*o++ != *x++) return false; return true; }
static void expect(const string &t, const bp::ptime &a, const bp::ptime *b = nullptr) {
  string u = t; int w = plain ? 0 : choice("within", 3); if (w & 1) u = "zq " + u; if (w) u += " qx"; obsText(u); obsText(refText);
  int rc; try { rc = go(fromClock ? 2 : 3, u); } catch (...) { CHECK(false, "no-exception"); throw; } const char *o; size_t n = sym_stdout(&o); sym_observe_str("out", o, n); CHECK(rc == 0, "exit status");
  CHECK(n == (size_t)(b ? 50 : 27) && starts(o, "Date:\t") && o[n - 1] == '\n', "one line with the date"); CHECK(isAt(o + 6, a), "the moment meant"); if (b) CHECK(starts(o + 26, " - ") && isAt(o + 29, *b), "and its end");
}
static void expectText(const string &u, const string &e) { obsText(u); obsText(refText); int rc = go(3, u); const char *o; size_t n = sym_stdout(&o); sym_observe_str("out", o, n); CHECK(rc == 0, "exit status"); CHECK(n == e.size() + 7 && starts(o, "Date:\t") && o[n - 1] == '\n', "one line with the date"); bool same = true; for (size_t i = 0; i < e.size(); i++) same &= o[6 + i] == e[i]; CHECK(same, "the meaning of the first phrase"); }
static int clock(string &t, const char *n) { string s = n; int h = sym_int((s + ".h").c_str(), 1, 9), m = sym_int((s + ".m").c_str(), 0, 59), pm = choice((s + ".pm").c_str(), 2); t += (char)('0' + h); t += ':'; t += (char)('0' + m / 10); t += (char)('0' + m % 10); t += pm ? " pm" : "am"; return (h + 12 * pm) * 60 + m; }
static const char *const MON[] = {"january", "feb", "mar.", "april", "may", "jun", "july", "aug", "sept", "oct.", "november", "dec"};
static bp::ptime mdy(string &t, const char *n, int m) { string s = n; int y = sym_int((s + ".y").c_str(), 1900, 2099), d = sym_int((s + ".d").c_str(), 1, 31); sym_assume(d <= sym_eom(y, m)); sym_assume(d >= 10); t += MON[m - 1]; t += ' '; t += (char)('0' + d / 10); t += (char)('0' + d % 10); t += ", "; for (int k = 1000; k; k /= 10) t += (char)('0' + y / k % 10); return bp::ptime(bg::date(y, m, d)); }
static void two(string &t, int v) { t += (char)('0' + v / 10); t += (char)('0' + v % 10); }
static bg::date iso(string &t, const char *n) { string s = n; int y = sym_int((s + ".y").c_str(), 1900, 2099), m = sym_int((s + ".mo").c_str(), 1, 12), d = sym_int((s + ".d").c_str(), 1, 31); sym_assume(d <= sym_eom(y, m)); for (int k = 1000; k; k /= 10) t += (char)('0' + y / k % 10); t += '-'; two(t, m); t += '-'; two(t, d); return bg::date(y, m, d); }
extern "C" void sym_main() {
#ifdef ONLY
  int s = ONLY;
#else
  int s = choice("scenario", 16);
#endif
  auto R = s == 11 || s == 15 ? refYMD(2016, 2016) : refYMD(1990, 2069); refText = "YYYY-MM-DD hh:mm:ss"; auto dig = [&](int at, int v, int n) { for (int i = n - 1; i >= 0; i--) { refText[at + i] = (char)('0' + v % 10); v /= 10; } }; dig(0, R.y, 4); dig(5, R.mo, 2); dig(8, R.d, 2); dig(11, R.h, 2); dig(14, R.mi, 2); dig(17, R.s, 2);
  bg::date D = R.t.date(); string t; 
  switch (s) {
  case 0: { int n = choice("arguments", 3); int rc = go(n == 0 ? 1 : n + 3, "in 3 days"); { const char *o; size_t l = sym_stdout(&o); sym_observe_str("out", o, l); CHECK(rc == 0 && l > 6 && starts(o, "Usage:"), "usage for a wrong number of arguments"); } return; }
  case 1: { int k = choice("letters", 5); for (int i = 0; i < k; i++) t += "qxzjkv"[sym_int("letter", 0, 5)]; obsText(t); int rc = go(3, t); const char *o; size_t l = sym_stdout(&o); CHECK(rc == 0 && l == 22 && starts(o, "[???] -- Invalid date\n"), "nothing found is said so"); return; }
  case 2: { int n = choice("digits", 2) + 1, u = choice("unit", 4), dir = choice("direction", 3); string c; int v = num(c, "count", n); sym_assume(v > 0); static const char *const U[] = {" days", " weeks", " hours", " minutes"}; t = (dir == 0 ? "in " : "") + c + U[u] + (dir == 1 ? " ago" : dir == 2 ? " later" : ""); int sg = dir == 1 ? -1 : 1;
    if (u < 2) expect(t, bp::ptime(D + bg::days(sg * v * (u ? 7 : 1)))); else expect(t, R.t + bp::seconds(sg * v * (u == 2 ? 3600 : 60))); return; }
  case 3: { int w = choice("day", 3), j = choice("connection", 3), o = choice("time first", 2); static const char *const W[] = {"today", "tomorrow", "yesterday"}, *const J[] = {" at ", " ", ", "}; string c; int m = clock(c, "clock"); t = o ? c + (j == 0 ? " on " : J[j]) + W[w] : W[w] + string(J[j]) + c; sym_assume(w != 1 || R.h > 0);
    expect(t, bp::ptime(D + bg::days(w == 1 ? 1 : w == 2 ? -1 : 0), bp::minutes(m))); return; }
  case 4: { static const struct { const char *n; int o; } Z[] = {{"est", -300}, {"PST", -480}, {"GMT", 0}, {"(IST)", 330}, {"NZDT", 780}, {"nst", -210}}; auto &z = Z[choice("zone", 6)]; int m = clock(t, "clock"), m2 = 0; bool rg = choice("range", 2); if (rg) { t += " - "; m2 = clock(t, "end"); sym_assume(m2 > m); } t += ' '; t += z.n;
    bp::ptime a(D, bp::minutes(m - z.o)), b(D, bp::minutes(m2 - z.o)); expect(t, a, rg ? &b : nullptr); return; }
  case 5: { int m1 = 1 + choice("month", FULL ? 12 : 2), m2 = 12 - choice("end.month", FULL ? 12 : 2); bp::ptime a = mdy(t, "a", m1); static const char *const J[] = {" to ", " - ", " through "}; t += J[choice("join", 3)]; bp::ptime b = mdy(t, "b", m2); if (a > b) expect(t, b, &a); else expect(t, a, &b); return; }
  case 6: { int k = choice("form", 3); bg::date d = iso(t, "iso"); if (k == 0) { expect(t, bp::ptime(d)); } else if (k == 1) { int sec = sym_int("sec", 0, 86399); t += 'T'; two(t, sec / 3600); t += ':'; two(t, sec / 60 % 60); t += ':'; two(t, sec % 60); if (choice("z", 2)) t += 'Z'; expect(t, bp::ptime(d, bp::seconds(sec))); } else { t += " - "; bg::date e = iso(t, "iso2"); sym_assume(d <= e); bp::ptime b(e); expect(t, bp::ptime(d), &b); } return; }
  case 7: { int w = choice("first", 2); string c; int v = num(c, "count", 1); sym_assume(v > 0); t = w ? "in " + c + " days, xq, 2001-02-03" : "2001-02-03, xq, in " + c + " days"; expect(t, w ? bp::ptime(D + bg::days(v)) : bp::ptime(bg::date(2001, 2, 3))); return; }
  case 8: { int m = choice("month", 12) + 1; bp::ptime a = mdy(t, "a", m); bool tm = choice("timed", 2); if (tm) { t += choice("at", 2) ? " at " : " "; int c = clock(t, "clock"); expect(t, a + bp::minutes(c)); } else expect(t, a); return; }
  case 10: { plain = true; int two = choice("swapped", 2); bp::ptime a = mdy(t, "a", two ? 5 : 3); t += " at "; a += bp::minutes(clock(t, "clock")); static const char *const J[] = {" to ", " - "}; t += J[two]; bp::ptime b = mdy(t, "b", two ? 3 : 5); t += " at 9:30 pm"; b += bp::minutes(1290); if (a > b) expect(t, b, &a); else expect(t, a, &b); return; }
  case 11: { static const char *const M[] = {"last ", "", "next "}, *const W[] = {"sunday", "mon", "tuesday", "wed", "thurs", "friday", "sat"}; int m = choice("modifier", 3), w = choice("weekday", 7); t = string(M[m]) + W[w]; bool tm = m == 2 && choice("timed", 2); int c = 0; if (tm) { t += " at "; c = clock(t, "clock"); } expect(t, bp::ptime(D + bg::days(7 * (m - 1) + w - (int)D.day_of_week().as_number()), bp::minutes(c))); return; }
  case 12: { fromClock = &R; static const char *const N[] = {"now", "in 5 minutes", "yesterday at 3:15 am"}; int n = choice("phrase", 3); expect(N[n], n == 0 ? R.t : n == 1 ? R.t + bp::minutes(5) : bp::ptime(D - bg::days(1), bp::minutes(195))); return; }
  case 13: { static const struct { const char *n; int o; } Z[] = {{"EST", -300}, {"nzdt", 780}}; auto &z = Z[choice("zone", 2)]; bool first = choice("time first", 2); string c; int m = clock(c, "clock"); c += string(" ") + z.n; bp::ptime a; string d; bool td = choice("today", 2); if (td) { d = "today"; a = bp::ptime(D); } else a = mdy(d, "a", 12); t = first ? c + " on " + d : d + " at " + c; expect(t, a + bp::minutes(m - z.o)); return; }
  case 14: { int k = choice("part", 4); static const char *const N[] = {"last week", "tonight", "tomorrow 5pm - 1am", "today 3:15 pm - 4:45 pm"}; bp::ptime b; sym_assume(k != 2 || R.h > 0); switch (k) { case 0: expect(N[0], bp::ptime(D - bg::days(7))); return; case 1: expect(N[1], bp::ptime(D, bp::hours(22))); return; case 2: b = bp::ptime(D + bg::days(2), bp::hours(1)); expect(N[2], bp::ptime(D + bg::days(1), bp::hours(17)), &b); return; default: b = bp::ptime(D, bp::minutes(1005)); expect(N[3], bp::ptime(D, bp::minutes(915)), &b); return; } }
  case 15: { int n = 0; while (PHRASES[n].parser != P_RELATIVE) n++; int a = choice("first", n), b = choice("second", FULL ? 8 : 2); string one = PHRASES[a].text; static const int S[] = {1, 3, 7, 9, 11, 21, 24}; t = one; if (b) { t += " "; for (int i = 0; i < (FULL ? 2 : 1); i++) t += "qxzjkv"[sym_int("letter", 0, 5)]; t += ", "; t += PHRASES[S[FULL ? b - 1 : (a + 3 * b) % 7]].text; }
    sym_assume(PHRASES[a].parser != P_CASUAL_DATE || R.h > 0); sym_assume(FULL || (R.mo == 6 & R.d == 16)); sym_assume(one != "noon"); /* noon is a part of the day as well as a time */ Result q = quiet(PHRASES[a].parser, one, R.t); CHECK(q.size() == 1, "the phrase alone"); expectText(t, q[0].toDate()); return; }
  default: { int h = choice("holiday", 3); static const char *const N[] = {"christmas", "new year's", "independence day"}; expect(N[h], bp::ptime(bg::date(R.y, h == 0 ? 12 : h == 1 ? 1 : 7, h == 0 ? 25 : h == 1 ? 1 : 4))); return; }
  }
}

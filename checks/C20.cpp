//@bound: two or three phrases of the same kind out of a corpus of 34 covering every parser, all ordered pairs and triples; apart by a separator (comma, full stop, line break or spaces) and a word of 1..2 letters, each any of q x z j k v; reference 2016-02-29 13:45:07
#include "phrases.h"
using namespace H;
static const char *const SEP[] = {" ", ", ", "\n", ". "};
extern "C" void sym_main() {
  int n = 2 + choice("third", 2), ph[3]; size_t at[3]; string t; bp::ptime R(bg::date(2016, 2, 29), bp::seconds(49507));
  for (int i = 0; i < n; i++) {
    if (!i) ph[0] = choice("phrase", NPHRASES); else { int a = NPHRASES, b = 0; for (int k = 0; k < (int)NPHRASES; k++) if (PHRASES[k].parser == PHRASES[ph[0]].parser) { if (k < a) a = k; b = k + 1; } ph[i] = a + choice("next", b - a); }
    if (i) { t += SEP[choice("sep", n == 3 ? 2 : 4)]; int k = 1 + (n == 3 ? 0 : choice("word", 2)); for (int j = 0; j < k; j++) t += "qxzjkv"[sym_int("letter", 0, 5)]; t += SEP[n == 2 || FULL ? choice("sep2", 2) : 0]; }
    at[i] = t.size(); t += PHRASES[ph[i]].text;
  }
  Result r = runParser(PHRASES[ph[0]].parser, t, R); CHECK(r.size() == (size_t)n, "one result per phrase");
  size_t end = 0;
  for (int i = 0; i < n; i++) {
    string alone = PHRASES[ph[i]].text; Result b = quiet(PHRASES[ph[i]].parser, alone, R); CHECK(b.size() == 1, "understood alone");
    size_t s = r[i].getIndex(), e = s + r[i].textLength(); CHECK(s >= end, "in order and apart"); end = e;
    CHECK((s <= at[i]) & (s + 1 >= at[i]), "starts at its phrase, give or take the separator"); CHECK(e >= at[i] + b[0].textLength() && e <= at[i] + b[0].textLength() + 1, "ends with its phrase"); CHECK(sameMoment(r[i], b[0]), "same moment as alone");
  }
}

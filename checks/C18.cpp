//@bound: 34 phrases covering every parser, with the case of every letter chosen freely; the reference is any second of 2016-02-29
#include "phrases.h"
using namespace H;
extern "C" void sym_main() {
  const Phrase &p = PHRASES[choice("phrase", NPHRASES)]; string low = p.text, t = p.text;
  for (auto &c : t) if (c >= 'a' && c <= 'z') c = (char)(c - 32 * sym_int("upper", 0, 1));
  struct { bp::ptime t; } R{bp::ptime(bg::date(2016, 2, 29), bp::seconds(sym_int("ref.sec", 0, 86399)))}; Result a = runParser(p.parser, t, R.t), b = quiet(p.parser, low, R.t);
  CHECK(b.size() == 1, "the phrase is understood in lower case"); CHECK(a.size() == 1, "the phrase is understood in any case");
  CHECK(sameMoment(a[0], b[0]), "same moment"); CHECK((a[0].getIndex() == b[0].getIndex()) & (a[0].textLength() == b[0].textLength()), "same span");
}

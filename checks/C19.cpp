//@bound: 34 phrases covering every parser; before the phrase nothing or a word of 1..3 letters (each any of q x z j k v, thorough 1..5) followed by a space, comma and space or line break; after it nothing, a separator and such a word, or a full stop; reference 2016-02-29 13:45:07
#include "phrases.h"
using namespace H;
static string word(const char *n) { string t; string ln = string(n) + ".len"; int k = choice(ln.c_str(), (FULL ? 5 : 3)) + 1; for (int i = 0; i < k; i++) t += "qxzjkv"[sym_int(n, 0, 5)]; return t; }
extern "C" void sym_main() {
  const Phrase &p = PHRASES[choice("phrase", NPHRASES)]; string alone = p.text, t; static const char *const SEP[] = {" ", ", ", "\n", ". "}, *const AFT[] = {"", " ", ", ", ". ", "\n", ".", ",", "  "};
  int bef = choice("before", 3); if (bef) { t = bef == 1 ? word("pre") : "zebras quickly jump over lazy dogs, which quite vexes ducks\nliving by ponds"; t += SEP[choice("sep", bef == 1 || FULL ? 4 : 2)]; }
  size_t at = t.size(); t += p.text; int a = choice("after", bef == 1 && !FULL ? 4 : 8); t += AFT[a]; if (a && !choice("nothing more", 2)) t += bef == 2 ? "wolves prowl everywhere" : word("post");
  struct { bp::ptime t; } R{bp::ptime(bg::date(2016, 2, 29), bp::seconds(49507))}; Result r = runParser(p.parser, t, R.t), b = quiet(p.parser, alone, R.t);
  CHECK(b.size() == 1, "understood alone"); CHECK(r.size() == 1, "understood in context");
  CHECK(sameMoment(r[0], b[0]), "same moment"); size_t i = r[0].getIndex(), e = i + r[0].textLength(), l = b[0].textLength();
  sym_observe("alone", (long)l);
  CHECK((i <= at) & (i + 1 >= at), "starts at the phrase, give or take the separator"); CHECK((e >= at + l) & (e <= at + l + 1), "ends with the phrase");
}

// phrase shapes with numbers of any value
#pragma once
#include "all.h"
namespace H {
struct Shape { int p; const char *t; };   // # stands for any digit
static const Shape SHAPES[] = {{P_DEADLINE, "in ### days"}, {P_DEADLINE, "within #### months"}, {P_DEADLINE, "in ##### years"}, {P_DEADLINE, "in #### hours"}, {P_DEADLINE, "in #### minutes"}, {P_DEADLINE, "in #### seconds"}, {P_DEADLINE, "in ####### weeks"},
  {P_AGO, "#### years ago"}, {P_AGO, "##### months ago"}, {P_AGO, "####### days ago"}, {P_AGO, "#### hours ago"}, {P_AGO, "#### minutes ago"}, {P_AGO, "###### weeks ago"},
  {P_LATER, "#### years later"}, {P_LATER, "##### months later"}, {P_LATER, "####### days from now"}, {P_LATER, "#### hours later"}, {P_LATER, "#### minutes later"},
  {P_RELATIVE, "next #### years"}, {P_RELATIVE, "last ##### months"}, {P_RELATIVE, "last ####### days"}, {P_RELATIVE, "next #### hours"}, {P_WEEK, "last ###### weeks"}, {P_WEEK, "next ###### weeks"},
  {P_ISO, "####-##-##"}, {P_ISO, "####-#-##t##:##"}, {P_ISO, "####-##-##t##:##:##.###"}, {P_ISO, "####-##-##t##:##-##:##"},
  {P_MONTH_DAY, "feb ##"}, {P_MONTH_DAY, "february ##, ####"}, {P_MONTH_DAY, "feb ## to ##, ####"}, {P_MONTH_DAY, "april ## - ##"}, {P_MONTH_DAY, "apr ##th ### bc"}, {P_MONTH_DAY, "june ##nd, ## ad"}, {P_MONTH, "feb ####"}, {P_MONTH, "september, ####"}, {P_MONTH, "may ### be"},
  {P_TIME, "at ##:##"}, {P_TIME, "##:##:## pm"}, {P_TIME, "at ####"}, {P_TIME, "at ##.## am"}, {P_TIME, "from ##:## to ##:##"}, {P_TIME, "##am - ##pm"}, {P_TIME, "#### - ####"}, {P_TIME, "##:##:##.####"}};
enum { NSHAPES = sizeof SHAPES / sizeof *SHAPES };
inline string fill(const Shape &p) { string t; for (const char *c = p.t; *c; c++) t += *c == '#' ? (char)('0' + sym_int("digit", 0, 9)) : *c; return t; }
}

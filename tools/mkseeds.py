#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the table below (patch.diff against /repo HEAD, demo, meta.json).
   mkseeds.py [ID...]  only makes the files; tools/tryseed.py validates them and runs the checks."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''
#include <cstdlib>
#include <iostream>
#include <string>
#include <algorithm>
#include <unistd.h>
#include "src/parsers/en/ENISOFormatParser.hpp"
#include "src/parsers/en/ENTimeLaterParser.hpp"
#include "src/parsers/en/ENMonthNameParser.hpp"
#include "src/parsers/en/ENCasualTimeParser.hpp"
#include "src/parsers/en/ENCasualDateParser.hpp"
#include "src/parsers/en/ENUSHolidaysParser.hpp"
#include "src/parsers/en/ENDayOfTheWeekParser.hpp"
#include "src/parsers/en/ENTimeAgoFormatParser.hpp"
#include "src/parsers/en/ENDeadlineFormatParser.hpp"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
#include "src/parsers/en/ENWeekExperessionParser.hpp"
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
#include "src/refiners/OverlapRemovalRefiner.hpp"
#include "src/refiners/en/ENMergeDateRangeRefiner.hpp"
#include "src/refiners/ExtractTimeZoneAbbreviation.hpp"
#include "src/refiners/en/ENMergeDateAndTimeRefiner.hpp"
using namespace parser;
static int bad = 0;
static posix_time::ptime at(const char* s) { return posix_time::time_from_string(s); }
static void eq(const std::string& got, const std::string& want, const char* what) {
    if (got != want) { ++bad; std::cout << what << ": got '" << got << "', expected '" << want << "'\n"; }
}
static void eqi(long got, long want, const char* what) { eq(std::to_string(got), std::to_string(want), what); }
static std::string day(parse::ParsedComponents c) {
    char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d", c.getYear(), c.getMonth(), c.get_mDay()); return b;
}
static std::string clock_(parse::ParsedComponents c) {
    char b[64]; snprintf(b, sizeof b, "%02d:%02d:%02d", c.getHour(), c.getMinute(), c.getSeconds()); return b;
}
static std::string full(parse::ParsedComponents c) { return day(c) + " " + clock_(c); }
template <class P> Result run(const std::string& text, const char* ref) {
    P p; std::string t = text; posix_time::ptime r = at(ref); return p.execute(t, r);
}
// the single result's start day, or "none"
template <class P> std::string day1(const std::string& text, const char* ref) {
    Result r = run<P>(text, ref); return r.empty() ? "none" : day(r[0].startDate);
}
template <class P> std::string full1(const std::string& text, const char* ref) {
    Result r = run<P>(text, ref); return r.empty() ? "none" : full(r[0].startDate);
}
int main() {
    alarm(60);
'''
DEMO = '''#!/bin/bash
# run in the repository: compiles its sources with demo.cpp and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O0 -w -I. "$here/demo.cpp" src/*.cpp src/*/*.cpp -o "$tmp/demo" || exit 2
timeout 100 "$tmp/demo"
'''
DEMO_CLI = '''#!/bin/bash
# run in the repository: compiles the program and runs it on a few texts
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O0 -w -I. time.cpp src/*.cpp src/*/*.cpp -o "$tmp/prog" || exit 2
rc=0
try() { # text reference expected-line
    out=$(timeout 20 "$tmp/prog" "$1" "$2" 2>/dev/null) || { echo "exit status $? for $1"; rc=1; }
    [ "$out" == "$3" ] || { echo "'$1' at '$2': got '$out', expected '$3'"; rc=1; }
}
@@
exit $rc
'''
def main():
    spec = {}
    exec(open(os.path.join(V, 'tools', 'seeds_spec.py')).read(), spec)
    want = sys.argv[1:]
    work = tempfile.mkdtemp(prefix='seedmk.')
    subprocess.check_call(['git', 'clone', '-q', '/repo', work + '/r'])
    r = work + '/r'
    for s in spec['SEEDS']:
        if want and s['id'] not in want: continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p, newline='').read()
            if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            n = t.count(old)
            if n != 1: print('!!', s['id'], f, 'matches', n); break
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
        subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
        if 'cli' in s:
            body = '\n'.join("try '%s' '%s' $'%s'" % (a, b, c) for a, b, c in s['cli'])
            open(d + '/demo.sh', 'w').write(DEMO_CLI.replace('@@', body))
        else:
            open(d + '/demo.cpp', 'w').write(HEAD + s['demo'].strip('\n') + '\n    return bad ? 1 : 0;\n}\n')
            open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(work)
main()

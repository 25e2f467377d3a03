E = 'src/parsers/en/'
R = 'src/refiners/'
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo=None, cli=None):
    s = dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks)
    if cli: s['cli'] = cli
    else: s['demo'] = demo
    SEEDS.append(s)

seed('deadline-minutes-short', 'C01', [(E+'ENDeadlineFormatParser.hpp',
    'tmpTime += posix_time::minutes(static_cast<int>(num));', 'tmpTime += posix_time::minutes(static_cast<short>(num));')],
    'a number of minutes above 32767',
    'a large number of minutes is cut to 16 bits and lands weeks before the reference',
    '''eq(full1<ENDeadlineFormatParser>("in 40 minutes", "2017-05-01 10:00:00"), "2017-05-01 10:40:00", "40 minutes");
    eq(full1<ENDeadlineFormatParser>("in 40000 minutes", "2017-05-01 10:00:00"), "2017-05-29 04:40:00", "40000 minutes");''')

seed('unit-skip-digit', 'C02', [('src/utils/utils.cpp',
    'remainingText = remainingText.substr(match[0].str().length());',
    'remainingText = remainingText.substr(std::min(remainingText.length(), match[0].str().length() + 1));')],
    'a second unit with a count of two digits or more',
    "'3 hours 25 minutes ago' loses the first digit of the second count",
    '''eq(full1<ENTimeAgoFormatParser>("25 minutes ago", "2017-05-20 10:00:00"), "2017-05-20 09:35:00", "25 minutes ago");
    eq(full1<ENTimeAgoFormatParser>("3 hours 25 minutes ago", "2017-05-20 10:00:00"), "2017-05-20 06:35:00", "3 hours 25 minutes ago");''')

seed('later-week-float', 'C03', [(E+'ENTimeLaterParser.hpp',
    'date += gregorian::months(static_cast<int> (a.second));',
    '''gregorian::date to{date + gregorian::months(static_cast<int> (a.second))};
                    // stay within the month
                    if(date.day() > 28 and to.end_of_month() != to) to = to.end_of_month();
                    date = to;''')],
    'a reference on the 29th or 30th of a month and a longer target month',
    "'N months later' from the 29th or 30th jumps to the end of a month of 31 days",
    '''eq(day1<ENTimeLaterParser>("1 month later", "2017-05-20 10:00:00"), "2017-06-20", "from the 20th");
    eq(day1<ENTimeLaterParser>("2 months later", "2017-05-29 10:00:00"), "2017-07-29", "from the 29th");''')

seed('relative-year-of-ref', 'C04', [(E+'ENRelativeDateFormatParser.hpp',
    '''            result.startDate.implyComponent("year", tmpTime.date().year());
            result.startDate.implyComponent("month", tmpTime.date().month());
            result.startDate.implyComponent("mday", tmpTime.date().day());
            result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
            result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
            result.startDate.implyComponent("sec",''',
    '''            result.startDate.implyComponent("year", tmpDate.year());
            result.startDate.implyComponent("month", tmpTime.date().month());
            result.startDate.implyComponent("mday", tmpTime.date().day());
            result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
            result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
            result.startDate.implyComponent("sec",''')],
    'hours, minutes or seconds that cross the turn of the year',
    'the year stays that of the reference',
    '''eq(full1<ENRelativeDateFormatParser>("next 3 hours", "2017-05-31 23:30:00"), "2017-06-01 02:30:00", "turn of the month");
    eq(full1<ENRelativeDateFormatParser>("next 3 hours", "2017-12-31 23:30:00"), "2018-01-01 02:30:00", "turn of the year");
    eq(full1<ENRelativeDateFormatParser>("last 40 minutes", "2018-01-01 00:10:00"), "2017-12-31 23:30:00", "back over the turn");''')

seed('this-month-leap-rule', 'C05', [(E+'ENRelativeDateFormatParser.hpp',
    '''                        short last_day = gregorian::gregorian_calendar::end_of_month_day(
                                ref.date().year(), ref.date().month());''',
    '''                        static const short month_days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
                        short last_day = month_days[ref.date().month() - 1];
                        if(ref.date().month() == 2 and ref.date().year() % 4 == 0)
                            last_day = 29;''')],
    'a reference in February of a year such as 2100 (divisible by 4, not a leap year)',
    "'this month' ends on a 29 February that does not exist, so nothing is found",
    '''Result r = run<ENRelativeDateFormatParser>("this month", "2024-02-10 10:00:00");
    eq(r.size() == 1 ? day(r[0].endDate) : "none", "2024-02-29", "leap year");
    r = run<ENRelativeDateFormatParser>("this month", "2100-02-10 10:00:00");
    eq(r.size() == 1 ? day(r[0].endDate) : "none", "2100-02-28", "2100");''')

seed('week-count-byte', 'C06', [(E+'ENWeekExperessionParser.hpp',
    'int numberOfWeeks = 1;', 'signed char numberOfWeeks = 1;')],
    'a number of weeks above 127',
    'the number wraps around: next 200 weeks goes 56 weeks back',
    '''eq(day1<ENWeekExpressionParser>("next 100 weeks", "2017-05-10 10:00:00"), "2019-04-10", "100 weeks");
    eq(day1<ENWeekExpressionParser>("next 200 weeks", "2017-05-10 10:00:00"), "2021-03-10", "200 weeks");''')

seed('lastnight-six', 'C07', [(E+'ENCasualDateParser.hpp',
    'if(ref.time_of_day().hours() > 6) {', 'if(ref.time_of_day() > posix_time::hours(6)) {')],
    "'last night' said between 6:00:01 and 6:59:59",
    'last night is moved a day back an hour too early',
    '''eq(day1<ENCasualDateParser>("last night", "2017-05-10 05:59:00"), "2017-05-10", "5:59");
    eq(day1<ENCasualDateParser>("last night", "2017-05-10 07:00:00"), "2017-05-09", "7:00");
    eq(day1<ENCasualDateParser>("last night", "2017-05-10 06:30:00"), "2017-05-10", "6:30");''')

seed('noon-certain', 'C08', [(E+'ENCasualTimeParser.hpp',
    'result.startDate.implyComponent("hour", 12);', 'result.startDate.setHour(12);')],
    "'noon' as a part of the day, next to a stated time",
    'the hour of noon is certain, so it is no guess any more',
    '''Result r = run<ENCasualTimeParser>("this noon", "2017-05-10 05:59:00");
    eqi(r.size(), 1, "noon is found");
    if (r.size() == 1) { eqi(r[0].startDate.getHour(), 12, "hour"); eqi(r[0].startDate.isCertain("hour"), 0, "hour certain"); }''')

seed('last-same-weekday', 'C09', [(E+'ENDayOfTheWeekParser.hpp',
    '''                gregorian::date tmp = start - gregorian::weeks(1);
                if(offset < start.day_of_week().as_number()) {''',
    '''                gregorian::date tmp = start - gregorian::weeks(1);
                if(offset <= start.day_of_week().as_number()) {''')],
    "'last <weekday>' said on that very weekday",
    'the result is two weeks back instead of one',
    '''eq(day1<ENDayOfWeekParser>("last monday", "2017-05-10 10:00:00"), "2017-05-01", "last monday on a Wednesday");
    eq(day1<ENDayOfWeekParser>("last wednesday", "2017-05-10 10:00:00"), "2017-05-03", "last wednesday on a Wednesday");''')

seed('iso-compact-offset', 'C10', [(E+'ENISOFormatParser.hpp',
    r'([+-]\d{2}):?(\d{2})?)?)?)"', r'([+-]\d{2})(?::(\d{2}))?)?)?)"')],
    'an offset written without a colon, such as +0530',
    'the offset is lost and 0 reported',
    '''Result r = run<ENISOFormatParser>("2012-08-10t12:51:14+05:30", "2017-05-10 10:00:00");
    eqi(r.size() == 1 ? r[0].startDate.getTimeZoneOffset() : 9999, 330, "+05:30");
    r = run<ENISOFormatParser>("2012-08-10t12:51:14+0530", "2017-05-10 10:00:00");
    eqi(r.size() == 1 ? r[0].startDate.getTimeZoneOffset() : 9999, 330, "+0530");''')

seed('monthname-half-year', 'C11', [(E+'ENMonthNameParser.hpp',
    '''                if(std::abs((nextY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
                    dRef = nextY;''',
    '''                if(ref.date().month() - month > 6) {
                    dRef = nextY;''')],
    'a month about half a year before the reference',
    'the year is chosen by whole months, so the nearer next year is missed from the middle of the month on',
    '''eq(day1<ENMonthNameParser>("january", "2017-03-10 10:00:00"), "2017-01-01", "near");
    eq(day1<ENMonthNameParser>("january", "2017-09-10 10:00:00"), "2018-01-01", "far");
    eq(day1<ENMonthNameParser>("january", "2017-07-28 10:00:00"), "2018-01-01", "half a year");''')

seed('monthday-no-prev-year', 'C12', [(E+'ENMonthNameMiddleEndianParser.hpp',
    '''                else if(std::abs((prevY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
                    dRef = prevY;
                }

                result.startDate.set_mDay(day);''',
    '''                else if(std::abs((prevY - ref.date()).days()) < std::abs((dRef - nextY).days()) / 2 - 30) {
                    dRef = prevY;
                }

                result.startDate.set_mDay(day);''')],
    'a day without a year that was five to six months ago, in the year before the reference',
    'the year of the reference is taken although the day in the previous year is nearer',
    '''eq(day1<ENMonthNameMiddleEndianParser>("december 25", "2017-01-10 10:00:00"), "2016-12-25", "near");
    eq(day1<ENMonthNameMiddleEndianParser>("december 25", "2017-06-10 10:00:00"), "2016-12-25", "half a year back");''')

seed('range-end-year', 'C13', [(E+'ENMonthNameMiddleEndianParser.hpp',
    '''                parse::ParsedComponents tmp{result.startDate};
                tmp.set_mDay(endDate);''',
    '''                parse::ParsedComponents tmp{result.startDate};
                if(year < 0) tmp.setYear(ref.date().year());
                tmp.set_mDay(endDate);''')],
    'a range without a year whose closest occurrence is in the next or previous year',
    'the range ends in the year of the reference, a year away from its start',
    '''Result r = run<ENMonthNameMiddleEndianParser>("may 2 to 8", "2017-04-10 10:00:00");
    eq(r.size() == 1 ? day(r[0].startDate) + " " + day(r[0].endDate) : "none", "2017-05-02 2017-05-08", "same year");
    r = run<ENMonthNameMiddleEndianParser>("january 2 to 8", "2017-12-20 10:00:00");
    eq(r.size() == 1 ? day(r[0].startDate) + " " + day(r[0].endDate) : "none", "2018-01-02 2018-01-08", "next year");''')

seed('thanksgiving-last', 'C14', [(E+'ENUSHolidaysParser.hpp',
    '''                utils::ndow fourthThurInNov(utils::ndow::fourth, gregorian::Thursday, gregorian::Nov);
                day = fourthThurInNov.get_date(ref.date().year());''',
    '''                utils::ldow lastThurInNov(gregorian::Thursday, gregorian::Nov);
                day = lastThurInNov.get_date(ref.date().year());''')],
    'a year whose November has five Thursdays',
    'Thanksgiving falls a week late',
    '''eq(day1<ENHolidayParser>("thanksgiving", "2019-04-10 10:00:00"), "2019-11-28", "four Thursdays");
    eq(day1<ENHolidayParser>("thanksgiving", "2018-04-10 10:00:00"), "2018-11-22", "five Thursdays");''')

seed('half-past-midnight', 'C15', [(E+'ENTimeExpressionParser.hpp',
    '''                    //meridian = 0;
                    if(hour == 12) hour = 0;''',
    '''                    //meridian = 0;
                    if(hour * 100 + minute == 1200) hour = 0;''')],
    'a time between 12:01 am and 12:59 am',
    "'12:30 am' is taken as half past noon",
    '''eq(full1<ENTimeExpressionParser>(" 12 am", "2019-04-10 10:00:00"), "2019-04-10 00:00:00", "12 am");
    eq(full1<ENTimeExpressionParser>(" 12:30 am", "2019-04-10 10:00:00"), "2019-04-10 00:30:00", "12:30 am");''')

seed('range-end-seconds', 'C16', [(E+'ENTimeExpressionParser.hpp',
    'result.endDate.setSeconds(to_second);',
    'if(!result.startDate.isCertain("sec")) result.startDate.setSeconds(0);\n                    result.endDate.setSeconds(to_second % 60 ? std::max(to_second, result.startDate.getSeconds()) : to_second);')],
    'a range of times whose end has fewer seconds than its start',
    'the seconds of the end are raised to those of the start',
    '''Result r = run<ENTimeExpressionParser>(" 10:00:05 to 10:30:20", "2019-04-10 10:00:00");
    eq(r.size() == 1 ? clock_(r[0].startDate) + " " + clock_(r[0].endDate) : "none", "10:00:05 10:30:20", "rising");
    r = run<ENTimeExpressionParser>(" 10:00:45 to 10:30:20", "2019-04-10 10:00:00");
    eq(r.size() == 1 ? clock_(r[0].startDate) + " " + clock_(r[0].endDate) : "none", "10:00:45 10:30:20", "falling");''')

seed('accept-start-only', 'C17', [('src/parsers/parsers.cpp',
    'if(/*!strictMode or */res.hasPossibleDates()) {', 'if(/*!strictMode or */res.startDate.isPossibleDate()) {')],
    'a range whose second day does not exist in the month',
    'a range that ends on a day such as 31 April is reported',
    '''eqi(run<ENMonthNameMiddleEndianParser>("april 3 to 30", "2019-04-10 10:00:00").size(), 1, "3 to 30 April");
    for (auto& r : run<ENMonthNameMiddleEndianParser>("april 3 to 31", "2019-04-10 10:00:00"))
        if (r.end()) { ++bad; std::cout << "a range to " << day(r.endDate) << " is reported\\n"; }''')

seed('lower-if-needed', 'C18', [('src/parsers/parsers.cpp',
    'text = utils::toLowerCase(text);',
    '''// most texts are in lower case already
    if(!text.empty() and !std::islower(static_cast<unsigned char>(text[0])))
        text = utils::toLowerCase(text);''')],
    'a text that starts with a lower-case letter and has upper-case ones later',
    'the words of such a text are not recognised in the tables and comparisons',
    '''eq(day1<ENHolidayParser>("Christmas", "2019-04-10 10:00:00"), "2019-12-25", "Christmas");
    eq(day1<ENHolidayParser>("cHRISTMAS", "2019-04-10 10:00:00"), "2019-12-25", "cHRISTMAS");''')

seed('time-needs-space', 'C19', [(E+'ENTimeExpressionParser.hpp',
    r'R"(O\W*CLOCK))?(?=\W|$))"', r'R"(O\W*CLOCK))?(?=\s|\)|\-|\.|$))"')],
    'a clock time followed by a comma',
    'the time is not found',
    '''eq(full1<ENTimeExpressionParser>("we meet at 5:30 pm, then", "2019-04-10 10:00:00"), "2019-04-10 17:30:00", "comma");''')

seed('skip-after-match', 'C20', [('src/parsers/parsers.cpp',
    'remainingText = text.substr(idx + match.length(0));',
    '''remainingText = text.substr(idx + match.length(0));
        if(results.size() > 1 and remainingText.size() > 8)
            remainingText = text.substr(idx + match.length(0) + 8);''')],
    'a third phrase shortly after the second one',
    'text after the second result is skipped, so a third phrase can be lost',
    '''eqi(run<ENCasualDateParser>("today or else tomorrow or perhaps yesterday", "2019-04-10 10:00:00").size(), 3, "far apart");
    eqi(run<ENCasualDateParser>("today or tomorrow or yesterday", "2019-04-10 10:00:00").size(), 3, "close");''')

seed('overlap-touching', 'C22', [(R+'OverlapRemovalRefiner.hpp',
    'if (tmpRes.getIndex() < prevResult.getIndex() + prevResult.textLength()) {',
    'if (tmpRes.getIndex() <= prevResult.getIndex() + prevResult.textLength()) {')],
    'two results that touch without overlapping',
    'the shorter of two touching results is dropped',
    '''Result in; posix_time::ptime t = at("2019-04-10 10:00:00");
    in.push_back(parse::ParsedResult(t, 0, "today")); in.push_back(parse::ParsedResult(t, 6, " at 5"));
    OverlapRemover o; eqi(o.refine(in, "today  at 5").size(), 2, "apart");
    in[1] = parse::ParsedResult(t, 5, " at 5"); eqi(o.refine(in, "today at 5").size(), 2, "touching");''')

seed('overlap-tie', 'C22', [(R+'OverlapRemovalRefiner.hpp',
    'if (tmpRes.textLength() > prevResult.textLength())', 'if (tmpRes.textLength() >= prevResult.textLength())')],
    'two overlapping results of the same length',
    'the later one displaces the earlier one',
    '''Result in; posix_time::ptime t = at("2019-04-10 10:00:00");
    in.push_back(parse::ParsedResult(t, 0, "today")); in.push_back(parse::ParsedResult(t, 2, "day a"));
    OverlapRemover o; Result out = o.refine(in, "today at 5");
    eqi(out.size(), 1, "one stays"); eqi(out[0].getIndex(), 0, "the first one");''')

seed('tz-end-from-start', 'C23', [(R+'ExtractTimeZoneAbbreviation.hpp',
    'if(res.end() and !res.endDate.isCertain("tzoffset")) {', 'if(res.end() and !res.startDate.isCertain("tzoffset")) {')],
    'a range of times followed by a zone abbreviation',
    'the end of the range keeps no offset',
    '''std::string text = "from 5:00 to 6:00 est"; Result r = run<ENTimeExpressionParser>(text, "2019-04-10 10:00:00");
    ExtractTimeZoneAbbreviation z; r = z.refine(r, text); eqi(r.size(), 1, "one");
    if (r.size() == 1) { eqi(r[0].startDate.getTimeZoneOffset(), -300, "start"); eqi(r[0].endDate.getTimeZoneOffset(), -300, "end"); }''')

seed('merge-time-first-gap', 'C24', [(R+'en/ENMergeDateAndTimeRefiner.hpp',
    'else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {',
    'else if(isDateOnly(curr) and isTimeOnly(prev) and curr.getIndex() >= prev.getIndex() + prev.textLength()) {')],
    'a time followed by a date with other words between them',
    'a time and a later unrelated date are merged',
    cli=[('5pm today', '2016-02-29 13:45:07', 'Date:\\t2016-Feb-29 17:00:00'),
         ('call at 5:30 and then write on friday', '2016-02-29 13:45:07', 'Date:\\t2016-Feb-29 05:30:00')])

seed('range-compare-days', 'C25', [(R+'en/ENMergeDateRangeRefiner.hpp',
    'if(fromResult.startDate.date() > toResult.startDate.date()) {',
    'if(fromResult.startDate.date().date() > toResult.startDate.date().date()) {')],
    'two moments of the same day, the later one named first',
    'the range runs backwards',
    '''posix_time::ptime t = at("2019-04-10 10:00:00");
    auto mk = [&](unsigned i, const char* s, int d, int h) { parse::ParsedResult p(t, i, s);
        p.startDate.setYear(2019); p.startDate.setMonth(4); p.startDate.set_mDay(d); p.startDate.setHour(h); return p; };
    ENMergeDateRange m; std::string text = "aaaaa to bbbbb";
    Result r = m.refine({mk(0, "aaaaa", 12, 5), mk(9, "bbbbb", 11, 5)}, text);
    eq(r.size() == 1 ? full(r[0].startDate) : "none", "2019-04-11 05:00:00", "days");
    r = m.refine({mk(0, "aaaaa", 12, 9), mk(9, "bbbbb", 12, 5)}, text);
    eq(r.size() == 1 ? full(r[0].startDate) : "none", "2019-04-12 05:00:00", "hours");''')

seed('imply-sec-guard', 'C26', [('src/result.cpp',
    'if (!knownValues["sec"].first) {', 'if (!knownValues["min"].first) {')],
    'a minute that was stated and seconds that are guessed after it (or the other way round)',
    'the guess of the seconds depends on the minute being known',
    '''parse::ParsedComponents c; c.implyComponent("sec", 4); eqi(c.getSeconds(), 4, "alone");
    c.setMinute(3); c.implyComponent("sec", 7); eqi(c.getSeconds(), 7, "after a stated minute");''')

seed('assign-stale-end', 'C27', [('src/result.cpp',
    '    __end     = pr.end();\n', '    if(pr.end()) __end = true;\n')],
    'a result without an end assigned to one that was a range',
    'the assigned result keeps being a range',
    '''posix_time::ptime t = at("2019-04-10 10:00:00"); parse::ParsedResult a(t, 1, "a"), b(t, 2, "b");
    b.makeEndDateValid(); a = b; eqi(a.end(), 1, "range"); b = parse::ParsedResult(t, 3, "c"); eqi(b.end(), 0, "no range");''')

seed('todate-end-seconds', 'C28', [('src/result.cpp',
    'date_end.tm_sec  = endDate.getSeconds();', 'date_end.tm_sec  = startDate.getSeconds();')],
    'a range whose ends differ in their seconds',
    'the end is printed with the seconds of the start',
    '''posix_time::ptime t = at("2019-04-10 10:00:00"); parse::ParsedResult a(t, 1, "a");
    for (auto* c : {&a.startDate, &a.endDate}) { c->setYear(2019); c->setMonth(4); c->set_mDay(3); c->setHour(5); c->setMinute(6); }
    a.endDate.setHour(7); a.endDate.setSeconds(9); a.makeEndDateValid();
    eq(a.toDate(), "2019-Apr-03 05:06:00 - 2019-Apr-03 07:06:09", "text");''')

seed('refiners-order', 'C29', [('time.cpp',
    'refiners {olr, tza, mdt, mdr};', 'refiners {olr, tza, mdr, mdt};')],
    'two dates with times of their own joined as a range',
    'the range is built before dates and times are combined',
    cli=[('tomorrow at 3:15 pm', '2016-02-29 13:45:07', 'Date:\\t2016-Mar-01 15:15:00'),
         ('march 3 at 10:00 to march 5 at 17:00', '2016-02-29 13:45:07', 'Date:\\t2016-Mar-03 10:00:00 - 2016-Mar-05 17:00:00')])

seed('reject-rescan', 'C30', [('src/parsers/parsers.cpp',
    '''        else {
            remainingText = text.substr(match.position(0) + 1);
        }

        // set remaining text to string immediately following the matched string
        remainingText = text.substr(idx + match.length(0));
''',
    '''        // set remaining text to string immediately following the matched string
        remainingText = text.substr(idx + match.length(0));
        if(!results.empty() and !res.hasPossibleDates()) {
            // look again right after the start of the rejected match
            remainingText = text.substr(match.position(0) + 1);
        }
''')],
    'a rejected match after an accepted one in the same text',
    'the position of the rejected match is relative to the remaining text, so the scan goes back and never ends',
    '''alarm(10); eqi(run<ENISOFormatParser>("2012-13-10", "2019-04-10 10:00:00").size(), 0, "rejected");
    eqi(run<ENISOFormatParser>("2012-10-10 and 2012-13-10", "2019-04-10 10:00:00").size(), 1, "accepted and rejected");''')

seed('static-fragments', 'C31', [('src/utils/utils.cpp',
    '    std::map<std::string, float> fragments;// = {};',
    '    static std::map<std::string, float> fragments;// = {};\n    if(fragments.size() > 2) fragments.clear();')],
    "two phrases such as '2 days ago' and '3 hours ago' parsed one after the other",
    'units of an earlier phrase are added to a later one',
    '''eq(full1<ENTimeAgoFormatParser>("2 days ago", "2019-04-10 10:00:00"), "2019-04-08 00:00:00", "first");
    eq(full1<ENTimeAgoFormatParser>("3 hours ago", "2019-04-10 10:00:00"), "2019-04-10 07:00:00", "second");''')

# ---- second batch ---------------------------------------------------------------------------------------------------
seed('week-end-month', 'C05', [(E+'ENRelativeDateFormatParser.hpp',
    'result.endDate.implyComponent("month", last_dow.month());', 'result.endDate.implyComponent("month", first_dow.month());')],
    'a week that spans two months', 'the Saturday of the week is reported in the month of its Sunday',
    '''Result r = run<ENRelativeDateFormatParser>("this week", "2024-02-14 10:00:00");
    eq(r.size() == 1 ? day(r[0].endDate) : "none", "2024-02-17", "within a month");
    r = run<ENRelativeDateFormatParser>("this week", "2024-05-29 10:00:00");
    eq(r.size() == 1 ? day(r[0].endDate) : "none", "2024-06-01", "across months");''')

seed('casual-year-of-ref', 'C07', [(E+'ENCasualDateParser.hpp',
    'result.startDate.setYear(tmp.date().year());', 'result.startDate.setYear(ref.date().year());')],
    "'tomorrow' on 31 December, 'yesterday' or 'last night' on 1 January", 'the year stays that of the reference',
    '''eq(day1<ENCasualDateParser>("tomorrow", "2017-05-31 10:00:00"), "2017-06-01", "turn of the month");
    eq(day1<ENCasualDateParser>("tomorrow", "2017-12-31 10:00:00"), "2018-01-01", "turn of the year");
    eq(day1<ENCasualDateParser>("yesterday", "2018-01-01 10:00:00"), "2017-12-31", "back");''')

seed('iso-offset-twelve', 'C10', [(E+'ENISOFormatParser.hpp',
    'int offset = hourOffset * 60;', 'int offset = hourOffset % 12 * 60;')],
    'an offset of 12 hours or more', 'an offset of +12:00, +13:00 or +14:00 loses 12 hours',
    '''Result r = run<ENISOFormatParser>("2012-08-10t12:51:14+05:30", "2017-05-10 10:00:00");
    eqi(r.size() == 1 ? r[0].startDate.getTimeZoneOffset() : 9999, 330, "+05:30");
    r = run<ENISOFormatParser>("2012-08-10t12:51:14+13:00", "2017-05-10 10:00:00");
    eqi(r.size() == 1 ? r[0].startDate.getTimeZoneOffset() : 9999, 780, "+13:00");''')

seed('ordinal-hyphen', 'C12', [('src/utils/utils.cpp',
    'std::string value{std::regex_replace(arg, std::regex("-"), " ")};', 'std::string value{std::regex_replace(arg, std::regex("\\\\s*-"), "")};')],
    'an ordinal word written with a hyphen', "'june twenty-first' is not understood",
    '''eq(day1<ENMonthNameMiddleEndianParser>("june twenty first, 2013", "2017-01-10 10:00:00"), "2013-06-21", "space");
    eq(day1<ENMonthNameMiddleEndianParser>("june twenty-first, 2013", "2017-01-10 10:00:00"), "2013-06-21", "hyphen");''')

seed('ordinal-table', 'C12', [('src/utils/utils.hpp',
    '{"thirty first",   31}', '{"thirty first",   30}')],
    "the ordinal 'thirty first'", "'july thirty first' is 30 July",
    '''eq(day1<ENMonthNameMiddleEndianParser>("july thirty first, 2013", "2017-01-10 10:00:00"), "2013-07-31", "thirty first");''')

seed('memorial-fourth', 'C14', [(E+'ENUSHolidaysParser.hpp',
    'utils::ldow lastMondayInMay(gregorian::Monday, gregorian::May);', 'utils::ndow lastMondayInMay(utils::ndow::fourth, gregorian::Monday, gregorian::May);')],
    'a year whose May has five Mondays', 'Memorial day falls a week early',
    '''eq(day1<ENHolidayParser>("memorial day", "2019-04-10 10:00:00"), "2019-05-27", "four Mondays");
    eq(day1<ENHolidayParser>("memorial day", "2021-04-10 10:00:00"), "2021-05-31", "five Mondays");''')

seed('iso-needs-space', 'C19', [(E+'ENISOFormatParser.hpp',
    '''                    R"((\\b))", std::regex::icase};''', '''                    R"((\\s|$))", std::regex::icase};''')],
    'an ISO date followed by a comma or full stop', 'the date is not found',
    '''eq(day1<ENISOFormatParser>("on 2012-08-10 we", "2019-04-10 10:00:00"), "2012-08-10", "space");
    eq(day1<ENISOFormatParser>("on 2012-08-10, we", "2019-04-10 10:00:00"), "2012-08-10", "comma");''')

seed('dedupe-same-date', 'C20', [('src/parsers/parsers.cpp',
    'if(/*!strictMode or */res.hasPossibleDates()) {',
    'if(/*!strictMode or */res.hasPossibleDates() and\n           (results.empty() or results.back().startDate.date() != res.startDate.date())) {')],
    'two phrases in a row that mean the same moment', 'the second one is not reported',
    '''eqi(run<ENCasualDateParser>("today and then tomorrow", "2019-04-10 10:00:00").size(), 2, "different");
    eqi(run<ENCasualDateParser>("tomorrow, I mean tomorrow", "2019-04-10 10:00:00").size(), 2, "same");''')

seed('tz-marquesas', 'C23', [('src/utils/utils.hpp', '{"NFT",   690}', '{"NFT",   630}')],
    'the zone NFT', 'its offset is an hour short',
    '''std::string text = "at 5:00 nft"; Result r = run<ENTimeExpressionParser>(text, "2019-04-10 10:00:00");
    ExtractTimeZoneAbbreviation z; r = z.refine(r, text); eqi(r.size() == 1 ? r[0].startDate.getTimeZoneOffset() : 9999, 690, "NFT");''')

seed('merge-seconds-guess', 'C24', [(R+'en/ENMergeDateAndTimeRefiner.hpp',
    '''                dateTimeComp.setSeconds(timeComp.getSeconds());''', '''                dateTimeComp.implyComponent("sec", timeComp.getSeconds());''')],
    'a date whose time gives the seconds', 'the stated seconds become a guess',
    '''std::string text = "today 5:06:07"; Result a = run<ENCasualDateParser>(text, "2019-04-10 10:00:00"), b = run<ENTimeExpressionParser>(text, "2019-04-10 10:00:00");
    a.insert(a.end(), b.begin(), b.end()); ENMergeDateAndTime m; a = m.refine(a, text); eqi(a.size(), 1, "merged");
    if (a.size() == 1) { eq(full(a[0].startDate), "2019-04-10 05:06:07", "moment"); eqi(a[0].startDate.isCertain("sec"), 1, "seconds certain"); }''')

seed('merge-midnight-hours', 'C24', [(R+'en/ENMergeDateAndTimeRefiner.hpp',
    'if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {', 'if(!dateResult.end() and endDateTime.getHour() < startDateTime.getHour()) {')],
    'a time range that ends the next day within the same clock hour as it starts', 'the range ends before it starts',
    cli=[('tomorrow 5pm - 1am', '2016-02-29 13:45:07', 'Date:\\t2016-Mar-01 17:00:00 - 2016-Mar-02 01:00:00'),
         ('tomorrow 17:30 - 17:15', '2016-02-29 13:45:07', 'Date:\\t2016-Mar-01 17:30:00 - 2016-Mar-02 17:15:00')])

seed('range-span-swapped', 'C25', [(R+'en/ENMergeDateRangeRefiner.hpp',
    '''    size_t endIndex   = std::max(fromResult.getIndex() + fromResult.textLength(),
                                   toResult.getIndex() + toResult.textLength());''',
    '''    size_t endIndex   = toResult.getIndex() + toResult.textLength();''')],
    'a range whose later moment is named first', 'the reported span ends with the first of the two phrases',
    '''posix_time::ptime t = at("2019-04-10 10:00:00");
    auto mk = [&](unsigned i, const char* s, int d) { parse::ParsedResult p(t, i, s);
        p.startDate.setYear(2019); p.startDate.setMonth(4); p.startDate.set_mDay(d); return p; };
    ENMergeDateRange m; std::string text = "aaaaa to bbbbb";
    Result r = m.refine({mk(0, "aaaaa", 12), mk(9, "bbbbb", 13)}, text); eqi(r.size() == 1 ? r[0].textLength() : 0, 14, "in order");
    r = m.refine({mk(0, "aaaaa", 12), mk(9, "bbbbb", 11)}, text); eqi(r.size() == 1 ? r[0].textLength() : 0, 14, "swapped");''')

seed('wday-clears-mday', 'C26', [('src/result.cpp',
    '''    impliedValues["wday"].first  = false;
    impliedValues["wday"].second = 0;''', '''    impliedValues["wday"].first  = false;
    impliedValues["mday"].second = 0;''')],
    'a weekday stated after the day of the month was guessed', 'the guessed day of the month becomes 0',
    '''parse::ParsedComponents c; c.implyComponent("mday", 4); eqi(c.get_mDay(), 4, "guess"); c.set_wDay(3); eqi(c.get_mDay(), 4, "guess after a stated weekday");''')

seed('todate-end-year', 'C28', [('src/result.cpp',
    'date_end.tm_year = endDate.getYear() - 1900;', 'date_end.tm_year = startDate.getYear() - 1900;')],
    'a range that ends in another year', 'the end is printed in the year of the start',
    '''posix_time::ptime t = at("2019-04-10 10:00:00"); parse::ParsedResult a(t, 1, "a");
    for (auto* c : {&a.startDate, &a.endDate}) { c->setYear(2019); c->setMonth(12); c->set_mDay(30); c->setHour(5); c->setMinute(6); }
    a.endDate.setYear(2020); a.endDate.setMonth(1); a.makeEndDateValid();
    eq(a.toDate(), "2019-Dec-30 05:06:00 - 2020-Jan-30 05:06:00", "text");''')

seed('week-word-length', 'C06', [(E+'ENWeekExperessionParser.hpp', r'(\w{3,9})', r'(\w{3,5})')],
    "the counts 'eleven' and 'twelve'", "'last eleven weeks' is not understood",
    '''eq(day1<ENWeekExpressionParser>("last three weeks", "2017-05-10 10:00:00"), "2017-04-19", "three");
    eq(day1<ENWeekExpressionParser>("last twelve weeks", "2017-05-10 10:00:00"), "2017-02-15", "twelve");''')

seed('ago-seconds', 'C02', [(E+'ENTimeAgoFormatParser.hpp',
    'if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {', 'if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] >= 60) {')],
    'less than 60 seconds ago, with no other unit', 'the time of day is lost',
    '''eq(full1<ENTimeAgoFormatParser>("90 seconds ago", "2019-04-10 10:00:00"), "2019-04-10 09:58:30", "90 seconds");
    eq(full1<ENTimeAgoFormatParser>("30 seconds ago", "2019-04-10 10:00:00"), "2019-04-10 09:59:30", "30 seconds");''')

seed('advance-by-result', 'C30', [('src/parsers/parsers.cpp',
    'remainingText = text.substr(idx + match.length(0));', 'remainingText = text.substr(idx + res.textLength());')],
    'a phrase that is rejected by an exception, such as 30 February without a year', 'the scan does not move on and never ends',
    '''alarm(10); eqi(run<ENMonthNameMiddleEndianParser>("feb 20", "2019-04-10 10:00:00").size(), 1, "20 February");
    eqi(run<ENMonthNameMiddleEndianParser>("feb 30", "2019-04-10 10:00:00").size(), 0, "30 February");''')

seed('exit-status', 'C29', [('time.cpp',
    '''        cout << "Date:\\t"  << results.at(0).toDate() << endl;

    return 0;''', '''        cout << "Date:\\t"  << results.at(0).toDate() << endl;

    return results.empty();''')],
    'a text without any date', 'the program exits with status 1',
    '''return 1;''')
SEEDS[-1].pop('demo'); SEEDS[-1]['cli'] = [('qqq', '2016-02-29 13:45:07', '[???] -- Invalid date')]
SEEDS[-1]['clistatus'] = True

seed('marks-of-holidays', 'C21', [('src/utils/utils.hpp',
    'ENUSHolidaysParser, ENRelativeDateFormatParser,\n\n                                        ENMergeDateRangeRefiner', 'ENRelativeDateFormatParser,\n\n                                        ENMergeDateRangeRefiner')],
    'a range whose later end is a holiday',
    'the merged result does not carry the mark of the holiday parser',
    '''std::string text = "yesterday to christmas"; const char* ref = "2019-04-10 10:00:00";
    Result a = run<ENCasualDateParser>(text, ref), b = run<ENHolidayParser>(text, ref); eqi(a.size() == 1 && b.size() == 1, 1, "both found");
    ENMergeDateRange m; Result r = m.refine({a[0], b[0]}, text); eqi(r.size(), 1, "one range");
    if (r.size() == 1) { eqi(r[0].getTag(utils::ENCasualDateParser), 1, "mark of the first"); eqi(r[0].getTag(utils::ENUSHolidaysParser), 1, "mark of the second"); eqi(r[0].getTag(utils::ENMergeDateRangeRefiner), 1, "mark of the refiner"); }''')

seed('this-unmarked', 'C21', [(E+'ENRelativeDateFormatParser.hpp',
    '''                result.setTag(utils::ENRelativeDateFormatParser);

                if(std::regex_search(match.str(RELATIVE_WORD_GROUP), dwmy)) {
                    // this week
                    if(match.str(RELATIVE_WORD_GROUP).find("week") != std::string::npos) {''',
    '''                if(std::regex_search(match.str(RELATIVE_WORD_GROUP), dwmy)) {
                    // this week
                    if(match.str(RELATIVE_WORD_GROUP).find("week") != std::string::npos) {
                        result.setTag(utils::ENRelativeDateFormatParser);''')],
    "'this month' or 'this year'",
    'only results of this week are marked with their parser',
    '''Result r = run<ENRelativeDateFormatParser>("this week", "2019-04-10 10:00:00"); eqi(r.size() == 1 && r[0].getTag(utils::ENRelativeDateFormatParser), 1, "week");
    r = run<ENRelativeDateFormatParser>("this month", "2019-04-10 10:00:00"); eqi(r.size() == 1 && r[0].getTag(utils::ENRelativeDateFormatParser), 1, "month");''')

seed('moment-guessed-second', 'C32', [('src/result.cpp',
    'temp.tm_sec  = getSeconds();\n    // todo', 'temp.tm_sec  = isCertain("min") ? getSeconds() : 0;\n    // todo')],
    'a moment with a guessed minute and a second',
    'the point in time of a guessed moment drops its seconds',
    '''parse::ParsedComponents c; c.setYear(2019); c.setMonth(4); c.set_mDay(10); c.setHour(5); c.setMinute(6); c.setSeconds(7);
    eq(posix_time::to_simple_string(c.date()), "2019-Apr-10 05:06:07", "stated");
    parse::ParsedComponents g; g.setYear(2019); g.setMonth(4); g.set_mDay(10); g.implyComponent("hour", 5); g.implyComponent("min", 6); g.implyComponent("sec", 7);
    eq(posix_time::to_simple_string(g.date()), "2019-Apr-10 05:06:07", "guessed");''')

seed('possible-zero-day', 'C32', [('src/result.cpp',
    '''       startDate.get_mDay()   == 0 and// startDate.get_wDay()   == 0 and
       startDate.getHour()    == 0 and startDate.getMinute()  == 0 and
       startDate.getSeconds() == 0 and end() == false)
        return false;
''', '''       startDate.get_mDay()   == 0 and// startDate.get_wDay()   == 0 and
       startDate.getHour()    == 0 and startDate.getMinute()  == 0 and
       startDate.getSeconds() == 0 and end() == false)
        return false;
    // a range is only as good as its end
    if(end() and endDate.getYear() == startDate.getYear() and endDate.getMonth() == startDate.getMonth())
        return endDate.isPossibleDate();
''')],
    'a range within one month whose start does not exist but whose end does',
    'a range with an impossible start counts as possible',
    '''posix_time::ptime t = at("2019-04-10 10:00:00"); auto mk = [&](int d, int e) { parse::ParsedResult p(t, 1, "x");
        p.startDate.setYear(2019); p.startDate.setMonth(4); p.startDate.set_mDay(d); p.endDate.setYear(2019); p.endDate.setMonth(4); p.endDate.set_mDay(e); p.makeEndDateValid(); return p; };
    eqi(mk(3, 5).hasPossibleDates(), 1, "3 to 5"); eqi(mk(3, 31).hasPossibleDates(), 0, "3 to 31"); eqi(mk(0, 5).hasPossibleDates(), 0, "0 to 5");''')

seed('tz-stop-at-date', 'C23', [(R+'ExtractTimeZoneAbbreviation.hpp',
    '            else {\n                continue;', '            else {\n                break;')],
    'a date before the time with the zone',
    'zones are only looked for up to the first result that is no clock time',
    cli=[('3pm EST', '2016-02-29 13:45:07', 'Date:\\t2016-Feb-29 20:00:00'),
         ('tomorrow 3pm EST', '2016-02-29 13:45:07', 'Date:\\t2016-Mar-01 20:00:00')])

seed('merge-repeat-date', 'C24', [(R+'en/ENMergeDateAndTimeRefiner.hpp',
    '''            merged_result.push_back(prev);
        }
        if(!curr.isEmpty()) {''', '''            merged_result.push_back(prev);
            if(prev.getTag(utils::ENMergeDateAndTimeRefiner)) {
                break; // combined
            }
        }
        if(!curr.isEmpty()) {''')],
    'a date with a time and two more results after them',
    'results after the first combined one, but for the next, are lost',
    '''std::string text = "today 5pm, tomorrow 6pm"; const char* ref = "2019-04-10 10:00:00";
    Result d = run<ENCasualDateParser>(text, ref), t = run<ENTimeExpressionParser>(text, ref); eqi(d.size() == 2 && t.size() == 2, 1, "all found");
    ENMergeDateAndTime m; Result r = m.refine({d[0], t[0]}, text); eq(r.size() == 1 ? full(r[0].startDate) : "none", "2019-04-10 17:00:00", "one pair");
    r = m.refine({d[0], t[0], d[1], t[1]}, text); eqi(r.size(), 2, "two pairs"); if (r.size() == 2) eq(full(r[1].startDate), "2019-04-11 18:00:00", "the second pair");''')

seed('range-of-range', 'C25', [(R+'en/ENMergeDateRangeRefiner.hpp',
    'if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {', 'if(!prev.end() and isAbleToMerge(t, prev, curr)) {')],
    "a moment joined by 'and' or 'to' with a range",
    'the range is swallowed and its end lost',
    '''posix_time::ptime t = at("2019-04-10 10:00:00");
    auto mk = [&](unsigned i, const char* s, int d, int e) { parse::ParsedResult p(t, i, s);
        p.startDate.setYear(2019); p.startDate.setMonth(4); p.startDate.set_mDay(d); if(e) { p.endDate.setYear(2019); p.endDate.setMonth(4); p.endDate.set_mDay(e); p.makeEndDateValid(); } return p; };
    ENMergeDateRange m; std::string text = "aaaaa and bbbbb"; Result r = m.refine({mk(0, "aaaaa", 2, 0), mk(10, "bbbbb", 5, 0)}, text); eqi(r.size(), 1, "two days");
    r = m.refine({mk(0, "aaaaa", 2, 0), mk(10, "bbbbb", 5, 8)}, text); eqi(r.size(), 2, "a day and a range");''')

seed('next-weekday-guess', 'C33', [(E+'ENDayOfTheWeekParser.hpp',
    '''                else {
                    resOffset = tmp;
                }
                start_fixed = true;

            }''', '''                else {
                    resOffset = tmp;
                }
                start_fixed = tmp != resOffset;

            }''')],
    "'next' and the weekday of the reference",
    'the date of next week is a guess when the weekday is that of the reference',
    '''Result r = run<ENDayOfWeekParser>("next friday", "2019-04-10 10:00:00"); eqi(r.size() == 1 && r[0].startDate.isCertain("mday"), 1, "friday");
    r = run<ENDayOfWeekParser>("next wednesday", "2019-04-10 10:00:00"); eqi(r.size() == 1 && r[0].startDate.isCertain("mday"), 1, "wednesday");''')

seed('ago-weeks-guess', 'C33', [(E+'ENTimeAgoFormatParser.hpp',
    'fragments["year"] > 0 or fragments["week"] > 0) {', 'fragments["year"] > 0 or fragments["week"] > 1) {')],
    'exactly one week ago',
    'the date of one week ago is a guess, and the wrong one',
    '''Result r = run<ENTimeAgoFormatParser>("2 weeks ago", "2019-04-10 10:00:00"); eqi(r.size() == 1 && r[0].startDate.isCertain("mday"), 1, "two weeks");
    r = run<ENTimeAgoFormatParser>("1 week ago", "2019-04-10 10:00:00"); eqi(r.size() == 1 && r[0].startDate.isCertain("mday"), 1, "one week");''')

seed('iso-half-hour-west', 'C10', [(E+'ENISOFormatParser.hpp',
    "if(match.str(TZD_HOUR_OFFSET_GROUP)[0] == '-') {", 'if(hourOffset < 0) {')],
    'an offset of less than an hour west',
    "'-00:30' is taken for half an hour east",
    '''Result r = run<ENISOFormatParser>("2019-04-10t10:00:00-01:30", "2019-04-10 10:00:00"); eqi(r.size() == 1 ? r[0].startDate.getTimeZoneOffset() : 1, -90, "-01:30");
    r = run<ENISOFormatParser>("2019-04-10t10:00:00-00:30", "2019-04-10 10:00:00"); eqi(r.size() == 1 ? r[0].startDate.getTimeZoneOffset() : 1, -30, "-00:30");''')

seed('blackfriday-fourth', 'C14', [(E+'ENUSHolidaysParser.hpp',
    '''                utils::ndow fourthThurInNov(utils::ndow::fourth, gregorian::Thursday, gregorian::Nov);
                gregorian::date thanksgiving = fourthThurInNov.get_date(ref.date().year());
                day = thanksgiving + gregorian::days(1);''', '''                utils::ndow fourthFriInNov(utils::ndow::fourth, gregorian::Friday, gregorian::Nov);
                day = fourthFriInNov.get_date(ref.date().year());''')],
    'a year in which November begins on a Friday',
    'black friday falls a week before the day after thanksgiving',
    '''eq(day1<ENHolidayParser>("black friday", "2018-05-01 10:00:00"), "2018-11-23", "2018"); eq(day1<ENHolidayParser>("black friday", "2019-05-01 10:00:00"), "2019-11-29", "2019");''')

seed('range-from-midnight', 'C16', [(E+'ENTimeExpressionParser.hpp',
    'if(hour > 0 and hour < 12) {', 'if(hour < 12) {')],
    'a range that starts in the first hour of the day and ends with pm',
    'it starts after noon instead',
    '''eq(full1<ENTimeExpressionParser>("1:30 - 2:00 pm", "2019-04-10 10:00:00"), "2019-04-10 13:30:00", "1:30"); eq(full1<ENTimeExpressionParser>("0:30 - 2:00 pm", "2019-04-10 10:00:00"), "2019-04-10 00:30:00", "0:30");''')

seed('past-days', 'C04', [(E+'ENRelativeDateFormatParser.hpp',
    '''                        else{
                            tmpDate -= gregorian::days(static_cast<int>(num));''', '''                        else if(!match.str(MODIFIER_WORD_GROUP).compare("last")) {
                            tmpDate -= gregorian::days(static_cast<int>(num));''')],
    "'past N days'",
    'past days are not counted back',
    '''eq(day1<ENRelativeDateFormatParser>("last 3 days", "2019-04-10 10:00:00"), "2019-04-07", "last"); eq(day1<ENRelativeDateFormatParser>("past 3 days", "2019-04-10 10:00:00"), "2019-04-07", "past");''')

seed('copy-iso-mark', 'C27', [('src/result.cpp',
    '''    tags      = pr.tags;
    startDate = pr.startDate;
    __end     = false;''', '''    for(auto& mod : utils::ModList) {
        if(pr.tags.count(mod) > 0) tags[mod] = true;
    }
    startDate = pr.startDate;
    __end     = false;''')],
    'a result whose marks were asked for before it was copied',
    'asking for a mark sets it on later copies',
    '''posix_time::ptime t = at("2019-04-10 10:00:00"); parse::ParsedResult a(t, 1, "a"); a.setTag(utils::ENISOFormatParser); parse::ParsedResult b(a); eqi(b.getTag(utils::ENISOFormatParser), 1, "kept");
    eqi(a.getTag(utils::ENTimeExpressionParser), 0, "not set"); parse::ParsedResult c(a); eqi(c.getTag(utils::ENTimeExpressionParser), 0, "not set on the copy");''')

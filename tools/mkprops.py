#!/usr/bin/env python3
# writes properties.jsonl (the statements are kept here so that they stay in one readable place)
import json
P = []
EN = 'src/parsers/en/'
UTIL = ['src/utils/utils.hpp', 'src/utils/utils.cpp']
def p(i, title, st, text, why, files, mech, obs, over=('inputs',)):
    assert len(title) <= 80, title
    P.append({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
      'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs, 'hook_needed': None}})
REF = 'every second of 1890..2199 as reference'
START = ['ParsedResult.startDate']
BOTH = ['ParsedResult.startDate', 'ParsedResult.endDate']
p('C01', "'in/within N units' is the reference moment plus N units",
  "For every reference moment and every phrase 'in N unit' or 'within N unit' (N in digits, a number word, a/an = 1, 'a few' = 3, or a half; unit from seconds to years in any accepted spelling) the parser returns exactly one result spanning the phrase, whose start is the reference moment plus that duration. Days, weeks, months and years give exactly that calendar date (weeks are 7 days; months and years keep the day of the month, falling back to the last day of a shorter month), while seconds, minutes and hours give the exact second, carrying across midnight, months and years. Half of a unit means 30 minutes, 30 seconds, 12 hours, 3 days, 15 days or 6 months (of an hour, minute, day, week, month, year).",
  REF + ', every accepted quantity word, every number of up to 3 digits (4 in the thorough tier), every accepted unit spelling',
  'The tests sample about ten phrase/reference pairs; month-end, leap-year, midnight and year carries are decided for every reference second and every count only by a solver.',
  [EN + 'ENDeadlineFormatParser.hpp', 'src/parsers/parsers.cpp'], [('ENDeadlineFormatParser', EN + 'ENDeadlineFormatParser.hpp'), ('Parser::execute', 'src/parsers/parsers.cpp')], START)
AWAY = " with one unit (N a number of up to 7 digits that stays within the calendar, a number word, a/an = 1, 'a few' = 3, or a half; hours, minutes and seconds from 1 up) the result is one moment spanning the phrase: days, weeks, months and years %s give that calendar date, and hours, minutes and seconds the exact second, carrying across midnight, months and years."
p('C02', "'N units ago/before/earlier' is the reference moment minus N units",
  "For every reference moment and every phrase 'N unit ago' (or before, or earlier)" + AWAY % 'back' + " Months and years keep the day of the month or fall back to the last day of a shorter one, and a half means 30 minutes, 30 seconds, 12 hours, 3 days, 15 days or 6 months. Two or three units in a row (such as weeks and days, days and hours, hours, minutes and seconds) add up.",
  REF + ', every quantity and unit spelling, combinations of 2 or 3 units with counts of 1..2 digits, words and halves',
  'The tests use a handful of fixed references; carries over midnight, month ends and leap years and the sum of several units need every reference second and every count.',
  [EN + 'ENTimeAgoFormatParser.hpp'] + UTIL, [('ENTimeAgoFormatParser', EN + 'ENTimeAgoFormatParser.hpp'), ('collecting number and unit pairs', 'src/utils/utils.cpp')], START)
p('C03', "'N units later/after/from now' is the reference moment plus N units",
  "For every reference moment and every phrase 'N unit later' (or after, from now, henceforth, forward, out)" + AWAY % 'ahead' + " Months and years keep the day of the month or fall back to the last day of a shorter one, and a half means 30 minutes, 30 seconds, 12 hours, 3 days, 15 days or 6 months. Two or three units in a row (such as weeks and days, days and hours, hours, minutes and seconds) add up.",
  REF + ', every quantity and unit spelling, combinations of 2 or 3 units with counts of 1..2 digits, words and halves',
  'The tests use a handful of fixed references; carries over midnight, month ends and leap years and the sum of several units need every reference second and every count.',
  [EN + 'ENTimeLaterParser.hpp'] + UTIL, [('ENTimeLaterParser', EN + 'ENTimeLaterParser.hpp'), ('collecting number and unit pairs', 'src/utils/utils.cpp')], START)
p('C04', "'next/last/past N units' moves the reference by N whole units",
  "For every reference moment, 'next N unit' lies N units ahead of it and 'last N unit' or 'past N unit' N units back (no number means one, 'few' means three; any unit from seconds to years). Days, weeks, months and years give that calendar date, seconds, minutes and hours the exact second, carrying across midnight, months and years. Half a unit is understood as 30 seconds, 30 minutes, 12 hours, 3 days, 15 days or 6 months.",
  REF + ', every count of up to 3 digits (thorough 4), number word, few, half; every unit spelling',
  'The tests check a few combinations for one reference moment.', [EN + 'ENRelativeDateFormatParser.hpp'], [('ENRelativeDateFormatParser', EN + 'ENRelativeDateFormatParser.hpp')], START)
p('C05', "'this week/month/year' is the whole week, month or year of the reference",
  "For every reference date, 'this week' is the range from its Sunday to its Saturday, 'this month' the range from the first to the last day of its month, and 'this year' the range from 1 January to 31 December of its year. Neither end has a time of day.",
  REF + ' (thorough: 1800..2199)', 'Month lengths and leap years are sampled by one test date; weeks crossing a month or year end are not tested.', [EN + 'ENRelativeDateFormatParser.hpp'], [('ENRelativeDateFormatParser', EN + 'ENRelativeDateFormatParser.hpp')], BOTH)
p('C06', "'last/next N weeks' lies exactly 7N days from the reference date",
  "For every reference date, 'next N weeks' is the date 7N days later and 'last N weeks' the date 7N days earlier (no number means one, 'few' three, number words count), without a time of day, and 'this week' is the reference date itself. A word in place of the number that is no quantity gives no result.",
  REF + ', counts of up to 3 digits (thorough 4), number words, any other word of 3..4 letters (thorough 5)', 'The tests use three phrases for one reference.', [EN + 'ENWeekExperessionParser.hpp'], [('ENWeekExpressionParser', EN + 'ENWeekExperessionParser.hpp')], START)
p('C07', "now, today, tonight, tomorrow, yesterday and last night mean the right day",
  "For every reference moment: now is that second; today and tonight (22:00) are its date; yesterday is the day before, at the same hour; tomorrow is the day after (the same day during the hour after midnight); last night is the day before (the same day up to 6:59). The date is stated with certainty, the time only for now, and the result spans the word.",
  REF + ' (thorough: 1800..2199)', 'Month, year and leap-day boundaries and the cut-off hours are reached by no test.', [EN + 'ENCasualDateParser.hpp'], [('ENCasualDateParser', EN + 'ENCasualDateParser.hpp')], START)
p('C08', 'parts of the day (morning, noon, ...) are guesses at a fixed hour',
  "For every reference moment, morning, noon, afternoon, evening and night (with or without 'this') give the reference date (and its weekday) at hour 6, 12, 15, 20 and 20. Nothing in such a result is certain, so that any stated date or time wins over it.",
  REF + ' (thorough: 1800..2199)', 'The tests look at single words for one reference moment and at no certainty flags.', [EN + 'ENCasualTimeParser.hpp'], [('ENCasualTimeParser', EN + 'ENCasualTimeParser.hpp')], START)
p('C09', 'a weekday name means that day in the right Sunday-to-Saturday week',
  "For every reference date, a weekday name alone or with 'this' (or early, earlier, late) is that day of the reference's Sunday-to-Saturday week; with 'last' the day of the week before, with 'next' of the week after, whether the word stands before or after (as in 'friday next week'). 'early' or 'earlier' in front means 6:01 and 'late' 20:01.",
  REF + ' (thorough: 1800..2199), all 15 spellings of the weekdays', 'The tests fix one reference weekday for each phrase; all pairs of weekdays across month and year ends are not covered.', [EN + 'ENDayOfTheWeekParser.hpp', 'src/utils/utils.hpp'], [('ENDayOfWeekParser', EN + 'ENDayOfTheWeekParser.hpp')], START)
p('C10', 'ISO 8601 texts give exactly the written date, time and offset',
  "A date YYYY-M-D with an optional time H:M[:S[.f]] after T and an optional Z, +-HH, +-HHMM or +-HH:MM gives one result with exactly these values, the offset as signed minutes (0 when there is none after a time), whatever the reference. A text that names no real calendar date from 1400 on or no real time of day gives no result.",
  'every 4-digit year and every 1..2-digit month, day, hour, minute, second and offset digit', 'The tests contain about five ISO texts; the calendar validity of every digit combination and the sign of every offset need all of them.', [EN + 'ENISOFormatParser.hpp', 'src/result.cpp'], [('ENISOFormatParser', EN + 'ENISOFormatParser.hpp'), ('rejecting impossible dates', 'src/result.cpp')], START)
p('C11', 'a month name (with a year or without) means that month, never another year',
  "A month name or abbreviation followed by a four-digit year gives the first day of exactly that month and year, with the year certain. Without a year it means the occurrence of that month closest to the reference date, and only the month is certain. A year followed by BE counts 543 less, AD counts as written, and BC years give no result.",
  REF.replace('second', 'day') + ', every month name and abbreviation, every 4-digit year with space, comma or dash before it and era after it', 'The tests use few months, one reference; the closest occurrence depends on every pair of month and reference date.', [EN + 'ENMonthNameParser.hpp', 'src/utils/utils.hpp'], [('ENMonthNameParser', EN + 'ENMonthNameParser.hpp')], START)
p('C12', 'month and day of the month give exactly that day, in the closest year',
  "A month name followed by a day (digits, digits with st/nd/rd/th, or an ordinal word) and a four-digit year gives exactly that date, optionally after a weekday name. Without a year it is the occurrence of that day closest to the reference date. A day the month does not have gives no result, and BE years count 543 less.",
  REF.replace('second', 'day') + ', every month name, every day 0..99 or ordinal word, every separator, every 4-digit year', 'The tests check some dozen texts; days past the end of the month, all ordinal words and the closest year need every combination.', [EN + 'ENMonthNameMiddleEndianParser.hpp'] + UTIL, [('ENMonthNameMiddleEndianParser', EN + 'ENMonthNameMiddleEndianParser.hpp'), ('ordinal words', 'src/utils/utils.hpp')], START)
p('C13', "'month D1 to D2' is the range of exactly these days",
  "A month name with two days joined by 'to' or a dash (digits, with suffix, or ordinal words) and an optional year is one result spanning the text, from the first to the second of these days of that month, both in the same year. When either day does not exist in that month no range is reported.",
  REF.replace('second', 'day') + ', every month name, every pair of days in digits or words with the second not before the first, optional 4-digit year', 'The tests hold two ranges.', [EN + 'ENMonthNameMiddleEndianParser.hpp'] + UTIL, [('ENMonthNameMiddleEndianParser', EN + 'ENMonthNameMiddleEndianParser.hpp')], BOTH)
p('C14', 'US holidays fall on their legal date in the year of the reference',
  "For every reference, a US holiday name (with or without 'day') gives its date in the year of the reference: Independence 4 July, New Year's 1 January (eve 31 December), Veterans 11 November, Christmas 25 December (eve 24), Martin Luther King third Monday of January, Presidents' third Monday of February, Memorial last Monday of May, Labor first Monday of September, Columbus second Monday of October, Thanksgiving fourth Thursday of November and Black Friday the day after. The result spans the name and starts at the beginning of the day.",
  'every second of 1900..2099 as reference (thorough 1800..2199), every holiday in each spelling', 'The tests check each holiday for one year; weekday rules go wrong only in some years.', [EN + 'ENUSHolidaysParser.hpp'], [('ENHolidayParser', EN + 'ENUSHolidaysParser.hpp')], START)
p('C15', 'a clock time gives exactly that time of day; impossible times give nothing',
  "A clock time (H, HH, H:MM, H:MM:SS with optional fraction, HMM or HHMM, noon, midnight; with an optional am/pm in any spelling or o'clock; alone or after at/from) gives exactly that time on the reference date, 12 am being 0:00 and 12 pm 12:00. Hour and minute are certain, the date is not, and the result spans the text. Minutes or seconds from 60, hours above 24 and hours above 12 with am or pm give no result.",
  REF + ' (thorough 1600..2399), every digit, every meridiem spelling with 0..2 spaces before it', 'The tests sample about twenty times; every digit combination with every meridiem is needed for 12-hour and validity rules.', [EN + 'ENTimeExpressionParser.hpp'], [('ENTimeExpressionParser', EN + 'ENTimeExpressionParser.hpp')], START)
p('C16', 'a range of clock times has exactly these two times as its ends',
  "Two clock times joined by 'to', a dash or a tilde, the second not before the first, give one result from the first to the second time on the reference date. A single am/pm applies to both where that is what is meant: 'pm' after the second time makes a first hour of 1 to 11 an afternoon one, and after the first time a second hour before 12. When the second time does not exist no range is reported.",
  REF.replace('second', 'day') + ', all pairs of six forms with every digit, all combinations of am, pm and none', 'The tests hold about ten ranges; the meridiem rules depend on every pair of hours.', [EN + 'ENTimeExpressionParser.hpp'], [('ENTimeExpressionParser', EN + 'ENTimeExpressionParser.hpp')], BOTH)
p('C17', 'every reported date is a real calendar date with a real time of day',
  "Whatever numbers a text holds, every result a parser reports has as its start, and as its end if it has one, a date that exists (years 1400 to 9999) and a time of day that exists. Numbers that lead to no such date give no result instead.",
  REF + ' (thorough 1800..2199), every digit of every number in 46 phrase shapes of nine parsers', 'The tests look at few impossible dates; every digit combination in every phrase shape is out of their reach.', ['src/result.cpp', 'src/parsers/parsers.cpp', 'src/parsers/en'], [('rejecting impossible dates', 'src/result.cpp'), ('Parser::execute', 'src/parsers/parsers.cpp')], BOTH)
p('C18', 'letter case makes no difference',
  "Every phrase, written in any mixture of upper and lower case, gives the same single result (same moment, same certainty of its parts, same span) as in lower case.",
  'every mixture of cases of 34 phrases covering all parsers; every second of one reference day', 'The tests are nearly all in one case; a phrase of n letters has 2^n mixtures.', ['src/parsers/parsers.cpp', 'src/utils/utils.cpp', 'src/parsers/en'], [('lower-casing', 'src/utils/utils.cpp'), ('Parser::execute', 'src/parsers/parsers.cpp')], START)
p('C19', 'a phrase means the same inside other words, and its span is reported',
  "A phrase between other words, separated from them by a space or line break, also after a comma or full stop, gives the same single moment as on its own. The reported position and length cover exactly the phrase, give or take one neighbouring separator.",
  '34 phrases of all parsers, words of 1..3 letters (thorough 5) before and after, every separator', 'The tests place phrases in a few fixed sentences.', ['src/parsers/parsers.cpp', 'src/parsers/en'], [('Parser::execute', 'src/parsers/parsers.cpp')], ['ParsedResult.getIndex', 'ParsedResult.textLength', 'ParsedResult.startDate'])
p('C20', 'several phrases in one text are each found, in order and on their own',
  "When a text holds several phrases of one kind, apart from each other by other words, the parser returns one result for each, in the order of the text and not overlapping. Each means the same moment as the phrase alone and covers exactly its phrase, give or take one separator.",
  'all ordered pairs (thorough: triples) of same-kind phrases out of 34, with every separator and words of 1..2 letters between', 'No test has more than one phrase of a kind in a text.', ['src/parsers/parsers.cpp', 'src/parsers/en'], [('Parser::execute', 'src/parsers/parsers.cpp')], ['ParsedResult.getIndex', 'ParsedResult.startDate'])
p('C21', 'a result carries the marks of who found and changed it, and no others',
  "Whatever the text, each result a parser returns carries the mark of that parser and no other (results of the week-expression parser carry none). A refiner that merges two results gives the merged one the marks of both and its own; one that attaches a time zone adds its own; results a refiner leaves alone keep exactly the marks they had.",
  '45 phrase shapes with every digit free, 34 phrases as they are and with any character in place of any letter, all pairs of marks through each refiner', 'The tests look at the mark of one or two results.', ['src/parsers/en', 'src/refiners', 'src/result.cpp'], [('setTag in each parser', 'src/parsers/en'), ('mergeTags', 'src/result.cpp')], ['ParsedResult.getTag'])
p('C22', 'of overlapping results the longer stays; no others are lost or changed',
  "Given results in order of position, the overlap filter returns a selection of them in the same order, unchanged, in which no two overlap. A result is dropped only if it overlaps a longer one, or one as long that comes first, so results that overlap nothing always stay.",
  'up to 4 results (thorough 5) with every combination of positions 0..15 and lengths 1..4', 'The tests have one or two overlaps of fixed positions.', ['src/refiners/OverlapRemovalRefiner.hpp'], [('OverlapRemover', 'src/refiners/OverlapRemovalRefiner.hpp')], ['Refiner.refine'])
p('C23', 'a time-zone abbreviation after a time sets its offset, nothing else does',
  "A known time-zone abbreviation in any case, directly after a clock time (spaces and parentheses allowed), sets the offset in minutes of that zone on the start and the end unless one was given explicitly, extends the span of the result over it and marks the result. Unknown words, and results that are not clock times, are left unchanged.",
  'all 191 abbreviations in every mixture of cases, any following character, any other word of 1..3 letters', 'The tests use two abbreviations.', ['src/refiners/ExtractTimeZoneAbbreviation.hpp', 'src/utils/utils.hpp'], [('ExtractTimeZoneAbbreviation', 'src/refiners/ExtractTimeZoneAbbreviation.hpp'), ('offset table', 'src/utils/utils.hpp')], ['Refiner.refine'])
p('C24', 'an adjacent date and time become one moment; others stay apart',
  "A date without a time and a time without a date, in either order and with nothing but space, a comma, a dash, T, at, on or of between them, become one result spanning both, with the date of the one and the time of the other and with what was certain or given (seconds, offset) kept. If either is a range the result is a range, and a time range that runs past midnight ends on the next day. With anything else between them both stay as they are, and so does every other result.",
  'every calendar date 1600..2399, every time of day, every 1..2-character connection, with and without neighbours', 'The tests merge a few fixed texts.', ['src/refiners/en/ENMergeDateAndTimeRefiner.hpp'], [('ENMergeDateAndTime', 'src/refiners/en/ENMergeDateAndTimeRefiner.hpp')], ['Refiner.refine'])
p('C25', "two moments joined by 'to', 'through', 'and' or a dash become one range",
  "Two results that are not ranges, with only to, through, and, or a dash between them, become one range spanning both, from the earlier to the later moment whichever is named first. With anything else between them, or when one is a range already, both stay as they are, and so does every other result.",
  'every pair of moments 1600..2399 to the second, every 1..2-character connection, with and without neighbours', 'The tests merge a few fixed texts.', ['src/refiners/en/ENMergeDateRangeRefiner.hpp'], [('ENMergeDateRange', 'src/refiners/en/ENMergeDateRangeRefiner.hpp')], ['Refiner.refine'])
p('C26', 'a stated component always wins over a guessed one',
  "For each component of a moment (year to second, weekday, offset) the value read is the one last stated, or the one last guessed if none was ever stated; a guess never displaces a stated value. A component is certain exactly if it has been stated, and no operation on one component affects another.",
  'every sequence of 3 (thorough 4) operations on the eight components, any values', 'No test covers sequences of operations; only a few flags are looked at.', ['src/result.cpp', 'src/result.hpp'], [('ParsedComponents', 'src/result.cpp')], ['ParsedComponents'], ('histories', 'inputs'))
p('C27', 'copies of results are complete and independent',
  "Copying or assigning a result, or holding it in a list that grows or is rearranged, keeps its position, text, start, range flag, end and marks. Changing a copy never changes the original, and an assigned result keeps nothing of what it held before.",
  'results with every component free, with or without an end, any marks; copy, assign, vector growth, swap', 'No test copies a result and compares all of it.', ['src/result.cpp', 'src/result.hpp'], [('ParsedResult copy and assignment', 'src/result.cpp')], ['ParsedResult'], ('histories', 'inputs'))
p('C28', 'the text form of a result is its moment in UTC, for both ends',
  "The text of a result is 'YYYY-Mon-DD hh:mm:ss' of its start, followed for a range by ' - ' and its end in the same form. When the offset comes from a time-zone abbreviation it is subtracted from each end, carrying across midnight, months and years; otherwise the components are printed as they are.",
  'every date 1401..9998, every second of the day, every offset from -780 to 840 minutes', 'The tests compare some fixed texts, none near a month or year end with an offset.', ['src/result.cpp'], [('toDate', 'src/result.cpp')], ['ParsedResult.toDate'])
p('C29', 'the program prints the first date found in the text, or says there is none',
  "Run with a text and a reference moment (as its usage says, or none for the present), the program prints one line with the date, or range, of the first phrase in the text: the date and time that the phrase means from that reference, with an adjacent date and time combined, dates joined as a range, and times with a zone abbreviation in UTC. Without anything to find it prints '[???] -- Invalid date', and with a wrong number of arguments its usage; it always exits with status 0.",
  'every reference second 1990..2069 given as text; durations, day words with clock times in either order, times and ranges with zones, date ranges, ISO texts, holidays, two phrases, with and without other words around', 'The tests never run the whole pipeline from argument to output.', ['time.cpp', 'src/parsers', 'src/refiners', 'src/result.cpp'], [('main', 'time.cpp')], ['standard output', 'exit status'])
p('C30', 'no text makes a parser crash, hang or throw',
  "Whatever bytes a text holds, each parser returns normally: no exception escapes, it terminates, and every result it reports lies inside the text and is a real moment.",
  'every text of 0..4 arbitrary bytes (thorough 5) for each parser, and 34 phrases with an arbitrary byte in place of each character (thorough: also inserted, and two adjacent ones)', 'The tests hold only well-formed sentences.', ['src/parsers/parsers.cpp', 'src/parsers/en', 'src/utils/utils.cpp', 'src/result.cpp'], [('Parser::execute', 'src/parsers/parsers.cpp')], ['Parser.execute'])
p('C31', 'a parser gives the same answer whatever it and the others parsed before',
  "What a parser returns for a text and reference depends on these alone: after any other text has been parsed, by the same parser object or by another one, with any reference, it returns the same moments and spans as when fresh.",
  'all ordered pairs of 34 phrases covering all parsers, the earlier one also with an arbitrary character in it and at any second of the day', 'Each test uses a parser once or a few times on related texts.', ['src/parsers/parsers.cpp', 'src/parsers/en', 'src/utils/utils.hpp'], [('Parser::execute', 'src/parsers/parsers.cpp'), ('shared word tables', 'src/utils/utils.hpp')], ['Parser.execute'], ('histories', 'inputs'))
p('C32', 'a moment counts as possible exactly if its date and time exist',
  "Components count as a possible date exactly if the calendar (years 1400 to 9999) has that year, month and day, the hour is 0 to 24 and the minute and second are 0 to 59, and a result exactly if this holds for its start and, for a range, its end; nothing is ever thrown. The point in time of possible components (hour below 24) is exactly those components, stated or guessed alike.",
  'every value -100000..100000 of each of the six components of start and end, stated, guessed or absent', 'The tests reject two or three impossible dates.', ['src/result.cpp', 'src/result.hpp'], [('isPossibleDate', 'src/result.cpp'), ('hasPossibleDates', 'src/result.cpp'), ('ParsedComponents::date', 'src/result.cpp')], ['ParsedComponents.isPossibleDate', 'ParsedResult.hasPossibleDates', 'ParsedComponents.date'])
p('C33', 'a component is certain exactly if the phrase states it',
  "Each parser marks as certain exactly the components its phrases state, for start and end. Clock times state hour and minute (and second if given) but no date; ISO texts what they hold (an offset whenever there is a time); month names the month and a given year, with a day also the day; named days the date, 'now' also the time; '... ago' and '... later' the date if they count days or more, the time if they count less; 'last' and 'next' weekdays the date; parts of the day, 'in ...', 'next ...' and other weekdays nothing; holidays date and midnight.",
  '110 forms of phrases of all parsers with every digit in them free, at every second of 1990..2069', 'The tests look at one or two certainty flags.', ['src/parsers/en', 'src/result.cpp'], [('extract of each parser', 'src/parsers/en'), ('isCertain', 'src/result.cpp')], ['ParsedComponents.isCertain'])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/../properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))

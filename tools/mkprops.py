#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

prop("C01", "Every input ends in a result or an error, never in a crash",
 "For every input text and every valid configuration, parsing a date, searching a text, and parsing a Hijri or Jalali date return either a usable result or an error. They never panic and never fail to return. A successful parse always carries a non-zero time, and a failed one never carries a time.",
 ["inputs", "configurations"], "every input string (arbitrary bytes included) and every configuration accepted by validation, through Parse, Search, ParseHijri and ParseJalali",
 "Tests only feed strings somebody thought of; out-of-range indexes, empty split results, table overruns and division by zero need the one string that reaches them.",
 ["parser.go", "search.go", "hijri-parser.go", "jalali-parser.go", "internal/parser/absolute/parser.go", "internal/parser/hijri/parser.go", "internal/language/translate-search.go", "internal/language/split.go", "internal/strutil/strutil.go"],
 [("bounds tests before every index and slice", "internal/parser/absolute/parser.go getToken, getFilteredToken; internal/language/split.go; search.go"),
  ("range tests before calendar conversion", "internal/parser/hijri/parser.go, internal/parser/jalali/parser.go")],
 ["Parse", "Search", "ParseHijri", "ParseJalali"])

prop("C02", "Unix timestamps denote exactly the instant they count",
 "A string that is a ten digit Unix timestamp, optionally followed by three millisecond digits and three more microsecond digits, parses to exactly that instant, whatever the language, date order or other configuration. A leading minus sign negates the count of seconds. The reported period is the day, or the second when time is to be returned as the period.",
 ["inputs", "configurations"], "all 10, 13 and 16 digit strings, with and without minus sign, under every configuration",
 "Tests sample a handful of timestamps; a wrong scale, sign or range test shows only for some of the 10^16 digit strings.",
 ["internal/parser/timestamp/parser.go", "parser.go"],
 [("digit group pattern and unit scaling", "internal/parser/timestamp/parser.go Parse"), ("timestamp parsers are tried first", "parser.go Parse")],
 ["Parse"])

prop("C03", "A full numeric date is read as written, in the configured order",
 "A numeric date whose day, month and four digit year are all written is read with its three numbers in the order the configuration or else the language prescribes, whichever usual separator is used, and yields exactly that calendar date at midnight with period day, independent of the current date. When the prescribed order is impossible for the written numbers, another order that makes a valid date may be used; no other date is ever returned, and a date that does not exist in the calendar is rejected, not altered. A leading four digit year is always taken as the year. (After a dash the year is at least 1401, since smaller numbers may be read as a UTC offset.)",
 ["inputs", "configurations"], "all day, month and year values 0..99/0000..9999 as digits, every separator, every date order, every current time",
 "Tests check a few dozen dates; the fallback between orders and the leap and month length rules depend on the combination of all three numbers, the order and the current date.",
 ["internal/parser/absolute/parser.go", "internal/parser/absolute/root.go", "internal/parser/tokenizer/tokenizer.go", "internal/dateutil/dateutil.go", "parser.go"],
 [("ordered component directives", "internal/parser/absolute/parser.go Init, parseDigitToken"), ("calendar correction", "internal/parser/absolute/root.go createDateTime"), ("date order validation", "parser.go validateDateOrder")],
 ["Parse"])

prop("C04", "Missing date parts are filled as the preferences say",
 "When day, month or year is not written, the missing part comes from the current time and the preferences: the preferred day of month (the current one, the first or the last, never beyond the end of the resulting month), the preferred month of year, and for a missing year next to a written month, a two digit year, a bare weekday or a bare clock time the nearest candidate on the side (past, current period, future) that the preferred date source names. For a bare weekday these are the last seven days before today, the days from six days ago to today, or the next seven days; a two digit year is taken between 1969 and 2068 and moved by centuries to the preferred side; a written clock time keeps the current day of month instead of the preferred one. Parts that are written are never changed. The reported period names the coarsest unit that was actually written: year, month or day.",
 ["inputs", "configurations"], "every current time, every preference combination, every incomplete date of the forms year, month, month and year, day and month, weekday, clock time, two digit year",
 "The outcome depends on the current date: month lengths, leap years, year and week boundaries. Tests pin a few current dates.",
 ["internal/parser/absolute/parser.go", "internal/parser/absolute/root.go", "internal/parser/common/apply-day.go", "internal/parser/common/apply-month.go", "internal/dateutil/dateutil.go"],
 [("correction for past and future", "internal/parser/absolute/parser.go correctForTimeFrame"), ("day and month preference", "internal/parser/common"), ("leap year choice", "internal/parser/absolute/parser.go getCorrectLeapYear; internal/dateutil/dateutil.go GetLeapYear")],
 ["Parse"])

prop("C05", "Relative dates lie exactly the stated amount from now",
 "A relative expression such as '2 years 3 months ago' or 'in 5 hours' denotes the current time moved by exactly the written whole amounts, backwards for 'ago' and forwards for 'in' (and for a bare amount backwards, or forwards when the future is preferred), with decades and weeks counted as ten years and seven days. A decimal fraction of a unit counts in the smaller units (twelve months, thirty days, 24 hours, 60 minutes, 60 seconds), down to whole seconds. Month and year steps keep the day of month with ordinary calendar overflow, or clamp to the end of the target month when end of month is to be preserved; a written clock time replaces the time of day. The reported period is the finest date unit written (the day when a clock time is written), and an hour, minute or second only when time is returned as the period.",
 ["inputs", "configurations"], "every count (several digits, whole or decimal) of every unit and pairs of units, both directions, every current time and preference",
 "Overflow of large counts, month-end arithmetic and unit conversions depend on count and current date together; tests use a fixed current time and small counts.",
 ["internal/parser/relative/parser.go", "parser.go"],
 [("unit extraction and conversion", "internal/parser/relative/parser.go getRelativeDurations"), ("calendar arithmetic", "internal/parser/relative/parser.go addDate, parseDate")],
 ["Parse"])

prop("C06", "A written or default time zone gives the wall clock its offset",
 "When a date carries a UTC offset or a known zone abbreviation, the result has exactly the written wall clock at exactly that offset, so its instant is the wall clock minus the offset; for relative expressions the current time is first viewed in that zone. Without a written zone the configured default zone applies with the offset in force at that wall clock, and a written zone always wins over the default. Removing the zone from the text leaves the rest of the text unchanged, apart from one separator directly after the zone.",
 ["inputs", "configurations"], "every offset sign, hour and minute, the usual spellings (+hh:mm, +hhmm, UTC+h, GMT-h, Z, abbreviations), every date and default zone with or without daylight saving",
 "Tests sample some offsets and zones; sign, minute and DST handling errors show only at particular offsets or instants.",
 ["internal/timezone/parser.go", "internal/timezone/loader.go", "internal/timezone/tz-offsets.go", "internal/timezone/timezones.go", "parser.go", "internal/parser/relative/parser.go"],
 [("zone extraction", "internal/timezone/parser.go PopTzOffset"), ("offset table", "internal/timezone/tz-offsets.go, timezones.go"), ("zone application", "parser.go applyTimezone")],
 ["Parse", "PopTzOffset"])

prop("C07", "The result depends only on the input, configuration and current time",
 "Parsing or searching the same text with the same configuration and current time always gives the same result: no dependence on map iteration order, on which calls were made before on the same parser, or on other configurations used before. Only when previously used locales are to be tried first may earlier calls matter, and then only by trying an applicable earlier locale first. The caller's configuration is never modified.",
 ["histories", "inputs", "configurations"], "every order of map iteration, every earlier call on the same parser, every input",
 "A test runs one history under one random map order; leaked state or order dependence shows only after a particular earlier call or under a particular iteration order.",
 ["parser.go", "search.go", "config.go", "internal/language/loader.go", "internal/timezone/loader.go", "internal/parser/absolute/parser.go", "internal/data"],
 [("configuration cloning", "config.go Clone, initiate; internal/setting/config.go Clone"), ("used locale cache", "parser.go saveUsedLocale, checkPreviousLocales"), ("ordered tables", "internal/timezone/loader.go, internal/language/loader.go")],
 ["Parse", "Search"],
 [("usedLocales", "locales that parsed something before", "parser.go Parser"), ("uniqueCharsets", "character sets cached by Search", "parser.go Parser")])

prop("C08", "Strict parsing and required parts reject incomplete dates only",
 "With strict parsing an absolute date (one that is neither relative nor read by a given layout) is accepted only if the text states day, month and year; with required parts only if the text states each of the named parts. A complete date is accepted with and without these options with the same result, and what is accepted under them is exactly what would be returned without them. Naming day, month and year as required parts is valid, in any letter case, and any other name is a configuration error.",
 ["inputs", "configurations"], "every subset of written parts, every subset of required parts, strict or not, every numeric value and current time",
 "Tests cover few combinations of required parts and forms; the completeness test must hold for every form and value.",
 ["internal/parser/common/strict-check.go", "internal/parser/absolute/parser.go", "internal/parser/nospace/parser.go", "config.go"],
 [("missing part bookkeeping", "internal/parser/absolute/parser.go Parse; internal/parser/nospace/parser.go"), ("strict check", "internal/parser/common/strict-check.go"), ("validation", "config.go validate")],
 ["Parse"])

prop("C09", "Jalali dates convert to the right Gregorian day",
 "A complete, valid Jalali date of the years 1210 to 1629 (four digit year, month and day in digits of any script, or with a Persian month name or spelled-out day) parses to the Gregorian day it denotes, with its clock time if written. Every valid day is accepted, including the 31st of the first six months and the 30th of Esfand in leap years. Consecutive Jalali days map to consecutive Gregorian days.",
 ["inputs"], "every Jalali year (1210..1629), month and day, and every clock time",
 "Tests hold about ten dates; month lengths and leap years differ over the whole range.",
 ["internal/parser/jalali/parser.go", "internal/parser/jalali/translate.go", "jalali-parser.go"],
 [("component ranges", "internal/parser/jalali/parser.go getDatePartValue"), ("conversion", "internal/parser/jalali/parser.go createDateTime"), ("Persian word translation", "internal/parser/jalali/translate.go")],
 ["ParseJalali"])

prop("C10", "Hijri dates convert to the right Gregorian day",
 "A complete, valid Hijri date within the Umm al-Qura calendar (1356 to 1500), written in digits with a four digit year, parses to the Gregorian day that calendar assigns to it, with its clock time if written, including the last day of every month. Consecutive Hijri days map to consecutive Gregorian days. A date outside the calendar is rejected with an error.",
 ["inputs"], "every Hijri year 1300..1600 (outside 1356..1500 an error), month and day, and every clock time",
 "Tests hold about ten dates; the calendar is a table with irregular month lengths and finite range.",
 ["internal/parser/hijri/parser.go", "hijri-parser.go"],
 [("component ranges and month lengths", "internal/parser/hijri/parser.go"), ("conversion", "internal/parser/hijri/parser.go createDateTime")],
 ["ParseHijri"])

prop("C11", "Searching reports pieces of the text with the dates they denote",
 "Every piece reported by a search is a non-empty piece of the searched text (white space counting as one space), reported in the order of the text, and its date is the one that the parser gives for that piece under the same configuration and the detected language. Dates written in plain sentences of the searched language, and set apart by other words or sentence ends, are found, leaving out every surrounding word that is no part of the language's date vocabulary, and the configured preferences, date order and time zone apply as they do when parsing.",
 ["inputs", "configurations"], "every text made of filler words and one or two dates with arbitrary digits, every current time and preference",
 "Tests check fixed sentences; positions, splitting and the hand-over of configuration depend on the digits and words.",
 ["search.go", "internal/language/translate-search.go", "internal/language/split.go", "internal/language/detector.go"],
 [("splitting and translation", "internal/language/translate-search.go"), ("parsing of found pieces", "search.go parseFoundObjects, parseEntry, splitIfNotParsed")],
 ["Search", "SearchWithLanguage"])

prop("C12", "Only the chosen locales are used, in the documented order",
 "When locales, or languages with an optional region, are given, a text is read only with these (plus the default languages, and only after all of them), the reported locale is always one of them, and a locale that does not exist, or a list with two locales of one language, is an error. Unless the given order is to be used, candidates are tried in the fixed order of popularity, so the result does not depend on the order in which they are listed; with the given order the first listed locale able to read the text determines the result.",
 ["configurations", "inputs"], "every list of known and unknown locales, languages and regions, in every order, and every numeric date",
 "Tests use few lists; order and membership must hold for every combination.",
 ["internal/language/loader.go", "internal/language/applicable-check.go", "parser.go", "internal/data/00-locale-order.go"],
 [("locale loading and ordering", "internal/language/loader.go GetLocales"), ("applicability", "internal/language/applicable-check.go")],
 ["Parse", "IsKnownLocale"])

prop("C13", "Digits of any script, spacing and letter case do not change the date",
 "Writing the digits of a date in any Unicode decimal digit script, changing letter case, adding leading, trailing or repeated white space or using other Unicode spaces gives the same result as the plain spelling (for letters whose case maps one to one, digits known to Go's Unicode tables, and texts other than bare Unix timestamps). No text is altered in any other way by this: characters that are not digits are never read as digits.",
 ["inputs"], "every Unicode decimal digit block, every position, every case and white space variation of dates with arbitrary digits",
 "Tests cover a few scripts; a mapping covers more than sixty digit blocks and every digit in them.",
 ["internal/digit/digit.go", "internal/strutil/strutil.go", "internal/language/translate.go", "parser.go"],
 [("digit normalisation", "internal/digit/digit.go NormalizeString"), ("string sanitising", "internal/strutil/strutil.go")],
 ["Parse"])

prop("C14", "Custom formats are honoured and only fill what they leave out",
 "A text that matches a given layout is parsed by that layout in preference to any guess: every component the layout contains is exactly as written, and a missing year, month or day is filled from the current time and the preferences without spilling into another month (29 February without a year takes the nearest leap year on the preferred side; a written day that the filled month does not have is no match). The first matching layout decides, and the period names what the layout contains. A text matching no layout is parsed as if no layout had been given.",
 ["inputs", "configurations"], "layouts over the usual components, every value of the components, every current time and preference",
 "Tests cover single values; the fill-in of missing components depends on the current date and month lengths.",
 ["internal/parser/formatted/parser.go", "internal/parser/common/apply-day.go", "internal/parser/common/apply-month.go", "parser.go"],
 [("layout matching", "internal/parser/formatted/parser.go Parse"), ("fill-in", "internal/parser/common")],
 ["Parse"])

prop("C15", "One parser may be shared by any number of goroutines",
 "Concurrent calls of parse and search on one shared parser, including the default parser, are free of data races and of deadlock. Each call returns what it would return if the calls ran one after another in some order.",
 ["schedules"], "every interleaving of two concurrent calls (parse/parse, parse/search, search/search) with equal or different configurations on a fresh or used parser",
 "A test run sees a few schedules; a race needs two unsynchronised accesses to meet.",
 ["parser.go", "search.go", "root.go"],
 [("parser mutex", "parser.go Parser.Parse; search.go Parser.Search")],
 ["Parse", "Search"],
 [("usedLocales", "locales that parsed something before", "parser.go Parser"), ("uniqueCharsets", "character sets cached by Search", "parser.go Parser")])

prop("C16", "A written clock time is kept exactly",
 "A date followed by a clock time h:mm, h:mm:ss, with up to six fractional second digits, in 24 hour form or with am/pm, or 'h am', parses to that date at exactly that time of day, with 12 am meaning midnight and 12 pm noon. A clock time that does not exist is never accepted as another time. When time is returned as the period, the period is the finest unit written; otherwise it is the day. (A redundant pm after a 24 hour time is ignored.)",
 ["inputs", "configurations"], "every hour, minute, second and fraction as digits, both 12 and 24 hour forms, every date",
 "Tests sample times; the twelve o'clock and fraction rules hold or fail for particular digits.",
 ["internal/parser/common/time.go", "internal/parser/absolute/parser.go", "internal/parser/relative/parser.go"],
 [("time layouts", "internal/parser/common/time.go ParseTime"), ("time token assembly", "internal/parser/absolute/parser.go Init")],
 ["Parse"])

prop("C17", "Dates without separators are read digit by digit",
 "A date written as digits without separators, with the year in four digits and the text as long as the order prescribes, is read by cutting it in the configured order into year, month and day, optionally followed by a six digit clock time, and gives exactly that date and time. A combination that is not a valid date under the order is only read in another of the documented layouts, never as an altered date.",
 ["inputs", "configurations"], "every 8 and 14 digit string under every date order",
 "Tests sample a few strings.",
 ["internal/parser/nospace/parser.go", "internal/parser/nospace/constants.go"],
 [("layout lists per date order", "internal/parser/nospace/constants.go"), ("layout matching", "internal/parser/nospace/parser.go")],
 ["Parse"])

prop("C18", "Month and weekday names of every language name the right month and day",
 "In every supported language, with that language chosen, a date written as day number, CLDR month name (full or abbreviated) and four digit year, or in CLDR's long form for the language, parses to exactly that day at midnight, for all days and years, and a weekday name (full or abbreviated) alone denotes a day with that weekday at most a week from the current time. The same holds for relative expressions built from the language's own CLDR pattern ('N days ago', 'in N days'), which denote exactly N of the named unit from the current time. This is about the names and patterns that the language tables know and that CLDR uses for one thing only.",
 ["inputs", "configurations"], "every supported language, every month and weekday name, every day and year",
 "Tests hold a few dates for some of the two hundred languages; translation is by large generated tables and ordered simplification patterns.",
 ["internal/data", "internal/language/translate.go", "internal/language/split.go", "internal/language/applicable-check.go"],
 [("translation tables", "internal/data"), ("simplification and splitting", "internal/language/translate.go, split.go")],
 ["Parse"])

prop("C19", "What programs write is read back exactly",
 "A date and time written by a program in one of the usual machine layouts (RFC 3339 and JSON, RFC 1123 with zone name or offset as in HTTP and e-mail, RFC 850 and RFC 822, ANSI C, Unix date, git, SQL, JavaScript, the year first with slashes, Apache index, and the American forms with AM and PM) parses to exactly that date, time of day, fraction and offset, whatever the current time and the preferences (those layouts with a two digit year: as Go's time package reads it, with the default preferences). A weekday written next to a complete date never changes the date.",
 ["inputs", "configurations"], "every date of the years 1000 to 9999, every time of day, fraction and offset, in each of the layouts",
 "Tests hold a few dates in some layouts; a wrong reading needs a particular combination of digits, names, zone and layout.",
 ["parser.go", "internal/parser/absolute/parser.go", "internal/parser/common/time.go", "internal/timezone/parser.go", "internal/language/translate.go"],
 [("tokens", "internal/parser/absolute/parser.go Parse"), ("zone removal", "internal/timezone PopTzOffset"), ("translation", "internal/language/translate.go Translate")],
 ["Parse"])

prop("C20", "Only the chosen kinds of date are read, in the chosen order",
 "A parser given a list of parser types reads a text only as one of these kinds of date, and the first of the list that can read it (with the first locale for which any of them can) determines the result. Without a list all kinds are tried, in the order timestamp, negative timestamp, relative date, custom format, absolute date, date without separators. Timestamps, relative dates, dates with separators and dates without are read by no other kind than their own (ten digits are a timestamp or, failing that, a date without separators; four a year or such a date). An unknown kind anywhere in the list is an error, and parsing leaves the list as it is.",
 ["inputs", "configurations"], "every list of kinds, every text of the forms in the harness",
 "Tests use a handful of lists; precedence between kinds shows only for texts that two kinds can read, under a particular list.",
 ["parser.go"],
 [("loop over locales and kinds", "parser.go Parser.Parse"), ("kinds", "parser.go tryRelativeTime, tryCustomFormat, tryAbsoluteTime, tryNoSpacesTime")],
 ["Parse"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

package main

// Which harnesses decide which property, and within what bounds.

type Spec struct {
	Quick        []HarnessRun
	Thorough     []HarnessRun
	ThoroughOnly bool
	QuickBudget  int // seconds
	Reach        []string
	Outside      string
	Assume       []string
}

var commonAssumptions = []string{
	"package time is replaced by an exact model of civil dates, instants and offsets (validated by replaying sampled paths natively)",
	"the environment's time zone is UTC and time.Now is a fixed instant",
	"regexps on symbolic text are executed by a backtracking interpreter of the compiled program of regexp/syntax",
}

var specs = map[string]Spec{
	"C04": {
		Quick:    []HarnessRun{h("C04Month", "zone", 1), h("C04DayMonth", "zone", 4, "fixed", 1), h("C04Year", "zone", 2), h("C04ShortYear", "month", 1), h("C04LeapDay"), h("C04Weekday", "zone", 3), h("C04Weekday"), h("C04Clock"), h("C04Clock", "zone", 1, "fixed", 1, "minutes", 1, "second", 0, "hour", 0), h("C04DayMonth"), h("C04WithClock", "form", 0, "month", 2, "fixed", 1), h("C04WithClock", "form", 1, "month", 11, "fixed", 1), h("C04WithClock", "form", 2, "fixed", 1), h("C04WithClock", "form", 3, "weekday", 2, "fixed", 1)},
		Thorough: []HarnessRun{h("C04WithClock", "fixed", 1), h("C04WithClock", "form", 0, "month", 2), h("C04Month"), h("C04DayMonth"), h("C04Year"), h("C04ShortYear"), h("C04LeapDay"), h("C04Weekday"), h("C04Clock"), h("C04DayMonth", "zone", 3), h("C04Weekday", "zone", 1), h("C04Weekday", "zone", 2), h("C04Clock", "zone", 1, "fixed", 1, "minutes", 1), h("C04Clock", "zone", 3, "fixed", 1, "minutes", 1)}, ThoroughOnly: true,
		Reach:   []string{"month", "day and month", "leap day", "no such day", "year", "short year", "leap day of a short year", "weekday", "clock", "with clock"},
		Outside: "current times outside 1950..2100 (two digit years: 1971..2067) or in other zones than UTC, +05:30, -05:00, +14:00 and -12:00; month names of other languages than English (see C18); numeric dates without a year",
	},
	"C16": {
		Quick: []HarnessRun{h("C16Clock", "dates", 1, "seps", 1, "meridians", 2, "flens", 1), h("C16Clock", "form", 4, "hlen", 1, "meridian", 1),
			h("C16Clock", "form", 2, "flen", 0, "seps", 1, "date", 5), h("C16Clock", "form", 5, "flen", 0, "seps", 1, "date", 2, "meridian", 3)},
		Thorough: []HarnessRun{h("C16Clock", "dates", 6)}, ThoroughOnly: true,
		Reach:   []string{"valid", "invalid"},
		Outside: "one fixed date in six spellings; English; an hour above twelve or zero with am/pm and existing minutes (read leniently, as the existing tests ask)",
	},
	"C17": {
		Quick: []HarnessRun{h("C17Ordered", "valid", 1, "len", 0), h("C17Ordered", "valid", 2, "len", 0, "order", 0), h("C17Ordered", "len", 0, "order", 1, "prefix", 31),
			h("C17Ordered", "len", 0, "order", 2, "prefix", 20), h("C17Ordered", "valid", 1, "len", 1, "order", 1, "colon", 1), h("C17Ordered", "valid", 1, "len", 1, "order", 2, "colon", 0), h("C17Lang", "valid", 1)},
		Thorough: []HarnessRun{h("C17Ordered", "valid", 1), h("C17Ordered", "valid", 2, "len", 0), h("C17Ordered", "len", 0), h("C17Lang")}, ThoroughOnly: true,
		Reach:   []string{"valid", "rejected", "other layout"},
		Outside: "texts of other lengths than 8 and 14 digits (ten digits are a timestamp; for twelve the existing tests ask for a reading with one digit minutes and seconds), two digit years, years before 1000",
	},
	"C02": {
		Quick:    []HarnessRun{h("C02Stamp", "langs", 2, "orders", 2, "pads", 1), h("C02Other")},
		Thorough: []HarnessRun{h("C02Stamp"), h("C02Other")}, ThoroughOnly: true,
		Reach:   []string{"read", "other"},
		Outside: "languages other than en, fr, de, ja and fa",
	},
	"C05": {
		Quick:    []HarnessRun{h("C05One", "plurals", 1, "dirs", 3), h("C05Two", "pairs", 4, "dirs", 2), h("C05Clock", "ats", 1, "units", 2), h("C05Words"), h("C05Big", "more", 2), h("C05Overflow"), h("C05Fraction", "now", 0, "comma", 0, "nlen", 0, "dirs", 2), h("C05Fraction", "now", 1, "comma", 1, "nlen", 0, "dir", 0, "unit", 3, "fractions", 2)},
		Thorough: []HarnessRun{h("C05One", "digits", 3, "spaces", 2), h("C05Two", "joins", 3), h("C05Clock"), h("C05Words"), h("C05Big", "more", 2), h("C05Overflow"), h("C05Fraction", "now", 0), h("C05Fraction", "now", 1, "nlen", 0, "unit", 3), h("C05Fraction", "now", 1, "nlen", 0, "comma", 0, "dir", 0)}, ThoroughOnly: true,
		Reach:   []string{"read", "two units", "clock", "word", "big", "fraction"},
		Outside: "fractions other than eleven, seconds and decades with a fraction; amounts of more than three digits (nine for hours, minutes and seconds), three or more units; languages other than English (see C18)",
	},
	"C06": {
		Quick: []HarnessRun{h("C06Written", "kind", 4, "all", 0, "prefs", 0, "dates", 1, "defaults", 2, "gaps", 1), h("C06Written", "kind", 0, "all", 0, "prefs", 0, "dates", 1, "defaults", 1),
			h("C06Written", "kind", 1, "all", 0, "prefs", 0, "dates", 2, "default", 2, "gap", 0), h("C06Written", "kind", 2, "all", 0, "prefs", 0, "date", 2, "defaults", 1), h("C06Written", "kind", 3, "all", 0, "prefs", 0, "date", 0, "defaults", 1),
			h("C06Written", "kind", 4, "zones", 2, "all", 1, "dates", 1, "default", 1, "gap", 0), h("C06Written", "kind", 5, "all", 0, "prefs", 0, "defaults", 1),
			h("C06Date", "kind", 0, "offsets", 4), h("C06Date", "kind", 4, "zones", 4), h("C06Default", "offss", 2, "month", 0, "day", 1), h("C06Default", "month", 1, "clock", 1), h("C06Relative", "kind", 4, "zones", 3), h("C14Zone", "zone", 2, "name", 36),
			h("C06Relative", "kind", 0, "offsets", 2, "how", 0), h("C06Word", "kind", 4, "zones", 2), h("C06Pop", "prefix", 0, "befores", 3)},
		Thorough: []HarnessRun{h("C06Written", "all", 0), h("C06Written", "all", 1, "prefs", 0), h("C06Written", "kind", 5), h("C06Date"), h("C06Default", "day", 1), h("C06Default", "day", 2, "offs", 0), h("C06Default", "offs", 0), h("C06Relative"), h("C06Word"), h("C06Pop"), h("C06Pop", "kind", 5)}, ThoroughOnly: true,
		Reach:   []string{"written", "date", "default", "relative", "word", "popped"},
		Outside: "offsets and abbreviations that are not in the tables of the harness (41 offsets in 9 spellings, 46 abbreviations); default zones with more than one change of offset; wall clocks skipped by a change of offset; languages other than English (see C18 for words); a zone within the text",
	},
	"C08": {
		Quick: []HarnessRun{h("C08Names"), h("C08Strict", "lang", 0, "order", 6, "required", 0, "texts", 17), h("C08Strict", "lang", 0, "order", 2, "required", 0, "text", 15), h("C08Strict", "lang", 0, "order", 3, "required", 4, "text", 11),
			h("C08Strict", "lang", 1, "order", 6, "required", 4, "text", 11, "case", 0), h("C08Strict", "lang", 0, "order", 6, "required", 2, "case", 1, "text", 6), h("C08Strict", "lang", 0, "order", 2, "required", 0, "text", 19), h("C08Strict", "lang", 0, "order", 0, "required", 0, "text", 19),
			h("C08Strict", "lang", 0, "order", 6, "required", 4, "case", 1, "text", 8), h("C08Strict", "lang", 0, "order", 6, "required", 5, "case", 1, "text", 4), h("C08Strict", "lang", 0, "order", 6, "required", 3, "case", 1, "text", 5), h("C08Strict", "lang", 0, "order", 6, "required", 1, "case", 0, "text", 14),
			h("C08Strict", "lang", 0, "order", 6, "required", 2, "case", 0, "text", 9), h("C08Strict", "lang", 0, "order", 6, "required", 6, "case", 1, "text", 16), h("C08Strict", "lang", 0, "order", 6, "required", 8, "case", 0, "text", 6), h("C08Strict", "lang", 0, "order", 6, "required", 8, "case", 1, "text", 14)},
		Thorough: []HarnessRun{h("C08Names"), h("C08Strict", "lang", 0, "order", 6, "cases", 1), h("C08Strict", "required", 0, "texts", 17), h("C08Strict", "case", 1, "texts", 17)}, ThoroughOnly: true,
		Reach:   []string{"accepted", "incomplete", "complete", "valid name", "invalid name"},
		Outside: "the twenty forms of text in the harness, English and Japanese; custom formats and relative dates, to which the options do not apply; for two bare numbers it is only stated which results may be returned, not which part a number is",
	},
	"C14": {
		Quick: []HarnessRun{h("C14Layout", "order", 1, "before", 0), h("C14Layout", "order", 0, "before", 1, "layouts", 2), h("C14Layout", "order", 0, "before", 1, "layout", 5, "now", 1), h("C14Layout", "order", 0, "before", 0, "layout", 4, "now", 1),
			h("C14Layout", "order", 0, "before", 0, "layout", 3, "now", 1), h("C14Layout", "order", 0, "before", 0, "layout", 15, "now", 1), h("C14First", "first", 0, "then", 1, "four", 0), h("C14First", "first", 2, "then", 5, "four", 1), h("C14Names"), h("C14None", "formats", 4), h("C14Zone", "names", 6), h("C14Zone", "zone", 2, "name", 36)},
		Thorough: []HarnessRun{h("C14Layout", "now", 1), h("C14First"), h("C14Names"), h("C14None"), h("C14Zone")}, ThoroughOnly: true,
		Reach:   []string{"matched", "day of year", "leap day", "no such day", "first", "second", "none", "name", "zone"},
		Outside: "layouts other than the sixteen (and six, and three) of the harness, the years 0 and 1; the period of a layout with a day but no month; components outside their ranges (no layout matches then)",
	},
	"C09": {
		Quick: []HarnessRun{h("C09Cycle"), h("C09Digits", "now", 0, "order", 0, "short", 0, "sep", 0, "clock", 0, "script", 0), h("C09Digits", "now", 0, "short", 1, "clock", 4, "script", 1, "century", 2, "order", 3, "sep", 1),
			h("C09Digits", "now", 1, "order", 0, "short", 1, "clock", 2, "script", 0, "century", 1, "sep", 0), h("C09Names", "now", 0, "order", 0, "day", 0, "clock", 0, "weekday", 0, "script", 1, "century", 1),
			h("C09Names", "now", 0, "order", 0, "day", 2, "clock", 3, "weekday", 3, "script", 0, "century", 2, "month", 2), h("C09Names", "now", 0, "order", 0, "day", 2, "clock", 0, "weekday", 0, "script", 0, "century", 1, "month", 11),
			h("C09Names", "now", 0, "order", 0, "day", 1, "clock", 0, "month", 6, "script", 0, "century", 2), h("C09Names", "now", 0, "day", 1, "clock", 0, "month", 9, "script", 0, "century", 2, "weekday", 1)},
		Thorough: []HarnessRun{h("C09Cycle"), h("C09Digits", "now", 0, "short", 0, "clock", 0, "script", 0), h("C09Digits", "now", 0, "sep", 0, "order", 0), h("C09Digits", "now", 1, "sep", 0, "order", 0, "script", 0), h("C09Names", "now", 0, "clock", 0, "weekday", 0, "order", 0), h("C09Names", "now", 0, "script", 0, "century", 2)}, ThoroughOnly: true,
		Reach:   []string{"digits", "names", "cycle"},
		Outside: "Jalali years outside 1210..1629, years of two digits, incomplete dates, dates that do not exist, month names in Latin letters",
		Assume:  []string{"the Jalali calendar is the 33 year cycle, which agrees with the astronomical one for 1178..1633"},
	},
	"C10": {
		Quick: []HarnessRun{h("C10Date", "prefs", 0, "order", 0, "sep", 0, "short", 0, "script", 0, "clock", 0), h("C10Date", "prefs", 1, "order", 0, "short", 1, "clock", 3, "script", 1, "seps", 2), h("C10Date", "prefs", 0, "short", 1, "clock", 1, "script", 2, "sep", 1),
			h("C10Date", "prefs", 0, "order", 0, "short", 0, "clock", 4, "script", 0, "sep", 1, "month", 8), h("C10Date", "prefs", 0, "order", 0, "short", 0, "clock", 2, "script", 0, "sep", 2, "month", 1), h("C10Last", "month", 1), h("C10Last", "month", 11), h("C10Outside"), h("C10Now", "years", 2, "months", 2)},
		Thorough: []HarnessRun{h("C10Date", "prefs", 0, "clock", 0, "short", 0), h("C10Date", "prefs", 0, "order", 0, "short", 1), h("C10Date", "prefs", 1, "order", 0, "sep", 0, "short", 0), h("C10Last"), h("C10Outside"), h("C10Now")}, ThoroughOnly: true,
		Reach:   []string{"date", "last", "outside", "now"},
		Outside: "years of two digits, dates that do not exist (the existing tests ask for a day beyond the end of a month to be read as its last day), month names; the calendar's table itself, which is the dependency go-hijri's",
		Assume:  []string{"the conversion of Julian days of the dependency go-juliandays is exact at midnight and noon (its floating point code is replaced by the exact conversion)"},
	},
	"C13": {
		Quick: []HarnessRun{h("C13Rune"), h("C13Digits", "text", 5, "lang", 0, "half", 1), h("C13Digits", "text", 3), h("C13Digits", "text", 2, "scripts", 20), h("C13Digits", "text", 1, "lang", 0, "script", 2), h("C13Digits", "text", 1, "lang", 1, "script", 6), h("C13Digits", "text", 4, "lang", 2, "script", 4),
			h("C13Digits", "text", 0, "lang", 0, "script", 1), h("C13Digits", "text", 6, "scripts", 4), h("C13Spaces", "text", 1), h("C13Spaces", "text", 3), h("C13Spaces", "text", 0, "sp.doubles", 1), h("C13Spaces", "text", 4, "sp.doubles", 1), h("C13Spaces", "text", 7, "sp.doubles", 1), h("C13Case")},
		Thorough: []HarnessRun{h("C13Rune"), h("C13Digits", "text", 0, "lang", 0, "scripts", 58), h("C13Digits", "text", 1, "langs", 2, "scripts", 58), h("C13Digits", "text", 2), h("C13Digits", "text", 3), h("C13Digits", "text", 4, "scripts", 58, "lang", 0), h("C13Digits", "text", 5), h("C13Digits", "text", 6), h("C13Spaces"), h("C13Case")}, ThoroughOnly: true,
		Reach:   []string{"character", "digits", "spaces", "case"},
		Outside: "Unix timestamps (a machine format, ASCII only); digit scripts newer than Unicode 15; letters of languages other than English, French, German and Russian; one run of white space at a time, of at most two characters",
	},
	"C07": {
		Quick: []HarnessRun{h("C07Maps", "mode", 0), h("C07Earlier", "first", 7, "fixed", 1, "history", 1), h("C07Earlier", "near", 1, "fixed", 1), h("C07Earlier", "searches", 1, "fixed", 1), h("C07Previous", "texts", 2, "noise", 1), h("C07Previous", "text", 2), h("C07Config"), h("C07Again")},
		Thorough: []HarnessRun{h("C07Maps"), h("C07Maps", "symmaps", 1, "call", 2, "mode", 0), h("C07Maps", "symmaps", 1, "call", 5, "mode", 0, "init", 0), h("C07Maps", "symmaps", 1, "call", 6, "mode", 0, "init", 0), h("C07Earlier", "fixed", 1), h("C07Earlier", "first", 0, "fixed", 1, "history", 1), h("C07Earlier", "first", 13, "fixed", 1, "history", 1),
			h("C07Earlier", "first", 0), h("C07Earlier", "first", 8), h("C07Earlier", "first", 15), h("C07Previous", "noise", 1), h("C07Previous"), h("C07Config"), h("C07Again", "search", 1)}, ThoroughOnly: true,
		Reach:   []string{"maps", "earlier", "previous", "config", "again"},
		Outside: "the calls are those of a fixed list with symbolic digits; map orders: as inserted, reversed and rotated (all orders of maps with up to three entries in the thorough check), the same kind of order for all maps of a run",
	},
	"C12": {
		Quick:    []HarnessRun{h("C12Locales"), h("C12Locales", "n", 3, "of", 5, "text", 0), h("C12Locales", "ignored", 1, "n", 1), h("C12Languages", "text", 0, "defaults", 1, "of", 6), h("C12Languages", "text", 2), h("C12Languages", "text", 5, "n", 1), h("C12Languages", "text", 1, "n", 1), h("C12Used"), h("C12Detect"), h("C12Any")},
		Thorough: []HarnessRun{h("C12Locales"), h("C12Locales", "n", 3), h("C12Languages"), h("C12Languages", "n", 3, "texts", 2, "of", 5, "region", 0), h("C12Used"), h("C12Detect"), h("C12Any")}, ThoroughOnly: true,
		Reach:   []string{"one", "none", "unknown", "default", "detected", "any"},
		Outside: "lists of more than three locales out of nine; texts other than the six templates; two locales of one language in one list (refused by the parser); a region together with locales and default languages",
	},
	"C15": {
		Quick:    []HarnessRun{h("C15Race", "fixed", 1), h("C15Race", "as", 5, "b", 3, "used", 0), h("C15Default", "fixed", 1), h("C15Order", "fixed", 1), h("C15Order", "a", 1, "b", 2)},
		Thorough: []HarnessRun{h("C15Race"), h("C15Default"), h("C15Order")}, ThoroughOnly: true,
		Reach:   []string{"threads", "default parser", "order"},
		Outside: "more than two calls at once; races are looked for in every order of two recorded executions in which each call still reads the values that it read (one call after the other), results in the orders where one call runs as a whole at a point where the other holds no lock; calls are those of a fixed list",
	},
	"C01": {
		Quick: []HarnessRun{h("C01Bytes", "n", 2, "all", 0, "langs", 2), h("C01Bytes", "n", 2, "all", 0, "call", 3, "langs", 3), h("C01Bytes", "n", 1, "call", 1, "langs", 1), h("C01Bytes", "n", 1, "call", 2, "langs", 1), h("C01Bytes", "n", 1, "all", 1),
			h("C01Around", "all", 0, "texts", 25), h("C01Around", "all", 0, "call", 3, "texts", 6), h("C01Around", "all", 0, "call", 3, "text", 21), h("C01Around", "all", 0, "call", 3, "text", 22), h("C01Around", "all", 0, "call", 3, "text", 23), h("C01Words", "n", 2, "strict", 0), h("C01Words", "n", 2, "call", 3, "strict", 0), h("C01Words", "n", 2, "call", 2, "strict", 0, "lang", 1), h("C01Words", "n", 2, "call", 1, "strict", 0, "langs", 1),
			h("C01Digits", "shape", 6, "call", 1, "order", 6, "seps", 1), h("C01Digits", "shape", 6, "call", 2, "order", 6, "seps", 1, "clock", 0), h("C01Digits", "shape", 5, "order", 6), h("C01Layouts", "all", 0, "n", 1, "t", 1, "layouts", 3, "texts", 3), h("C01Nows")},
		Thorough: []HarnessRun{h("C01Bytes", "n", 2), h("C01Bytes", "n", 2, "call", 3), h("C01Bytes", "n", 2, "call", 1, "langs", 1), h("C01Bytes", "n", 2, "call", 2, "langs", 1), h("C01Bytes", "n", 3, "all", 0, "langs", 1),
			h("C01Around"), h("C01Around", "call", 3), h("C01Words", "n", 3), h("C01Words", "n", 3, "call", 3), h("C01Words", "n", 3, "call", 2, "lang", 1), h("C01Words", "n", 2, "call", 1),
			h("C01Digits"), h("C01Digits", "shape", 6, "call", 1, "order", 6), h("C01Digits", "shape", 6, "call", 2, "order", 6), h("C01Digits", "shape", 1, "call", 1, "order", 6), h("C01Layouts"), h("C01Nows")}, ThoroughOnly: true,
		Reach:   []string{"bytes", "around", "words", "digits", "layouts", "nows"},
		Outside: "texts other than two (thorough: three) bytes alone, one byte at each open place of 26 usual texts, three words out of the vocabularies of eleven languages, the digit groups and the layouts listed; texts read without any language chosen; a step budget stands for not returning (60 million steps, confirmed on the real code)",
	},
	"C19": {
		Quick: []HarnessRun{h("C19Machine", "part", 3, "now", 0, "prefs", 0, "lang", 0, "offsets", 4, "zones", 3, "months", 3, "weekdays", 2), h("C19Machine", "part", 3, "now", 1, "prefs", 1, "lang", 0, "offset", 4, "zone", 3, "month", 3, "weekday", 2),
			h("C19Machine", "part", 3, "now", 0, "prefs", 0, "layout", 13), h("C19Machine", "part", 3, "now", 0, "prefs", 0, "layout", 18, "month", 1, "weekday", 4), h("C19Machine", "part", 3, "now", 0, "prefs", 0, "layout", 1, "month", 1, "weekday", 4),
			h("C19Machine", "part", 1, "now", 0, "prefs", 0, "layout", 12, "month", 1), h("C19Machine", "part", 1, "now", 0, "prefs", 0, "layout", 14, "month", 1, "offset", 8, "weekday", 3), h("C19Machine", "part", 1, "now", 0, "prefs", 0, "layout", 9, "month", 1, "zone", 2, "weekday", 3),
			h("C19Machine", "part", 1, "now", 0, "prefs", 0, "layout", 1, "month", 11, "zone", 4, "weekday", 5), h("C19Machine", "part", 1, "now", 0, "prefs", 0, "layout", 4, "month", 4, "zone", 7, "weekday", 0), h("C19Machine", "part", 1, "now", 0, "prefs", 0, "layout", 0, "lang", 1, "other", 0, "offset", 25),
			h("C19Machine", "part", 2, "now", 0, "prefs", 0, "layout", 5, "month", 1, "weekday", 6, "offset", 9), h("C19Machine", "part", 2, "now", 0, "prefs", 0, "layout", 11, "month", 1, "lang", 0), h("C19Machine", "part", 2, "now", 0, "prefs", 0, "layout", 17, "lang", 0, "offset", 30), h("C19Weekday", "months", 2, "weekdays", 2)},
		Thorough: []HarnessRun{h("C19Machine", "part", 3, "now", 0, "prefs", 0), h("C19Machine", "part", 3, "now", 1, "prefs", 1, "offset", 4, "zone", 3, "months", 2, "weekdays", 2), h("C19Machine", "part", 1, "now", 0, "prefs", 0, "months", 3, "weekday", 3, "offset", 8, "zone", 2),
			h("C19Machine", "part", 2, "now", 0, "prefs", 0, "month", 1, "weekday", 3, "offset", 25, "zone", 4), h("C19Weekday")}, ThoroughOnly: true,
		Reach:   []string{"read", "weekday"},
		Outside: "other layouts than the twenty; date and clock time open at once (one is fixed while the other is open); years before 1000; languages other than English for layouts with names (see C18)",
	},
	"C20": {
		Quick:    []HarnessRun{h("C20Kinds", "n", 0), h("C20Kinds", "n", 1, "text", 8), h("C20Kinds", "n", 1, "text", 9), h("C20Kinds", "n", 1, "text", 10), h("C20Kinds", "n", 1, "text", 0), h("C20Kinds", "n", 2, "text", 7), h("C20Default"), h("C20Locales"), h("C20Unknown")},
		Thorough: []HarnessRun{h("C20Kinds", "n", 0), h("C20Kinds", "n", 1), h("C20Kinds", "n", 2), h("C20Default"), h("C20Locales"), h("C20Unknown")}, ThoroughOnly: true,
		Reach:   []string{"read", "not read", "default", "locale", "unknown"},
		Outside: "lists of more than three kinds, texts other than the twelve forms; a text that a custom format reads as it stands, which is tried before any kind; strict parsing, where an incomplete date ends the search (see C08)",
	},
	"C18": {
		Quick:    []HarnessRun{h("C18Month", "twenties", 1), h("C18Long", "twenties", 1, "two", 1), h("C18Weekday", "now", 0), h("C18Ago")},
		Thorough: []HarnessRun{h("C18Month", "years", 1), h("C18Long", "years", 1), h("C18Weekday"), h("C18Ago")}, ThoroughOnly: true,
		Reach:   []string{"month", "long", "weekday", "phrase"},
		Outside: "names that the tables of the pinned commit do not know (renamed in later releases of CLDR), names that CLDR itself uses for two things; days 20..29 of 2000..2099 in quick (thorough: every day of the years 1000..9999); amounts 1, 2, 5..9 and 10..19; regional locales; the current time of relative phrases is fixed",
	},
	"C11": {
		Quick:    []HarnessRun{h("C11Find", "befores", 1, "afters", 1, "wide", 1), h("C11Find", "sentence", 0, "wide", 1, "detect", 0, "two", 0), h("C11Piece", "n", 2, "configs", 3), h("C11Detect", "hows", 2, "two", 0), h("C11Config", "befores", 1, "detect", 0)},
		Thorough: []HarnessRun{h("C11Find"), h("C11Piece", "n", 2), h("C11Piece", "exactly", 3), h("C11Detect"), h("C11Config")}, ThoroughOnly: true,
		Reach:   []string{"found", "piece", "searched", "detected", "configured"},
		Outside: "sentences other than the templates of 17 languages; texts of more than three words out of the vocabularies of eight languages; runs of white space; a search without a current time, where earlier dates become the base; the Vietnamese word ngày, which a search removes; words whose spelling without accents is another word (French à)",
	},
	"C03": {
		Quick:    []HarnessRun{h("C03Order", "seps", 2), h("C03Year", "shapes", 2, "seps", 1), h("C03Lang", "langs", 4)},
		Thorough: []HarnessRun{h("C03Order"), h("C03Year"), h("C03Lang")}, ThoroughOnly: true,
		Reach:   []string{"valid", "rejected", "other order", "read"},
		Outside: "years before 2 (1401 after a dash, where smaller numbers also read as a UTC offset), years with other than four digits",
	},
}

func h(name string, kv ...any) HarnessRun {
	r := HarnessRun{Name: name}
	for i := 0; i+1 < len(kv); i += 2 {
		if r.Params == nil {
			r.Params = map[string]int{}
		}
		r.Params[kv[i].(string)] = kv[i+1].(int)
	}
	return r
}

package h

import (
	"strings"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// c18Lang is one of the languages; part=k of parts=n takes every n-th.
func c18Lang() namesOf {
	n, k := sym.Param("parts", 1), sym.Param("part", 0)
	if l := sym.Param("lang", -1); l >= 0 {
		return cldr[l]
	}
	return cldr[k+n*sym.Choose("lang", (len(cldr)-k+n-1)/n)]
}

func c18Parse(lang, s string) (date.Date, error) {
	d, err := (&dps.Parser{}).Parse(&dps.Configuration{Locales: []string{lang}, CurrentTime: fixedNow().t}, s)
	obs("", d, err)
	return d, err
}

// c18Wrong are the recorded defects: language and text.
var c18Wrong = map[string]bool{
	"az Ç.": true, "az C.A.": true, "az-Latn Ç.": true, "az-Latn C.A.": true,
	"bo ཟླ་བ་དགུ་པ": true, "bo ཟླ་བ་དགུ་པ་": true,
	"dyo Su": true, "gu મે": true, "gu # મે, ##": true, "hu V": true, "lo ມ.ນ.": true, "my ဇန်": true,
	"nus Pay": true, "pa ਜਨ": true, "pa-Guru ਜਨ": true, "sg Ngu": true, "sk st": true, "th ม.ค.": true,
	"ar خلال ساعة واحدة": true, "rw Kan.": true,
}

func c18Day(n int) string {
	if sym.Param("twenties", 0) == 1 {
		return "2" + sym.Digits("d", 1)
	}
	return sym.Digits("d", n)
}

func c18Year() string {
	if sym.Param("years", 0) == 0 {
		return "20" + sym.Digits("y", 2)
	}
	y := sym.Digits("y", 4)
	sym.Assume(num(y) >= 1000)
	return y
}

// C18Month: a day, the name of a month and a year name that date.
func C18Month() {
	l := c18Lang()
	if len(l.months) == 0 {
		return
	}
	m := l.months[sym.Choose("month", len(l.months))]
	dd, yy := c18Day(2), c18Year()
	sym.Assume(isDate(num(yy), m.n, num(dd)))
	d, err := c18Parse(l.lang, dd+" "+m.text+" "+yy)
	known := c18Wrong[l.lang+" "+m.text]
	sym.Known(err == nil, "the date is accepted", langOf(l.lang), known)
	if err != nil {
		return
	}
	sym.Reach("month")
	sym.Known(wallIs(d.Time, num(yy), m.n, num(dd), 0, 0), "the month is the one named", langOf(l.lang), known)
	sym.Assert(d.Period == date.Day, "the period is a day")
}

// C18Long: a date as CLDR writes it in the language.
func C18Long() {
	l := c18Lang()
	if len(l.long) == 0 {
		return
	}
	m := l.long[sym.Choose("month", len(l.long))]
	dd, yy := c18Day(1+pick("two", 2)), c18Year()
	sym.Assume(isDate(num(yy), m.n, num(dd)))
	s := m.text
	i := strings.Index(s, "##")
	s = s[:i] + "Y" + s[i+2:]
	j := strings.Index(s, "#")
	if i < j {
		s = s[:i] + yy + s[i+1:j] + dd + s[j+1:]
	} else {
		s = s[:j] + dd + s[j+1:i] + yy + s[i+1:]
	}
	d, err := c18Parse(l.lang, s)
	known := c18Wrong[l.lang+" "+m.text]
	sym.Known(err == nil, "the date is accepted", langOf(l.lang), known)
	if err != nil {
		return
	}
	sym.Reach("long")
	sym.Known(wallIs(d.Time, num(yy), m.n, num(dd), 0, 0), "the date is the one written", langOf(l.lang), known)
}

// C18Weekday: the name of a weekday names such a day within a week from now.
func C18Weekday() {
	l := c18Lang()
	if len(l.days) == 0 {
		return
	}
	w := l.days[sym.Choose("weekday", len(l.days))]
	now := fixedNow()
	if sym.Param("now", 1) == 1 {
		now = anyNow(1970, 2100)
	}
	cfg := &dps.Configuration{Locales: []string{l.lang}, CurrentTime: now.t}
	prefs(cfg)
	d, err := (&dps.Parser{}).Parse(cfg, w.text)
	obs("", d, err)
	known := c18Wrong[l.lang+" "+w.text]
	sym.Known(err == nil, "the weekday is accepted", langOf(l.lang), known)
	if err != nil {
		return
	}
	sym.Reach("weekday")
	day := sym.TimeDays(d.Time)
	diff := day - sym.DayNumber(now.y, now.m, now.d)
	// 1970-01-01 was a Thursday
	sym.Known(sym.FloorMod(day+4, 7) == w.n, "the weekday is the one named", langOf(l.lang), known)
	sym.Known(sym.And(diff >= -7, diff <= 7), "the day is within a week", langOf(l.lang), known)
}

// c18Units: years, months, days and seconds of a second .. year.
var c18Units = [][4]int{{0, 0, 0, 1}, {0, 0, 0, 60}, {0, 0, 0, 3600}, {0, 0, 1, 0}, {0, 0, 7, 0}, {0, 1, 0, 0}, {1, 0, 0, 0}}

// C18Ago: a relative phrase moves the current time by what it says.
func C18Ago() {
	l := c18Lang()
	if len(l.ago) == 0 {
		return
	}
	a := l.ago[sym.Choose("phrase", len(l.ago))]
	s, n := a.text, a.n
	if i := strings.Index(s, "##"); i >= 0 {
		k := "1" + sym.Digits("n", 1)
		s, n = s[:i]+k+s[i+2:], n*num(k)
	} else if i := strings.Index(s, "#"); i >= 0 {
		k := sym.Digits("n", 1)
		sym.Assume(num(k) >= 5)
		s, n = s[:i]+k+s[i+1:], n*num(k)
	}
	d, err := c18Parse(l.lang, s)
	known := c18Wrong[l.lang+" "+a.text]
	sym.Known(err == nil, "the phrase is accepted", langOf(l.lang), known)
	if err != nil {
		return
	}
	sym.Reach("phrase")
	u := c18Units[a.unit]
	sym.Known(wall(d.Time) == shifted(fixedNow(), n*u[0], n*u[1], n*u[2], n*u[3], false), "the result is the current time moved by the amount", langOf(l.lang), known)
}

var _ = reg("C18Month", C18Month) && reg("C18Long", C18Long) && reg("C18Weekday", C18Weekday) && reg("C18Ago", C18Ago)

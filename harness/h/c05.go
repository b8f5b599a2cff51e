package h

import (
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

type unit struct {
	name                     string
	year, month, day, second int // one unit is this many
	period                   date.Period
}

var units = []unit{
	{"day", 0, 0, 1, 0, date.Day}, {"month", 0, 1, 0, 0, date.Month}, {"year", 1, 0, 0, 0, date.Year}, {"hour", 0, 0, 0, 3600, date.Hour},
	{"minute", 0, 0, 0, 60, date.Minute}, {"second", 0, 0, 0, 1, date.Second}, {"week", 0, 0, 7, 0, date.Day}, {"decade", 10, 0, 0, 0, date.Year},
}

// shifted is the wall clock of now, in seconds since 1970, moved by the amounts.
func shifted(n moment, years, months, days, secs int, preserve bool) int {
	mm := n.m - 1 + months
	y := n.y + years + sym.FloorDiv(mm, 12)
	m := sym.FloorMod(mm, 12) + 1
	d := n.d
	if preserve {
		d = sym.Ite(d > sym.DaysIn(y, m), sym.DaysIn(y, m), d)
	}
	return (sym.DayNumber(y, m, d)+days)*86400 + n.sod + secs
}

// wall is the wall clock of t in seconds since 1970.
func wall(t time.Time) int { return sym.TimeDays(t)*86400 + sym.TimeSod(t) }

// direction is the text for the amounts and its sign.
func direction(k int, s string, future bool) (string, int) {
	switch k {
	case 0:
		return s + " ago", -1
	case 1:
		return "in " + s, 1
	}
	if sym.Decide(future) {
		return s, 1
	}
	return s, -1
}

func relCfg(now moment) *dps.Configuration {
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	cfg.PreserveEndOfMonth = sym.Choose("preserve", 2) == 1
	cfg.ReturnTimeAsPeriod = sym.Bool("timePeriod")
	return cfg
}

func relPeriod(cfg *dps.Configuration, p date.Period) int {
	if p.IsTime() {
		return sym.Ite(cfg.ReturnTimeAsPeriod, int(p), int(date.Day))
	}
	return int(p)
}

// C05One: one amount of one unit.
func C05One() {
	now := anyNow(1950, 2100)
	cfg := relCfg(now)
	u := units[sym.Choose("unit", len(units))]
	n := sym.Digits("n", 1+sym.Choose("nlen", sym.Param("digits", 2)))
	N := num(n)
	s := n + []string{" ", ""}[pick("space", 1)] + u.name
	if len(n) == 2 || pick("plural", 2) == 1 {
		s += "s"
	}
	text, sign := direction(sym.Choose("dir", 3), s, cfg.PreferredDateSource == dps.Future)
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err == nil, "a relative expression is accepted")
	sym.Reach("read")
	N *= sign
	want := shifted(now, N*u.year, N*u.month, N*u.day, N*u.second, cfg.PreserveEndOfMonth)
	sym.Assert(wall(r.Time) == want, "the result is the current time moved by the written amount")
	sym.Assert(sym.TimeOffset(r.Time) == 0, "the offset stays")
	sym.Assert(int(r.Period) == relPeriod(cfg, u.period), "the period is the written unit")
}

// C05Two: two amounts of different units.
func C05Two() {
	now := anyNow(1950, 2100)
	cfg := relCfg(now)
	pairs := [][2]int{{2, 1}, {1, 0}, {0, 3}, {6, 5}, {7, 6}, {3, 4}, {1, 2}, {4, 1}}
	var u, v unit
	if k := sym.Choose("pair", sym.Param("pairs", len(pairs)+1)); k < len(pairs) {
		u, v = units[pairs[k][0]], units[pairs[k][1]]
	} else {
		i := sym.Choose("unit1", len(units))
		j := sym.Choose("unit2", len(units))
		if i == j {
			sym.Stop()
		}
		u, v = units[i], units[j]
	}
	n := sym.Digits("n", sym.Param("digits", 1))
	k := sym.Digits("k", sym.Param("digits", 1))
	N, K := num(n), num(k)
	join := []string{" ", ", ", " and "}[pick("join", 1)]
	text, sign := direction(pick("dir", 3), n+" "+u.name+"s"+join+k+" "+v.name+"s", cfg.PreferredDateSource == dps.Future)
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err == nil, "a relative expression is accepted")
	sym.Reach("two units")
	N, K = sign*N, sign*K
	want := shifted(now, N*u.year+K*v.year, N*u.month+K*v.month, N*u.day+K*v.day, N*u.second+K*v.second, cfg.PreserveEndOfMonth)
	sym.Assert(wall(r.Time) == want, "the result is the current time moved by the written amounts")
	sym.Assert(int(r.Period) == relPeriod(cfg, min(u.period, v.period)), "the period is the finest written unit")
}

// C05Clock: a written clock time replaces the time of day.
func C05Clock() {
	now := anyNow(1950, 2100)
	cfg := relCfg(now)
	u := []unit{units[0], units[1], units[2], units[6]}[pick("unit", 4)]
	n := sym.Digits("n", 1)
	h, mi := sym.Digits("h", 2), sym.Digits("mi", 2)
	sym.Assume(sym.And(num(h) < 24, num(mi) < 60))
	s, sign := direction(sym.Choose("dir", 2), n+" "+u.name+"s", false)
	text := s + []string{" ", " at "}[pick("at", 2)] + h + ":" + mi
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err == nil, "a relative expression with a clock time is accepted")
	sym.Reach("clock")
	N := sign * num(n)
	want := shifted(moment{y: now.y, m: now.m, d: now.d}, N*u.year, N*u.month, N*u.day, 0, cfg.PreserveEndOfMonth)
	sym.Assert(sym.TimeDays(r.Time)*86400 == want, "the date is the current one moved by the written amount")
	sym.Assert(sym.TimeSod(r.Time) == num(h)*3600+num(mi)*60, "the time of day is the written one")
	sym.Assert(int(r.Period) == sym.Ite(cfg.ReturnTimeAsPeriod, int(date.Minute), int(date.Day)), "the period is the day, or the minute")
}

// C05Words: yesterday, today, tomorrow and the like.
func C05Words() {
	now := anyNow(1950, 2100)
	cfg := relCfg(now)
	words := []struct {
		s                string
		year, month, day int
		p                date.Period
	}{
		{"yesterday", 0, 0, -1, date.Day}, {"today", 0, 0, 0, date.Day}, {"tomorrow", 0, 0, 1, date.Day}, {"now", 0, 0, 0, date.Day},
		{"last year", -1, 0, 0, date.Year}, {"last month", 0, -1, 0, date.Month}, {"last week", 0, 0, -7, date.Day},
		{"next year", 1, 0, 0, date.Year}, {"next month", 0, 1, 0, date.Month}, {"next week", 0, 0, 7, date.Day},
		{"a week ago", 0, 0, -7, date.Day}, {"in two weeks", 0, 0, 14, date.Day}, {"an hour ago", 0, 0, 0, date.Hour},
	}
	w := words[sym.Choose("word", len(words))]
	r, err := dps.Parse(cfg, w.s)
	obs("", r, err)
	sym.Assert(err == nil, "a relative word is accepted")
	sym.Reach("word")
	secs := 0
	if w.s == "an hour ago" {
		secs = -3600
	}
	want := shifted(now, w.year, w.month, w.day, secs, cfg.PreserveEndOfMonth)
	sym.Assert(wall(r.Time) == want, "the result is the current time moved by the named amount")
	if w.s != "now" {
		sym.Assert(int(r.Period) == relPeriod(cfg, w.p), "the period is the named unit")
	}
}

var _ = reg("C05One", C05One)
var _ = reg("C05Two", C05Two)
var _ = reg("C05Clock", C05Clock)
var _ = reg("C05Words", C05Words)

// C05Big: large amounts of hours, minutes and seconds.
func C05Big() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	k := sym.Choose("unit", 3)
	u := units[3+k]
	n := sym.Digits("n", sym.Param("more", 0)+[]int{3, 4, 5}[k])
	text, sign := direction(sym.Choose("dir", 2), n+" "+u.name+"s", false)
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err == nil, "a relative expression is accepted")
	sym.Reach("big")
	sym.Assert(wall(r.Time) == shifted(now, 0, 0, 0, sign*num(n)*u.second, false), "the result is the current time moved by the written amount")
}

// C05Overflow: amounts of more than 9223372036 seconds.
func C05Overflow() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	n := "3" + sym.Digits("n", 1) + "00000"
	text, sign := direction(sym.Choose("dir", 2), n+" hours", false)
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err == nil, "a relative expression is accepted")
	ok := wall(r.Time) == shifted(now, 0, 0, 0, sign*num(n)*3600, false)
	sym.Known(ok, "the result is the current time moved by the written amount", "overflow", num(n)*3600 > 9223372036)
}

var _ = reg("C05Big", C05Big)
var _ = reg("C05Overflow", C05Overflow)

var fractions = []struct {
	text     string
	num, den int
}{{"5", 1, 2}, {"25", 1, 4}, {"75", 3, 4}, {"125", 1, 8}, {"375", 3, 8}, {"02", 2, 100}, {"1", 1, 10}, {"29", 29, 100}, {"7", 7, 10}, {"58", 58, 100}, {"005", 5, 1000}}

// C05Fraction: an amount with a decimal fraction. The fraction of a year counts
// as months of thirty days, days of 24 hours and so on, down to whole seconds.
func C05Fraction() {
	now := fixedNow()
	if pick("now", 2) == 1 {
		now = anyNow(1950, 2100)
	}
	cfg := relCfg(now)
	cfg.ReturnTimeAsPeriod = false
	k := pick("unit", 6)
	u := units[[]int{0, 1, 2, 3, 4, 6}[k]]
	f := fractions[pick("fraction", len(fractions))]
	n := sym.Digits("n", 1+pick("nlen", 2))
	N := num(n)
	sep := []string{".", ","}[pick("comma", 2)]
	text, sign := direction(pick("dir", 3), n+sep+f.text+" "+u.name+"s", cfg.PreferredDateSource == dps.Future)
	years, months, days, secs := 0, 0, 0, 0
	rest := f.num
	next := func(per int) int {
		v := rest * per / f.den
		rest = rest*per - v*f.den
		return v
	}
	if u.name == "year" {
		years, months = N, next(12)
		days = next(30)
	} else if u.name == "month" {
		months, days = N, next(30)
	} else if u.name == "week" {
		days = N*7 + next(7)
	} else if u.name == "day" {
		days = N
	} else if u.name == "hour" {
		secs = N * 3600
	} else {
		secs = N * 60
	}
	if u.second == 0 {
		secs += next(86400)
	} else {
		secs += next(u.second)
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err == nil, "an amount with a fraction is accepted")
	sym.Reach("fraction")
	want := shifted(now, sign*years, sign*months, sign*days, sign*secs, cfg.PreserveEndOfMonth)
	sym.Assert(wall(r.Time) == want, "the result is the current time moved by the written amount")
}

var _ = reg("C05Fraction", C05Fraction)

package h

import (
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

var monthNames = []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
var dayNames = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}

var nowOffset int // of the current time's zone

func partCfg() (*dps.Configuration, moment) {
	var now moment
	if sym.Param("fixed", 0) == 0 {
		now = anyNow(1950, 2100)
	}
	if sym.Param("fixed", 0) == 1 {
		sod := sym.Int("now.sod", 0, 86399)
		if sym.Param("minutes", 0) == 1 { // any minute of three hours
			sod = []int{0, 46800, 82800}[pick("hour", 3)] + sym.Int("now.minute", 0, 59)*60
		}
		now = moment{2021, 12, 1, sod, sym.Utc(2021, 12, 1, sod, 0)}
	}
	// the current time may be in any zone
	if k := sym.Param("zone", 0); k > 0 {
		off := []int{0, 19800, -18000, 50400, -43200}[k]
		now.t = now.t.Add(-time.Duration(off) * time.Second).In(sym.Fixed("X", off))
		nowOffset = off
	} else {
		nowOffset = 0
	}
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	cfg.ReturnTimeAsPeriod = sym.Bool("timePeriod")
	return cfg, now
}

// prefDay is the preferred day in a month.
func prefDay(cfg *dps.Configuration, now moment, y, m int) int {
	last := sym.DaysIn(y, m)
	cur := sym.Ite(now.d > last, last, now.d)
	return sym.Ite(cfg.PreferredDayOfMonth == dps.First, 1, sym.Ite(cfg.PreferredDayOfMonth == dps.Last, last, cur))
}

func prefMonth(cfg *dps.Configuration, now moment) int {
	return sym.Ite(cfg.PreferredMonthOfYear == dps.FirstMonth, 1, sym.Ite(cfg.PreferredMonthOfYear == dps.LastMonth, 12, now.m))
}

// nearYear is the year of the candidate m-d nearest to now on the preferred side.
func nearYear(cfg *dps.Configuration, now moment, m, d int) int {
	after := sym.Or(m > now.m, sym.And(m == now.m, d > now.d))
	past := sym.And(cfg.PreferredDateSource == dps.Past, after)
	future := sym.And(cfg.PreferredDateSource == dps.Future, sym.Not(after))
	return now.y + sym.Ite(past, -1, sym.Ite(future, 1, 0))
}

// C04Month: a month name alone.
func C04Month() {
	cfg, now := partCfg()
	m := 1 + pick("month", 12)
	text := monthNames[m-1]
	if pick("short", 2) == 1 {
		text = text[:3]
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err != nil || sym.TimeOffset(r.Time) == nowOffset, "the zone is the current time's")
	sym.Assert(err == nil, "a month name is accepted")
	sym.Reach("month")
	// in the current month the side depends on the day that is filled in
	y1 := nearYear(cfg, now, m, 0)
	y2 := nearYear(cfg, now, m, 32)
	a := dateIs(r.Time, y1, m, prefDay(cfg, now, y1, m))
	b := dateIs(r.Time, y2, m, prefDay(cfg, now, y2, m))
	if m == now.m {
		cur := sym.And(cfg.PreferredDateSource == dps.CurrentPeriod, sym.Not(a))
		sym.Assert(sym.And(sym.Or(a, b), sym.Not(cur)), "the day is the preferred one and the year the nearest")
	} else {
		sym.Assert(a, "the day is the preferred one and the year the nearest")
	}
	sym.Assert(sym.TimeSod(r.Time) == 0, "at midnight")
	sym.Assert(r.Period == date.Month, "the period is the month")
}

// C04DayMonth: day and month, no year.
func C04DayMonth() {
	cfg, now := partCfg()
	m := 1 + pick("month", 12)
	dd := sym.Digits("d", 1+pick("dlen", 2))
	D := num(dd)
	name := monthNames[m-1]
	text := ""
	switch pick("shape", 3) {
	case 0:
		text = dd + " " + name
	case 1:
		text = name + " " + dd
	default:
		text = name[:3] + " " + dd
	}
	leapDay := sym.Decide(sym.And(m == 2, D == 29))
	exists := sym.Decide(sym.And(D >= 1, D <= sym.DaysIn(2000, m)))
	if !exists && D > 31 {
		sym.Stop() // a year
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err != nil || sym.TimeOffset(r.Time) == nowOffset, "the zone is the current time's")
	if !exists {
		sym.Reach("no such day")
		if err == nil {
			// D may only be read as a year
			sym.Assert(r.Period == date.Month, "a day that does not exist is rejected")
		}
		return
	}
	sym.Assert(err == nil, "a day and month are accepted")
	sym.Assert(sym.TimeSod(r.Time) == 0, "at midnight")
	sym.Assert(r.Period == date.Day, "the period is the day")
	if leapDay {
		sym.Reach("leap day")
		y := r.Time.Year()
		sym.Assert(dateIs(r.Time, y, 2, 29), "the written day and month are kept")
		side := sym.And(cfg.PreferredDateSource == dps.Past, sym.TimeDays(r.Time) > sym.DayNumber(now.y, now.m, now.d))
		sym.Assert(sym.Not(side), "a past date is not after the current time")
		side = sym.And(cfg.PreferredDateSource == dps.Future, sym.TimeDays(r.Time) <= sym.DayNumber(now.y, now.m, now.d))
		sym.Assert(sym.Not(side), "a future date is after the current time")
		sym.Assert(sym.And(y >= now.y-8, y <= now.y+8), "the nearest leap day")
		return
	}
	sym.Reach("day and month")
	sym.Assert(dateIs(r.Time, nearYear(cfg, now, m, D), m, D), "the year is the nearest on the preferred side")
}

// C04Year: a four digit year alone, or with a month.
func C04Year() {
	cfg, now := partCfg()
	y := sym.Digits("y", 4)
	Y := num(y)
	sym.Assume(sym.And(Y >= 1000, Y <= 9999))
	m, text, period := 0, y, date.Year
	if k := pick("month", 13); k > 0 {
		m = k
		period = date.Month
		if pick("shape", 2) == 0 {
			text = monthNames[m-1] + " " + y
		} else {
			text = y + " " + monthNames[m-1]
		}
	} else {
		m = prefMonth(cfg, now)
		sym.Assume(sym.Or(Y < 2400, Y > 2500)) // also read without separators
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err != nil || sym.TimeOffset(r.Time) == nowOffset, "the zone is the current time's")
	sym.Assert(err == nil, "a year is accepted")
	sym.Reach("year")
	sym.Assert(dateIs(r.Time, Y, m, prefDay(cfg, now, Y, m)), "the missing parts are the preferred ones")
	sym.Assert(sym.TimeSod(r.Time) == 0, "at midnight")
	sym.Assert(r.Period == period, "the period is the written unit")
}

// C04ShortYear: a two digit year.
func C04ShortYear() {
	cfg, now := partCfg()
	cfg.DateOrder = dps.DMY
	m := 1 + pick("month", 12)
	d, y := sym.Digits("d", 2), sym.Digits("y", 2)
	D, Y := num(d), num(y)
	text := ""
	switch pick("shape", 2) {
	case 0:
		text = d + " " + monthNames[m-1] + " " + y
	default:
		text = d + "/" + string([]byte{'0' + byte(m/10), '0' + byte(m%10)}) + "/" + y
	}
	// 69 is 1969 and 68 is 2068, moved by a century to the preferred side
	if sym.Decide(Y < 69) {
		Y += 2000
	} else {
		Y += 1900
	}
	sym.Assume(sym.And(sym.And(D >= 1, D <= 28), sym.And(now.y > 1970, now.y < 2068)))
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err != nil || sym.TimeOffset(r.Time) == nowOffset, "the zone is the current time's")
	sym.Assert(err == nil, "a date with a two digit year is accepted")
	sym.Reach("short year")
	after := sym.Decide(sym.DayNumber(Y, m, D) > sym.DayNumber(now.y, now.m, now.d))
	Y += sym.Ite(sym.And(cfg.PreferredDateSource == dps.Past, after), -100, sym.Ite(sym.And(cfg.PreferredDateSource == dps.Future, sym.Not(after)), 100, 0))
	sym.Assert(wallIs(r.Time, Y, m, D, 0, 0), "the century is the preferred one")
	sym.Assert(r.Period == date.Day, "the period is the day")
}

// C04Weekday: a weekday alone.
func C04Weekday() {
	cfg, now := partCfg()
	w := pick("weekday", 7)
	text := dayNames[w]
	if pick("short", 2) == 1 {
		text = text[:3]
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err != nil || sym.TimeOffset(r.Time) == nowOffset, "the zone is the current time's")
	sym.Assert(err == nil, "a weekday is accepted")
	sym.Reach("weekday")
	today := sym.DayNumber(now.y, now.m, now.d)
	days := sym.TimeDays(r.Time)
	sym.Assert(sym.FloorMod(days+4, 7) == w, "the day has the written weekday")
	lo := sym.Ite(cfg.PreferredDateSource == dps.Past, -7, sym.Ite(cfg.PreferredDateSource == dps.Future, 1, -6))
	sym.Assert(sym.And(days >= today+lo, days <= today+lo+6), "the nearest on the preferred side")
	sym.Assert(sym.TimeSod(r.Time) == 0, "at midnight")
	sym.Assert(r.Period == date.Day, "the period is the day")
}

// C04Clock: a clock time alone.
func C04Clock() {
	cfg, now := partCfg()
	h, mi := sym.Digits("h", 2), sym.Digits("mi", 2)
	sym.Assume(sym.And(num(h) < 24, num(mi) < 60))
	text := h + ":" + mi
	sod := num(h)*3600 + num(mi)*60
	if pick("seconds", 2) == 1 {
		s := sym.Digits("s", 2)
		sym.Assume(num(s) < 60)
		text += ":" + s
		sod += num(s)
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err != nil || sym.TimeOffset(r.Time) == nowOffset, "the zone is the current time's")
	sym.Assert(err == nil, "a clock time is accepted")
	sym.Reach("clock")
	today := sym.DayNumber(now.y, now.m, now.d)
	past := sym.And(cfg.PreferredDateSource == dps.Past, sod > now.sod)
	future := sym.And(cfg.PreferredDateSource == dps.Future, sod < now.sod)
	sym.Assert(sym.TimeDays(r.Time) == today+sym.Ite(past, -1, sym.Ite(future, 1, 0)), "the nearest day on the preferred side")
	sym.Assert(sym.TimeSod(r.Time) == sod, "the time of day is the written one")
}

var _ = reg("C04Month", C04Month)
var _ = reg("C04DayMonth", C04DayMonth)
var _ = reg("C04Year", C04Year)
var _ = reg("C04ShortYear", C04ShortYear)
var _ = reg("C04Weekday", C04Weekday)
var _ = reg("C04Clock", C04Clock)

// C04LeapDay: a leap day with a two digit year.
func C04LeapDay() {
	cfg, now := partCfg()
	cfg.DateOrder = dps.DMY
	y := sym.Digits("y", 2)
	text := []string{"29 February " + y, "29/02/" + y}[pick("shape", 2)]
	Y := num(y)
	sym.Assume(sym.And(Y&3 == 0, sym.And(now.y > 1970, now.y < 2068)))
	if sym.Decide(Y < 69) {
		Y += 2000
	} else {
		Y += 1900
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err != nil || sym.TimeOffset(r.Time) == nowOffset, "the zone is the current time's")
	sym.Assert(err == nil, "a date with a two digit year is accepted")
	sym.Reach("leap day of a short year")
	n := r.Time.Year() - Y
	sym.Assert(dateIs(r.Time, Y+n, 2, 29), "the written day and month are kept")
	sym.Assert(sym.And(sym.FloorMod(n, 100) == 0, sym.And(n >= -400, n <= 400)), "the written year is kept")
	after := sym.TimeDays(r.Time) > sym.DayNumber(now.y, now.m, now.d)
	sym.Assert(sym.Not(sym.And(cfg.PreferredDateSource == dps.Past, after)), "a past date is not after the current time")
	sym.Assert(sym.Not(sym.And(cfg.PreferredDateSource == dps.Future, sym.Not(after))), "a future date is after the current time")
	sym.Assert(sym.Or(cfg.PreferredDateSource != dps.CurrentPeriod, n == 0), "the year of the current period")
}

var _ = reg("C04LeapDay", C04LeapDay)

// C04WithClock: an incomplete date together with a clock time.
func C04WithClock() {
	cfg, now := partCfg()
	form := pick("form", 4)
	m, d, y, w := 0, now.d, now.y, 0
	var text string
	switch form {
	case 0: // the clock time keeps the current day
		m = 1 + pick("month", 12)
		text = monthNames[m-1]
		sym.Assume(sym.Or(m != 2, now.d < 29))
		last := sym.DaysIn(2021, m)
		d = sym.Ite(now.d > last, last, now.d)
	case 1:
		ds := sym.Digits("d", 2)
		d, m = num(ds), 1+pick("month", 12)
		sym.Assume(sym.And(d >= 1, d <= sym.DaysIn(2021, m)))
		text = ds + " " + monthNames[m-1]
	case 2:
		ys := sym.Digits("y", 4)
		y = num(ys)
		sym.Assume(sym.And(y >= 1900, y <= 2100))
		text = ys
		m = prefMonth(cfg, now)
		last := sym.DaysIn(y, m)
		d = sym.Ite(now.d > last, last, now.d)
	case 3:
		w = pick("weekday", 7)
		text = dayNames[w]
	}
	h, mi := sym.Digits("h", 2), sym.Digits("mi", 2)
	sym.Assume(sym.And(num(h) < 24, num(mi) < 60))
	sod := num(h)*3600 + num(mi)*60
	r, err := dps.Parse(cfg, text+" "+h+":"+mi)
	obs("", r, err)
	sym.Assert(err == nil, "an incomplete date with a clock time is accepted")
	sym.Reach("with clock")
	sym.Assert(sym.TimeSod(r.Time) == sod, "the time of day is the written one")
	if form == 3 {
		today, days := sym.DayNumber(now.y, now.m, now.d), sym.TimeDays(r.Time)
		sym.Assert(sym.FloorMod(days+4, 7) == w, "the day has the written weekday")
		lo := sym.Ite(cfg.PreferredDateSource == dps.Past, -7, sym.Ite(cfg.PreferredDateSource == dps.Future, 1, -6))
		sym.Assert(sym.And(days >= today+lo, days <= today+lo+6), "the nearest on the preferred side")
		return
	}
	if form < 2 {
		after := sym.Or(m > now.m, sym.And(m == now.m, sym.Or(d > now.d, sym.And(d == now.d, sod > now.sod))))
		past := sym.And(cfg.PreferredDateSource == dps.Past, after)
		future := sym.And(cfg.PreferredDateSource == dps.Future, sym.Not(after))
		y += sym.Ite(past, -1, sym.Ite(future, 1, 0))
	}
	sym.Assert(dateIs(r.Time, y, m, d), "the missing parts are filled as the preferences say")
}

var _ = reg("C04WithClock", C04WithClock)

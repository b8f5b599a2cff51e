package h

import (
	hijri "github.com/hablullah/go-hijri"
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// hijriDay is the day of a date of the Umm al-Qura calendar (its table is the
// one of the go-hijri package).
func hijriDay(y, m, d int) int {
	return sym.TimeDays(hijri.UmmAlQuraDate{Year: int64(y), Month: int64(m), Day: int64(d)}.ToGregorian())
}

// hijriLen is the length of a month.
func hijriLen(y, m int) int { return hijriDay(y, m+1, 1) - hijriDay(y, m, 1) }

// hijriDate is any day of the calendar (month 0: any month).
func hijriDate(n, month int) (ys, ms, ds string, y, m, d int) {
	ys = "1" + []string{"4", "3", "5"}[pick("century", 3)] + sym.Digits("y", 2)
	y = num(ys)
	sym.Assume(sym.And(y >= 1356, y <= 1500))
	if month == 0 {
		ms = sym.Digits("m", n)
	} else {
		ms = string([]byte{byte('0' + month/10), byte('0' + month%10)})[2-n:]
	}
	ds = sym.Digits("d", n)
	m, d = num(ms), num(ds)
	sym.Assume(sym.And(sym.And(m >= 1, m <= 12), sym.And(d >= 1, d <= 30)))
	return
}

// hijriClock is a clock time after a date, by its number.
func hijriClock(k int) (string, int) {
	if k == 0 {
		return "", 0
	}
	h, m := sym.Digits("h", 2), sym.Digits("mi", 2)
	H, M := num(h), num(m)
	sym.Assume(sym.And(H < 24, M < 60))
	switch k {
	case 1:
		return " " + h + ":" + m, H*3600 + M*60
	case 2:
		s := sym.Digits("s", 2)
		sym.Assume(num(s) < 60)
		return " " + h + ":" + m + ":" + s, H*3600 + M*60 + num(s)
	}
	sym.Assume(sym.And(H >= 1, H <= 12))
	H = sym.Ite(H == 12, 0, H)
	if k == 3 {
		return " هـ, " + h + ":" + m + " صباحاً", H*3600 + M*60
	}
	return " هـ " + h + ":" + m + " مساءً", H*3600 + M*60 + 43200
}

// C10Date: a date of the calendar, in the configured order.
func C10Date() {
	cfg := &dps.Configuration{CurrentTime: fixedNow().t}
	if pick("prefs", 2) == 1 {
		prefs(cfg)
	}
	order := "DMY"
	if k := pick("order", 7); k > 0 {
		order = orders[k-1]
		cfg.DateOrder = orderFns[k-1]
	}
	n := 2 - pick("short", 2) // day and month below ten in one digit
	month := 0
	if n == 2 {
		month = pick("month", 12) + 1
	}
	ys, ms, ds, y, m, d := hijriDate(n, month)
	if n == 2 {
		sym.Assume(d <= hijriLen(y, m))
	}
	text := arrange(order, ds, ms, ys, []string{"/", "-", " ", "."}[pick("sep", 4)])
	clock, sod := hijriClock(pick("clock", 5))
	text = inScript(text+clock, zeros[pick("script", 4)])
	r, err := dps.ParseHijri(cfg, text)
	obs("", r, err)
	sym.Reach("date")
	sym.Assert(err == nil, "a date of the calendar is accepted")
	sym.Assert(sym.TimeDays(r.Time) == hijriDay(y, m, d), "the Gregorian day is the one the calendar assigns")
	sym.Assert(sym.TimeSod(r.Time) == sod, "the time of day is the one written, or midnight")
	sym.Assert(r.Time.Nanosecond() == 0, "there is no fraction of a second")
	sym.Assert(r.Period == date.Day, "the period is the day")
}

// C10Last: the last day of every month, and the first of the next one.
func C10Last() {
	cfg := &dps.Configuration{CurrentTime: fixedNow().t}
	month := pick("month", 12) + 1
	ys, ms, _, y, m, _ := hijriDate(2, month)
	l := hijriLen(y, m)
	last := "28"
	if sym.Decide(l == 30) {
		last = "30"
	} else if sym.Decide(l == 29) {
		last = "29"
	}
	a, aerr := dps.ParseHijri(cfg, last+"/"+ms+"/"+ys)
	obs("last.", a, aerr)
	sym.Assert(aerr == nil, "the last day of a month is accepted")
	sym.Assert(sym.TimeDays(a.Time) == hijriDay(y, m, 1)+l-1, "the last day of a month is that day")
	sym.Reach("last")
	if m == 12 {
		sym.Assume(y < 1500)
		Y := y + 1
		ys = string([]byte{'1', byte('0' + Y/100%10), byte('0' + Y/10%10), byte('0' + Y%10)})
		m = 0
	}
	m++
	ms = string([]byte{byte('0' + m/10), byte('0' + m%10)})
	b, berr := dps.ParseHijri(cfg, "01/"+ms+"/"+ys)
	obs("first.", b, berr)
	sym.Assert(berr == nil, "the first day of a month is accepted")
	sym.Assert(sym.TimeDays(b.Time) == sym.TimeDays(a.Time)+1, "the first day of a month follows the last of the one before")
}

// C10Outside: a date outside the calendar is rejected.
func C10Outside() {
	cfg := &dps.Configuration{CurrentTime: fixedNow().t}
	if pick("now", 2) == 1 {
		// a current time outside the calendar
		cfg.CurrentTime = sym.Utc([]int{1900, 2100}[pick("time", 2)], 5, 6, 0, 0)
	}
	prefs(cfg)
	ys := sym.Digits("y", 4)
	y := num(ys)
	sym.Assume(sym.Or(y < 1356, y > 1500))
	n := pick("digits", 3)
	var text string
	switch n {
	case 0:
		text = sym.Digits("d", 2) + "/" + sym.Digits("m", 2) + "/" + ys
	case 1:
		text = "30/12/" + ys
	default:
		text = sym.Digits("m", 2) + "/" + ys
	}
	r, err := dps.ParseHijri(cfg, text)
	obs("", r, err)
	sym.Reach("outside")
	sym.Assert(err != nil, "a date outside the calendar is rejected")
}

// C10Now: with a part missing there is a date or an error, whatever the current time.
func C10Now() {
	cfg := &dps.Configuration{CurrentTime: sym.Utc([]int{1900, 1937, 2021, 2077, 2100}[pick("year", 5)], []int{1, 3, 11, 12}[pick("month", 4)], 14, 0, 0)}
	prefs(cfg)
	text := sym.Digits("d", 2) + []string{"/", " "}[pick("sep", 2)] + sym.Digits("m", 2)
	var r date.Date
	var err error
	msg := sym.Catch(func() { r, err = dps.ParseHijri(cfg, text) })
	must(msg)
	obs("", r, err)
	sym.Reach("now")
	sym.Assert((err == nil) != r.Time.IsZero(), "the result is a date or an error")
}

var _ = reg("C10Date", C10Date)
var _ = reg("C10Last", C10Last)
var _ = reg("C10Outside", C10Outside)
var _ = reg("C10Now", C10Now)

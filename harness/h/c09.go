package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// jalaliNewYear is the day (since 1970-01-01) of 1 Farvardin by the cycle of
// 33 years, which agrees with the astronomical calendar for 1178..1633.
func jalaliNewYear(y int) int { return 365*(y-1) + sym.FloorDiv(8*y+21, 33) + 1948320 - 2440588 }

// jalaliNewYear2 is the same by the rule of Borkowski for the years after 1210
// of the old and before 1635 of the new cycle; C09Cycle shows that they agree.
func jalaliNewYear2(y int) int {
	n := y - 1210
	leap := 8*sym.FloorDiv(n, 33) + sym.FloorDiv(sym.FloorMod(n, 33)+3, 4)
	g := y + 621
	leapG := sym.FloorDiv(g, 4) - sym.FloorDiv((sym.FloorDiv(g, 100)+1)*3, 4) - 150
	return sym.DayNumber(g, 3, 1) + 19 + leap + 294 - leapG
}

// C09Cycle: the two rules agree.
func C09Cycle() {
	y := sym.Int("y", 1210, 1629)
	sym.Reach("cycle")
	sym.ObsInt("newyear", jalaliNewYear(y))
	sym.Assert(jalaliNewYear(y) == jalaliNewYear2(y), "the two rules of the Jalali calendar agree")
}

var _ = reg("C09Cycle", C09Cycle)

func jalaliLeap(y int) bool { return jalaliNewYear(y+1)-jalaliNewYear(y) == 366 }

// jalaliDay is the day of a Jalali date.
func jalaliDay(y, m, d int) int {
	return jalaliNewYear2(y) + sym.Ite(m <= 7, 31*(m-1), 30*(m-1)+6) + d - 1
}

func jalaliLen(y, m int) int {
	return sym.Ite(m <= 6, 31, sym.Ite(sym.Or(m < 12, jalaliLeap(y)), 30, 29))
}

// jalaliYear is a year of four digits in 1210..1629.
func jalaliYear() (string, int) {
	c := "23456"[pick("century", 5)]
	s := "1" + string([]byte{c}) + sym.Digits("y", 2)
	y := num(s)
	sym.Assume(sym.And(y >= 1210, y <= 1629))
	return s, y
}

func isJalali(t date.Date, err error, y, m, d, sod int) {
	sym.Assert(err == nil, "a valid Jalali date is accepted")
	sym.Assert(sym.TimeDays(t.Time) == jalaliDay(y, m, d), "the Gregorian day is the one the Jalali date denotes")
	sym.Assert(sym.TimeSod(t.Time) == sod, "the time of day is the one written, or midnight")
	sym.Assert(t.Time.Nanosecond() == 0, "there is no fraction of a second")
	sym.Assert(t.Period == date.Day, "the period is the day")
}

var zeros = []rune{'0', 0x6F0, 0x660, 0xFF10}
var clockForms = 5

// jalaliClock is a clock time after a date, by its number.
func jalaliClock(k int) (string, int) {
	if k == 0 {
		return "", 0
	}
	h, m := sym.Digits("h", 2), sym.Digits("mi", 2)
	sym.Assume(sym.And(num(h) < 24, num(m) < 60))
	sod := num(h)*3600 + num(m)*60
	switch k {
	case 1:
		return " " + h + ":" + m, sod
	case 2:
		return " ساعت " + h + ":" + m, sod
	}
	s := sym.Digits("s", 2)
	sym.Assume(num(s) < 60)
	sod += num(s)
	if k == 3 {
		return " " + h + ":" + m + ":" + s, sod
	}
	return " ساعت " + h + " و " + m + " دقیقه و " + s + " ثانیه", sod
}

// jalaliNow is the current time.
func jalaliNow() moment {
	if pick("now", 2) == 0 {
		return fixedNow()
	}
	return anyNow(1950, 2100)
}

// C09Digits: a date written in digits, in the configured order.
func C09Digits() {
	cfg := &dps.Configuration{CurrentTime: jalaliNow().t}
	if cfg.CurrentTime.Day() != 5 {
		prefs(cfg)
	}
	order := "DMY"
	if k := pick("order", 7); k > 0 {
		order = orders[k-1]
		cfg.DateOrder = orderFns[k-1]
	}
	ys, y := jalaliYear()
	short := pick("short", 2) == 1 // day and month below ten in one digit
	n := 2
	if short {
		n = 1
	}
	ms, ds := sym.Digits("m", n), sym.Digits("d", n)
	m, d := num(ms), num(ds)
	sym.Assume(sym.And(m >= 1, m <= 12))
	m = sym.Concrete(m)
	sym.Assume(sym.And(sym.And(m >= 1, m <= 12), sym.And(d >= 1, d <= jalaliLen(y, m))))
	text := arrange(order, ds, ms, ys, []string{"/", "-", " ", "."}[pick("sep", 4)])
	clock, sod := jalaliClock(pick("clock", clockForms))
	text = inScript(text+clock, zeros[pick("script", 4)])
	r, err := dps.ParseJalali(cfg, text)
	obs("", r, err)
	sym.Reach("digits")
	isJalali(r, err, y, m, d, sod)
}

var jalaliMonths = []string{"فروردین", "اردیبهشت", "خرداد", "تیر", "مرداد", "شهریور", "مهر", "آبان", "آذر", "دی", "بهمن", "اسفند"}
var jalaliWeekdays = []string{"", "شنبه ", "یکشنبه ", "دوشنبه ", "سه شنبه ", "چهارشنبه ", "پنجشنبه ", "جمعه "}
var jalaliOrdinals = []string{"یکم", "دوم", "سوم", "چهارم", "پنجم", "ششم", "هفتم", "هشتم", "نهم", "دهم", "یازدهم", "دوازدهم", "سیزدهم", "چهاردهم", "پانزدهم",
	"شانزدهم", "هفدهم", "هجدهم", "نوزدهم", "بیستم", "بیست و یکم", "بیست و دوم", "بیست و سوم", "بیست و چهارم", "بیست و پنجم", "بیست و ششم", "بیست و هفتم", "بیست و هشتم", "بیست و نهم", "سی ام", "سی و یکم"}

// C09Names: the month is a name, the day digits or spelled out.
func C09Names() {
	cfg := &dps.Configuration{CurrentTime: jalaliNow().t}
	if cfg.CurrentTime.Day() != 5 {
		prefs(cfg)
	}
	if k := pick("order", 7); k > 0 {
		cfg.DateOrder = orderFns[k-1]
	}
	m := pick("month", 12) + 1
	ys, y := jalaliYear()
	var day string
	var d int
	switch pick("day", 3) {
	case 0:
		day = sym.Digits("d", 2)
		d = num(day)
	case 1:
		day = sym.Digits("d", 1)
		d = num(day)
	default:
		d = pick("spelled", 31) + 1
		day = jalaliOrdinals[d-1]
	}
	sym.Assume(sym.And(d >= 1, d <= jalaliLen(y, m)))
	clock, sod := jalaliClock(pick("clock", clockForms))
	text := jalaliWeekdays[pick("weekday", 8)] + inScript(day+" "+jalaliMonths[m-1]+" "+ys+clock, zeros[pick("script", 4)])
	r, err := dps.ParseJalali(cfg, text)
	obs("", r, err)
	sym.Reach("names")
	isJalali(r, err, y, m, d, sod)
}

var _ = reg("C09Digits", C09Digits)
var _ = reg("C09Names", C09Names)

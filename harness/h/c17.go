package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// cut reads the year (in ylen digits), month and day of s in an order.
func cut(order, s string, ylen int) (y, m, d int, rest string) {
	for i := 0; i < 3; i++ {
		n := 2
		if order[i] == 'Y' {
			n = ylen
		}
		v := num(s[:n])
		s = s[n:]
		switch order[i] {
		case 'Y':
			y = v
		case 'M':
			m = v
		default:
			d = v
		}
	}
	return y, m, d, s
}

// secondsOf reads hhmm or hhmmss.
func secondsOf(s string) (sod int, ok bool) {
	if s == "" {
		return 0, true
	}
	H, M, S := num(s[:2]), num(s[2:4]), 0
	if len(s) > 4 {
		S = num(s[4:])
	}
	return H*3600 + M*60 + S, sym.And(H < 24, sym.And(M < 60, S < 60))
}

// layouts are the documented readings of eight digits, best first.
var layouts = []string{"MDY", "DMY", "YMD", "YDM", "MYD", "DYM"}

// c17 parses s, cut in the order given or the language's.
func c17(cfg *dps.Configuration, order, s, text string) {
	Y, M, D, rest := cut(order, s, 4)
	sod, clock := secondsOf(rest)
	ok := sym.Decide(sym.And(Y >= 1000, sym.And(isDate(Y, M, D), clock)))
	switch v := sym.Param("valid", 0); {
	case v == 1 && !ok:
		sym.Stop()
	case v == 2:
		if ok {
			sym.Stop()
		}
		some := false
		for _, o := range layouts {
			y, m, d, _ := cut(o, s, 4)
			some = sym.Or(some, sym.And(y >= 1000, isDate(y, m, d)))
		}
		sym.Assume(some)
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	if ok {
		sym.Reach("valid")
		sym.Assert(err == nil, "a date in the prescribed order is accepted")
		here := sym.And(dateIs(r.Time, Y, M, D), sym.TimeSod(r.Time) == sod)
		if order == "MDY" && len(s) == 14 {
			// YYYYMMDDhhmmss is documented to be preferred
			y, m, d, _ := cut("YMD", s, 4)
			here = sym.Or(here, sym.And(sym.And(y >= 1000, isDate(y, m, d)), sym.And(dateIs(r.Time, y, m, d), sym.TimeSod(r.Time) == sod)))
		}
		sym.Assert(here, "the digits are cut in the prescribed order")
		sym.Assert(sym.TimeOffset(r.Time) == 0, "the zone is UTC")
		sym.Assert(r.Time.Nanosecond() == 0, "to the second")
		sym.Assert(r.Period == date.Day, "the period is the day")
		return
	}
	any, none := false, true
	if len(s) == 8 {
		for _, o := range layouts {
			y, m, d, _ := cut(o, s, 4)
			is := sym.And(y >= 1000, isDate(y, m, d))
			if err == nil {
				any = sym.Or(any, sym.And(sym.And(none, is), wallIs(r.Time, y, m, d, 0, 0)))
			}
			none = sym.And(none, sym.Not(is))
		}
	}
	if err != nil {
		sym.Reach("rejected")
		sym.Assert(none, "a date in a documented layout is accepted")
		return
	}
	sym.Reach("other layout")
	if sym.Decide(none) {
		if sym.Param("loose", 1) == 1 {
			sym.Assert(someCut(r, s), "another layout is read digit by digit")
		}
	} else {
		sym.Assert(any, "the first documented layout that makes a date decides")
	}
	sym.Assert(r.Period == date.Day, "the period is the day")
}

// C17Ordered: eight digits, or fourteen with a clock time, cut in the
// configured order.
func C17Ordered() {
	now := anyNow(1950, 2100)
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	o := pick("order", 6)
	cfg.DateOrder = orderFns[o]
	s := ""
	if p := sym.Param("prefix", 0); p > 0 {
		s = string([]byte{'0' + byte(p/10), '0' + byte(p%10)})
	}
	s += sym.Digits("s", []int{8, 14}[pick("len", 2)]-len(s))
	text := s
	if len(s) > 8 && pick("colon", 2) == 1 {
		text = s[:10] + ":" + s[10:12] + ":" + s[12:]
	}
	c17(cfg, orders[o], s, text)
}

// C17Lang: without a configured order the language's applies.
func C17Lang() {
	now := fixedNow()
	l := c03langs[pick("lang", len(c03langs))]
	cfg := &dps.Configuration{Languages: []string{l.lang}, Region: l.region, CurrentTime: now.t}
	s := sym.Digits("s", 8)
	c17(cfg, l.order, s, s)
}

// someCut: the result is some cut of the digits into year, month, day and
// perhaps hour, minute and second, in any order of the first three.
func someCut(r date.Date, s string) bool {
	ok := false
	days, sod := sym.TimeDays(r.Time), sym.TimeSod(r.Time)
	for _, order := range orders {
		ok = cuts(ok, order, s, 0, 0, 0, 0, days, sod)
	}
	return ok
}

func cuts(ok bool, order, s string, i, y, m, d, days, sod int) bool {
	if i == 3 {
		is := sym.And(isDate(y, m, d), sym.DayNumber(y, m, d) == days)
		if s == "" {
			return sym.Or(ok, sym.And(is, sod == 0))
		}
		return clocks(ok, is, s, 0, 3600, 24, sod)
	}
	sizes := []int{1, 2}
	if order[i] == 'Y' {
		sizes = []int{4, 3, 2, 1}
	}
	for _, n := range sizes {
		if n > len(s) || len(s)-n > 2*(2-i)+2+6 {
			continue
		}
		v := num(s[:n])
		switch order[i] {
		case 'Y':
			if n < 3 {
				ok = cuts(ok, order, s[n:], i+1, sym.Ite(v < 69, 2000, 1900)+v, m, d, days, sod)
			} else {
				ok = cuts(ok, order, s[n:], i+1, v, m, d, days, sod)
			}
		case 'M':
			ok = cuts(ok, order, s[n:], i+1, y, v, d, days, sod)
		default:
			ok = cuts(ok, order, s[n:], i+1, y, m, v, days, sod)
		}
	}
	return ok
}

func clocks(ok, is bool, s string, sum, unit, lim, sod int) bool {
	if s == "" {
		return sym.Or(ok, sym.And(is, sum == sod))
	}
	if unit == 0 {
		return ok
	}
	for n := 1; n <= 2 && n <= len(s); n++ {
		v := num(s[:n])
		ok = clocks(ok, sym.And(is, v < lim), s[n:], sum+v*unit, unit/60, 60, sod)
	}
	return ok
}

var _ = reg("C17Ordered", C17Ordered)
var _ = reg("C17Lang", C17Lang)

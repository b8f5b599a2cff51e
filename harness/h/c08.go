package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

const (
	partDay = 1 << iota
	partMonth
	partYear
)

// strictText is a text, the parts it states and whether its digits may be read
// in more than one way.
func strictText() (string, int, bool) {
	d, m, y, yy := func() string { return sym.Digits("d", 2) }, func() string { return sym.Digits("m", 2) },
		func() string { return sym.Digits("y", 4) }, func() string { return sym.Digits("yy", 2) }
	clock := func() string {
		h, mi := sym.Digits("h", 2), sym.Digits("mi", 2)
		sym.Assume(sym.And(num(h) < 24, num(mi) < 60))
		return h + ":" + mi
	}
	year := func() string {
		s := y()
		sym.Assume(num(s) >= 1401)
		return s
	}
	all := partDay | partMonth | partYear
	k := pick("text", 20)
	switch k {
	case 0:
		return d() + "/" + m() + "/" + y(), all, false
	case 1:
		return d() + " November " + year(), all, false
	case 2:
		return "Friday, November " + d() + ", " + year(), all, false
	case 3:
		return "Nov " + d() + ", " + year() + " " + clock(), all, false
	case 4:
		return year() + "-" + m() + "-" + d(), all, false
	case 5:
		return "November " + year(), partMonth | partYear, false
	case 6:
		return d() + " November", partDay | partMonth, true
	case 7:
		return "November", partMonth, false
	case 8:
		return y(), partYear, false
	case 9:
		return clock(), 0, false
	case 10:
		return "Friday", 0, false
	case 11:
		return d() + "/" + m(), 0, true
	case 12:
		return m() + "/" + year(), partYear, true
	case 13:
		return "Friday " + clock(), 0, false
	case 14:
		return "November " + year() + " " + clock(), partMonth | partYear, false
	case 15:
		return m() + " " + y(), partYear, true
	case 16:
		h, mi, s := sym.Digits("h", 2), sym.Digits("mi", 2), sym.Digits("s", 2)
		sym.Assume(sym.And(num(h) < 24, sym.And(num(mi) < 60, num(s) < 60)))
		return h + ":" + mi + ":" + s, 0, false
	}
	switch k {
	case 18:
		return d() + m() + yy() + sym.Digits("z", 2), all, false
	case 19:
		h, mi := sym.Digits("h", 2), sym.Digits("mi", 2)
		return "2021" + m() + d() + h + mi + "30", all, false
	}
	return d() + "-" + m() + "-" + yy(), all, true
}

func sameDate(a, b date.Date) bool {
	return sym.And(sym.And(sym.TimeDays(a.Time) == sym.TimeDays(b.Time), sym.TimeSod(a.Time) == sym.TimeSod(b.Time)),
		sym.And(a.Period == b.Period, sym.And(sym.TimeOffset(a.Time) == sym.TimeOffset(b.Time), a.Time.Nanosecond() == b.Time.Nanosecond())))
}

var partNames = []string{"day", "month", "year", "Day", "MONTH", "yEAR"}

// C08Strict compares parsing with and without the options.
func C08Strict() {
	now := fixedNow()
	text, parts, loose := strictText()
	cfg := dps.Configuration{CurrentTime: now.t}
	if pick("lang", 2) == 0 {
		cfg.Languages = []string{"en"}
	} else {
		cfg.Languages = []string{"en", "ja"}
	}
	if k := pick("order", 7); k < 6 {
		cfg.DateOrder = orderFns[k]
	}
	with := cfg
	need := 0
	k := pick("required", 9) // 0: strict, 1..7 the required parts, 8 both
	if k == 0 || k == 8 {
		with.StrictParsing = true
		need = 7
	}
	if k > 0 {
		c := pick("case", 2) * 3
		for i := 0; i < 3; i++ {
			if k == 8 && i == 1 || k&(1<<i) != 0 && k < 8 {
				with.RequiredParts = append(with.RequiredParts, partNames[i+c])
				need |= 1 << i
			}
		}
	}
	a, e0 := dps.Parse(&cfg, text)
	b, e1 := dps.Parse(&with, text)
	obs("without.", a, e0)
	obs("with.", b, e1)
	if e1 == nil {
		sym.Assert(e0 == nil, "what is accepted with the options is accepted without")
		sym.Assert(sameDate(a, b), "the result is the one without the options")
		sym.Reach("accepted")
	}
	if loose {
		// digits that may be a day, a month or a year
		if need == 7 && parts != 7 {
			sym.Assert(e1 != nil, "an incomplete date is rejected")
			sym.Reach("incomplete")
		}
		return
	}
	if parts&need != need {
		sym.Reach("incomplete")
		sym.Assert(e1 != nil, "an incomplete date is rejected")
	} else {
		sym.Reach("complete")
		sym.Assert((e0 == nil) == (e1 == nil), "a date with the needed parts is accepted as without the options")
	}
}

// C08Names: which names of parts are valid.
func C08Names() {
	now := fixedNow()
	var name string
	switch pick("name", 4) {
	case 0:
		name = sym.Text("name", 3, "dDaAyYs")
	case 1:
		name = sym.Text("name", 5, "mMoONnTthH")
	case 2:
		name = sym.Text("name", 4, "yYeEaArRd")
	default:
		name = []string{"", "days", "years", "hour", "time", "weekday", "d", "m", "y", "day ", " month"}[pick("other", 11)]
	}
	cfg := &dps.Configuration{CurrentTime: now.t, Languages: []string{"en"}, RequiredParts: []string{name}}
	if pick("second", 2) == 1 {
		cfg.RequiredParts = []string{"day", name}
	}
	r, err := dps.Parse(cfg, "November 5, 2021")
	obs("", r, err)
	is := func(w string) bool {
		if len(name) != len(w) {
			return false
		}
		ok := true
		for i := 0; i < len(w); i++ {
			ok = sym.And(ok, sym.Or(name[i] == w[i], name[i] == w[i]-32))
		}
		return ok
	}
	ok := sym.Or(is("day"), sym.Or(is("month"), is("year")))
	if sym.Decide(ok) {
		sym.Reach("valid name")
		sym.Assert(err == nil, "day, month and year are valid required parts")
		sym.Assert(dateIs(r.Time, 2021, 11, 5), "the date is the one written")
	} else {
		sym.Reach("invalid name")
		sym.Assert(err != nil, "another name is a configuration error")
	}
}

var _ = reg("C08Strict", C08Strict)
var _ = reg("C08Names", C08Names)

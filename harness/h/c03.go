package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

var seps = []string{"/", "-", ".", " "}

// C03: a numeric date with a four digit year. The parts are written in order
// and read with the order given or, without one, the language's.
func c03check(d date.Date, err error, Y, M, D int) {
	if sym.Decide(isDate(Y, M, D)) {
		sym.Reach("valid")
		sym.Assert(err == nil, "a valid date in the prescribed order is accepted")
		sym.Assert(wallIs(d.Time, Y, M, D, 0, 0), "the date is the one written, at midnight")
		sym.Assert(sym.TimeOffset(d.Time) == 0, "the date is in the current time's zone")
		sym.Assert(d.Period == date.Day, "the period is the day")
		return
	}
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("other order")
	sym.Assert(isDate(Y, D, M), "a date that does not exist is rejected")
	sym.Assert(wallIs(d.Time, Y, D, M, 0, 0), "only the swapped order is another reading")
	sym.Assert(d.Period == date.Day, "the period is the day")
}

func C03Order() {
	now := anyNow(1950, 2100)
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	o := sym.Choose("order", 6)
	cfg.DateOrder = orderFns[o]
	sep := seps[pick("sep", 4)]
	y := sym.Digits("y", 4)
	d := sym.Digits("d", 1+sym.Choose("dlen", 2))
	m := sym.Digits("m", 1+sym.Choose("mlen", 2))
	Y, M, D := num(y), num(m), num(d)
	if sep == "-" {
		sym.Assume(Y > 1400) // less also reads as a UTC offset
	}
	sym.Assume(Y >= 2)
	r, err := dps.Parse(cfg, arrange(orders[o], d, m, y, sep))
	obs("", r, err)
	c03check(r, err, Y, M, D)
}

// C03Year: a leading four digit year is the year whatever the order says, and
// so is the only four digit number anywhere.
func C03Year() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	cfg.DateOrder = orderFns[sym.Choose("order", 6)]
	shape := []string{"YMD", "YDM", "DMY", "MDY", "DYM", "MYD"}[pick("shape", 6)]
	sep := seps[pick("sep", 4)]
	y := sym.Digits("y", 4)
	d := sym.Digits("d", 2)
	m := sym.Digits("m", 2)
	Y, M, D := num(y), num(m), num(d)
	if sep == "-" {
		sym.Assume(Y > 1400) // less also reads as a UTC offset
	}
	sym.Assume(Y >= 2)
	r, err := dps.Parse(cfg, arrange(shape, d, m, y, sep))
	obs("", r, err)
	if err != nil {
		return
	}
	sym.Reach("read")
	a := sym.And(isDate(Y, M, D), wallIs(r.Time, Y, M, D, 0, 0))
	b := sym.And(isDate(Y, D, M), wallIs(r.Time, Y, D, M, 0, 0))
	sym.Assert(sym.Or(a, b), "the four digit number is the year and the others day and month")
	sym.Assert(r.Period == date.Day, "the period is the day")
}

var c03langs = []struct {
	lang, region, order string
}{
	{"en", "", "MDY"}, {"en", "GB", "DMY"}, {"fr", "", "DMY"}, {"hu", "", "YMD"}, {"de", "", "DMY"}, {"es", "", "DMY"}, {"it", "", "DMY"},
	{"pt", "", "DMY"}, {"nl", "", "DMY"}, {"ru", "", "DMY"}, {"ja", "", "YMD"}, {"zh", "", "YMD"}, {"ko", "", "YMD"},
	{"ar", "", "DMY"}, {"id", "", "DMY"}, {"tr", "", "DMY"},
	{"hr", "", "DMY"}, {"bg", "", "DMY"},
}

// C03Lang: without a configured order the language's own applies.
func C03Lang() {
	now := fixedNow()
	l := c03langs[pick("lang", len(c03langs))]
	cfg := &dps.Configuration{Languages: []string{l.lang}, Region: l.region, CurrentTime: now.t}
	sep := []string{"/", "-"}[sym.Choose("sep", 2)]
	y := sym.Digits("y", 4)
	d := sym.Digits("d", 2)
	m := sym.Digits("m", 2)
	Y, M, D := num(y), num(m), num(d)
	if sep == "-" {
		sym.Assume(Y > 1400) // less also reads as a UTC offset
	}
	sym.Assume(Y >= 2)
	r, err := dps.Parse(cfg, arrange(l.order, d, m, y, sep))
	obs("", r, err)
	c03check(r, err, Y, M, D)
}

var _ = reg("C03Order", C03Order)
var _ = reg("C03Year", C03Year)
var _ = reg("C03Lang", C03Lang)

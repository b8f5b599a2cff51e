package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// c15Call is one of the calls that run at the same time.
func c15Call(k int, tag string) call {
	now := fixedNow().t
	d := func(n string) string {
		if tag == "before." || sym.Param("fixed", 0) == 1 {
			return "1"
		}
		return sym.Digits(tag+n, 1)
	}
	in := func(l ...string) *dps.Configuration { return &dps.Configuration{Languages: l, CurrentTime: now} }
	switch k {
	case 0:
		return call{"parse", "1" + d("d") + " May 2012", in("en")}
	case 1: // remembers the locale
		c := in("en", "fr", "de")
		c.TryPreviousLocales = true
		return call{"parse", "1" + d("d") + " mai 2012", c}
	case 2: // uses what is remembered
		c := in("en", "fr", "de")
		c.TryPreviousLocales = true
		return call{"parse", "0" + d("d") + ".03.2012", c}
	case 3:
		return call{"search", "on 1" + d("d") + " May 2012.", in("en")}
	case 4:
		return call{"search", "le 1" + d("d") + " mars 2012 groß", in("fr", "de", "en")}
	case 5:
		return call{"search", "1" + d("d") + " мая 2014", in("ru", "en", "uk")}
	case 6:
		return call{"hijri", "0" + d("d") + "-10-1433", &dps.Configuration{CurrentTime: now}}
	case 7:
		return call{"jalali", "1" + d("d") + " مهر 1398", &dps.Configuration{CurrentTime: now}}
	case 8: // without a current time
		return call{"parse", "20120" + d("d") + "03", &dps.Configuration{Languages: []string{"en"}}}
	default:
		c := in("en")
		c.PreferredDateSource = dps.Future
		return call{"parse", "10:1" + d("i") + " EST", c}
	}
}

const c15Calls = 10

func c15Parser() *dps.Parser {
	p := &dps.Parser{}
	switch pick("used", 2) {
	case 1:
		c15Call(2, "before.").do(p)
		c15Call(5, "before.").do(p)
	}
	return p
}

// C15Race: every order of the memory accesses of two calls on one parser.
func C15Race() {
	a, b := c15Call(pick("a", c15Calls), "a."), c15Call(pick("b", c15Calls), "b.")
	p := c15Parser()
	sym.Reach("threads")
	sym.Threads("two calls on one parser", func() { must(a.do(p).msg) }, func() { must(b.do(p).msg) })
}

var _ = reg("C15Race", C15Race)

// C15Default: the same with the parser behind the package functions.
func C15Default() {
	a, b := c15Call(pick("a", c15Calls), "a."), c15Call(pick("b", c15Calls), "b.")
	run := func(c call) {
		must(sym.Catch(func() {
			switch c.kind {
			case "search":
				dps.Search(c.cfg, c.text)
			case "hijri":
				dps.ParseHijri(c.cfg, c.text)
			case "jalali":
				dps.ParseJalali(c.cfg, c.text)
			default:
				dps.Parse(c.cfg, c.text)
			}
		}))
	}
	sym.Reach("default parser")
	sym.Threads("two calls of the package functions", func() { run(a) }, func() { run(b) })
}

var _ = reg("C15Default", C15Default)

// matches: two calls gave the same.
func matches(c call, a, b found) bool {
	if (a.msg == "") != (b.msg == "") || (a.err != nil) != (b.err != nil) {
		return false
	}
	if c.kind != "search" {
		if a.err != nil {
			return true
		}
		return a.one.Time.Equal(b.one.Time) && a.one.Period == b.one.Period && a.one.Locale == b.one.Locale
	}
	if a.lang != b.lang || len(a.list) != len(b.list) {
		return false
	}
	for i := range a.list {
		x, y := a.list[i], b.list[i]
		if x.Text != y.Text || !x.Date.Time.Equal(y.Date.Time) || x.Date.Period != y.Date.Period {
			return false
		}
	}
	return true
}

// C15Order: a call that happens as a whole within another one, at any point
// where the lock is free, gives both what they give one after the other.
func C15Order() {
	ka, kb := pick("a", c15Calls), pick("b", c15Calls)
	a, b := c15Call(ka, "a."), c15Call(kb, "b.")
	used := pick("used", 2) == 1
	mk := func() *dps.Parser {
		p := &dps.Parser{}
		if used {
			c15Call(2, "before.").do(p)
			c15Call(5, "before.").do(p)
		}
		return p
	}
	p := mk()
	ab1 := a.do(p)
	ab2 := b.do(p)
	q := mk()
	ba2 := b.do(q)
	ba1 := a.do(q)
	r := mk()
	var x, y found
	sym.Interleave(func() { x = a.do(r) }, func() { y = b.do(r) })
	sym.Reach("order")
	must(x.msg)
	must(y.msg)
	sym.Assert((matches(a, x, ab1) && matches(b, y, ab2)) || (matches(a, x, ba1) && matches(b, y, ba2)), "as if one call had run after the other")
}

var _ = reg("C15Order", C15Order)

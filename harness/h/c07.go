package h

import (
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// call is one call of the public interface.
type call struct {
	kind string // parse, search, hijri, jalali
	text string
	cfg  *dps.Configuration
}

type found struct {
	lang string
	list []dps.SearchResult
	one  date.Date
	err  error
	msg  string
}

// do makes the call on a parser.
func (c call) do(p *dps.Parser) found {
	var f found
	f.msg = sym.Catch(func() {
		switch c.kind {
		case "search":
			f.lang, f.list, f.err = p.Search(c.cfg, c.text)
		case "hijri":
			f.one, f.err = dps.ParseHijri(c.cfg, c.text)
		case "jalali":
			f.one, f.err = dps.ParseJalali(c.cfg, c.text)
		default:
			f.one, f.err = p.Parse(c.cfg, c.text)
		}
	})
	return f
}

// equal asserts that two calls gave the same.
func equal(tag string, c call, a, b found) {
	sym.Assert((a.msg == "") == (b.msg == ""), tag+": both return")
	if a.msg != "" {
		return
	}
	if c.kind != "search" {
		same(tag, dateErr{a.one, a.err}, dateErr{b.one, b.err})
		return
	}
	sym.Assert((a.err != nil) == (b.err != nil), tag+": both searches succeed or fail")
	sym.Assert(a.lang == b.lang, tag+": the language found is the same")
	sym.Assert(len(a.list) == len(b.list), tag+": as many dates are found")
	for i := range a.list {
		sym.Assert(sym.EqStr(a.list[i].Text, b.list[i].Text), tag+": the pieces found are the same")
		same(tag, dateErr{a.list[i].Date, nil}, dateErr{b.list[i].Date, nil})
	}
}

func (f found) observe(tag string, c call) {
	if c.kind != "search" {
		obs(tag, f.one, f.err)
		return
	}
	sym.ObsBool(tag+"err", f.err != nil)
	sym.ObsStr(tag+"lang", f.lang)
	sym.ObsInt(tag+"n", len(f.list))
	for i := range f.list {
		obs(tag, f.list[i].Date, nil)
		_ = i
	}
}

var fourLangs = []string{"en", "es", "fr", "ru", "de"}

const c07Calls = 25

// c07Call is the k-th call; its digits are symbolic, named after tag.
func c07Call(k int, tag string) call {
	now := fixedNow().t
	d := func(n string, k int) string {
		if tag != "" && sym.Param("fixed", 0) == 1 {
			return "10"[:k]
		}
		return sym.Digits(tag+n, k)
	}
	many := func() *dps.Configuration { return &dps.Configuration{Languages: fourLangs, CurrentTime: now} }
	in := func(l ...string) *dps.Configuration { return &dps.Configuration{Languages: l, CurrentTime: now} }
	switch k {
	case 0:
		return call{"parse", "0" + d("m", 1) + "/" + d("d", 2) + "/202" + d("y", 1), many()}
	case 1: // month first
		c := in("en")
		c.DateOrder = dps.MDY
		return call{"parse", "0" + d("d", 1) + "-1" + d("m", 1) + "-19" + d("y", 2), c}
	case 2: // without spaces
		return call{"parse", "20" + d("y", 2) + "0" + d("m", 1) + d("d", 2), in("en")}
	case 3:
		return call{"parse", d("d", 1) + "1" + d("m", 1) + "1" + d("y", 2), in("fr")}
	case 4: // strict: some parts missing
		c := in("en")
		c.StrictParsing = true
		return call{"parse", "19" + d("y", 2) + d("m", 1) + "0" + d("d", 1), c}
	case 5:
		return call{"parse", "Mon 1" + d("d", 1) + " May 20" + d("y", 2), in("en")}
	case 6: // two month names
		return call{"parse", "1" + d("d", 1) + " May March 20" + d("y", 2), in("en")}
	case 7: // zone and preferences
		c := in("en")
		c.DefaultTimezone = time.FixedZone("X", -18000)
		c.PreferredDateSource = dps.Future
		return call{"parse", "1" + d("h", 1) + ":5" + d("i", 1) + " EST", c}
	case 8: // leaves a used locale behind, for the calls that ask for it
		c := many()
		c.TryPreviousLocales = true
		return call{"parse", "hace " + d("n", 2) + " días", c}
	case 9:
		if sym.Param("fixed", 0) == 1 && tag != "" {
			return call{"parse", "mars", in("fr")}
		}
		c := in("en", "fr")
		c.PreferredDateSource = dps.Past
		c.PreferredDayOfMonth = dps.Last
		return call{"parse", []string{"february", "mars", "2020", "Friday"}[sym.Choose(tag+"word", 4)], c}
	case 10:
		return call{"parse", "0" + d("a", 1) + ".0" + d("b", 1) + ".20" + d("y", 2), &dps.Configuration{Locales: []string{"de-AT", "fr-CA", "en-US"}, CurrentTime: now}}
	case 11:
		return call{"hijri", "0" + d("d", 1) + "-1" + d("m", 1) + "-1433 1" + d("h", 1) + ":22 مساءً", &dps.Configuration{CurrentTime: now}}
	case 12:
		return call{"jalali", "1" + d("d", 1) + " مهر 139" + d("y", 1), &dps.Configuration{CurrentTime: now}}
	case 13:
		return call{"search", "Released (Friday, 1" + d("d", 1) + " May, 201" + d("y", 1) + ").", in("en")}
	case 14:
		return call{"search", "le 1" + d("d", 1) + " mars 201" + d("y", 1) + " puis 2 juin 1998", many()}
	case 15:
		return call{"search", "встреча 1" + d("d", 1) + " мая 2014", in("ru", "uk", "bg")}
	case 16:
		c := in("en")
		c.DateOrder = dps.DMY
		c.DefaultTimezone = time.FixedZone("X", 7200)
		return call{"search", "on 0" + d("a", 1) + "/0" + d("b", 1) + "/2012 it", c}
	case 17: // detection by common and shared characters
		return call{"search", "1" + d("d", 1) + " juin 2013 jeudi", in("fr", "en", "de", "it")}
	case 18: // decided by a letter that one language has for itself
		return call{"search", "1" + d("d", 1) + " mars 2012 groß", in("en", "fr", "de")}
	case 19:
		return call{"search", "1" + d("d", 1) + " may. 2012", in("ru", "en", "es")}
	case 20: // detected by the letters of one of two languages
		return call{"search", "20" + d("y", 2), in("zh", "ja")}
	case 21:
		return call{"search", "їжак " + d("d", 1) + ".5.2012", in("uk", "ru")}
	case 22:
		c := in("en")
		c.PreserveEndOfMonth, c.CurrentTime = true, time.Date(2021, 2, 28, 10, 20, 0, 0, time.UTC)
		return call{"search", "it was " + d("n", 1) + " months ago", c}
	case 23:
		c := in("fr")
		c.SkipTokens, c.RequiredParts = []string{"zut"}, []string{"month"}
		return call{"parse", "1" + d("d", 1) + " zut mars", c}
	default: // no current time: what was found before is the base
		return call{"search", "May 1" + d("d", 1) + " 2012, two days later", &dps.Configuration{Languages: []string{"en"}, CurrentTime: now}}
	}
}

// C07Maps: no dependence on the order in which maps are visited.
func C07Maps() {
	c := c07Call(pick("call", c07Calls), "")
	a := c.do(&dps.Parser{})
	a.observe("", c)
	mode := 1 + pick("mode", 2)
	if sym.Param("init", 1) == 1 {
		// every package of the module initialised with its maps visited in another order
		sym.Reinit(mode)
	}
	if sym.Param("symmaps", 0) == 1 {
		sym.SymMapOrder(true)
	} else {
		sym.MapOrder(mode)
	}
	b := c.do(&dps.Parser{})
	sym.SymMapOrder(false)
	sym.Reach("maps")
	equal("map order", c, a, b)
}

var _ = reg("C07Maps", C07Maps)

var histories = map[int]*dps.Parser{}

// C07Earlier: no dependence on earlier calls, whatever came of them: one call
// with any digits, or a history of every call of the list (digits fixed).
func C07Earlier() {
	from := pick("first", c07Calls)
	p := &dps.Parser{}
	if sym.Param("history", 0) == 1 {
		sym.Once(string(rune('a'+from)), func() {
			q := &dps.Parser{}
			for i := 0; i < c07Calls; i++ {
				if e := c07Call((from+i)%c07Calls, "first.").do(q); e.msg != "" {
					panic("earlier call: " + e.msg)
				}
			}
			histories[from] = q
		})
		p = histories[from]
	} else {
		first := c07Call(from, "first.")
		if sym.Param("searches", 0) == 1 && first.kind != "search" {
			sym.Assume(false)
		}
		e := first.do(p)
		sym.Assert(e.msg == "", "no panic")
	}
	next := 0
	if sym.Param("near", 0) == 1 { // the call that follows in the list
		next = (from + 1) % c07Calls
	} else {
		next = pick("call", c07Calls)
	}
	c := c07Call(next, "")
	if sym.Param("searches", 0) == 1 && c.kind != "search" {
		sym.Assume(false)
	}
	a := c.do(&dps.Parser{})
	b := c.do(p)
	b.observe("", c)
	sym.Reach("earlier")
	equal("earlier call", c, a, b)
}

var _ = reg("C07Earlier", C07Earlier)

// C07Previous: with the previous locales tried first, an earlier locale that
// can read the text decides, and else nothing changes.
func C07Previous() {
	now := fixedNow().t
	mk := func(prev bool, l ...string) *dps.Configuration {
		return &dps.Configuration{Languages: l, CurrentTime: now, TryPreviousLocales: prev}
	}
	k := pick("earlier", 4)
	lang := []string{"es", "de", "ru", ""}[k]
	words := []string{"mañana", "gestern", "понедельник", "xyzzy"}[k]
	p := &dps.Parser{}
	switch sym.Param("noise", 0) {
	case 1: // a call that fails leaves no trace
		p.Parse(mk(true, fourLangs...), "9"+sym.Digits("e", 1)+"/88/2020")
	}
	p.Parse(mk(true, fourLangs...), words)
	var text string
	switch pick("text", 4) {
	case 0:
		text = "0" + sym.Digits("a", 1) + "/" + sym.Digits("b", 2) + "/201" + sym.Digits("y", 1)
	case 1:
		text = "1" + sym.Digits("a", 1) + ". 0" + sym.Digits("b", 1) + ". 19" + sym.Digits("y", 2)
	case 2:
		text = "1" + sym.Digits("a", 1) + " mars 201" + sym.Digits("y", 1)
	default:
		text = "20" + sym.Digits("y", 2) + "-0" + sym.Digits("m", 1) + "-" + sym.Digits("d", 2)
	}
	cfg := mk(true, fourLangs...)
	got := call{"parse", text, cfg}.do(p)
	must(got.msg)
	obs("", got.one, got.err)
	plain := call{"parse", text, mk(false, fourLangs...)}
	want := plain.do(&dps.Parser{})
	if lang != "" {
		if own := (call{"parse", text, mk(false, lang)}).do(&dps.Parser{}); own.err == nil && own.msg == "" {
			want = own
		}
	}
	sym.Reach("previous")
	equal("previous locales", plain, want, got)
}

var _ = reg("C07Previous", C07Previous)

// C07Config: the configuration of the caller stays as it was.
func C07Config() {
	now := fixedNow().t
	zone := time.FixedZone("X", 3600)
	cfg := &dps.Configuration{
		Locales:          []string{"fr-CA", "de", "en-US"},
		Languages:        []string{"ru", "fr", "en"},
		Region:           "ca",
		DefaultLanguages: []string{"es", "en"},
		DateOrder:        dps.YDM,
		CurrentTime:      now,
		DefaultTimezone:  zone,
		RequiredParts:    []string{"Year", "month"},
		SkipTokens:       []string{"x", "t"},
	}
	cfg.TryPreviousLocales = sym.Bool("prev")
	cfg.UseGivenOrder = sym.Bool("given")
	cfg.StrictParsing = sym.Bool("strict")
	cfg.ReturnTimeAsPeriod = sym.Bool("period")
	cfg.PreserveEndOfMonth = sym.Bool("eom")
	switch pick("list", 4) {
	case 1:
		cfg.Locales, cfg.Region = nil, ""
	case 2:
		cfg.Locales, cfg.Languages, cfg.SkipTokens = nil, []string{"en", "fr"}, nil
	case 3:
		cfg.CurrentTime, cfg.RequiredParts, cfg.Region = time.Time{}, nil, ""
	}
	prefs(cfg)
	keep := *cfg
	cp := func(s []string) []string {
		if s == nil {
			return nil
		}
		return append([]string{}, s...)
	}
	lists := [][]string{cp(cfg.Locales), cp(cfg.Languages), cp(cfg.DefaultLanguages), cp(cfg.RequiredParts), cp(cfg.SkipTokens)}
	d := func(n string, k int) string { return sym.Digits(n, k) }
	var c call
	switch pick("text", 6) {
	case 0:
		c = call{"parse", "0" + d("a", 1) + "/0" + d("b", 1) + "/201" + d("y", 1) + " 10:15", cfg}
	case 1:
		c = call{"parse", "février 20" + d("y", 2), cfg}
	case 2:
		c = call{"search", "vu le 1" + d("a", 1) + " mars 2012 hier", cfg}
	case 3:
		c = call{"hijri", "0" + d("a", 1) + "-10-1433", cfg}
	case 4:
		c = call{"jalali", "1" + d("a", 1) + " مهر 1398", cfg}
	default:
		c = call{"parse", d("a", 1) + " months ago", cfg}
	}
	p := &dps.Parser{}
	f := c.do(p)
	must(f.msg)
	sym.Reach("config")
	eq := func(a, b []string) bool {
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	now2 := [][]string{cfg.Locales, cfg.Languages, cfg.DefaultLanguages, cfg.RequiredParts, cfg.SkipTokens}
	for i := range lists {
		sym.Assert(eq(lists[i], now2[i]), "the lists stay as they were")
	}
	sym.Assert(cfg.Region == keep.Region, "the region stays")
	sym.Assert(cfg.DateOrder != nil && cfg.DateOrder("en") == "YDM", "the date order stays")
	sym.Assert(cfg.CurrentTime.IsZero() == keep.CurrentTime.IsZero(), "the current time stays")
	if !keep.CurrentTime.IsZero() {
		sym.Assert(sym.And(sym.TimeDays(cfg.CurrentTime) == sym.TimeDays(keep.CurrentTime), sym.TimeSod(cfg.CurrentTime) == sym.TimeSod(keep.CurrentTime)), "the current time stays")
	}
	sym.Assert(cfg.DefaultTimezone == keep.DefaultTimezone, "the default time zone stays")
	sym.Assert(sym.And(cfg.PreferredDayOfMonth == keep.PreferredDayOfMonth, sym.And(cfg.PreferredMonthOfYear == keep.PreferredMonthOfYear, cfg.PreferredDateSource == keep.PreferredDateSource)), "the preferences stay")
	sym.Assert(sym.And(cfg.TryPreviousLocales == keep.TryPreviousLocales, sym.And(cfg.UseGivenOrder == keep.UseGivenOrder, sym.And(cfg.StrictParsing == keep.StrictParsing, sym.And(cfg.ReturnTimeAsPeriod == keep.ReturnTimeAsPeriod, cfg.PreserveEndOfMonth == keep.PreserveEndOfMonth)))), "the options stay")
}

var _ = reg("C07Config", C07Config)

// C07Again: the same text under two configurations, one after the other; the
// second call gives what its own configuration asks for.
func C07Again() {
	nowA, nowB := fixedNow().t, time.Date(2003, 2, 20, 23, 59, 0, 0, time.UTC)
	zoneA, zoneB := time.FixedZone("A", -18000), time.FixedZone("B", 20700)
	flip := pick("flip", 2) == 1
	two := func(x, y *dps.Configuration) (*dps.Configuration, *dps.Configuration) {
		if flip {
			return y, x
		}
		return x, y
	}
	p := &dps.Parser{}
	run := func(text string, a, b *dps.Configuration) (date.Date, error) {
		p.Parse(a, text)
		if sym.Param("search", 0) == 1 {
			p.Search(a, "on "+text)
		}
		q := p
		if sym.Choose("fresh", 2) == 1 {
			q = &dps.Parser{}
		}
		d, err := q.Parse(b, text)
		obs("", d, err)
		sym.Reach("again")
		return d, err
	}
	en := func(now time.Time) *dps.Configuration {
		return &dps.Configuration{Languages: []string{"en"}, CurrentTime: now}
	}
	switch pick("text", 8) {
	case 0:
		x, y := sym.Digits("x", 1), sym.Digits("y", 1)
		sym.Assume(sym.And(num(x) > 0, num(y) > 0))
		a, b := en(nowA), en(nowA)
		a.DateOrder, b.DateOrder = dps.DMY, dps.MDY
		a, b = two(a, b)
		d, err := run("0"+x+"/0"+y+"/2012", a, b)
		sym.Assert(err == nil, "a date")
		if flip {
			sym.Assert(dateIs(d.Time, 2012, num(y), num(x)), "read in its own order")
		} else {
			sym.Assert(dateIs(d.Time, 2012, num(x), num(y)), "read in its own order")
		}
	case 1:
		n := sym.Digits("n", 2)
		a, b := two(en(nowA), en(nowB))
		d, err := run(n+" days ago", a, b)
		sym.Assert(err == nil, "a date")
		sym.Assert(sym.TimeDays(d.Time) == sym.TimeDays(b.CurrentTime)-num(n), "counted from its own current time")
	case 2:
		i := sym.Digits("i", 1)
		a, b := en(nowA), en(nowA)
		a.DefaultTimezone, b.DefaultTimezone = zoneA, zoneB
		a, b = two(a, b)
		d, err := run("2012-05-03 10:1"+i, a, b)
		sym.Assert(err == nil, "a date")
		_, off := nowA.In(b.DefaultTimezone).Zone()
		sym.Assert(sym.And(sym.TimeOffset(d.Time) == off, sym.TimeSod(d.Time) == 36600+60*num(i)), "in its own time zone")
	case 3:
		i := sym.Digits("i", 1)
		a, b := en(nowA), en(nowA)
		a.SkipTokens = []string{"t", "xx"}
		a, b = two(a, b)
		d, err := run("1"+i+" xx May 2012", a, b)
		if flip {
			sym.Assert(err == nil, "the token is skipped")
			sym.Assert(dateIs(d.Time, 2012, 5, 10+num(i)), "the token is skipped")
		} else {
			sym.Assert(err != nil, "the token is not skipped")
		}
	case 4:
		i := sym.Digits("i", 1)
		a, b := en(nowA), en(nowA)
		a.Languages = []string{"fr"}
		a, b = two(a, b)
		d, err := run("1"+i+" mai 2012", a, b)
		if flip {
			sym.Assert(err == nil, "read in its own language")
			sym.Assert(d.Locale == "fr", "read in its own language")
		} else {
			sym.Assert(err != nil, "not read in the other language")
		}
	case 5:
		y := sym.Digits("y", 1)
		a, b := en(nowA), en(nowA)
		a.PreferredDayOfMonth, b.PreferredDayOfMonth = dps.First, dps.Last
		a, b = two(a, b)
		d, err := run("April 201"+y, a, b)
		sym.Assert(err == nil, "a date")
		sym.Assert(dateIs(d.Time, 2010+num(y), 4, sym.Ite(flip, 1, 30)), "its own preferred day")
	case 6:
		y := sym.Digits("y", 1)
		a, b := en(nowA), en(nowA)
		a.StrictParsing = true
		a, b = two(a, b)
		_, err := run("April 201"+y, a, b)
		sym.Assert((err != nil) == flip, "its own strictness")
	default:
		i := sym.Digits("i", 1)
		a, b := en(nowA), en(nowA)
		a.PreferredDateSource, b.PreferredDateSource = dps.Past, dps.Future
		a, b = two(a, b)
		d, err := run("1"+i+" November", a, b)
		sym.Assert(err == nil, "a date")
		sym.Assert(dateIs(d.Time, sym.Ite(flip, 2020, 2021), 11, 10+num(i)), "its own preferred year")
	}
}

var _ = reg("C07Again", C07Again)

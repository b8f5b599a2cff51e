package h

import (
	"fmt"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// written is what a text states; -1: not written.
type written struct {
	y, m, d, yday, sod, ns int
}

func two(n string) (string, int)  { s := sym.Digits(n, 2); return s, num(s) }
func four(n string) (string, int) { s := sym.Digits(n, 4); return s, num(s) }

// layoutText is a layout, a text written after it and its components; ok tells
// whether the components are in their ranges.
func layoutText() (layout, text string, w written, ok bool) {
	w = written{-1, -1, -1, -1, 0, 0}
	ok = true
	clock := func(secs bool) string {
		h, H := two("h")
		mi, M := two("mi")
		s := h + ":" + mi
		ok = sym.And(ok, sym.And(H < 24, M < 60))
		w.sod = H*3600 + M*60
		if secs {
			x, S := two("s")
			s += ":" + x
			ok = sym.And(ok, S < 60)
			w.sod += S
		}
		return s
	}
	var y, m, d string
	year := func() { y, w.y = four("y"); ok = sym.And(ok, w.y >= 2) }
	month := func() { m, w.m = two("m"); ok = sym.And(ok, sym.And(w.m >= 1, w.m <= 12)) }
	day := func() { d, w.d = two("d"); ok = sym.And(ok, w.d >= 1) }
	switch pick("layout", 16) {
	case 0:
		year()
		month()
		day()
		return "2006-01-02", y + "-" + m + "-" + d, w, ok
	case 1:
		day()
		month()
		year()
		return "02/01/2006", d + "/" + m + "/" + y, w, ok
	case 2:
		month()
		day()
		w.y = 2021
		return "01.02.2006 15:04:05", m + "." + d + ".2021 " + clock(true), w, ok
	case 3:
		year()
		w.m = 2
		return "January 2006", "February " + y, w, ok
	case 4:
		year()
		return "2006", y, w, ok
	case 5:
		day()
		w.m = []int{2, 4, 1}[pick("month", 3)]
		return "Jan 02", []string{"", "Jan", "Feb", "", "Apr"}[w.m] + " " + d, w, ok
	case 6:
		year()
		day()
		return "2006 (02)", y + " (" + d + ")", w, ok
	case 7:
		return "15:04", clock(false), w, ok
	case 8:
		month()
		year()
		return "2006/01", y + "/" + m, w, ok
	case 9:
		yy, YY := two("yy")
		y, w.y = "20"+yy, 2000+YY
		a := sym.Digits("n", 3)
		w.yday = num(a)
		leap := sym.Ite(sym.DaysIn(w.y, 2) == 29, 366, 365)
		return "2006-002", y + "-" + a, w, sym.And(ok, sym.And(w.yday >= 1, w.yday <= leap))
	case 10:
		w.m = []int{2, 4, 12}[pick("month", 3)]
		return "January", []string{"", "", "February", "", "April", "", "", "", "", "", "", "", "December"}[w.m], w, ok
	case 11:
		day()
		return "(02)", "(" + d + ")", w, ok
	case 12:
		month()
		day()
		return "01-02", m + "-" + d, w, ok
	case 13:
		year()
		month()
		day()
		return "20060102T1504", y + m + d + "T1020", func() written { w.sod = 37200; return w }(), ok
	case 14:
		month()
		day()
		w.y = 2021
		h, H := two("h")
		f := sym.Digits("f", 3)
		w.sod, w.ns = H*3600+20*60+30, num(f)*1000000
		return "01/02/2006 15:04:05.000", m + "/" + d + "/2021 " + h + ":20:30." + f, w, sym.And(ok, H < 24)
	}
	month()
	h, H := two("h")
	pm := pick("pm", 2)
	w.sod = sym.Ite(H == 12, 0, H)*3600 + pm*43200
	return "01, 03PM", m + ", " + h + []string{"AM", "PM"}[pm], w, sym.And(ok, sym.And(H >= 1, H <= 12)) // day and year missing
}

// C14Layout: a text written after a layout.
func C14Layout() {
	now := fixedNow()
	if sym.Param("now", 0) == 1 {
		now = anyNow(1950, 2100)
	}
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	cfg.DateOrder = []dps.DateOrder{nil, dps.DMY}[pick("order", 2)]
	layout, text, w, ok := layoutText()
	formats := []string{layout}
	if pick("before", 2) == 1 {
		formats = []string{"Mon Jan _2 15:04:05 MST 2006", "3 February Oops", layout, "2006"} // the first two match nothing
	}
	sym.Assume(ok)
	r, err := dps.Parse(cfg, text, formats...)
	obs("", r, err)
	period := date.Day
	switch {
	case w.yday >= 0:
	case w.m < 0:
		period = date.Year
	case w.d < 0:
		period = date.Month
	}
	y, m, d := w.y, w.m, w.d
	if y < 0 {
		y = now.y
	}
	if m < 0 && w.yday < 0 {
		m = sym.Ite(int(cfg.PreferredMonthOfYear) == 0, now.m, sym.Ite(int(cfg.PreferredMonthOfYear) == 1, 1, 12))
	}
	if w.yday >= 0 {
		sym.Reach("day of year")
		sym.Assert(err == nil, "a text matching a layout is accepted")
		sym.Assert(sym.TimeDays(r.Time) == sym.DayNumber(y, 1, 1)+w.yday-1, "the day of the year is the one written")
		sym.Assert(r.Period == date.Day, "the period is the day")
		return
	}
	last := sym.DaysIn(y, m)
	if d < 0 {
		d = sym.Ite(int(cfg.PreferredDayOfMonth) == 0, sym.Ite(now.d < last, now.d, last), sym.Ite(int(cfg.PreferredDayOfMonth) == 1, 1, last))
	} else if sym.Decide(d > last) {
		if w.y < 0 && w.m >= 0 && sym.Decide(sym.And(m == 2, d == 29)) {
			sym.Reach("leap day")
			sym.Assert(err == nil, "a leap day without a year is accepted")
			sym.Assert(sym.And(int(r.Time.Month()) == 2, r.Time.Day() == 29), "day and month are as written")
			ry := r.Time.Year()
			sym.Assert(sym.And(ry-now.y <= 8, now.y-ry <= 8), "the year is the nearest leap year")
			return
		}
		sym.Reach("no such day")
		if err == nil {
			sym.Assert(sym.Or(w.m < 0, sym.Not(sym.And(r.Period == period, sym.TimeDays(r.Time) == sym.DayNumber(y, m, 1)+d-1))), "a day does not spill into the next month")
		}
		return
	}
	sym.Reach("matched")
	sym.Assert(err == nil, "a text matching a layout is accepted")
	sym.Assert(dateIs(r.Time, y, m, d), "written parts are kept and missing ones filled")
	sym.Assert(sym.And(sym.TimeSod(r.Time) == w.sod, r.Time.Nanosecond() == w.ns), "the time of day is the one written")
	if w.d < 0 || w.m >= 0 {
		sym.Assert(r.Period == period, "the period names what the layout contains")
	}
}

// C14First: the first matching layout decides.
func C14First() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	ls := []string{"01/02/2006", "02/01/2006", "02/01/06", "02/01/2006", "2006/01/02", "01/02/06"}
	i := pick("first", 6)
	j := pick("then", 6)
	d, m := sym.Digits("d", 2), sym.Digits("m", 2)
	text := d + "/" + m + "/" + sym.Digits("y", 2)
	if pick("four", 2) == 0 {
		text += sym.Digits("z", 2)
		sym.Assume(num(text[6:]) >= 2)
	}
	both, e := dps.Parse(cfg, text, ls[i], ls[j])
	a, ea := dps.Parse(cfg, text, ls[i])
	obs("both.", both, e)
	obs("first.", a, ea)
	none, en := dps.Parse(cfg, text)
	b, eb := dps.Parse(cfg, text, ls[j])
	// a layout matched if its reading of the text is found in no guess
	match := func(l string) bool {
		yl := 4
		if len(l) == 8 {
			yl = 2
		}
		if l[0] == '2' {
			return false
		}
		if len(text) != 6+yl {
			return false
		}
		D, M := num(d), num(m)
		if l[1] == '1' {
			D, M = M, D
		}
		y := num(text[6:])
		if yl == 2 {
			y = sym.Ite(y >= 69, 1900+y, 2000+y)
		}
		return sym.Decide(isDate(y, M, D))
	}
	if match(ls[i]) {
		sym.Reach("first")
		sym.Assert(e == nil && ea == nil, "a matching layout is used")
		sym.Assert(sameDate(both, a), "the first matching layout decides")
	} else if match(ls[j]) {
		sym.Reach("second")
		sym.Assert(e == nil && eb == nil, "a matching layout is used")
		sym.Assert(sameDate(both, b), "the second layout decides when the first does not match")
	} else {
		sym.Reach("none")
		sym.Assert((e == nil) == (en == nil), "without a matching layout the text is parsed as without layouts")
		if e == nil {
			sym.Assert(sameDate(both, none), "without a matching layout the result is the one without layouts")
		}
	}
}

// C14Names: layouts with month names match the names of other languages.
func C14Names() {
	now := fixedNow()
	l := []struct{ lang, name string }{{"fr", "novembre"}, {"de", "November"}, {"es", "noviembre"}, {"ru", "ноября"}, {"it", "novembre"}, {"pt", "novembro"}, {"nl", "november"}, {"pl", "listopada"}}[pick("lang", 8)]
	cfg := &dps.Configuration{Languages: []string{l.lang}, CurrentTime: now.t}
	prefs(cfg)
	d, D := two("d")
	y, Y := four("y")
	sym.Assume(sym.And(sym.And(D >= 1, D <= 30), Y >= 1000))
	var r date.Date
	var err error
	want := D
	switch pick("form", 3) {
	case 0:
		r, err = dps.Parse(cfg, d+" "+l.name+" "+y, "02 January 2006")
	case 1:
		r, err = dps.Parse(cfg, l.name+" "+d+" "+y, "January 02 2006")
	default:
		r, err = dps.Parse(cfg, l.name+" "+y, "January 2006")
		want = sym.Ite(int(cfg.PreferredDayOfMonth) == 0, 5, sym.Ite(int(cfg.PreferredDayOfMonth) == 1, 1, 30))
	}
	obs("", r, err)
	sym.Reach("name")
	sym.Assert(err == nil, "a layout matches the translated text")
	sym.Assert(dateIs(r.Time, Y, 11, want), "the components are as written")
}

// C14None: texts no layout matches.
func C14None() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	var text string
	switch pick("text", 7) {
	case 0:
		text = sym.Digits("n", 1) + " days ago"
	case 1:
		text = "November " + sym.Digits("d", 2)
	case 2:
		text = sym.Digits("h", 2) + ":" + sym.Digits("mi", 2)
	case 3:
		text = "tomorrow"
	case 4:
		text = "15" + sym.Digits("n", 8)
	case 5:
		text = sym.Digits("d", 2) + "-" + sym.Digits("m", 2) + "-2021"
	default:
		text = "202111" + sym.Digits("d", 2)
	}
	a, ea := dps.Parse(cfg, text)
	b, eb := dps.Parse(cfg, text, []string{"2006/01/02 15:04", "Monday", "02.01.2006", "2006T", "January, 2006"}[:pick("formats", 5)+1]...)
	obs("a.", a, ea)
	obs("b.", b, eb)
	sym.Reach("none")
	sym.Assert((ea == nil) == (eb == nil), "without a matching layout the text is parsed as without layouts")
	if ea == nil {
		sym.Assert(sameDate(a, b), "without a matching layout the result is the one without layouts")
	}
}

// C14Zone: layouts with and without a zone.
func C14Zone() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t, DefaultTimezone: anyDefault(2)}
	d, D := two("d")
	h, H := two("h")
	sym.Assume(sym.And(sym.And(D >= 1, D <= 30), H < 24))
	text, layout := "2021-11-"+d+" "+h+":20", "2006-01-02 15:04"
	want := 0
	switch pick("zone", 3) {
	case 0:
		if cfg.DefaultTimezone != nil {
			want = sym.TimeOffset(now.t.In(cfg.DefaultTimezone))
		}
	case 1:
		off := offsets[pick("offset", len(offsets))]
		sign, a := "+", off
		if off < 0 {
			sign, a = "-", -off
		}
		text += fmt.Sprintf(" %s%02d:%02d", sign, a/60, a%60)
		layout += " -07:00"
		want = off * 60
	default:
		z := zones[pick("name", 40)]
		text += " " + z.name
		layout += " MST"
		want = z.off * 60
	}
	r, err := dps.Parse(cfg, text, layout)
	obs("", r, err)
	sym.Reach("zone")
	sym.Assert(err == nil, "a text matching a layout is accepted")
	sym.Assert(wallIs(r.Time, 2021, 11, D, H*3600+1200, 0), "the components are as written")
	sym.Assert(sym.TimeOffset(r.Time) == want, "the offset is the one written, or the default's")
}

var _ = reg("C14Zone", C14Zone)
var _ = reg("C14Layout", C14Layout)
var _ = reg("C14First", C14First)
var _ = reg("C14Names", C14Names)
var _ = reg("C14None", C14None)

package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

var clockDates = []string{"2021-11-05", "5 November 2021", "Nov 5, 2021", "Friday, November 5, 2021", "05/11/2021", "11.05.2021"}
var clockSeps = []string{" ", ", ", " at ", "T"}

// meridian writes am or pm; pm tells which.
func meridian() (string, bool) {
	k := pick("meridian", 6)
	return []string{" am", " pm", "AM", "pm", " a.m.", " p.m."}[k], k%2 == 1
}

// C16Clock: a date followed by a clock time.
func C16Clock() {
	now := anyNow(1950, 2100)
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	cfg.ReturnTimeAsPeriod = sym.Bool("timePeriod")
	text := clockDates[pick("date", 4)]
	if text[2] == '/' {
		cfg.DateOrder = dps.DMY
	}
	k := pick("sep", 4)
	if clockSeps[k] == "T" && text != clockDates[0] {
		sym.Stop()
	}
	text += clockSeps[k]
	form := pick("form", 8) // hh:mm, hh:mm:ss, hh:mm:ss.f, h:mm m, h:mm:ss m, h:mm:ss.f m, h m, h:mm
	hlen := 2
	if form >= 3 && pick("hlen", 2) == 0 || form == 7 {
		hlen = 1
	}
	h := sym.Digits("h", hlen)
	H, M, S, ns := num(h), 0, 0, 0
	ok := H < 24
	text += h
	period := date.Hour
	if form != 6 {
		m := sym.Digits("m", 2)
		text += ":" + m
		M = num(m)
		ok = sym.And(ok, M < 60)
		period = date.Minute
	}
	if form == 1 || form == 2 || form == 4 || form == 5 {
		s := sym.Digits("s", 2)
		text += ":" + s
		S = num(s)
		ok = sym.And(ok, S < 60)
		period = date.Second
	}
	if form == 2 || form == 5 {
		n := 6 - pick("flen", 6)
		f := sym.Digits("f", n)
		text += "." + f
		ns = num(f)
		for ; n < 9; n++ {
			ns *= 10
		}
	}
	if form >= 3 && form <= 6 {
		s, pm := meridian()
		text += s
		ok = sym.And(ok, sym.And(H >= 1, H <= 12))
		// 24 hour times with a redundant pm are not twelve hour times
		sym.Assume(sym.Or(ok, sym.Or(H > 23, sym.Or(M > 59, S > 59))))
		H = sym.Ite(H == 12, 0, H)
		if pm {
			H += 12
		}
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	if sym.Decide(ok) {
		sym.Reach("valid")
		sym.Assert(err == nil, "a date with a clock time is accepted")
		sym.Assert(dateIs(r.Time, 2021, 11, 5), "the date is the one written")
		sym.Assert(sym.TimeSod(r.Time) == H*3600+M*60+S, "the time of day is the one written")
		sym.Assert(r.Time.Nanosecond() == ns, "the fraction of the second is the one written")
		sym.Assert(sym.TimeOffset(r.Time) == 0, "the zone is the current time's")
		sym.Assert(int(r.Period) == sym.Ite(cfg.ReturnTimeAsPeriod, int(period), int(date.Day)), "the period is the day, or the finest unit")
		return
	}
	sym.Reach("invalid")
	sym.Assert(err != nil, "a clock time that does not exist is not accepted")
}

var _ = reg("C16Clock", C16Clock)

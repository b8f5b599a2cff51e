package h

import (
	"fmt"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// The layouts that programs write, in the notation: W, w weekday in full or
// short; B, b month name; m, d month and day in two digits; e the day without
// a leading zero; E padded by a space; n month without a leading zero; Y, y
// year in four or two digits; H, M, S; I, p hour of twelve and AM or PM; f, g
// fraction in three or six digits; z +0100; Z +01:00 or Z; N zone by name.
var machine = []string{
	"Y-m-dTH:M:SZ",                       // RFC 3339
	"w, d b Y H:M:S N",                   // RFC 1123, HTTP
	"w, d b Y H:M:S z",                   // RFC 1123 with offset, e-mail
	"w b E H:M:S Y",                      // ANSI C
	"w b E H:M:S N Y",                    // Unix date
	"w b e H:M:S Y z",                    // git
	"Y-m-dTH:M:S.fZ",                     // JSON
	"Y-m-d H:M:S.g",                      // SQL
	"Y-m-d H:M:S z",                      // git iso
	"W, d-b-y H:M:S N",                   // RFC 850
	"d b y H:M N",                        // RFC 822
	"n/e/Y I:M:S p",                      // en-US
	"b e, Y, I:M:S p",                    // en-US, newer
	"W, B e, Y I:M p",                    // long
	"w b d Y H:M:S GMTz (Standard Time)", // JavaScript
	"Y/m/d H:M:S",
	"e-b-Y H:M", // Apache index
	"Y-m-d H:M:S.gZ",
	"w, e b Y H:M:S z",
	"Y-m-dTH:MZ",
}

// C19Machine: what a program wrote is read back.
func C19Machine() {
	now, usual := fixedNow(), true
	if pick("now", 2) == 1 {
		now, usual = anyNow(1950, 2100), false
	}
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	if pick("prefs", 2) == 1 {
		prefs(cfg)
		usual = false
	}
	cfg.ReturnTimeAsPeriod = sym.Bool("timePeriod")
	layout := machine[pick("layout", len(machine))]
	if (layout == machine[9] || layout == machine[10]) && !usual {
		sym.Stop() // for the year in two digits see C04
	}
	if layout[0] == 'Y' && pick("lang", 2) == 1 {
		// other languages: those that write the year first, or told to do so
		k := pick("other", 6)
		cfg.Languages = []string{[]string{"fr", "de", "ru", "fa", "ja", "zh"}[k]}
		if k < 3 {
			cfg.DateOrder = dps.YMD
		}
	}
	y, mo, d, H, M, S, ns, off, wd := 0, 0, 0, 0, 0, 0, 0, 0, -1
	text, name, period := "", "", date.Minute
	pm := false
	// part 1: only the date is open; 2: only the clock time; 3: names and zones only
	part := sym.Param("part", 0)
	digits := func(n string, k int) string {
		clock := n == "hour" || n == "minute" || n == "second" || n == "fraction"
		if part == 3 || part == 1 && clock || part == 2 && !clock {
			switch n {
			case "year":
				return "2007"[4-k:]
			case "hour":
				return "11"[:k]
			case "minute", "month":
				return "09"[2-k:]
			case "day":
				return "24"[:k]
			}
			return "058300"[:k]
		}
		return sym.Digits(n, k)
	}
	two := func(n string, lo, hi int) (string, int) {
		s := digits(n, 2)
		v := num(s)
		sym.Assume(sym.And(v >= lo, v <= hi))
		return s, v
	}
	// a number without a leading zero
	bare := func(n string, hi int) (string, int) {
		if pick(n+" digits", 2) == 1 {
			s := digits(n, 1)
			sym.Assume(num(s) > 0)
			return s, num(s)
		}
		return two(n, 10, hi)
	}
	for i, n := 0, len(layout); i < n; i++ {
		c, s := layout[i], ""
		if layout[i] == 'G' || layout[i] == '(' {
			if c == 'G' {
				text += "GMT"
				i += 2
			} else {
				text += layout[i:]
				break
			}
			continue
		}
		switch c {
		case 'W', 'w':
			wd = pick("weekday", 7)
			s = dayNames[wd]
			if c == 'w' {
				s = s[:3]
			}
		case 'B', 'b':
			mo = 1 + pick("month", 12)
			s = monthNames[mo-1]
			if c == 'b' {
				s = s[:3]
			}
		case 'm':
			s, mo = two("month", 1, 12)
		case 'n':
			s, mo = bare("month", 12)
		case 'd':
			s, d = two("day", 1, 31)
		case 'e', 'E':
			s, d = bare("day", 31)
			if c == 'E' && len(s) == 1 {
				s = " " + s
			}
		case 'Y':
			s = digits("year", 4)
			y = num(s)
			sym.Assume(y >= 1000)
		case 'y':
			s = digits("year", 2)
			y = num(s)
			y += sym.Ite(y >= 69, 1900, 2000)
		case 'H':
			s, H = two("hour", 0, 23)
		case 'I':
			s, H = bare("hour", 12)
			H = sym.Ite(H == 12, 0, H)
		case 'M':
			s, M = two("minute", 0, 59)
		case 'S':
			s, S = two("second", 0, 59)
			period = date.Second
		case 'p':
			pm = pick("pm", 2) == 1
			s = "AM"
			if pm {
				s = "PM"
				H += 12
			}
		case 'f':
			s = digits("fraction", 3)
			ns = num(s) * 1000000
		case 'g':
			s = digits("fraction", 6)
			ns = num(s) * 1000
		case 'z', 'Z':
			off = offsets[pick("offset", len(offsets))]
			a, sign := off, "+"
			if off < 0 {
				a, sign = -off, "-"
			}
			s = fmt.Sprintf("%s%02d%02d", sign, a/60, a%60)
			if c == 'Z' {
				s = fmt.Sprintf("%s%02d:%02d", sign, a/60, a%60)
				if off == 0 {
					s = "Z"
				}
			}
			name = s
		case 'N':
			z := zones[pick("zone", 20)]
			s, off, name = z.name, z.off, z.name
		default:
			s = string(c)
		}
		text += s
	}
	sym.Assume(isDate(y, mo, d))
	if wd >= 0 && part < 2 {
		sym.Assume(sym.FloorMod(sym.DayNumber(y, mo, d)+4, 7) == wd)
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Reach("read")
	sym.Assert(err == nil, "a date in a usual layout is read")
	sym.Assert(dateIs(r.Time, y, mo, d), "the date is the one written")
	sym.Assert(sym.TimeSod(r.Time) == H*3600+M*60+S, "the time of day is the one written")
	sym.Assert(r.Time.Nanosecond() == ns, "the fraction of the second is the one written")
	sym.Assert(sym.TimeOffset(r.Time) == off*60, "the offset is the one written")
	sym.Assert(int(r.Period) == sym.Ite(cfg.ReturnTimeAsPeriod, int(period), int(date.Day)), "the period is the day, or the finest unit")
	_ = name
}

// C19Weekday: a weekday next to a complete date does not change it, even if
// it is not that date's.
func C19Weekday() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	prefs(cfg)
	w := dayNames[pick("weekday", 7)]
	if pick("short", 2) == 1 {
		w = w[:3]
	}
	ds, ys := sym.Digits("day", 2), sym.Digits("year", 4)
	d, y := num(ds), num(ys)
	mo := 1 + pick("month", 12)
	sym.Assume(sym.And(y >= 1000, isDate(y, mo, d)))
	text := ""
	form := pick("form", 5)
	// after a dash a smaller year also reads as a UTC offset
	sym.Assume(sym.Or(form != 4, y > 1400))
	switch m := monthNames[mo-1]; form {
	case 0:
		text = w + ", " + m + " " + ds + ", " + ys
	case 1:
		text = w + " " + ds + " " + m + " " + ys
	case 2:
		text = ds + " " + m[:3] + " " + ys + " (" + w + ")"
	case 3:
		text = m + " " + ds + ", " + ys + " " + w
	case 4:
		text = w + ", " + ds + "-" + m[:3] + "-" + ys
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Reach("weekday")
	sym.Assert(err == nil, "a date with a weekday is read")
	sym.Assert(wallIs(r.Time, y, mo, d, 0, 0), "the date is the one written, whatever weekday stands next to it")
	sym.Assert(r.Period == date.Day, "the period is the day")
}

var _ = reg("C19Machine", C19Machine)
var _ = reg("C19Weekday", C19Weekday)

package h

import (
	"fmt"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/timezone"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// the offsets in use, in minutes
var offsets = []int{0, 60, 120, 180, 210, 240, 270, 300, 330, 345, 360, 390, 420, 480, 525, 540, 570, 600, 630, 660, 690, 720, 765, 780, 840,
	-60, -120, -150, -180, -210, -240, -270, -300, -360, -420, -480, -540, -570, -600, -660, -720}

// abbreviations that mean one zone only
var zones = []struct {
	name string
	off  int
}{
	{"EST", -300}, {"EDT", -240}, {"CET", 60}, {"CEST", 120}, {"UTC", 0}, {"GMT", 0}, {"PST", -480}, {"PDT", -420}, {"MST", -420}, {"MDT", -360},
	{"CST", -360}, {"CDT", -300}, {"EET", 120}, {"EEST", 180}, {"WET", 0}, {"MSK", 180}, {"JST", 540}, {"KST", 540}, {"HKT", 480}, {"SGT", 480},
	{"AEST", 600}, {"AEDT", 660}, {"ACST", 570}, {"ACDT", 630}, {"AWST", 480}, {"NZST", 720}, {"NZDT", 780}, {"AKST", -540}, {"AKDT", -480}, {"HST", -600},
	{"AST", -240}, {"ADT", -180}, {"NST", -210}, {"NDT", -150}, {"SAST", 120}, {"PKT", 300}, {"NPT", 345}, {"ICT", 420}, {"WIB", 420}, {"PHT", 480},
	{"MEZ", 60}, {"MESZ", 120}, {"UT", 0}, {"Z", 0}, {"est", -300}, {"cet", 60}, {"SELČ", 120}, {"SEČ", 60},
}

// czech zones are never found by Parse, which removes the accents first
func czech(z string) bool { return z == "SELČ" || z == "SEČ" }

// anyZone is a written zone and its offset in minutes.
func anyZone() (string, int) {
	kind := pick("kind", 5) // +HH:MM, +HHMM, UTC+H, UTC+HHMM, name
	if kind == 5 {
		z := zones[len(zones)-1-sym.Choose("czech", 2)]
		return z.name, z.off
	}
	if kind == 4 {
		z := zones[pick("zone", len(zones)-2)]
		return z.name, z.off
	}
	off := offsets[pick("offset", len(offsets))]
	sign, a := "+", off
	if off < 0 {
		sign, a = "-", -off
	}
	h, m := a/60, a%60
	switch kind {
	case 0:
		pre := []string{"", "UTC", "GMT"}[pick("prefix", 3)]
		return fmt.Sprintf("%s%s%02d:%02d", pre, sign, h, m), off
	case 1:
		return fmt.Sprintf("%s%02d%02d", sign, h, m), off
	case 2:
		pre := []string{"UTC", "GMT"}[pick("prefix", 2)]
		if m != 0 {
			return fmt.Sprintf("%s%s%d:%02d", pre, sign, h, m), off
		}
		if h == 0 {
			sym.Stop()
		}
		return fmt.Sprintf("%s%s%d", pre, sign, h), off
	}
	return fmt.Sprintf("%s%s%02d%02d", []string{"UTC", "GMT"}[pick("prefix", 2)], sign, h, m), off
}

// anyDefault is a default time zone, or none.
func anyDefault(n int) *time.Location {
	switch pick("default", n) {
	case 1:
		return sym.Fixed("DEF", sym.Int("default.off", -720, 840)*60)
	case 2:
		return sym.Zone("DEF", 1636243200, -4*3600, -5*3600)
	}
	return nil
}

// C06Written: a date and clock time with a zone.
func C06Written() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t, DefaultTimezone: anyDefault(3)}
	if pick("prefs", 2) == 1 {
		prefs(cfg)
	}
	zone, off := anyZone()
	d, H, M := "05", sym.Digits("h", 2), "30"
	if pick("all", 2) == 1 {
		d, M = sym.Digits("d", 2), sym.Digits("m", 2)
	}
	D := num(d)
	sym.Assume(sym.And(D >= 1, D <= 30))
	sym.Assume(sym.And(num(H) < 24, num(M) < 60))
	text := []string{"2021-11-" + d + " ", "2021-11-" + d + "T", "Nov " + d + ", 2021 "}[pick("date", 3)] + H + ":" + M
	text += []string{" ", ""}[pick("gap", 2)] + zone
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Reach("written")
	if czech(zone) {
		sym.Known(err == nil, "a date with a known zone is accepted", "czech", true)
		return // whatever it means
	}
	sym.Assert(err == nil, "a date with a known zone is accepted")
	sym.Assert(wallIs(r.Time, 2021, 11, D, num(H)*3600+num(M)*60, 0), "the wall clock is the one written")
	sym.Assert(sym.TimeOffset(r.Time) == off*60, "the offset is the written zone's")
	sym.Assert(r.Period == date.Day, "the period is the day")
}

// C06Date: a date alone with a zone.
func C06Date() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t, DefaultTimezone: anyDefault(2)}
	zone, off := anyZone()
	d, y := sym.Digits("d", 2), sym.Digits("y", 4)
	D, Y := num(d), num(y)
	sym.Assume(sym.And(sym.And(D >= 1, D <= 30), Y >= 1000))
	r, err := dps.Parse(cfg, "November "+d+", "+y+" "+zone)
	obs("", r, err)
	sym.Reach("date")
	sym.Assert(err == nil, "a date with a known zone is accepted")
	sym.Assert(wallIs(r.Time, Y, 11, D, 0, 0), "the date is the one written")
	sym.Assert(sym.TimeOffset(r.Time) == off*60, "the offset is the written zone's")
}

// C06Default: no zone is written.
func C06Default() {
	now := fixedNow()
	o := [][2]int{{-4, -5}, {-5, -4}, {1, 2}, {10, 11}, {-12, 14}, {0, 0}}[pick("offs", 6)]
	off1, off2 := o[0]*3600, o[1]*3600
	at := sym.Int("at", 1609459200, 1640995200) // in 2021
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t, DefaultTimezone: sym.Zone("DEF", at, off1, off2)}
	d := sym.Digits("d", 2)
	k := pick("month", 3)
	if n := sym.Param("day", 0); n > 0 {
		d = []string{"05", "14"}[n-1]
	}
	D, Mo := num(d), []int{11, 3, 12}[k]
	sym.Assume(isDate(2021, Mo, D))
	text := "2021-" + []string{"11", "03", "12"}[k] + "-" + d
	sod := 0
	if pick("clock", 2) == 0 {
		h := sym.Digits("h", 2)
		mi := sym.Digits("m", 2)
		sym.Assume(sym.And(num(h) < 24, num(mi) < 60))
		text += " " + h + ":" + mi
		sod = num(h)*3600 + num(mi)*60
	}
	wall := sym.DayNumber(2021, Mo, D)*86400 + sod
	before, after := wall-off1 < at, wall-off2 >= at
	sym.Assume(sym.Or(before, after)) // a wall clock that is shown there
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Reach("default")
	sym.Assert(err == nil, "a date is accepted with a default zone")
	sym.Assert(wallIs(r.Time, 2021, Mo, D, sod, 0), "the wall clock is the one written")
	off := sym.TimeOffset(r.Time)
	sym.Assert(sym.Or(sym.And(before, off == off1), sym.And(after, off == off2)), "the offset is the one in force at that wall clock")
}

// C06Relative: the current time is viewed in the zone.
func C06Relative() {
	now := anyNow(1950, 2100)
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	want := 0
	zone := ""
	if pick("how", 2) == 0 {
		z, off := anyZone()
		zone = " " + z
		want = off * 60
		cfg.DefaultTimezone = anyDefault(2)
	} else {
		want = sym.Int("default.off", -720, 840) * 60
		cfg.DefaultTimezone = sym.Fixed("DEF", want)
	}
	n := sym.Digits("n", 2)
	N := num(n)
	unit := []string{"days", "hours"}[pick("unit", 2)]
	var text string
	if pick("dir", 2) == 0 {
		text = n + " " + unit + " ago"
		N = -N
	} else {
		text = "in " + n + " " + unit
	}
	if unit == "days" {
		N *= 24
	}
	r, err := dps.Parse(cfg, text+zone)
	obs("", r, err)
	sym.Reach("relative")
	sym.Assert(err == nil, "a relative date with a zone is accepted")
	sym.Assert(sym.TimeOffset(r.Time) == want, "the offset is the zone's")
	sym.Assert(sym.TimeDays(r.Time)*86400+sym.TimeSod(r.Time)-want == sym.TimeDays(now.t)*86400+now.sod+N*3600, "the instant is moved by the written amount")
}

// C06Word: today and yesterday are the days of the zone.
func C06Word() {
	now := anyNow(1950, 2100)
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	k := pick("word", 3)
	text := []string{"today", "yesterday", "tomorrow"}[k]
	sod := -1
	if pick("clock", 2) == 0 {
		h, mi := sym.Digits("h", 2), sym.Digits("m", 2)
		sym.Assume(sym.And(num(h) < 24, num(mi) < 60))
		text += " " + h + ":" + mi
		sod = num(h)*3600 + num(mi)*60
	}
	z, off := anyZone()
	if pick("how", 2) == 0 {
		text += " " + z
	} else {
		cfg.DefaultTimezone = sym.Fixed("DEF", off*60)
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Reach("word")
	wall := sym.TimeDays(now.t)*86400 + now.sod + off*60
	day := sym.FloorDiv(wall, 86400) + []int{0, -1, 1}[k]
	if sod < 0 {
		sod = sym.FloorMod(wall, 86400)
	}
	sym.Assert(err == nil, "a day with a zone is accepted")
	sym.Assert(sym.TimeDays(r.Time) == day, "the day is counted in the zone")
	sym.Assert(sym.TimeSod(r.Time) == sod, "the clock is the zone's or the one written")
	sym.Assert(sym.TimeOffset(r.Time) == off*60, "the offset is the zone's")
}

// C06Pop: taking the zone out leaves the rest.
func C06Pop() {
	zone, off := anyZone()
	before := []string{"", "2021年11月5日", "10:20 ", "le 5 août à 10h — ", "٢٠٢١ "}[pick("before", 5)]
	mid := sym.Text("mid", 2, "0 :x./")
	text := before + mid + []string{"", "年", "é", "١"}[pick("mids", 4)]
	rest, data := timezone.PopTzOffset(text + " " + zone)
	sym.ObsStr("rest", rest)
	sym.ObsInt("off", data.Offset)
	sym.Reach("popped")
	sym.Assert(data.Offset == off*60, "the zone is found")
	sym.Assert(sym.EqStr(rest, text+" "), "the rest of the text is unchanged")
}

var _ = reg("C06Written", C06Written)
var _ = reg("C06Date", C06Date)
var _ = reg("C06Default", C06Default)
var _ = reg("C06Relative", C06Relative)
var _ = reg("C06Word", C06Word)
var _ = reg("C06Pop", C06Pop)

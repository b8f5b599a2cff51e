package h

import (
	"unicode"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/digit"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// scripts lists the zeros of the Unicode decimal digits of every script.
func scripts() []rune {
	var out []rune
	for _, r := range unicode.Nd.R16 {
		for x := int(r.Lo); x <= int(r.Hi); x += 10 {
			out = append(out, rune(x))
		}
	}
	for _, r := range unicode.Nd.R32 {
		for x := int(r.Lo); x <= int(r.Hi); x += 10 {
			out = append(out, rune(x))
		}
	}
	return out
}

// inScript writes ASCII digits (all other characters kept) in the script of a zero.
func inScript(s string, zero rune) string {
	z := string(zero)
	head, last := z[:len(z)-1], z[len(z)-1]
	out := ""
	for i := 0; i < len(s); i++ {
		if sym.Decide(sym.And(s[i] >= '0', s[i] <= '9')) {
			b := int(last) + int(s[i]-'0')
			if int(last)+9 > 0xBF && sym.Decide(b > 0xBF) {
				// the next lead byte
				out += head[:len(head)-1] + string([]byte{head[len(head)-1] + 1, byte(b - 0x40)})
			} else {
				out += head + string([]byte{byte(b)})
			}
		} else {
			out += s[i : i+1]
		}
	}
	return out
}

type dateErr struct {
	d   date.Date
	err error
}

// same: two results are the same.
func same(tag string, a, b dateErr) {
	sym.Assert((a.err != nil) == (b.err != nil), tag+": both are dates or none is")
	if a.err != nil {
		return
	}
	sym.Assert(sym.TimeDays(a.d.Time) == sym.TimeDays(b.d.Time), tag+": the day is the same")
	sym.Assert(sym.TimeSod(a.d.Time) == sym.TimeSod(b.d.Time), tag+": the time of day is the same")
	sym.Assert(a.d.Time.Nanosecond() == b.d.Time.Nanosecond(), tag+": the fraction is the same")
	sym.Assert(sym.TimeOffset(a.d.Time) == sym.TimeOffset(b.d.Time), tag+": the offset is the same")
	sym.Assert(a.d.Period == b.d.Period, tag+": the period is the same")
	sym.Assert(a.d.Locale == b.d.Locale, tag+": the locale is the same")
}

// c13Text is a text with digits, with its configuration.
func c13Text() (string, *dps.Configuration) {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{[]string{"en", "fr", "fa", "ja"}[pick("lang", 4)]}, CurrentTime: now.t}
	d := func(n string, k int) string { return sym.Digits(n, k) }
	switch pick("text", 7) {
	case 0:
		return "2" + d("y", 3) + "-" + d("m", 2) + "-" + d("d", 2), cfg
	case 1:
		return d("d", 2) + "/" + d("m", 2) + "/2" + d("y", 3) + " 1" + d("h", 1) + ":3" + d("i", 1), cfg
	case 2:
		return d("d", 1) + " November " + "19" + d("y", 2), &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	case 3:
		return "in " + d("n", 2) + " days", &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	case 4:
		return "19" + d("y", 2) + d("m", 2) + d("d", 2), cfg
	case 5:
		return "2021-11-05 10:20 +0" + d("o", 1) + ":" + []string{"00", "30"}[pick("half", 2)], cfg
	default:
		return d("d", 1) + " novembre 20" + d("y", 2), &dps.Configuration{Languages: []string{"fr"}, CurrentTime: now.t}
	}
}

// C13Digits: the digits of every script are the same digits.
func C13Digits() {
	text, cfg := c13Text()
	all := scripts()
	zero := all[pick("script", len(all))]
	a, aerr := dps.Parse(cfg, text)
	b, berr := dps.Parse(cfg, inScript(text, zero))
	obs("plain.", a, aerr)
	obs("script.", b, berr)
	sym.Reach("digits")
	same("digits", dateErr{a, aerr}, dateErr{b, berr})
}

// anyRune writes any character of the given length in bytes.
func anyRune(n string, length int) (string, int) {
	switch length {
	case 1:
		r := sym.Int(n, 0, 0x7f)
		return string([]byte{byte(r)}), r
	case 2:
		r := sym.Int(n, 0x80, 0x7ff)
		return string([]byte{byte(0xC0 + r/64), byte(0x80 + r%64)}), r
	case 3:
		r := sym.Int(n, 0x800, 0xffff)
		sym.Assume(sym.Or(r < 0xd800, r > 0xdfff))
		return string([]byte{byte(0xE0 + r/4096), byte(0x80 + r/64%64), byte(0x80 + r%64)}), r
	default:
		r := sym.Int(n, 0x10000, 0x10ffff)
		return string([]byte{byte(0xF0 + r/262144), byte(0x80 + r/4096%64), byte(0x80 + r/64%64), byte(0x80 + r%64)}), r
	}
}

// C13Rune: only digits become digits, and each its own.
func C13Rune() {
	s, r := anyRune("r", 1+pick("bytes", 4))
	if newer(r) {
		sym.Stop()
	}
	got := digit.NormalizeString(s)
	sym.Reach("character")
	for _, z := range scripts() {
		if z >= 0x80 && sym.Decide(sym.And(r >= int(z), r <= int(z)+9)) {
			sym.Assert(len(got) == 1, "a digit becomes one digit")
			sym.Assert(int(got[0]) == '0'+r-int(z), "a digit keeps its value")
			return
		}
	}
	sym.Assert(sym.EqStr(got, s), "other characters are kept")
}

var _ = reg("C13Digits", C13Digits)
var _ = reg("C13Rune", C13Rune)

// space is white space: any of the Unicode characters, once or twice.
func space(n string) string {
	s := oneSpace(n)
	if pick(n+".double", 2) == 1 {
		return s + oneSpace(n+"2")
	}
	return s
}

func oneSpace(n string) string {
	switch pick(n+".kind", 6) {
	case 0:
		return string([]byte{byte(sym.Int(n, 9, 13))})
	case 1:
		return " "
	case 2:
		return string([]byte{0xC2, byte(sym.Ite(sym.Bool(n), 0x85, 0xA0))})
	case 3:
		return string([]byte{0xE2, 0x80, byte(sym.Int(n, 0x80, 0x8A))})
	case 4:
		k := sym.Int(n, 0, 2)
		return string([]byte{0xE2, 0x80, byte(sym.Ite(k == 0, 0xA8, sym.Ite(k == 1, 0xA9, 0xAF)))})
	default:
		return []string{"\u1680", "\u205f", "\u3000"}[pick(n, 3)]
	}
}

// spaced are texts; _ is where there is white space.
var spaced = []string{"5_November_202#", "2021-11-05_10:2#", "in_#_days", "#_hours_ago", "1#:20_pm", "0#/11/2021_10:20:30_am", "Nov_5,_202#", "2021-11-05_10:20:30_+0#:00", "202#1105"}

// C13Spaces: white space around and within the text does not matter.
func C13Spaces() {
	form := spaced[pick("text", len(spaced))]
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: fixedNow().t}
	digit := sym.Digits("n", 1)
	gaps := 0
	for i := range form {
		if form[i] == '_' {
			gaps++
		}
	}
	where := pick("where", gaps+2) // a gap, before, after
	plain, other := "", ""
	gap := 0
	for i := range form {
		switch form[i] {
		case '_':
			plain += " "
			if gap == where {
				other += space("sp")
			} else {
				other += " "
			}
			gap++
		case '#':
			plain += digit
			other += digit
		default:
			plain += form[i : i+1]
			other += form[i : i+1]
		}
	}
	if where == gaps {
		other = space("sp") + other
	} else if where == gaps+1 {
		other += space("sp")
	}
	a, aerr := dps.Parse(cfg, plain)
	b, berr := dps.Parse(cfg, other)
	obs("plain.", a, aerr)
	obs("spaced.", b, berr)
	sym.Reach("spaces")
	same("spaces", dateErr{a, aerr}, dateErr{b, berr})
}

var cased = []struct{ lang, text string }{
	{"en", "1# november 2021"}, {"en", "in # days"}, {"en", "2021-11-05 1#:20 pm"}, {"en", "friday, 1# nov 2021"}, {"en", "# weeks ago"},
	{"en", "2021-11-05t10:2#:00z"}, {"en", "2021-11-05 10:2# est"}, {"en", "yesterday 1:2# pm"}, {"en", "2021-11-05 10:2# utc+5"}, {"fr", "1# février 2021"}, {"ru", "1# июля 2021"}, {"de", "vor # monaten"},
}

// C13Case: the case of the letters does not matter.
func C13Case() {
	c := cased[pick("text", len(cased))]
	cfg := &dps.Configuration{Languages: []string{c.lang}, CurrentTime: fixedNow().t}
	digit := sym.Digits("n", 1)
	plain, other := "", ""
	letters := 0
	from := sym.Param("from", 0)
	for _, r := range c.text {
		switch {
		case r == '#':
			plain += digit
			other += digit
		case unicode.ToUpper(r) != r:
			plain += string(r)
			u := unicode.ToUpper(r)
			letters++
			if letters <= from || letters > from+sym.Param("letters", 30) {
				if letters%2 == 0 {
					other += string(u)
				} else {
					other += string(r)
				}
				break
			}
			if r < 0x80 {
				other += string([]byte{byte(sym.Ite(sym.Bool("upper"), int(u), int(r)))})
			} else if sym.Decide(sym.Bool("upper")) {
				other += string(u)
			} else {
				other += string(r)
			}
		default:
			plain += string(r)
			other += string(r)
		}
	}
	a, aerr := dps.Parse(cfg, plain)
	b, berr := dps.Parse(cfg, other)
	obs("plain.", a, aerr)
	obs("cased.", b, berr)
	sym.Reach("case")
	sym.Assert(aerr == nil, "the plain text is a date")
	same("case", dateErr{a, aerr}, dateErr{b, berr})
}

// newer are digits of scripts newer than the Unicode version of the oldest toolchain in use.
func newer(r int) bool {
	for _, z := range []int{0x10D40, 0x11BF0, 0x11DE0, 0x116D0, 0x116DA, 0x16130, 0x16D70, 0x1CCF0, 0x1E5F1} {
		if sym.Decide(sym.And(r >= z, r <= z+9)) {
			return true
		}
	}
	return false
}

var _ = reg("C13Spaces", C13Spaces)
var _ = reg("C13Case", C13Case)

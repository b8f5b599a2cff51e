package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/internal/data"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// c12Text is a text that several of the locales can read, each in its way.
func c12Text() string {
	d := func(n string, k int) string { return sym.Digits(n, k) }
	switch pick("text", 6) {
	case 0: // date orders differ
		a, b := d("a", 1), d("b", 1)
		sym.Assume(sym.And(num(a) > 0, num(b) > 0))
		return "0" + a + "/0" + b + "/2012"
	case 1: // only some can
		return "1" + d("a", 1) + " mars 2012"
	case 2:
		return "1" + d("a", 1) + ". August 2013"
	case 3: // nobody
		return "1" + d("a", 1) + " xyzzy 2012"
	case 4:
		a := d("a", 1)
		sym.Assume(num(a) > 0)
		return "2012-0" + a + "-1" + d("b", 1)
	default:
		return "1" + d("a", 1) + " de mayo de 2012"
	}
}

func popular(l []string) []string {
	out := append([]string(nil), l...)
	for i := range out {
		for j := i; j > 0 && data.LocaleOrder[out[j]] < data.LocaleOrder[out[j-1]]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func oneOf(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func langOf(l string) string {
	for i := 0; i < len(l); i++ {
		if l[i] == '-' {
			return l[:i]
		}
	}
	return l
}

// alone reads the text with one locale only.
func alone(l, text string) dateErr {
	var r dateErr
	msg := sym.Catch(func() {
		r.d, r.err = (&dps.Parser{}).Parse(&dps.Configuration{Locales: []string{l}, CurrentTime: fixedNow().t}, text)
	})
	must(msg)
	if r.err == nil {
		sym.Assert(r.d.Locale == l, "the locale reported is the only one chosen")
	}
	return r
}

var noTime dateErr

// first is the first of the locales that reads the text.
func first(list []string, text string) (dateErr, bool) {
	for _, l := range list {
		if r := alone(l, text); r.err == nil {
			return r, true
		}
	}
	return noTime, false
}

// C12Locales: any list of up to n locales out of a few, known or not.
func C12Locales() {
	all := []string{"en", "fr-CA", "de-AT", "es-MX", "en-GB", "zz", "en-QQ", "sv", "fr"}
	n := 1 + sym.Choose("n", sym.Param("n", 2))
	var list []string
	bad, clash := false, false
	for i := 0; i < n; i++ {
		l := all[sym.Choose("locale", sym.Param("of", len(all)))]
		if l == "zz" || l == "en-QQ" {
			bad = true
		}
		for _, o := range list {
			if o != l && langOf(o) == langOf(l) {
				clash = true
			}
		}
		list = append(list, l)
	}
	// two locales of one language at once are refused, which is no matter of this property
	sym.Assume(!clash)
	given := pick("given", 2) == 1
	text := c12Text()
	cfg := &dps.Configuration{Locales: list, CurrentTime: fixedNow().t, UseGivenOrder: given}
	if sym.Param("ignored", 0) == 1 {
		cfg.Languages, cfg.Region = []string{"ru", "ja"}, "US"
	}
	var got dateErr
	msg := sym.Catch(func() { got.d, got.err = (&dps.Parser{}).Parse(cfg, text) })
	must(msg)
	obs("", got.d, got.err)
	if bad {
		sym.Reach("unknown")
		sym.Assert(got.err != nil, "a locale that does not exist is an error")
		return
	}
	ordered := list
	if !given {
		ordered = popular(list)
	}
	want, ok := first(ordered, text)
	if !ok {
		sym.Reach("none")
		sym.Assert(got.err != nil, "no chosen locale reads the text")
		return
	}
	sym.Reach("one")
	same("the first able locale", want, got)
	sym.Assert(oneOf(got.d.Locale, list), "the locale is one of those chosen")
}

var _ = reg("C12Locales", C12Locales)

// C12Languages: languages with an optional region, and default languages.
func C12Languages() {
	all := []string{"en", "fr", "de", "es", "xx", "sv", "fil"}
	n := 1 + sym.Choose("n", sym.Param("n", 2))
	var list []string
	bad := false
	for i := 0; i < n; i++ {
		l := all[sym.Choose("lang", sym.Param("of", len(all)))]
		if l == "xx" {
			bad = true
		}
		list = append(list, l)
	}
	region := []string{"", "CA", "at", "ZZ"}[pick("region", 4)]
	upper := []string{"", "CA", "AT", "ZZ"}[pick2(region)]
	given := pick("given", 2) == 1
	text := c12Text()
	cfg := &dps.Configuration{Languages: list, Region: region, CurrentTime: fixedNow().t, UseGivenOrder: given}
	var defs []string
	switch pick("default", 3) {
	case 1:
		defs = []string{"es"}
	case 2:
		defs = []string{"sv", "en"}
	}
	cfg.DefaultLanguages = defs
	var got dateErr
	msg := sym.Catch(func() { got.d, got.err = (&dps.Parser{}).Parse(cfg, text) })
	must(msg)
	obs("", got.d, got.err)
	if bad {
		sym.Reach("unknown")
		sym.Assert(got.err != nil, "a language that does not exist is an error")
		return
	}
	with := func(l []string) []string {
		var out []string
		for _, x := range l {
			if upper != "" {
				x += "-" + upper
			}
			if dps.IsKnownLocale(x) && !oneOf(x, out) {
				out = append(out, x)
			}
		}
		if !given {
			out = popular(out)
		}
		return out
	}
	chosen, late := with(list), with(defs)
	want, ok := first(chosen, text)
	if ok {
		sym.Reach("one")
		same("the first able language", want, got)
		sym.Assert(oneOf(got.d.Locale, chosen), "the locale is one of those chosen")
		return
	}
	if _, ok := first(late, text); ok {
		sym.Reach("default")
		sym.Assert(got.err == nil, "a default language reads what no chosen one does")
	}
	if got.err == nil {
		sym.Assert(oneOf(got.d.Locale, late), "the locale is one of the default languages")
	} else {
		sym.Reach("none")
	}
}

func pick2(region string) int {
	switch region {
	case "CA":
		return 1
	case "at":
		return 2
	case "ZZ":
		return 3
	}
	return 0
}

var _ = reg("C12Languages", C12Languages)

// C12Used: a locale that an earlier call used is not tried when it is not chosen.
func C12Used() {
	now := fixedNow().t
	p := &dps.Parser{}
	p.Parse(&dps.Configuration{Languages: []string{"de", "es"}, CurrentTime: now, TryPreviousLocales: true}, []string{"gestern", "mañana"}[pick("earlier", 2)])
	text := c12Text()
	cfg := &dps.Configuration{CurrentTime: now, TryPreviousLocales: true}
	var list []string
	switch pick("list", 4) {
	case 0:
		list = []string{"en"}
		cfg.Languages = list
	case 1:
		list = []string{"fr-CA", "en-US"}
		cfg.Locales = list
	case 2:
		cfg.Languages, cfg.Region = []string{"de", "en"}, "AT"
		list = []string{"de-AT", "en-AT"}
	default:
		cfg.Languages, cfg.DefaultLanguages = []string{"fr"}, []string{"sv"}
		list = []string{"fr", "sv"}
	}
	var got dateErr
	msg := sym.Catch(func() { got.d, got.err = p.Parse(cfg, text) })
	must(msg)
	obs("", got.d, got.err)
	if got.err != nil {
		sym.Reach("none")
		return
	}
	sym.Reach("one")
	sym.Assert(oneOf(got.d.Locale, list), "the locale is one of those chosen")
}

var _ = reg("C12Used", C12Used)

// C12Detect: languages that the function of the caller names.
func C12Detect() {
	now := fixedNow().t
	lists := [][]string{{"fr"}, {"sv", "en"}, {"de", "xx"}, {}}
	k := pick("detected", 4)
	p := &dps.Parser{DetectLanguagesFunction: func(string) []string { return lists[k] }}
	text := c12Text()
	cfg := &dps.Configuration{CurrentTime: now}
	want := &dps.Configuration{CurrentTime: now, Languages: lists[k]}
	switch pick("own", 3) {
	case 1: // not asked when the caller has chosen
		cfg.Languages = []string{"es", "en"}
		want.Languages = cfg.Languages
	case 2:
		cfg.Locales = []string{"en-GB"}
		want.Languages, want.Locales = nil, cfg.Locales
	default:
		sym.Assume(len(lists[k]) > 0)
	}
	var a, b dateErr
	must(sym.Catch(func() { a.d, a.err = p.Parse(cfg, text) }))
	must(sym.Catch(func() { b.d, b.err = (&dps.Parser{}).Parse(want, text) }))
	obs("", a.d, a.err)
	sym.Reach("detected")
	same("languages named by the function", b, a)
}

var _ = reg("C12Detect", C12Detect)

// C12Any: when nothing is chosen every language is a candidate, by popularity.
func C12Any() {
	text := c12Text()
	var got dateErr
	must(sym.Catch(func() {
		got.d, got.err = (&dps.Parser{}).Parse(&dps.Configuration{CurrentTime: fixedNow().t}, text)
	}))
	obs("", got.d, got.err)
	list := make([]string, len(data.LanguageOrder))
	for l, k := range data.LanguageOrder {
		list[k] = l
	}
	want, ok := first(list, text)
	if !ok {
		sym.Assert(got.err != nil, "no language reads the text")
		return
	}
	sym.Reach("any")
	same("the first able language", want, got)
}

var _ = reg("C12Any", C12Any)

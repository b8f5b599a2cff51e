package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// kindText is a text, the kinds of parser that may read it and the language.
func kindText() (text, lang string, home []dps.ParserType, formats []string) {
	lang = "en"
	two := func(n string) string {
		s := sym.Digits(n, 2)
		sym.Assume(sym.And(num(s) >= 10, num(s) <= 12))
		return s
	}
	switch pick("text", 12) {
	case 0:
		text, home = "1570"+sym.Digits("stamp", 6), []dps.ParserType{dps.Timestamp, dps.NoSpacesTime}
	case 1:
		text, home = "-1570"+sym.Digits("stamp", 6), []dps.ParserType{dps.NegativeTimestamp}
	case 2:
		text, home = "in "+two("n")+" days", []dps.ParserType{dps.RelativeTime}
	case 3:
		text, home = two("a")+"/"+two("b")+"/2012", []dps.ParserType{dps.AbsoluteTime}
	case 4:
		text, home = two("a")+two("b")+"2012", []dps.ParserType{dps.NoSpacesTime}
	case 5:
		text, home = "May "+two("a"), []dps.ParserType{dps.AbsoluteTime}
	case 6:
		text, home = two("a")+".11.2012 "+two("h")+":20", []dps.ParserType{dps.AbsoluteTime}
	case 7:
		text, home = "yesterday", []dps.ParserType{dps.RelativeTime}
	case 8:
		lang, formats = "fr", []string{"02 January 2006"}
		text, home = two("a")+" décembre 2010", []dps.ParserType{dps.CustomFormat, dps.AbsoluteTime}
	case 9:
		text, home = "20"+two("y"), []dps.ParserType{dps.AbsoluteTime, dps.NoSpacesTime}
	case 10:
		text, home = sym.Digits("n", 1)+" hour", []dps.ParserType{dps.RelativeTime, dps.AbsoluteTime}
	case 11:
		lang, formats = "fr", []string{"2006 15 January"}
		text, home = "20"+two("y")+" 11 mars", []dps.ParserType{dps.CustomFormat, dps.AbsoluteTime}
	}
	return
}

func kindCfg(lang string) *dps.Configuration {
	return &dps.Configuration{Languages: []string{lang}, CurrentTime: fixedNow().t}
}

func sameResult(a, b date.Date) bool {
	return sym.And(a.Time.Equal(b.Time), sym.And(sym.TimeOffset(a.Time) == sym.TimeOffset(b.Time), sym.And(a.Period == b.Period, a.Locale == b.Locale)))
}

func single(k dps.ParserType, text, lang string, formats []string) (date.Date, error) {
	p := &dps.Parser{ParserTypes: []dps.ParserType{k}}
	return p.Parse(kindCfg(lang), text, formats...)
}

// C20Kinds: of a list of kinds the first that reads the text does.
func C20Kinds() {
	text, lang, home, formats := kindText()
	n := 1 + pick("n", 3) // the parameter is one less
	var kinds []dps.ParserType
	for i := 0; i < n; i++ {
		kinds = append(kinds, dps.ParserType(sym.Choose("kind", 6)))
	}
	p := &dps.Parser{ParserTypes: append([]dps.ParserType(nil), kinds...)}
	r, err := p.Parse(kindCfg(lang), text, formats...)
	obs("", r, err)
	sym.Assert(len(p.ParserTypes) == n, "the chosen kinds stay")
	for i, k := range kinds {
		sym.Assert(p.ParserTypes[i] == k, "the chosen kinds stay in their order")
	}
	for _, k := range kinds {
		w, werr := single(k, text, lang, formats)
		if werr != nil {
			continue
		}
		sym.Reach("read")
		isHome := false
		for _, h := range home {
			isHome = isHome || h == k
		}
		sym.Assert(isHome, "only the kinds made for it read a text")
		sym.Assert(err == nil, "what a chosen kind reads is read")
		sym.Assert(sameResult(r, w), "the first chosen kind that reads the text determines the result")
		return
	}
	sym.Reach("not read")
	sym.Assert(err != nil, "what no chosen kind reads is not read")
}

// C20Default: without a choice all kinds are tried in the documented order.
func C20Default() {
	text, lang, home, formats := kindText()
	p := &dps.Parser{}
	if sym.Bool("used") {
		p.Parse(kindCfg("en"), "yesterday")
	}
	r, err := p.Parse(kindCfg(lang), text, formats...)
	obs("", r, err)
	sym.Assert(err == nil, "the text is read")
	w, werr := single(home[0], text, lang, formats)
	for i := 1; werr != nil && i < len(home); i++ {
		w, werr = single(home[i], text, lang, formats)
	}
	sym.Reach("default")
	sym.Assert(werr == nil, "one of the kinds made for it reads the text")
	sym.Assert(sameResult(r, w), "the first kind of the documented order determines the result")
}

// C20Locales: every kind is tried with one locale before the next.
func C20Locales() {
	cfg := kindCfg("en")
	cfg.Languages = []string{"en", "fr"}
	cfg.UseGivenOrder = true
	if sym.Bool("swap") {
		cfg.Languages = []string{"fr", "en"}
	}
	a, b := sym.Digits("a", 2), sym.Digits("b", 2)
	sym.Assume(sym.And(sym.And(num(a) >= 10, num(a) <= 12), sym.And(num(b) >= 10, num(b) <= 12)))
	text := a + "/" + b + "/2012"
	if pick("text", 2) == 1 {
		text = a + b + "2012"
	}
	k, l := dps.ParserType(sym.Choose("kind", 6)), dps.ParserType(sym.Choose("kind", 6))
	p := &dps.Parser{ParserTypes: []dps.ParserType{k, l}}
	r, err := p.Parse(cfg, text)
	obs("", r, err)
	for _, lang := range cfg.Languages {
		q := &dps.Parser{ParserTypes: []dps.ParserType{k, l}}
		w, werr := q.Parse(kindCfg(lang), text)
		if werr != nil {
			continue
		}
		sym.Reach("locale")
		sym.Assert(err == nil && r.Locale == lang, "the first locale with a kind that reads the text reads it")
		sym.Assert(sameResult(r, w), "with the same result")
		return
	}
	sym.Assert(err != nil, "no locale, no result")
}

// C20Unknown: an unknown kind is an error.
func C20Unknown() {
	text, lang, home, formats := kindText()
	bad := dps.ParserType(sym.Int("bad", 0, 255))
	kinds := []dps.ParserType{bad}
	switch pick("place", 3) {
	case 1:
		kinds = append(kinds, home...)
	case 2:
		kinds = append([]dps.ParserType{home[0]}, bad)
	}
	p := &dps.Parser{ParserTypes: append([]dps.ParserType(nil), kinds...)}
	r, err := p.Parse(kindCfg(lang), text, formats...)
	if sym.Decide(bad > dps.NoSpacesTime) {
		sym.Reach("unknown")
		sym.Assert(err != nil && r.IsZero(), "an unknown kind is an error")
		return
	}
	if len(kinds) > 1 {
		sym.Assert(err == nil, "known kinds are no error")
	}
}

var _ = reg("C20Kinds", C20Kinds)
var _ = reg("C20Default", C20Default)
var _ = reg("C20Locales", C20Locales)
var _ = reg("C20Unknown", C20Unknown)

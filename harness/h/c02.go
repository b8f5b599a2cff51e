package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// C02Stamp: ten digits, optionally three and six more, with or without a
// minus sign, under any configuration.
func C02Stamp() {
	now := anyNow(1950, 2100)
	cfg := &dps.Configuration{CurrentTime: now.t}
	switch pick("lang", 4) {
	case 0:
		cfg.Languages = []string{"en"}
	case 1:
		cfg.Languages = []string{"fr", "de"}
	case 2:
		cfg.Locales = []string{"ja"}
	default:
		cfg.Languages = []string{"fa"}
		cfg.DefaultLanguages = []string{"en"}
	}
	prefs(cfg)
	cfg.ReturnTimeAsPeriod = sym.Bool("timePeriod")
	cfg.StrictParsing = sym.Bool("strict")
	cfg.PreserveEndOfMonth = sym.Bool("preserve")
	if o := sym.Choose("order", 1+sym.Param("orders", 6)); o > 0 {
		cfg.DateOrder = orderFns[o-1]
	}
	if sym.Choose("zone", 2) == 1 {
		cfg.DefaultTimezone = sym.Fixed("Z", 1800*sym.Int("zoff", -24, 28))
	}
	neg := sym.Choose("neg", 2) == 1
	s := sym.Digits("s", 10)
	ms, us := "", ""
	n := sym.Choose("parts", 3)
	if n >= 1 {
		ms = sym.Digits("ms", 3)
	}
	if n >= 2 {
		us = sym.Digits("us", 3)
	}
	text := s + ms + us
	sec := num(s)
	if neg {
		text = "-" + text
		sec = -sec
	}
	if pick("pad", 2) == 1 {
		text = " " + text + " "
	}
	r, err := dps.Parse(cfg, text)
	obs("", r, err)
	sym.Assert(err == nil, "a timestamp is accepted")
	sym.Reach("read")
	sym.Assert(int(r.Time.Unix()) == sec, "the instant is the written count of seconds")
	sym.Assert(r.Time.Nanosecond() == num(ms)*1000000+num(us)*1000, "the fraction is the written milli- and microseconds")
	want := sym.Ite(cfg.ReturnTimeAsPeriod, int(date.Second), int(date.Day))
	sym.Assert(int(r.Period) == want, "the period is the day, or the second")
}

// C02Other: digit strings of other lengths are not read as timestamps.
func C02Other() {
	now := fixedNow()
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: now.t}
	p := &dps.Parser{ParserTypes: []dps.ParserType{dps.Timestamp, dps.NegativeTimestamp}}
	lens := []int{9, 11, 12, 14, 15, 17, 20}
	s := sym.Digits("s", lens[sym.Choose("len", len(lens))])
	if sym.Choose("neg", 2) == 1 {
		s = "-" + s
	}
	r, err := p.Parse(cfg, s)
	obs("", r, err)
	sym.Reach("other")
	sym.Assert(err != nil, "no other number of digits is a timestamp")
}

var _ = reg("C02Stamp", C02Stamp)
var _ = reg("C02Other", C02Other)

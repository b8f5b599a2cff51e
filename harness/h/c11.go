package h

import (
	"strings"
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// day is a day of a month written in one or two digits, the first not a zero.
func anyDay(name string, few bool) string {
	if few {
		return "1" + sym.Text(name, 1, "0369")
	}
	d := sym.Digits(name, pick("wide", 2)+1)
	v := num(d)
	sym.Assume(sym.And(d[0] != '0', v <= 28))
	return d
}

func year4(name string, few bool) string {
	if few {
		return "20" + sym.Text(name, 1, "18") + "2"
	}
	return "20" + sym.Digits(name, 2)
}

type sentence struct {
	lang          string
	before, after []string // words around a date
	between       string
}

var sentences = []sentence{
	{"en", []string{"It happened ", "", "Quarterly report: ", "("}, []string{" when nobody looked.", "", ". Nobody looked", ")", " was nice"}, " or rather "},
	{"fr", []string{"Il est né ", "", "Anne, "}, []string{" avec joie.", "", ". Personne"}, " puis "},
	{"de", []string{"Er wurde ", ""}, []string{" geboren", "", ", obwohl niemand kam"}, " sowie "},
	{"es", []string{"Nació ", "", "¿Vino "}, []string{" con alegría.", "", "? Nadie"}, " pero luego "},
	{"ru", []string{"Он родился ", ""}, []string{" вместе со всеми.", ""}, " или "},
	{"it", []string{"È nato ", ""}, []string{" con gioia.", ""}, " oppure "},
	{"pt", []string{"Nasceu ", ""}, []string{" com alegria.", ""}, " ou "},
	{"nl", []string{"Hij kwam ", ""}, []string{" samen met iedereen.", ""}, " of "},
	{"ja", []string{"彼は", ""}, []string{"に生まれた", "", "。 誰も"}, "に。 "},
	{"zh", []string{"他", ""}, []string{"出生", "", "。 没有人"}, "出生。 "},
	{"tr", []string{"Kendisi ", ""}, []string{" doğdu.", ""}, " veya "},
	{"pl", []string{"Urodzony ", ""}, []string{" razem.", ""}, " albo "},
	{"vi", []string{"Anh ta sinh ", ""}, []string{" cùng nhau.", ""}, " hoặc "},
	{"hu", []string{"Született ", ""}, []string{" együtt.", ""}, " vagy "},
	{"id", []string{"Dia lahir ", ""}, []string{" bersama.", ""}, " atau "},
	{"cs", []string{"Narozen ", ""}, []string{" společně.", ""}, " nebo "},
	{"sv", []string{"Han kom ", ""}, []string{" tillsammans.", ""}, " eller "},
}

// dateOf is a date in the manner of the language.
func dateOf(lang, tag string, few bool) (string, int) {
	d := anyDay("d"+tag, few)
	y := year4("y"+tag, few)
	ymd := func(m int) int { return sym.DayNumber(num(y), m, num(d)) }
	n := 2
	if lang == "en" {
		n = 3
	}
	k := pick("form", n)
	if k == 1 {
		dd := d
		if len(dd) == 1 {
			dd = "0" + dd
		}
		switch lang {
		case "en", "sv", "ja", "zh", "hu":
			return y + "-05-" + dd, ymd(5)
		}
		return dd + "/05/" + y, ymd(5)
	}
	switch lang {
	case "en":
		if k == 2 {
			return "May " + d + ", " + y, ymd(5)
		}
		return d + " March " + y, ymd(3)
	case "fr":
		return d + " mars " + y, ymd(3)
	case "de":
		return d + ". August " + y, ymd(8)
	case "es":
		return d + " de mayo de " + y, ymd(5)
	case "ru":
		return d + " мая " + y, ymd(5)
	case "it":
		return d + " maggio " + y, ymd(5)
	case "pt":
		return d + " de maio de " + y, ymd(5)
	case "nl":
		return d + " maart " + y, ymd(3)
	case "ja", "zh":
		return y + "年5月" + d + "日", ymd(5)
	case "tr":
		return d + " Mayıs " + y, ymd(5)
	case "pl":
		return d + " maja " + y, ymd(5)
	case "vi":
		return d + " tháng 5 năm " + y, ymd(5)
	case "hu":
		return y + " május " + d, ymd(5)
	case "id":
		return d + " Mei " + y, ymd(5)
	case "cs":
		return d + ". května " + y, ymd(5)
	case "sv":
		return d + " maj " + y, ymd(5)
	}
	panic(lang)
}

// C11Find: one or two dates in a sentence are found, and nothing else.
func C11Find() {
	s := sentences[pick("sentence", len(sentences))]
	type want struct {
		text    string
		day     int
		bracket bool // a month name directly after an opening bracket
	}
	var all []want
	text := s.before[pick("before", len(s.before))]
	// the detection collects the characters of the text, so that few digits are left open
	detect := pick("detect", 2) == 1
	a, da := dateOf(s.lang, "a", detect)
	if detect {
		sym.Assume(s.lang != "ja" && s.lang != "zh" || a[4] != '-') // no character of the language's dates
	}
	bracket := strings.HasSuffix(text, "(") && a[0] == 'M'
	all = append(all, want{a, da, bracket})
	text += a
	if pick("two", 2) == 1 {
		b, db := dateOf(s.lang, "b", detect)
		all = append(all, want{b, db, false})
		text += s.between + b
	}
	text += s.after[pick("after", len(s.after))]
	cfg := &dps.Configuration{CurrentTime: fixedNow().t}
	var res []dps.SearchResult
	var err error
	lang := s.lang
	msg := sym.Catch(func() {
		p := &dps.Parser{}
		if detect {
			cfg.Languages = []string{s.lang}
			lang, res, err = p.Search(cfg, text)
		} else {
			res, err = p.SearchWithLanguage(cfg, s.lang, text)
		}
	})
	must(msg)
	sym.Assert(err == nil, "the search succeeds")
	sym.Assert(lang == s.lang, "the language is the only one allowed")
	sym.ObsInt("found", len(res))
	for i, r := range res {
		sym.ObsStr("text"+string(rune('0'+i)), r.Text)
		obs(string(rune('0'+i))+".", r.Date, nil)
	}
	sym.Known(len(res) == len(all), "as many as there are dates", "bracket", all[0].bracket)
	if len(res) != len(all) {
		return
	}
	for i, r := range res {
		want := all[i].text
		if s := strings.TrimSuffix(want, "日"); s != want && !strings.HasSuffix(r.Text, "日") {
			want = s // existing tests leave the last character out
		}
		bracket := i == 0 && all[0].bracket
		sym.Known(sym.EqStr(r.Text, want), "the date alone is reported", "bracket", bracket)
		sym.Known(sym.And(sym.TimeDays(r.Date.Time) == all[i].day, sym.TimeSod(r.Date.Time) == 0), "the date that is written", "bracket", bracket)
		sym.Assert(r.Date.Locale == s.lang, "the locale is the language")
	}
	sym.Reach("found")
}

var _ = reg("C11Find", C11Find)

// vocabularies of the texts; d stands for a digit.
var vocabularies = []struct {
	lang  string
	words []string
}{
	{"en", []string{"may", "monday", "2012", "d", "1d", "xyzzy", "10:1d", "or", "ago", "days", "pm", "utc", "d.", "tomorrow", "in", "1d/05/2012", "june,", "at", "the", "week", "noon", "12:1d am", "ago.", "(1d", "2012)", "yesterday's", "2d:10"}},
	{"fr", []string{"mai", "lundi", "2012", "d", "1d", "xyzzy", "10:1d", "ou", "il y a", "jours", "1d/05/2012", "demain", "dans", "juin,", "le", "semaine", "d.", "midi"}},
	{"ru", []string{"мая", "понедельник", "2012", "d", "1d", "привет", "10:1d", "или", "назад", "дней", "1d.05.2012", "завтра", "через", "в", "года", "июня,"}},
	{"es", []string{"mayo", "lunes", "2012", "d", "1d", "xyzzy", "10:1d", "o", "hace", "días", "1d/05/2012", "mañana", "en", "de", "¿", "ayer!", "ayer"}},
	{"de", []string{"mai", "montag", "2012", "d.", "1d.", "xyzzy", "10:1d", "oder", "vor", "tagen", "1d.05.2012", "morgen", "in", "uhr", "gestern,", "juni"}},
	{"sv", []string{"maj", "måndag", "2012", "d", "xyzzy", "10:1d", "eller", "sedan", "dagar", "2012-05-1d", "imorgon", "om", "igår", "juni,"}},
	{"vi", []string{"tháng 5", "thứ hai", "2012", "d", "xyzzy", "10:1d", "hoặc", "trước", "giờ", "1d/05/2012", "năm", "hôm qua"}},
	{"hu", []string{"május", "hétfő", "2012.", "d", "xyzzy", "10:1d", "vagy", "napja", "1d.", "holnap", "2012"}},
}

// digitAt is where the digit of a word stands.
func digitAt(w string) int {
	for i := range w {
		if w[i] == 'd' && (i == len(w)-1 || w[i+1] == '.' || w[i+1] == '/' || w[i+1] == ':' || w[i+1] == ' ') &&
			(i == 0 || w[i-1] >= '0' && w[i-1] <= '9' || w[i-1] == '(') {
			return i
		}
	}
	return -1
}

// C11Piece: whatever is found is a piece of the text, in order, with the date
// that parsing the piece gives.
func C11Piece() {
	v := vocabularies[pick("lang", len(vocabularies))]
	n := 1 + sym.Choose("n", sym.Param("n", 2))
	if k := sym.Param("exactly", 0); k > 0 {
		n = k
	}
	var words []string
	for i := 0; i < n; i++ {
		w := v.words[sym.Choose("word", sym.Param("of", len(v.words)))]
		if at := digitAt(w); at >= 0 {
			w = w[:at] + sym.Digits("d", 1) + w[at+1:]
		}
		words = append(words, w)
	}
	text := strings.Join(words, " ")
	cfg := &dps.Configuration{CurrentTime: fixedNow().t}
	switch pick("config", 4) {
	case 1:
		cfg.PreferredDateSource = dps.Past
		cfg.PreferredMonthOfYear = dps.FirstMonth
	case 2:
		cfg.DateOrder = dps.DMY
		cfg.PreferredDayOfMonth = dps.Last
	case 3:
		cfg.DefaultTimezone = sym.Fixed("Z", 19800)
		cfg.StrictParsing = true
	}
	var res []dps.SearchResult
	var err error
	msg := sym.Catch(func() { res, err = (&dps.Parser{}).SearchWithLanguage(cfg, v.lang, text) })
	must(msg)
	sym.Assert(err == nil, "the search succeeds")
	sym.ObsInt("found", len(res))
	rest := text
	for i, r := range res {
		sym.ObsStr("text"+string(rune('0'+i)), r.Text)
		obs(string(rune('0'+i))+".", r.Date, nil)
		sym.Assert(r.Text != "", "a piece is not empty")
		at := strings.Index(rest, r.Text)
		sym.Assert(at >= 0, "a piece of the text, after the earlier ones")
		rest = rest[at+len(r.Text):]
		one := *cfg
		one.Languages = []string{v.lang}
		var d dateErr
		msg := sym.Catch(func() { d.d, d.err = (&dps.Parser{}).Parse(&one, r.Text) })
		must(msg)
		am := v.lang == "en" && strings.Contains(r.Text, "am")
		sym.Known(d.err == nil, "a piece can be parsed", "am", am)
		if d.err == nil {
			sym.Known(sameDate(r.Date, d.d), "the date is the one the parser gives", "am", am)
		}
		sym.Reach("piece")
	}
	sym.Reach("searched")
}

var _ = reg("C11Piece", C11Piece)

// C11Detect: a search is a search with the language it detects, which is one of
// those allowed.
func C11Detect() {
	lists := [][]string{{"en", "fr"}, {"fr", "de", "es"}, {"ru", "ja", "en"}, {"hu", "vi", "pl"}}
	list := lists[pick("list", len(lists))]
	s := sentences[pick("sentence", len(sentences))]
	a, _ := dateOf(s.lang, "a", true)
	text := s.before[0] + a + s.after[0]
	if pick("two", 2) == 1 {
		b, _ := dateOf(s.lang, "b", true)
		text = s.before[0] + a + s.between + b
	}
	cfg := &dps.Configuration{CurrentTime: fixedNow().t}
	p := &dps.Parser{}
	switch pick("how", 3) {
	case 0:
		cfg.Languages = list
	case 1:
		p.DetectLanguagesFunction = func(string) []string { return list }
	case 2:
		cfg.Languages, cfg.DefaultLanguages = list, []string{"it"}
		list = append(append([]string(nil), list...), "it")
	}
	var lang string
	var res, again []dps.SearchResult
	var err, err2 error
	msg := sym.Catch(func() { lang, res, err = p.Search(cfg, text) })
	must(msg)
	sym.ObsStr("lang", lang)
	sym.ObsInt("found", len(res))
	if err != nil {
		sym.Reach("undetected")
		sym.Assert(lang == "" && len(res) == 0, "an error comes alone")
		return
	}
	sym.Reach("detected")
	sym.Assert(oneOf(lang, list), "the detected language is an allowed one")
	msg = sym.Catch(func() { again, err2 = (&dps.Parser{}).SearchWithLanguage(cfg, lang, text) })
	must(msg)
	sym.Assert(err2 == nil && len(again) == len(res), "the search in the detected language gives as many dates")
	for i, r := range res {
		sym.Assert(sym.And(sym.EqStr(r.Text, again[i].Text), sameDate(r.Date, again[i].Date)), "the search in the detected language gives the same")
		sym.Assert(r.Date.Locale == lang, "the locale is the detected language")
	}
}

var _ = reg("C11Detect", C11Detect)

// C11Config: a search reads its dates under the configuration it is given: the
// date found is the one that the parser gives for the piece, under every
// setting and at any day of the month end.
func C11Config() {
	now := time.Date(2021, time.Month(2+sym.Choose("now", 2)), 28, 20, 30, 0, 0, time.UTC)
	if now.Month() == 3 {
		now = now.AddDate(0, 0, 3)
	}
	cfg := &dps.Configuration{CurrentTime: now}
	switch pick("config", 9) {
	case 0:
		cfg.PreserveEndOfMonth = true
	case 1:
		cfg.ReturnTimeAsPeriod = true
	case 2:
		cfg.RequiredParts = []string{"month"}
	case 3:
		cfg.RequiredParts = []string{"day"}
	case 4:
		cfg.SkipTokens = []string{"xq"}
	case 5:
		cfg.PreferredDateSource = dps.Future
	case 6:
		cfg.PreferredDateSource, cfg.PreferredMonthOfYear = dps.Past, dps.LastMonth
	case 7:
		cfg.PreferredDayOfMonth, cfg.PreferredMonthOfYear = dps.First, dps.FirstMonth
	case 8:
		cfg.DefaultTimezone, cfg.DateOrder = sym.Fixed("Z", -18000), dps.YMD
	}
	d := func() string {
		n := sym.Digits("d", 1)
		sym.Assume(num(n) >= 1)
		return n
	}
	var piece string
	switch pick("piece", 9) {
	case 0:
		piece = d() + " months ago"
	case 1:
		piece = "in " + d() + " months"
	case 2:
		piece = "201" + d() + "-05-04"
	case 3:
		piece = "May " + d()
	case 4:
		piece = "1" + d() + ":45"
	case 5:
		piece = "October 201" + d()
	case 6:
		piece = "10/1" + d() + "/2012 10:15"
	case 7:
		piece = "tuesday"
	case 8:
		piece = "1" + d() + " xq june"
	}
	text := []string{"", "it happened "}[pick("before", 2)] + piece
	var lang string
	var res []dps.SearchResult
	var err error
	langs := *cfg
	langs.Languages = []string{"en"}
	msg := sym.Catch(func() {
		if pick("detect", 2) == 1 {
			lang, res, err = (&dps.Parser{}).Search(&langs, text)
			sym.Assert(err != nil || lang == "en", "the only language")
		} else {
			res, err = (&dps.Parser{}).SearchWithLanguage(cfg, "en", text)
		}
	})
	must(msg)
	sym.ObsInt("found", len(res))
	rest := text
	for _, r := range res {
		obs("", r.Date, nil)
		at := strings.Index(rest, r.Text)
		sym.Assert(at >= 0, "a piece of the text, after the earlier ones")
		rest = rest[at+len(r.Text):]
		var d dateErr
		msg := sym.Catch(func() { d.d, d.err = (&dps.Parser{}).Parse(&langs, r.Text) })
		must(msg)
		sym.Assert(d.err == nil, "a piece can be parsed under the configuration")
		sym.Assert(sameDate(r.Date, d.d), "the date is the one the parser gives under the configuration")
		sym.Reach("configured")
	}
}

var _ = reg("C11Config", C11Config)

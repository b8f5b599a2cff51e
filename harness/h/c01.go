package h

import (
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// anyBytes is any text of n bytes of a set.
func anyBytes(n int, set string) string { return sym.Text("b", n, set) }

func allBytes() string {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}

func asciiBytes() string { return allBytes()[:128] }

// usable: a date or an error, never both or none.
func usable(msg string, d date.Date, err error) {
	must(msg)
	sym.Assert((err == nil) == !d.Time.IsZero(), "a date carries a time, an error does not")
}

// ends calls the function that the parameter names.
func ends(cfg *dps.Configuration, text string) {
	var d date.Date
	var err error
	switch sym.Param("call", 0) {
	case 0:
		msg := sym.Catch(func() { d, err = dps.Parse(cfg, text) })
		obs("", d, err)
		usable(msg, d, err)
	case 1:
		msg := sym.Catch(func() { d, err = dps.ParseHijri(cfg, text) })
		obs("", d, err)
		usable(msg, d, err)
	case 2:
		msg := sym.Catch(func() { d, err = dps.ParseJalali(cfg, text) })
		obs("", d, err)
		usable(msg, d, err)
	default:
		var n int
		msg := sym.Catch(func() {
			r, e := (&dps.Parser{}).SearchWithLanguage(cfg, searchLang(cfg), text)
			n, err = len(r), e
			for _, x := range r {
				sym.Assert(!x.Date.Time.IsZero(), "what is found carries a time")
			}
		})
		must(msg)
		sym.ObsInt("found", n)
		sym.ObsBool("err", err != nil)
	}
}

func searchLang(cfg *dps.Configuration) string {
	if len(cfg.Languages) == 0 {
		return "en"
	}
	return cfg.Languages[0]
}

// C01Bytes: short texts of any bytes.
func C01Bytes() {
	lang := []string{"en", "fr", "ru", "ja", "th", "fa", "zh", "de"}[pick("lang", 8)]
	cfg := &dps.Configuration{Languages: []string{lang}, CurrentTime: fixedNow().t}
	set := asciiBytes()
	if pick("all", 2) == 1 {
		set = allBytes()
	}
	n := sym.Param("n", 2)
	text := anyBytes(n, set)
	sym.Reach("bytes")
	ends(cfg, text)
}

var _ = reg("C01Bytes", C01Bytes)

// C01Around: any bytes at the places of usual texts.
func C01Around() {
	set := asciiBytes()
	if pick("all", 2) == 1 {
		set = allBytes()
	}
	b := func() string { return sym.Text("b", sym.Param("k", 1), set) }
	d := func() string { return sym.Digits("d", 1) }
	lang := "en"
	var text string
	switch pick("text", 26) {
	case 0:
		text = "5 " + b() + " 2021"
	case 1:
		text = "2021-1" + b() + "-05"
	case 2:
		text = "10:" + b() + "0"
	case 3:
		text = b() + " ago"
	case 4:
		text = "1" + b() + " days ago"
	case 5:
		text = "may" + b() + "5" + b() + "2012"
	case 6:
		text = "2012-05-0" + d() + b() + "10:1" + d()
	case 7:
		text = "10:10" + b()
	case 8:
		text = "in 5" + b() + "months"
	case 9:
		text = b() + "monday" + b()
	case 10:
		text = "2021-11-05 10:20 +" + b() + d()
	case 11:
		text = "2021-11-05 10:20 utc" + b() + d()
	case 12:
		text = "163611963" + b() + d()
	case 13:
		text = "2021110" + b()
	case 14:
		text = "2 mars" + b() + "20" + b() + "2"
		lang = "fr"
	case 15:
		text = "5 мая" + b() + "2012"
		lang = "ru"
	case 16:
		text = "2012年" + b() + "月5日"
		lang = "ja"
	case 17:
		text = "(" + b() + ")2012"
	case 18:
		text = "10:1" + d() + ":1" + d() + "." + b() + " pm"
	case 19:
		text = "05/1" + b() + "/2012"
	case 25:
		text = "1" + d() + b() + "1" + d() + b() + "1" + d()
	case 21:
		text = "¿5 de mayo" + b() + "2012"
		lang = "es"
	case 22:
		text = "週" + b() + "五"
		lang = "yue"
	case 23:
		text = "mayo" + b() + " ¡" + b() + "¿2012"
		lang = "es"
	case 24:
		text = "12" + b() + "วันก่อน"
		lang = "th"
	case 20:
		text = b() + "يوم" + d()
		lang = "ar"
	}
	sym.Reach("around")
	ends(&dps.Configuration{Languages: []string{lang}, CurrentTime: fixedNow().t}, text)
}

var _ = reg("C01Around", C01Around)

var allWords = []struct {
	lang  string
	words []string
}{
	{"en", []string{"may", "monday", "2012", "d", "ago", "days", "pm", "utc", "in", "1d/05/2012", "june,", "(", ")", ":", "+", "-", "'", "10:1d", ".", "decade", "from now", "12 am", "9999999999", "0", "[am]"}},
	{"fa", []string{"ماه", "دوشنبه", "۲۰۱۲", "d", "پیش", "روز", "-", "/", "سی", "فروردین", "بیست و", "سی ام", "م", "۱۳۹۰", ":"}},
	{"es", []string{"mayo", "¿", "¡", "2012", "d", "hace", "días", "de", "lunes", "?", "!", "."}},
	{"yue", []string{"週五", "2012", "d", "年", "月", "日", "前", "'", "。", " "}},
	{"th", []string{"วัน", "ก่อน", "2012", "d", "เดือน", "จันทร์", "-", " "}},
	{"ja", []string{"月曜日", "年", "月", "2012", "d", "日", "前", "昨日", "午後", "時", "。", " "}},
	{"ru", []string{"мая", "понедельник", "2012", "d", "назад", "дней", "в", "год", "."}},
	{"ar", []string{"يوم", "منذ", "2012", "d", "الاثنين", "مايو", "؟", "-"}},
	{"hi", []string{"दिन", "पहले", "2012", "d", "सोमवार", "मई", "|", "।"}},
	{"vi", []string{"ngày", "thứ hai", "2012", "d", "tháng 5", "trước", "năm"}},
	{"fi", []string{"toukokuuta", "t", "2012", "d", "sitten", "päivää", "maanantai", "klo", "."}},
}

// C01Words: sequences of words that dates are made of, whether they make sense or not.
func C01Words() {
	v := allWords[pick("lang", len(allWords))]
	n := 1 + sym.Choose("n", sym.Param("n", 2))
	var text string
	sep := []string{" ", ""}[pick("sep", 2)]
	for i := 0; i < n; i++ {
		w := v.words[sym.Choose("word", len(v.words))]
		if at := digitAt(w); at >= 0 {
			w = w[:at] + sym.Digits("d", 1) + w[at+1:]
		}
		if i > 0 {
			text += sep
		}
		text += w
	}
	cfg := &dps.Configuration{Languages: []string{v.lang}, CurrentTime: fixedNow().t}
	if pick("strict", 2) == 1 {
		cfg.StrictParsing, cfg.ReturnTimeAsPeriod, cfg.PreferredDateSource = true, true, dps.Future
	}
	sym.Reach("words")
	ends(cfg, text)
}

var _ = reg("C01Words", C01Words)

// C01Digits: digits in groups of any length with any separators.
func C01Digits() {
	seps := "-/.: ,"
	var text string
	switch pick("shape", 7) {
	case 0: // one group of up to n digits
		text = sym.Digits("d", 1+pick("len", sym.Param("n", 12)))
	case 1: // three groups of one, two and four digits
		for i := 0; i < 3; i++ {
			if i > 0 {
				text += sym.Text("sep", 1, seps)
			}
			text += sym.Digits("d", []int{1, 2, 4}[pick("len", 3)])
		}
	case 2: // two groups
		text = sym.Digits("d", 1+pick("len", 6)) + sym.Text("sep", 1, seps) + sym.Digits("d", 1+pick("len", 6))
	case 3: // a date and a clock time that may not exist
		text = sym.Digits("d", 4) + "-" + sym.Digits("d", 2) + "-" + sym.Digits("d", 2) + " " + sym.Digits("d", 2) + ":" + sym.Digits("d", 2)
	case 4: // amounts, also larger than any number
		large := pick("large", 2)
		text = sym.Digits("d", 1+pick("len", 6-3*large)) + []string{"", "999999999999999"}[large] + []string{" seconds", " hours", " days", " weeks", " months", " years", " decades"}[pick("unit", 7)] + []string{" ago", " from now"}[pick("dir", 2)]
	case 6: // days and months that may not exist, of years at the edges of the calendars
		parts := []string{sym.Text("a", 1, "0123") + sym.Digits("d", 1), sym.Text("b", 1, "012") + sym.Digits("m", 1),
			[]string{"0000", "0001", "1210", "1342", "1343", "1355", "1356", "1400", "1403", "1500", "1501", "9377", "9999"}[pick("year", 13)]}
		sep := []string{"-", "/", " "}[pick("sep", 3)]
		switch pick("parts", 3) {
		case 0:
			text = parts[0] + sep + parts[1] + sep + parts[2]
		case 1:
			text = parts[2] + sep + parts[1] + sep + parts[0]
		case 2:
			text = parts[1] + sep + parts[2]
		}
		if pick("clock", 2) == 1 {
			text += " 2" + sym.Digits("h", 1) + ":61"
		}
	case 5: // offsets of any size
		text = "2021-11-05 10:20 " + []string{"+", "-", "utc+", "gmt-"}[pick("zone", 4)] + sym.Digits("d", 2) + ":" + sym.Digits("d", 2)
	}
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: fixedNow().t}
	if k := pick("order", 7); k < 6 {
		cfg.DateOrder = orderFns[k]
	}
	sym.Reach("digits")
	ends(cfg, text)
}

var _ = reg("C01Digits", C01Digits)

// C01Layouts: layouts of any bytes.
func C01Layouts() {
	set := asciiBytes()
	if pick("all", 2) == 1 {
		set = allBytes()
	}
	layout := []string{"", "2006", "2006-01-0", "%", "Jan "}[pick("layout", 5)] + sym.Text("l", sym.Param("n", 2), set)
	text := []string{"", "2012", "2012-05-05", "May 5", "12"}[pick("text", 5)] + sym.Text("t", sym.Param("t", 1), set)
	cfg := &dps.Configuration{Languages: []string{"en"}, CurrentTime: fixedNow().t}
	var d date.Date
	var err error
	msg := sym.Catch(func() { d, err = dps.Parse(cfg, text, layout) })
	obs("", d, err)
	usable(msg, d, err)
	sym.Reach("layouts")
}

var _ = reg("C01Layouts", C01Layouts)

// C01Nows: any current time, far from today, for texts that depend on it.
func C01Nows() {
	text := []string{"february", "29 february", "monday", "31", "12:30", "5 months ago", "in 1d years", "yesterday", "31/12", "february 29 10:10", "29/02/" + "1d", "2d00 years ago", "noon", "12:30 utc+14"}[pick("text", 14)]
	if at := digitAt(text); at >= 0 {
		text = text[:at] + sym.Digits("d", 1) + text[at+1:]
	} else if text == "2d00 years ago" {
		text = "2" + sym.Digits("d", 1) + "00 years ago"
	} else if text == "in 1d years" {
		text = "in 1" + sym.Digits("d", 1) + " years"
	}
	cfg := &dps.Configuration{Languages: []string{"en"}}
	prefs(cfg)
	cfg.CurrentTime = anyNow(sym.Param("from", 2), sym.Param("to", 9999)).t
	sym.Reach("nows")
	ends(cfg, text)
}

var _ = reg("C01Nows", C01Nows)

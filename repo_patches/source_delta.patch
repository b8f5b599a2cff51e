From 5621e166bc5967db8c2ceed47e803f907c6ae9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 01/32] fix: reject written dates that don't exist instead of
 altering them

---
 internal/parser/absolute/root.go | 38 +++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 8853c0f..1d1c1ba 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -1,11 +1,13 @@
 package absolute
 
 import (
+	"fmt"
 	"strings"
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/dateutil"
+	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
@@ -28,17 +30,17 @@ func Parse(cfg *setting.Configuration, str string, tz timezone.OffsetData) (date
 func getDateTimeParams(p *Parser) map[string]int {
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
-	if !dayExist || day == 0 {
+	if !dayExist {
 		day = p.Now.Day()
 	}
 
 	month, monthExist := p.ComponentValues["month"]
-	if !monthExist || month == 0 {
+	if !monthExist {
 		month = int(p.Now.Month())
 	}
 
 	year, yearExist := p.ComponentValues["year"]
-	if !yearExist || year == 0 {
+	if !yearExist {
 		year = p.Now.Year()
 	}
 
@@ -53,15 +55,31 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
-		Y = p.getCorrectLeapYear(Y)
+	_, dayWritten := p.ComponentTokens["day"]
+	_, monthWritten := p.ComponentTokens["month"]
+	_, yearWritten := p.ComponentTokens["year"]
+
+	// If only the month is missing, the written day must exist in the month that
+	// will be used to fill it
+	if dayWritten && !monthWritten {
+		tmp := common.ApplyMonthFromConfig(p.Config, time.Date(Y, 1, 1, 0, 0, 0, 0, time.UTC), time.Month(M))
+		M = int(tmp.Month())
+	}
+
+	// Make sure the values exist in calendar
+	if Y < 1 || M < 1 || M > 12 || D < 1 {
+		return time.Time{}, fmt.Errorf("date %d-%d-%d doesn't exist", Y, M, D)
 	}
 
-	// Fix max day
-	lastDayOfMonth := dateutil.GetLastDayOfMonth(Y, M)
-	if D > lastDayOfMonth {
-		D = lastDayOfMonth
+	if lastDayOfMonth := dateutil.GetLastDayOfMonth(Y, M); D > lastDayOfMonth {
+		switch {
+		case !dayWritten: // day is not specified, so use the last one
+			D = lastDayOfMonth
+		case D == 29 && M == 2 && !yearWritten: // year is not specified, so use leap year
+			Y = p.getCorrectLeapYear(Y)
+		default:
+			return time.Time{}, fmt.Errorf("date %d-%d-%d doesn't exist", Y, M, D)
+		}
 	}
 
 	return time.Date(Y, time.Month(M), D, H, m, s, ns, loc), nil
-- 
2.43.0


From b0da4479531a91a986b9a87748fafc4cf9062043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 02/32] fix: read eight digits in the configured order before
 splitting them otherwise

---
 internal/parser/nospace/parser.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index ac023d2..da90402 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -33,11 +33,14 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		order = strings.ToLower(cfg.DateOrder)
 	} else {
 		order = strings.ToLower("MDY")
-		if rxEightDigit.MatchString(str) {
-			dt := findBestMatchingDate(str)
-			if !dt.IsZero() {
-				return dt, nil
-			}
+	}
+
+	// Eight digits are a complete date with four digit year, so before trying to
+	// split it some other way read it as written, preferably in the date order
+	if rxEightDigit.MatchString(str) {
+		dt := findBestMatchingDate(str, order)
+		if !dt.IsZero() {
+			return dt, nil
 		}
 	}
 
@@ -99,8 +102,9 @@ func isEligible(str string) bool {
 	return match == "" || match == ":"
 }
 
-func findBestMatchingDate(str string) date.Date {
-	for _, format := range preferredFormatsOrdered8Digit {
+func findBestMatchingDate(str string, order string) date.Date {
+	orderFormat := strings.NewReplacer("y", "2006", "m", "01", "d", "02").Replace(order)
+	for _, format := range append([]string{orderFormat}, preferredFormatsOrdered8Digit...) {
 		t, _ := time.Parse(format, str)
 		if !t.IsZero() && t.Year() >= 1000 {
 			period := getPeriodFromFormat(format)
-- 
2.43.0


From 69a2ca3b726625b496079537831c434629f3bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 03/32] fix: read dates without separators in locales whose
 date order has punctuation

---
 internal/parser/nospace/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index da90402..d04bd75 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -30,7 +30,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	// Fetch date order
 	var order string
 	if cfg != nil && cfg.DateOrder != "" {
-		order = strings.ToLower(cfg.DateOrder)
+		order = strings.Map(keepOrderChar, strings.ToLower(cfg.DateOrder))
 	} else {
 		order = strings.ToLower("MDY")
 	}
@@ -97,6 +97,14 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	return date.Date{}, fmt.Errorf("unable to parse date from %s", str)
 }
 
+// keepOrderChar removes the punctuation in date order of some locales, e.g. "YMD.".
+func keepOrderChar(r rune) rune {
+	if r == 'd' || r == 'm' || r == 'y' {
+		return r
+	}
+	return -1
+}
+
 func isEligible(str string) bool {
 	match := rxCompatible.FindString(str)
 	return match == "" || match == ":"
-- 
2.43.0


From cc17410ac7105e22a0b882a53e095b45bf200036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 04/32] fix: keep the year near when only February is written

---
 internal/parser/absolute/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 71a5708..74767d7 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -508,7 +508,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		}
 
 		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			tYear = p.getCorrectLeapYear(tYear)
+			if tokenDayExist {
+				tYear = p.getCorrectLeapYear(tYear)
+			} else {
+				tDay = 28
+			}
 		}
 
 		t = time.Date(tYear, tMonth, tDay,
-- 
2.43.0


From bbc2826d4d24b5d367139b8ac3e54018e47f993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 05/32] fix: don't change the month when only a time is written

---
 internal/parser/absolute/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 74767d7..762e50c 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -571,12 +571,13 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
-	// If only a weekday is provided (without year, month, or day), no adjustment is
-	// needed as well, because it's been handled previously by `correctForTimeFrame`
+	// If only a weekday or a time is provided (without year, month, or day), no adjustment
+	// is needed as well, because it's been handled previously by `correctForTimeFrame`
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenYearExist := p.ComponentTokens["year"]
+	_, tokenTimeExist := p.ComponentTokens["time"]
 	_, tokenWeekdayExist := p.ComponentTokens["weekday"]
-	if tokenWeekdayExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
+	if (tokenWeekdayExist || tokenTimeExist) && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
 		return t
 	}
 
-- 
2.43.0


From a12c3a26d0ba93635cdcd7f8e24ba284024e2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 06/32] fix: keep a leap day with two digit year when another
 century is preferred

---
 internal/parser/absolute/parser.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 762e50c..3bd2205 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -523,11 +523,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	if tokenYearExist && len(tokenYear.Text) == 2 {
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
-				t = t.AddDate(-100, 0, 0)
+				t = addCenturies(t, -1)
 			}
 		} else {
 			if dateSource == setting.Future {
-				t = t.AddDate(100, 0, 0)
+				t = addCenturies(t, 1)
 			}
 		}
 	}
@@ -552,6 +552,16 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	return t
 }
 
+// addCenturies moves the date by the centuries, or by more when it is a leap day
+// that doesn't exist in the resulting year.
+func addCenturies(t time.Time, n int) time.Time {
+	result := t.AddDate(n*100, 0, 0)
+	for years := n * 200; result.Day() != t.Day(); years += n * 100 {
+		result = t.AddDate(years, 0, 0)
+	}
+	return result
+}
+
 func (p *Parser) correctForDay(t time.Time) time.Time {
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenTimeExist := p.ComponentTokens["time"]
-- 
2.43.0


From 182b61bff8d3c74cb570f0f9fbe3cd31e49fd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 07/32] fix: use the same timezone table in every process

---
 internal/timezone/timezones.go  | 27 +++++++++++++++++----------
 internal/timezone/tz-offsets.go | 17 +++++++++++++----
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/internal/timezone/timezones.go b/internal/timezone/timezones.go
index 3dd841a..e5efcea 100644
--- a/internal/timezone/timezones.go
+++ b/internal/timezone/timezones.go
@@ -5,10 +5,17 @@ import "github.com/markusmobius/go-dateparser/internal/regexp"
 // Info is the data for parsing timezone from a string.
 type Info struct {
 	RegexPatterns       []string
-	AlternativePatterns map[*regexp.Regexp]string
+	AlternativePatterns []AlternativePattern
 	Timezones           map[string]int
 }
 
+// AlternativePattern is another way to write a timezone, made by replacing
+// parts of its name. The patterns are used in the listed order.
+type AlternativePattern struct {
+	Replacer    *regexp.Regexp
+	Replacement string
+}
+
 // These timezone list are taken fromseveral sources:
 // - http://stackoverflow.com/q/1703546
 // - http://en.wikipedia.org/wiki/List_of_time_zone_abbreviations
@@ -19,20 +26,20 @@ var timezoneInfoList = []Info{
 		RegexPatterns: []string{
 			`(.)%s$`,
 		},
-		AlternativePatterns: map[*regexp.Regexp]string{
+		AlternativePatterns: []AlternativePattern{
 			// UTC+n, UTC-n, GMT+n, GMT-n:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+n:mm, UTC-n:mm, GMT+n:mm, GMT-n:mm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`): `(?:UTC|GMT)\$1$2:$3`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`), `(?:UTC|GMT)\$1$2:$3`},
 			// UTC+nn, UTC-nn, GMT+nn, GMT-nn:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+nnmm, UTC-nnmm, GMT+nnmm, GMT-nnmm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`): `(?:UTC|GMT)\$1$2:?$3.*`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`), `(?:UTC|GMT)\$1$2:?$3.*`},
 			// Others:
-			regexp.MustCompile(`UTC`):   "",
-			regexp.MustCompile(`:`):     "",
-			regexp.MustCompile(`:|UTC`): "",
-			regexp.MustCompile(`UTC`):   "GMT",
+			{regexp.MustCompile(`UTC`), ""},
+			{regexp.MustCompile(`:`), ""},
+			{regexp.MustCompile(`:|UTC`), ""},
+			{regexp.MustCompile(`UTC`), "GMT"},
 		},
 		Timezones: map[string]int{
 			`UTC-12:00`: -43200,
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index b53a382..5f2302c 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -25,9 +25,17 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	searchPatterns := map[string]struct{}{}
 
 	for _, tzInfo := range timezoneInfoList {
+		// Always use the same order, so the same text gives the same timezone
+		tzNames := make([]string, 0, len(tzInfo.Timezones))
+		for tzName := range tzInfo.Timezones {
+			tzNames = append(tzNames, tzName)
+		}
+		sort.Strings(tzNames)
+
 		for _, pattern := range tzInfo.RegexPatterns {
 			// Main pattern
-			for tzName, offset := range tzInfo.Timezones {
+			for _, tzName := range tzNames {
+				offset := tzInfo.Timezones[tzName]
 				searchPattern := regexp.QuoteMeta(tzName)
 				regexPattern := fmt.Sprintf(pattern, searchPattern)
 				if _, exist := regexPatterns[regexPattern]; exist {
@@ -43,10 +51,11 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 			}
 
 			// Alternative patterns
-			for replacer, replacement := range tzInfo.AlternativePatterns {
-				for tzName, offset := range tzInfo.Timezones {
+			for _, alternative := range tzInfo.AlternativePatterns {
+				for _, tzName := range tzNames {
+					offset := tzInfo.Timezones[tzName]
 					searchPattern := regexp.QuoteMeta(tzName)
-					searchPattern = replacer.ReplaceAllString(searchPattern, replacement)
+					searchPattern = alternative.Replacer.ReplaceAllString(searchPattern, alternative.Replacement)
 					regexPattern := fmt.Sprintf(pattern, searchPattern)
 					if _, exist := regexPatterns[regexPattern]; exist {
 						continue
-- 
2.43.0


From 61c85ae23239f1c3841bf7fc3faf296d47ec843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 08/32] fix: keep the whole character before a timezone

---
 internal/timezone/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 7893109..f17a8a8 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -1,5 +1,7 @@
 package timezone
 
+import "unicode/utf8"
+
 // PopTzOffset extracts timezone data from str then return the
 // str with the timezone code removed.
 func PopTzOffset(str string) (string, OffsetData) {
@@ -10,7 +12,9 @@ func PopTzOffset(str string) (string, OffsetData) {
 				continue
 			}
 
-			str = str[:idxs[0]+1] + str[idxs[1]:]
+			// Keep the character before the timezone, which might be multi bytes
+			_, size := utf8.DecodeRuneInString(str[idxs[0]:])
+			str = str[:idxs[0]+size] + str[idxs[1]:]
 			return str, offsetData
 		}
 	}
-- 
2.43.0


From 16a0e0c4bb0da31c31267ac61d387c14ab96fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 09/32] fix: use the default timezone's offset at the written
 wall clock

---
 internal/parser/absolute/parser.go | 4 +++-
 parser.go                          | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 3bd2205..a0b29ba 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -535,7 +535,9 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
 		tzOffset := tz.Offset
 		if tz.IsZero() && p.Config.DefaultTimezone != nil {
-			_, tzOffset = t.In(p.Config.DefaultTimezone).Zone()
+			_, tzOffset = time.Date(t.Year(), t.Month(), t.Day(),
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+				p.Config.DefaultTimezone).Zone()
 		}
 
 		tmp := t.Add(-time.Duration(tzOffset) * time.Second)
diff --git a/parser.go b/parser.go
index 0dc6ace..1a5376b 100644
--- a/parser.go
+++ b/parser.go
@@ -323,7 +323,10 @@ func (p *Parser) applyTimezone(iCfg *setting.Configuration, dt date.Date, tz tim
 	if !tz.IsZero() {
 		tzName, tzOffset = tz.Name, tz.Offset
 	} else {
-		tzName, tzOffset = dt.Time.In(iCfg.DefaultTimezone).Zone()
+		// Use the offset that is in force when the clock there shows the date
+		tzName, tzOffset = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
+			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
+			iCfg.DefaultTimezone).Zone()
 	}
 
 	dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
-- 
2.43.0


From 752cfd58e2ec0eafb4ff8af42820b424ad59157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 10/32] fix: accept day, month and year as required parts and
 nothing else

---
 config.go                              | 1 +
 internal/parser/common/strict-check.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index cb8a2c6..eaf4608 100644
--- a/config.go
+++ b/config.go
@@ -194,6 +194,7 @@ func (c Configuration) validate() error {
 	for _, part := range c.RequiredParts {
 		switch strings.ToLower(part) {
 		case "day", "month", "year":
+		default:
 			return fmt.Errorf("invalid component in required parts: %s", part)
 		}
 	}
diff --git a/internal/parser/common/strict-check.go b/internal/parser/common/strict-check.go
index 271ec2b..8d08b76 100644
--- a/internal/parser/common/strict-check.go
+++ b/internal/parser/common/strict-check.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
@@ -23,7 +24,7 @@ func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) e
 
 	// Check if there are any missing required parts
 	for _, requiredPart := range requiredParts {
-		if missingParts.Contain(requiredPart) {
+		if missingParts.Contain(strings.ToLower(requiredPart)) {
 			return fmt.Errorf("required part \"%s\" is missing", requiredPart)
 		}
 	}
-- 
2.43.0


From ad6eada2127cbb65b65d4627437377507db8f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 11/32] fix: accept complete dates without separators in strict
 parsing

---
 internal/parser/nospace/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index d04bd75..03b4ec9 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -75,9 +75,12 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 				}
 
 				missingParts := strutil.NewDict()
+				for _, part := range formatMapping {
+					missingParts.Add(part)
+				}
 				for key, part := range formatMapping {
-					if !strings.Contains(format, key) {
-						missingParts.Add(part)
+					if strings.Contains(format, key) {
+						delete(missingParts, part)
 					}
 				}
 
-- 
2.43.0


From 89e3789e703bdb0d4c76836b4429c32a753d2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 12/32] fix: use a number that is left over for one missing
 part only

---
 internal/parser/absolute/parser.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index a0b29ba..bd05a4f 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -2,6 +2,7 @@ package absolute
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"time"
@@ -248,14 +249,19 @@ func (p *Parser) Init(str string) error {
 	}
 
 	// Use fallback for unknown component
-	for _, component := range []string{"day", "month", "year"} {
+	for _, component := range p.Components {
 		if _, exist := p.ComponentValues[component]; !exist {
-			for _, ut := range p.UnsetTokens {
-				if ut.Type == tokenizer.Digit {
-					newValue, _ := strconv.Atoi(ut.Text)
-					p.ComponentTokens[component] = ut
-					p.ComponentValues[component] = newValue
+			for i, ut := range p.UnsetTokens {
+				newValue, _ := strconv.Atoi(ut.Text)
+				if ut.Type != tokenizer.Digit || component == "month" && newValue > 12 {
+					continue
 				}
+
+				// Each token only used once
+				p.ComponentTokens[component] = ut
+				p.ComponentValues[component] = newValue
+				p.UnsetTokens = slices.Delete(p.UnsetTokens, i, i+1)
+				break
 			}
 		}
 	}
-- 
2.43.0


From a1b5d8c676b474309d7ce36acc1d21966d013883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 13/32] fix: reject an incomplete date instead of giving it
 another meaning

---
 internal/parser/absolute/parser.go     | 28 ++++++++++++++------------
 internal/parser/common/strict-check.go |  8 ++++++--
 parser.go                              | 21 ++++++++++++++-----
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index bd05a4f..47cbb3a 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -270,20 +270,8 @@ func (p *Parser) Init(str string) error {
 }
 
 func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
-	// Find missing date fields
-	missingParts := strutil.NewDict()
-	for _, field := range []string{"day", "month", "year"} {
-		if _, exist := p.ComponentValues[field]; !exist {
-			missingParts.Add(field)
-		}
-	}
-
-	err := common.CheckStrictParsing(p.Config, missingParts)
-	if err != nil {
-		return date.Date{}, err
-	}
-
 	// Parse time
+	var err error
 	var parsedTimePeriod date.Period
 	if timeToken, exist := p.ComponentTokens["time"]; exist {
 		p.ParsedTime, parsedTimePeriod, err = common.ParseTime(timeToken.Text)
@@ -308,6 +296,20 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		return date.Date{}, err
 	}
 
+	// Find missing date fields. This is done once we know that the date is valid, so
+	// an incomplete date can be told from a text that is not a date.
+	missingParts := strutil.NewDict()
+	for _, field := range []string{"day", "month", "year"} {
+		if _, exist := p.ComponentValues[field]; !exist {
+			missingParts.Add(field)
+		}
+	}
+
+	err = common.CheckStrictParsing(p.Config, missingParts)
+	if err != nil {
+		return date.Date{}, err
+	}
+
 	// Apply correction for past and future
 	dt = p.correctForTimeFrame(dt, tz)
 
diff --git a/internal/parser/common/strict-check.go b/internal/parser/common/strict-check.go
index 8d08b76..32aad7f 100644
--- a/internal/parser/common/strict-check.go
+++ b/internal/parser/common/strict-check.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -8,6 +9,9 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
 
+// ErrIncomplete is returned when date parts that must be written are missing.
+var ErrIncomplete = errors.New("date is incomplete")
+
 func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) error {
 	// Read config
 	var strictParsing bool
@@ -19,13 +23,13 @@ func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) e
 
 	// If strict parsing enabled, make sure there are no missing parts
 	if strictParsing && len(missingParts) > 0 {
-		return fmt.Errorf("fields missing from date string: %s", missingParts)
+		return fmt.Errorf("%w: fields missing from date string: %s", ErrIncomplete, missingParts)
 	}
 
 	// Check if there are any missing required parts
 	for _, requiredPart := range requiredParts {
 		if missingParts.Contain(strings.ToLower(requiredPart)) {
-			return fmt.Errorf("required part \"%s\" is missing", requiredPart)
+			return fmt.Errorf("%w: required part \"%s\" is missing", ErrIncomplete, requiredPart)
 		}
 	}
 
diff --git a/parser.go b/parser.go
index 1a5376b..9bedec8 100644
--- a/parser.go
+++ b/parser.go
@@ -1,6 +1,7 @@
 package dateparser
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 	"sync"
@@ -12,6 +13,7 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/language"
 	"github.com/markusmobius/go-dateparser/internal/parser/absolute"
+	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/parser/formatted"
 	"github.com/markusmobius/go-dateparser/internal/parser/nospace"
 	"github.com/markusmobius/go-dateparser/internal/parser/relative"
@@ -148,7 +150,12 @@ func (p *Parser) Parse(cfg *Configuration, str string, formats ...string) (date.
 			case CustomFormat:
 				dt = p.tryCustomFormat(lCfg, translationsWithFormat, formats...)
 			case AbsoluteTime:
-				dt = p.tryAbsoluteTime(lCfg, translations)
+				// If the date is incomplete it must be rejected as it is, without
+				// looking for another meaning
+				dt, err = p.tryAbsoluteTime(lCfg, translations)
+				if errors.Is(err, common.ErrIncomplete) {
+					return date.Date{}, fmt.Errorf("failed to parse \"%s\": %w", originalStr, err)
+				}
 			case NoSpacesTime:
 				dt = p.tryNoSpacesTime(lCfg, translations)
 			}
@@ -187,17 +194,21 @@ func (p *Parser) tryCustomFormat(iCfg *setting.Configuration, translations []str
 	return date.Date{}
 }
 
-func (p *Parser) tryAbsoluteTime(iCfg *setting.Configuration, translations []string) date.Date {
+func (p *Parser) tryAbsoluteTime(iCfg *setting.Configuration, translations []string) (date.Date, error) {
 	for _, translation := range translations {
 		if t, tz := p.stripBracesAndTimezones(translation); t != "" {
-			dt, _ := absolute.Parse(iCfg, t, tz)
+			dt, err := absolute.Parse(iCfg, t, tz)
+			if errors.Is(err, common.ErrIncomplete) {
+				return date.Date{}, err
+			}
+
 			dt = p.applyTimezone(iCfg, dt, tz)
 			if !dt.IsZero() {
-				return dt
+				return dt, nil
 			}
 		}
 	}
-	return date.Date{}
+	return date.Date{}, nil
 }
 
 func (p *Parser) tryNoSpacesTime(iCfg *setting.Configuration, translations []string) date.Date {
-- 
2.43.0


From ad962c7ce905d703f4b6932ea3b3fd2616e96c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 14/32] fix: reject a left over number that fits no missing
 part

---
 internal/parser/absolute/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 47cbb3a..89a0d58 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -263,6 +263,10 @@ func (p *Parser) Init(str string) error {
 				p.UnsetTokens = slices.Delete(p.UnsetTokens, i, i+1)
 				break
 			}
+
+			if _, exist := p.ComponentValues[component]; !exist && len(p.UnsetTokens) > 0 {
+				return fmt.Errorf("unable to parse %s as %s", p.UnsetTokens[0].Text, component)
+			}
 		}
 	}
 
-- 
2.43.0


From ad6902eb9b12bd6e2eab8d9c6c0422ce9e824644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 15/32] fix: fill the parts a format leaves out without leaving
 the month

---
 internal/parser/formatted/parser.go | 61 ++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index d436d07..8aea76c 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
@@ -12,9 +13,6 @@ import (
 
 // Parse the specified string using one of the specified formats.
 func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date {
-	// Create initial period
-	period := date.Day
-
 	// Check if string contain timezone
 	var timeLoc *time.Location
 	if _, tzData := timezone.PopTzOffset(str); tzData.IsZero() {
@@ -44,31 +42,64 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		}
 
 		// Check if format has day or month
+		period := date.Day
 		checkerText := checker.Format(format)
 		formatHasDay := strings.Contains(checkerText, "4")
 		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
 
-		if !formatHasMonth && !formatHasDay {
-			period = date.Year
-			t = common.ApplyMonthFromConfig(cfg, t)
-			t = common.ApplyDayFromConfig(cfg, t)
-		} else if !formatHasMonth {
+		// Day of year specifies both of them
+		if strings.Contains(format, "002") || strings.Contains(format, "__2") {
+			formatHasDay, formatHasMonth = true, true
+		}
+
+		// If format doesn't have year, use the current one
+		year, month, day := t.Year(), t.Month(), t.Day()
+		formatHasYear := year != 0
+		if !formatHasYear {
+			year = currentTime.Year()
+		}
+
+		if !formatHasMonth {
 			period = date.Year
-			t = common.ApplyMonthFromConfig(cfg, t)
+			month = common.ApplyMonthFromConfig(cfg, time.Date(year, 1, 1, 0, 0, 0, 0, time.UTC)).Month()
 		} else if !formatHasDay {
 			period = date.Month
-			t = common.ApplyDayFromConfig(cfg, t)
 		}
 
-		// Check if format has year
-		if t.Year() == 0 {
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
-				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-				t.Location())
+		// Make sure the day exists in the month, so it never goes to the next one
+		if !formatHasDay {
+			day = common.ApplyDayFromConfig(cfg, time.Date(year, month, 1, 0, 0, 0, 0, time.UTC)).Day()
+		} else if day > dateutil.GetLastDayOfMonth(year, int(month)) {
+			if formatHasYear || !formatHasMonth {
+				continue
+			}
+			year = getNearestLeapYear(cfg, year)
 		}
 
+		t = time.Date(year, month, day,
+			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+			t.Location())
+
 		return date.Date{Time: t, Period: period}
 	}
 
 	return date.Date{}
 }
+
+// getNearestLeapYear returns the leap year nearest to the year, on the preferred side.
+func getNearestLeapYear(cfg *setting.Configuration, year int) int {
+	next := dateutil.GetLeapYear(year, true)
+	prev := dateutil.GetLeapYear(year, false)
+
+	switch cfg.PreferredDateSource {
+	case setting.Future:
+		return next
+	case setting.Past:
+		return prev
+	default:
+		if next-year < year-prev {
+			return next
+		}
+		return prev
+	}
+}
-- 
2.43.0


From c1fecfd22298e8719368e429d4b829bde6122a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 16/32] fix: treat a non-breaking space as a space

---
 internal/strutil/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4a95223..eaaa86e 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -50,7 +50,7 @@ var (
 // SanitizeSpaces replaces non-breaking spaces into a normal one,
 // then remove any excess whitespaces.
 func SanitizeSpaces(s string) string {
-	s = strings.ReplaceAll(s, "\u00A0", "")
+	s = strings.ReplaceAll(s, "\u00A0", " ")
 	s = strings.Join(strings.Fields(s), " ")
 	return s
 }
-- 
2.43.0


From e1f39e2dd2f6a436d6bca329d3e54b846e78e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 17/32] fix: keep the value of digits in ranges of several
 digit sets

---
 internal/digit/digit.go    | 2 +-
 scripts/digit/templates.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/digit/digit.go b/internal/digit/digit.go
index ff9fbfa..5be4d2b 100755
--- a/internal/digit/digit.go
+++ b/internal/digit/digit.go
@@ -45,7 +45,7 @@ type digitRange struct {
 
 func (dr digitRange) apply(r rune) (rune, bool) {
 	if r >= dr.Start && r <= dr.End {
-		number := int32(r - dr.Start)
+		number := (r - dr.Start) % 10 // a range might consist of several digit sets
 		return '0' + number, true
 	}
 
diff --git a/scripts/digit/templates.go b/scripts/digit/templates.go
index 9e8adec..c520305 100644
--- a/scripts/digit/templates.go
+++ b/scripts/digit/templates.go
@@ -52,7 +52,7 @@ type digitRange struct {
 
 func (dr digitRange) apply(r rune) (rune, bool) {
 	if r >= dr.Start && r <= dr.End {
-		number := int32(r - dr.Start)
+		number := (r - dr.Start) % 10 // a range might consist of several digit sets
 		return '0' + number, true
 	}
 
-- 
2.43.0


From fa1230da00722b48b23fb01020975c08867405b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 18/32] fix: accept day 31 in Jalali dates

---
 internal/parser/jalali/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 45e9bf7..5073a8f 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -1,6 +1,7 @@
 package jalali
 
 import (
+	"fmt"
 	"strconv"
 	"time"
 	"unicode"
@@ -121,7 +122,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "day" && tokenLength <= 2 && tokenIsDigit {
 		day, _ := strconv.Atoi(token)
-		if day >= 1 && day <= 30 {
+		if day >= 1 && day <= 31 {
 			return day, true
 		}
 	}
@@ -146,6 +147,9 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	// Fix max day
 	lastDayOfMonth, err := jalaali.MonthLength(Y, M)
 	if err == nil && D > lastDayOfMonth {
+		if p.ComponentValues["day"] > 30 {
+			return time.Time{}, fmt.Errorf("month %d doesn't have day %d", M, D)
+		}
 		D = lastDayOfMonth
 	}
 
-- 
2.43.0


From 8119e92310c43c338860132410dd8893760c3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 19/32] fix: use the month lengths of Umm al-Qura calendar and
 reject dates outside of it

---
 internal/parser/hijri/parser.go | 37 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index e2e0e6b..0aee590 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -1,6 +1,7 @@
 package hijri
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -15,6 +16,12 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
+// Years that covered by Umm al-Qura calendar.
+const (
+	minYear = 1356
+	maxYear = 1500
+)
+
 var timeConventions = map[string]string{
 	"am": "صباحا",
 	"pm": "مساء",
@@ -79,7 +86,7 @@ func getDateTimeParams(p *absolute.Parser) map[string]int {
 	}
 
 	year, yearExist := p.ComponentValues["year"]
-	if !yearExist || year == 0 {
+	if !yearExist {
 		year = int(hd.Year)
 	}
 
@@ -130,6 +137,11 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// Make sure the date is inside the calendar
+	if Y < minYear || Y > maxYear || M < 1 || M > 12 || D < 1 {
+		return time.Time{}, fmt.Errorf("date is outside Umm al-Qura scope")
+	}
+
 	// Fix leap year
 	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
@@ -157,10 +169,7 @@ func isDigit(s string) bool {
 }
 
 func isHijriLeapYear(year int) bool {
-	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: 12, Day: 30}
-	gd := hd.ToGregorian()
-	rhd, _ := hijri.CreateUmmAlQuraDate(gd)
-	return rhd.Day == 30
+	return getLastDayOfHijriMonth(year, 12) == 30
 }
 
 func getHijriLeapYear(year int, toFuture bool) int {
@@ -169,9 +178,13 @@ func getHijriLeapYear(year int, toFuture bool) int {
 		step = -1
 	}
 
+	originalYear := year
+
 	for {
 		year += step
-		if isHijriLeapYear(year) {
+		if year < minYear || year > maxYear {
+			return originalYear
+		} else if isHijriLeapYear(year) {
 			return year
 		}
 	}
@@ -201,14 +214,10 @@ func getCorrectHijriLeapYear(cfg *setting.Configuration, currentYear int) int {
 }
 
 func getLastDayOfHijriMonth(year, month int) int {
-	switch {
-	case month == 12 && isHijriLeapYear(year):
-		return 30
-	case month%2 == 0:
-		return 29
-	default:
-		return 30
-	}
+	// In Umm al-Qura the length of month doesn't follow any rule, so get it from the calendar
+	currentMonth := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month), Day: 1}.ToGregorian()
+	nextMonth := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month + 1), Day: 1}.ToGregorian()
+	return int(nextMonth.Sub(currentMonth) / (24 * time.Hour))
 }
 
 func handleTwoDigitYear(year int) int {
-- 
2.43.0


From 5c61dda4269e5ca702b3495ef8758ac12d885179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 20/32] fix: try only the chosen locales among the previously
 used ones

---
 parser.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index 9bedec8..7b344fd 100644
--- a/parser.go
+++ b/parser.go
@@ -236,15 +236,6 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		dateStrings = append(dateStrings, poppedTz)
 	}
 
-	// Fetch previously used locales first
-	if cfg.TryPreviousLocales {
-		ld := p.checkPreviousLocales(iCfg, dateStrings)
-		if ld != nil {
-			results = append(results, ld)
-			resultTracker.Add(ld.Name)
-		}
-	}
-
 	// If specified, use external detector to fetch languages
 	languages := slices.Clone(cfg.Languages)
 	if p.DetectLanguagesFunction != nil && len(cfg.Locales) == 0 && len(languages) == 0 {
@@ -258,6 +249,23 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		return nil, err
 	}
 
+	// Try previously used locales first. If the locales or languages are specified,
+	// only those among them may be used.
+	if cfg.TryPreviousLocales {
+		usedLocales := p.usedLocales
+		if len(cfg.Locales) > 0 || len(cfg.Languages) > 0 {
+			usedLocales = slices.DeleteFunc(slices.Clone(usedLocales), func(ld *data.LocaleData) bool {
+				return !slices.Contains(locales, ld)
+			})
+		}
+
+		ld := p.checkPreviousLocales(iCfg, usedLocales, dateStrings)
+		if ld != nil {
+			results = append(results, ld)
+			resultTracker.Add(ld.Name)
+		}
+	}
+
 	for _, locale := range locales {
 		if resultTracker.Contain(locale.Name) {
 			continue
@@ -291,8 +299,8 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 	return results, nil
 }
 
-func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, dateStrings []string) *data.LocaleData {
-	for _, usedLocale := range p.usedLocales {
+func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, usedLocales []*data.LocaleData, dateStrings []string) *data.LocaleData {
+	for _, usedLocale := range usedLocales {
 		for _, ds := range dateStrings {
 			if p.localeIsApplicable(iCfg, usedLocale, ds) {
 				return usedLocale
-- 
2.43.0


From fd728c5c10641b9b4e987bc2f2c74c100e2160c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:01 +0000
Subject: [PATCH 21/32] fix: do not share stateful transformers between
 goroutines

---
 internal/strutil/strutil.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index eaaa86e..65e3267 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -13,8 +13,9 @@ import (
 )
 
 var (
-	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
-	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
+	// Transformers here are shared by every goroutine, so they must be stateless,
+	// which a transform.Chain is not
+	markTransformer = runes.Remove(runes.In(unicode.Mn))
 
 	aposthropeTransformer = runes.Map(func(r rune) rune {
 		switch r {
@@ -58,11 +59,9 @@ func SanitizeSpaces(s string) string {
 // NormalizeUnicode removes Nonspacing Mark (Mn) characters then
 // use NFKC as the normal forms.
 func NormalizeUnicode(str string) string {
-	normalized, _, err := transform.String(unicodeTransformer, str)
-	if err != nil {
-		return str
-	}
-	return normalized
+	str = norm.NFKD.String(str)
+	str = markTransformer.String(str)
+	return norm.NFKC.String(str)
 }
 
 // NormalizeAposthrope replace apostrope lookalike chars into the ordinary aposthrope.
@@ -74,11 +73,7 @@ func NormalizeAposthrope(s string) string {
 // NormalizeCharset is used to normalize charset in a string. Used before
 // detecting language of a string.
 func NormalizeCharset(str string) string {
-	normalized, _, err := transform.String(nfkcTransformer, str)
-	if err == nil {
-		str = normalized
-	}
-
+	str = norm.NFKC.String(norm.NFKD.String(str))
 	str = NormalizeAposthrope(str)
 	str = strings.ReplaceAll(str, ".", "")
 	str = strings.ToLower(str)
-- 
2.43.0


From 16935b7a0afef9f11292f03bc3195daf8d9c38ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 22/32] fix: use the charsets prepared under the lock when
 searching

---
 search.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 84d0be9..888d139 100644
--- a/search.go
+++ b/search.go
@@ -65,11 +65,11 @@ func (p *Parser) Search(cfg *Configuration, text string) (string, []SearchResult
 	}
 
 	// Generate charsets
-	p.initUniqueCharsets(languages)
+	uniqueCharsets := p.initUniqueCharsets(languages)
 
 	// Detect language of the text
 	iCfg := cfg.toInternalConfig()
-	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, p.uniqueCharsets)
+	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, uniqueCharsets)
 	if err != nil {
 		return "", nil, err
 	}
@@ -140,7 +140,9 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 	return cfg, nil
 }
 
-func (p *Parser) initUniqueCharsets(languages []string) {
+// initUniqueCharsets returns the unique charsets of the languages. The returned map must be
+// used instead of the one in parser, which might be replaced by the other goroutine.
+func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	// Lock parser
 	p.Lock()
 	defer p.Unlock()
@@ -164,6 +166,8 @@ func (p *Parser) initUniqueCharsets(languages []string) {
 	if mustGenerate {
 		p.uniqueCharsets = language.GetUniqueCharsets(languages)
 	}
+
+	return p.uniqueCharsets
 }
 
 func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-- 
2.43.0


From db2766707b3fb2b00e8756c52139e11e85164c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:19 +0000
Subject: [PATCH 23/32] fix: read the dates found by search in the configured
 date order

---
 search.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/search.go b/search.go
index 888d139..ad4f922 100644
--- a/search.go
+++ b/search.go
@@ -105,8 +105,14 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 		languages = []string{ld.Name}
 	}
 
+	// The translated text uses the date order of its original language
+	dateOrder := func(string) string { return ld.DateOrder }
+	if cfg.DateOrder != nil {
+		dateOrder = func(string) string { return cfg.DateOrder(lang) }
+	}
+
 	// Parse the text
-	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, translation, original)
+	parsedSearch, subStrings := p.parseFoundObjects(iCfg, dateOrder, languages, translation, original)
 
 	// Create final result
 	result := make([]SearchResult, len(parsedSearch))
@@ -170,7 +176,7 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	return p.uniqueCharsets
 }
 
-func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
+func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, dateOrder DateOrder, languages, translation, original []string) ([]parsedSearch, []string) {
 	// Specify entries to parse
 	var parserEntries []string
 	if languages[0] == "en" {
@@ -189,7 +195,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(iCfg, dateOrder, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -213,7 +219,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 						continue
 					}
 
-					parsedJEntry, jIsRelative := p.parseEntry(iCfg, jEntry,
+					parsedJEntry, jIsRelative := p.parseEntry(iCfg, dateOrder, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
@@ -239,13 +245,14 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(iCfg *setting.Configuration, dateOrder DateOrder, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = strings.ReplaceAll(entry, "am", "")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
+	cfg.DateOrder = dateOrder
 	parsedEntry, _ := p.Parse(cfg, entry)
 
 	// If needed, generate relative base and parse the entry
-- 
2.43.0


From 55f653371a5eb91bf389848b890e2867a3ab1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 24/32] =?UTF-8?q?fix:=20search=20no=20longer=20panics=20on?=
 =?UTF-8?q?=20an=20opening=20=C2=BF=20or=20=C2=A1=20in=20Spanish?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 internal/language/split.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/language/split.go b/internal/language/split.go
index 01e9238..b1a53f9 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -65,6 +65,17 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	var lastPosition int
 	useDigitAbbrs := langWithDigitAbbrs.Contain(ld.Name)
 	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {
+		// If there is no end of sentence in this match (e.g. the opening mark in
+		// Spanish), the sentence ends right before it
+		if pos[2] < 0 {
+			if sentence := strings.TrimSpace(str[lastPosition:pos[0]]); sentence != "" {
+				sentences = append(sentences, sentence)
+			}
+
+			lastPosition = pos[1]
+			continue
+		}
+
 		// Fetch end of sentence from this match
 		eos := str[pos[2]:pos[3]]
 
-- 
2.43.0


From 3bd1f287a993e8b8c74716a9edb968688099301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 25/32] fix: search no longer panics when the last token is a
 known word in languages without word spacing

---
 internal/language/translate-search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3812bba..8c00262 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -47,7 +47,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
+			} else if i < lastTokenIndex && isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
 				translations, _ := translateWord(ld, currentAndNextJoined)
 				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
 
-- 
2.43.0


From cc745ecd9c504c9d5618c04b651ec8f841735e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 26/32] fix: search keeps the am of a clock time with minutes

---
 search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/search.go b/search.go
index ad4f922..8b37252 100644
--- a/search.go
+++ b/search.go
@@ -13,6 +13,7 @@ import (
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/language"
+	"github.com/markusmobius/go-dateparser/internal/regexp"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
@@ -20,6 +21,9 @@ import (
 var (
 	splitters     = []string{",", "،", "——", "—", "–", ".", " "}
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
+
+	// rxClockAm matches "am" of a clock time, without which 12:30 am is half past noon
+	rxClockAm = regexp.MustCompile(`(:\d{2}(?:\.\d+)?\s*)am\b`)
 )
 
 type SearchResult struct {
@@ -248,6 +252,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, dateOrder DateOr
 func (p *Parser) parseEntry(iCfg *setting.Configuration, dateOrder DateOrder, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
+	entry = rxClockAm.ReplaceAllString(entry, "${1}AM")
 	entry = strings.ReplaceAll(entry, "am", "")
 
 	// Parse entry
-- 
2.43.0


From 8e12bdb44ba3020286dfb705733d87a28f713a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 27/32] fix: search parses the found pieces in the translated
 language instead of every language

---
 search.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 8b37252..8f6d908 100644
--- a/search.go
+++ b/search.go
@@ -199,7 +199,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, dateOrder DateOr
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, dateOrder, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(iCfg, dateOrder, languages, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -223,7 +223,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, dateOrder DateOr
 						continue
 					}
 
-					parsedJEntry, jIsRelative := p.parseEntry(iCfg, dateOrder, jEntry,
+					parsedJEntry, jIsRelative := p.parseEntry(iCfg, dateOrder, languages, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
@@ -249,7 +249,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, dateOrder DateOr
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, dateOrder DateOrder, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(iCfg *setting.Configuration, dateOrder DateOrder, languages []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = rxClockAm.ReplaceAllString(entry, "${1}AM")
@@ -258,6 +258,7 @@ func (p *Parser) parseEntry(iCfg *setting.Configuration, dateOrder DateOrder, en
 	// Parse entry
 	cfg := configFromInternal(iCfg)
 	cfg.DateOrder = dateOrder
+	cfg.Locales, cfg.Languages, cfg.Region = nil, languages, ""
 	parsedEntry, _ := p.Parse(cfg, entry)
 
 	// If needed, generate relative base and parse the entry
-- 
2.43.0


From 6c40eba36e875ed5bdef492840b168223fc9ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:53 +0000
Subject: [PATCH 28/32] fix: keep "in" before a translation that is an amount

---
 internal/language/translate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/language/translate.go b/internal/language/translate.go
index 4aa0610..240d663 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -2,6 +2,7 @@ package language
 
 import (
 	"slices"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/digit"
@@ -109,8 +110,11 @@ func clearFutureWords(words []string) []string {
 	var hasFreshness bool
 	var wordsWithoutIn []string
 	for _, word := range words {
-		isFreshWord := freshnessWords.Contain(word)
-		hasFreshness = hasFreshness || isFreshWord
+		// A translation may consist of several words, e.g. "2 hour"
+		for _, part := range strings.Fields(word) {
+			isFreshWord := freshnessWords.Contain(part)
+			hasFreshness = hasFreshness || isFreshWord
+		}
 
 		if word != "in" {
 			wordsWithoutIn = append(wordsWithoutIn, word)
-- 
2.43.0


From 4a457fca99439c4a2fd1fbb67bc3582231fbe373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 29/32] fix: Malay "dalam N saat" is in N seconds

---
 internal/data/ms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/ms.go b/internal/data/ms.go
index 7c173ba..c08f137 100755
--- a/internal/data/ms.go
+++ b/internal/data/ms.go
@@ -119,7 +119,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) minit lalu`), "$1 minute ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) tahun lalu`), "$1 year ago"},
 			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) hari`), "in $1 day"},
-			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) saat`), "in $1 year"},
+			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) saat`), "in $1 second"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) hari lalu`), "$1 day ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) saat lalu`), "$1 second ago"},
 			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) jam`), "in $1 hour"},
-- 
2.43.0


From 171c50303337ccc6a6dd85caa89d8b13bf10fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:43 +0000
Subject: [PATCH 30/32] fix: Afrikaans "oor N minuut" is in N minutes

---
 internal/data/af.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/af.go b/internal/data/af.go
index 5771ef7..ee89e24 100755
--- a/internal/data/af.go
+++ b/internal/data/af.go
@@ -123,7 +123,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) min gelede`), "$1 minute ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) sek gelede`), "$1 second ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) uur gelede`), "$1 hour ago"},
-			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) minuut`), "in $1 month"},
+			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) minuut`), "in $1 minute"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) md gelede`), "$1 month ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) w gelede`), "$1 week ago"},
 			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) jaar`), "in $1 year"},
-- 
2.43.0


From c37ba78796d761881bd4ae0e35c358b306ab9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:34 +0000
Subject: [PATCH 31/32] fix: French "sept." and "sept 2012" are September

---
 internal/data/fr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/data/fr.go b/internal/data/fr.go
index 3a27d0a..28c9893 100755
--- a/internal/data/fr.go
+++ b/internal/data/fr.go
@@ -75,6 +75,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])quatre(\z|[^\pL\pM\d_])`), "${1}4${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])cinq(\z|[^\pL\pM\d_])`), "${1}5${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])six(\z|[^\pL\pM\d_])`), "${1}6${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])sept(\.|\s\d{4})(\z|[^\pL\pM\d_])`), "${1}septembre${2}${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])sept(\z|[^\pL\pM\d_])`), "${1}7${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])huit(\z|[^\pL\pM\d_])`), "${1}8${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])neuf(\z|[^\pL\pM\d_])`), "${1}9${2}"},
-- 
2.43.0


From 702444062a49278fdbc35b93f1b2d80762cb1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:08 +0000
Subject: [PATCH 32/32] fix: count a decimal fraction of a unit without
 floating point error

---
 internal/parser/relative/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index 3432407..187a52c 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -297,7 +297,15 @@ func splitFraction(fl float64) (intPart, fractionPart float64, hasFraction bool)
 
 	value := math.Abs(fl)
 	floorValue := math.Floor(value)
-	return floorValue, value - floorValue, value != floorValue
+
+	// Remove the inaccuracy of decimal fractions, or the units below would be one
+	// too small, e.g. 0.02 hours is 72 seconds and not 71.999...
+	fraction := math.Round((value-floorValue)*1e9) / 1e9
+	if fraction >= 1 {
+		return floorValue + 1, 0, true
+	}
+
+	return floorValue, fraction, value != floorValue
 }
 
 func addMapValue(m map[string]float64, key string, value float64) {
-- 
2.43.0


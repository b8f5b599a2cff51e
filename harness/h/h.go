// Package h holds the harnesses: programs over the public interface of
// go-dateparser whose inputs are symbolic.
package h

import (
	"time"

	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

// All lists the harnesses by name.
var All = map[string]func(){}

func reg(n string, f func()) bool { All[n] = f; return true }

// obs records a result for the comparison with the native run.
func obs(tag string, d date.Date, err error) {
	sym.ObsBool(tag+"err", err != nil)
	if err == nil {
		sym.ObsInt(tag+"days", sym.TimeDays(d.Time))
		sym.ObsInt(tag+"sod", sym.TimeSod(d.Time))
		sym.ObsInt(tag+"ns", d.Time.Nanosecond())
		sym.ObsInt(tag+"off", sym.TimeOffset(d.Time))
		sym.ObsInt(tag+"period", int(d.Period))
	}
}

// moment is a current time with its civil parts.
type moment struct {
	y, m, d, sod int
	t            time.Time
}

// anyNow is any current time of the years lo..hi in UTC, to the second.
func anyNow(lo, hi int) moment {
	y := sym.Int("now.y", lo, hi)
	m := sym.Int("now.m", 1, 12)
	d := sym.Int("now.d", 1, 31)
	sym.Assume(d <= sym.DaysIn(y, m))
	sod := sym.Int("now.sod", 0, 86399)
	return moment{y, m, d, sod, sym.Utc(y, m, d, sod, 0)}
}

// fixedNow is 2021-11-05 10:20:30 UTC.
func fixedNow() moment {
	return moment{2021, 11, 5, 37230, time.Date(2021, 11, 5, 10, 20, 30, 0, time.UTC)}
}

// prefs sets every preference to any value.
func prefs(c *dps.Configuration) {
	c.PreferredDayOfMonth = dps.PreferredDayOfMonth(sym.Int("prefDay", 0, 2))
	c.PreferredMonthOfYear = dps.PreferredMonthOfYear(sym.Int("prefMonth", 0, 2))
	c.PreferredDateSource = dps.PreferredDateSource(sym.Int("prefSource", 0, 2))
}

// num is the value of a string of ASCII digits.
func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// isDate: y-m-d exists.
func isDate(y, m, d int) bool {
	return sym.And(sym.And(m >= 1, m <= 12), sym.And(d >= 1, d <= sym.DaysIn(y, m)))
}

// wallIs: the wall clock of t reads y-m-d (an existing date), sod, ns.
func wallIs(t time.Time, y, m, d, sod, ns int) bool {
	return sym.And(sym.TimeDays(t) == sym.DayNumber(y, m, d), sym.And(sym.TimeSod(t) == sod, t.Nanosecond() == ns))
}

func dateIs(t time.Time, y, m, d int) bool { return sym.TimeDays(t) == sym.DayNumber(y, m, d) }

var orders = []string{"DMY", "MDY", "YMD", "YDM", "DYM", "MYD"}
var orderFns = []dps.DateOrder{dps.DMY, dps.MDY, dps.YMD, dps.YDM, dps.DYM, dps.MYD}

// arrange writes the parts in an order.
func arrange(order, d, m, y, sep string) string {
	s := ""
	for i := 0; i < 3; i++ {
		if i > 0 {
			s += sep
		}
		switch order[i] {
		case 'D':
			s += d
		case 'M':
			s += m
		default:
			s += y
		}
	}
	return s
}

// must asserts that the call did not panic.
func must(msg string) { sym.Assert(msg == "", "no panic") }

// pick is any of 0..n-1; the parameter name fixes it, name+"s" bounds it.
func pick(name string, n int) int {
	if k := sym.Param(name, -1); k >= 0 {
		return k
	}
	return sym.Choose(name, sym.Param(name+"s", n))
}

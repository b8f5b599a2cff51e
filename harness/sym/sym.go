// Package sym is the interface between the harnesses and the symbolic engine.
// The engine replaces these functions; the bodies here run a harness natively
// on the concrete inputs of a counterexample or of a sampled path.
package sym

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"
)

// Run is the state of one native run.
type Run struct {
	Inputs  map[string]int64  `json:"-"`
	Params  map[string]int    `json:"-"`
	Failed  []string          `json:"failed,omitempty"`
	Known   string            `json:"known,omitempty"`
	Outside bool              `json:"outside,omitempty"`
	Panic   string            `json:"panic,omitempty"`
	Hang    bool              `json:"hang,omitempty"`
	Observe map[string]string `json:"observe,omitempty"`
	Reached []string          `json:"reached,omitempty"`
	seq     map[string]int
	quiet   bool
}

type stopSignal struct{}

var cur *Run

// Exec runs f on r.
func Exec(r *Run, f func()) {
	r.seq = map[string]int{}
	r.Observe = map[string]string{}
	cur = r
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopSignal); ok {
				return
			}
			buf := make([]byte, 4096)
			r.Panic = fmt.Sprint(e) + "\n" + string(buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
}

func name(n string) string {
	k := cur.seq[n]
	cur.seq[n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func get(n string, def int64) int64 {
	if v, ok := cur.Inputs[name(n)]; ok {
		return v
	}
	return def
}

// Int is any integer of [lo,hi].
func Int(n string, lo, hi int) int { return int(get(n, int64(lo))) }

// Bool is any boolean.
func Bool(n string) bool { return get(n, 0) != 0 }

// Choose is any of 0..n-1; the engine explores each on paths of its own.
func Choose(n string, k int) int { return int(get(n, 0)) }

// Byte is any byte of set.
func Byte(n, set string) byte { return byte(get(n, int64(minByte(set)))) }

func minByte(set string) byte {
	m := set[0]
	for i := range set {
		if set[i] < m {
			m = set[i]
		}
	}
	return m
}

// Digits is any string of n ASCII digits.
func Digits(n string, k int) string { return Text(n, k, "0123456789") }

// Text is any string of k bytes of set.
func Text(n string, k int, set string) string {
	b := make([]byte, k)
	for i := range b {
		b[i] = Byte(n, set)
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(ok bool) {
	if !ok {
		cur.Outside = true
		panic(stopSignal{})
	}
}

// Assert states the property.
func Assert(ok bool, msg string) {
	if !ok {
		cur.Failed = append(cur.Failed, msg)
		panic(stopSignal{})
	}
}

// Known is Assert with a recorded defect: inside region the failure is the
// known finding id.
func Known(ok bool, msg, id string, region bool) {
	if !ok && region {
		cur.Known = id
	}
	Assert(ok, msg)
}

func Reach(n string) { cur.Reached = append(cur.Reached, n) }

func ObsInt(n string, v int)    { cur.Observe[n] = fmt.Sprint(v) }
func ObsStr(n string, v string) { cur.Observe[n] = v }
func ObsBool(n string, v bool)  { cur.Observe[n] = fmt.Sprint(v) }
func Stop()                     { panic(stopSignal{}) }
func Concrete(v int) int        { return v }
func Decide(b bool) bool        { return b }
func And(a, b bool) bool        { return a && b }
func Or(a, b bool) bool         { return a || b }
func Not(a bool) bool           { return !a }
func EqStr(a, b string) bool    { return a == b }
func MapOrder(k int)            {}
func SymMapOrder(on bool)       {}
func Reinit(mode int)           {}
func Once(k string, f func())   { f() }
func Native() bool              { return true }
func LocksFree() bool           { return true }
func Log(n string, v int)       {}

func Param(n string, def int) int {
	if v, ok := cur.Params[n]; ok {
		return v
	}
	return def
}

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func FloorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func FloorMod(a, b int) int { return a - b*FloorDiv(a, b) }

// DaysIn is the length of the month, 0 for no month.
func DaysIn(y, m int) int {
	if m < 1 || m > 12 {
		return 0
	}
	return time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day()
}

// DayNumber is the number of days since 1970-01-01.
func DayNumber(y, m, d int) int {
	return FloorDiv(int(time.Date(y, time.Month(m), 1, 0, 0, 0, 0, time.UTC).Unix()), 86400) + d - 1
}

// TimeDays and TimeSod are the day number and second of the day of t's wall clock.
func TimeDays(t time.Time) int { return FloorDiv(int(t.Unix())+TimeOffset(t), 86400) }
func TimeSod(t time.Time) int  { return FloorMod(int(t.Unix())+TimeOffset(t), 86400) }

func TimeOffset(t time.Time) int {
	_, o := t.Zone()
	return o
}

func Utc(y, m, d, sod, ns int) time.Time {
	return time.Date(y, time.Month(m), d, 0, 0, sod, ns, time.UTC)
}

func Fixed(n string, off int) *time.Location { return time.FixedZone(n, off) }

// Zone is a location that changes its offset once.
func Zone(n string, at, off1, off2 int) *time.Location {
	var b []byte
	be4 := func(v int) { b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	be8 := func(v int) { be4(v >> 32); be4(v) }
	head := func(cnt [6]int) {
		b = append(b, "TZif2"...)
		b = append(b, make([]byte, 15)...)
		for _, c := range cnt {
			be4(c)
		}
	}
	head([6]int{0, 0, 0, 0, 1, 4})
	be4(0)
	b = append(b, 0, 0)
	b = append(b, "STD\x00"...)
	head([6]int{0, 0, 0, 1, 2, 8})
	be8(at)
	b = append(b, 1)
	be4(off1)
	b = append(b, 0, 0)
	be4(off2)
	b = append(b, 1, 4)
	b = append(b, "STD\x00DST\x00"...)
	b = append(b, "\n\n"...)
	l, err := time.LoadLocationFromTZData(n, b)
	if err != nil {
		panic("zone: " + err.Error())
	}
	return l
}

// Catch runs f and returns the message of its panic, or "".
func Catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopSignal); ok {
				panic(e)
			}
			msg = fmt.Sprint(e)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Threads runs f and g concurrently.
func Threads(n string, f, g func()) { Interleave(f, g) }

// Interleave runs f and g concurrently.
func Interleave(f, g func()) {
	var wg sync.WaitGroup
	var pan any
	var mu sync.Mutex
	run := func(f func()) {
		defer wg.Done()
		defer func() {
			if e := recover(); e != nil {
				mu.Lock()
				pan = e
				mu.Unlock()
			}
		}()
		for i := rand.Intn(50); i > 0; i-- {
			runtime.Gosched()
		}
		f()
	}
	wg.Add(2)
	if rand.Intn(2) == 0 {
		go run(f)
		go run(g)
	} else {
		go run(g)
		go run(f)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		panic("deadlock: the calls do not return")
	}
	if pan != nil {
		panic(pan)
	}
}

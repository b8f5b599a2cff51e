package main

// Locks, once, atomics; traces of two threads and the search for an order in
// which conflicting accesses are adjacent.

import (
	"bytes"
	"fmt"
	"os/exec"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type evKind uint8

const (
	evRead evKind = iota
	evWrite
	evLock
	evUnlock
	evAtomic // ordered as observed
)

type event struct {
	kind evKind
	lock any // *Val for locks and atomics
	excl bool
	rank int // observed position, for atomics
}

type access struct {
	seg   int // number of synchronisation events before it
	pos   int
	wr    bool
	where string
}

type raceTrace struct {
	cur   int // thread being recorded, -1: none
	sync  [2][]event
	acc   [2]map[any][]access
	held  [2]map[any]bool
	rank  int
	pos   int
	last  map[any]int      // segment of the last write of thread 0
	first map[any]access   // first write of thread 1
	reads map[any][]access // reads of thread 0 that saw the initial value
	from  []flow           // reads of thread 1 that saw a write of thread 0
}

// flow: the write in segment s0 of thread 0 is seen by the read in segment s1
// of thread 1, at position pos.
type flow struct{ s0, s1, pos int }

func newRaceTrace() *raceTrace {
	t := &raceTrace{cur: -1, last: map[any]int{}, first: map[any]access{}, reads: map[any][]access{}}
	for i := range t.acc {
		t.acc[i] = map[any][]access{}
		t.held[i] = map[any]bool{}
	}
	return t
}

func (t *raceTrace) note(w *Worker, k any, wr bool) {
	if t.cur < 0 {
		return
	}
	seg := len(t.sync[t.cur])
	t.pos++
	if t.cur == 0 {
		_, own := t.last[k]
		if wr {
			t.last[k] = seg
		} else if r := t.reads[k]; !own && (len(r) == 0 || r[len(r)-1].seg != seg) {
			t.reads[k] = append(r, access{seg: seg, pos: t.pos})
		}
	} else {
		_, own := t.first[k]
		if wr && !own {
			t.first[k] = access{seg: seg, pos: t.pos}
		} else if s0, ok := t.last[k]; ok && !wr && !own {
			if n := len(t.from); n == 0 || t.from[n-1].s0 != s0 || t.from[n-1].s1 != seg {
				t.from = append(t.from, flow{s0, seg, t.pos})
			}
		}
	}
	m := t.acc[t.cur]
	l := m[k]
	for i := range l {
		if l[i].seg == seg && (l[i].wr || !wr) {
			return
		}
	}
	where := ""
	if n := len(w.callStack); n > 0 {
		where = w.callStack[n-1].String()
	}
	m[k] = append(l, access{seg, t.pos, wr, where})
}

func (t *raceTrace) access(w *Worker, p *Val, wr bool)     { t.note(w, p, wr) }
func (t *raceTrace) accessMap(w *Worker, m *MapV, wr bool) { t.note(w, m, wr) }

func (t *raceTrace) event(e event) {
	if t.cur < 0 {
		return
	}
	t.rank++
	e.rank = t.rank
	t.sync[t.cur] = append(t.sync[t.cur], e)
}

// lockOp is Lock/Unlock (excl) or RLock/RUnlock of the mutex at v.
func (w *Worker) lockOp(v Val, lock, excl bool) {
	p, ok := v.o.(*Val)
	if !ok {
		w.nilDeref(v)
	}
	if !w.jon {
		return
	}
	n := w.mutexes[p]
	if lock {
		w.preempt()
		n = w.mutexes[p]
		if n < 0 || excl && n > 0 {
			panic(&targetPanic{msg: "deadlock: lock of a mutex that is already held", stack: w.stackString()})
		}
		if excl {
			w.mutexes[p] = -1
		} else {
			w.mutexes[p]++
		}
	} else {
		if excl && n != -1 || !excl && n <= 0 {
			panic(&targetPanic{msg: "fatal error: unlock of unlocked mutex", stack: w.stackString()})
		}
		if excl {
			w.mutexes[p] = 0
		} else {
			w.mutexes[p]--
		}
	}
	if w.trace != nil {
		k := evLock
		if !lock {
			k = evUnlock
		}
		w.trace.event(event{kind: k, lock: p, excl: excl})
	}
	if !lock {
		w.preempt()
	}
}

// preempt lets the other thread of sym.Interleave run here as a whole.
func (w *Worker) preempt() {
	if w.other == nil || w.anyHeld() {
		return
	}
	if w.choose(2) == 1 {
		f := w.other
		w.other = nil
		f()
	}
}

func (w *Worker) anyHeld() bool {
	for _, n := range w.mutexes {
		if n != 0 {
			return true
		}
	}
	return false
}

func (w *Worker) atomicOp(p *Val) {
	if w.trace != nil {
		w.trace.event(event{kind: evAtomic, lock: p})
	}
}

func (w *Worker) onceDo(once Val, cell *Val, f Val) {
	for {
		a, ok := cell.o.(*Agg)
		if !ok {
			break
		}
		cell = &a.f[len(a.f)-1]
	}
	if cell.n == 0 {
		tr := w.trace
		w.trace = nil
		w.store(cell, mkInt(1))
		w.trace = tr
		w.callVal(f, nil)
	}
	w.atomicOp(cell)
}

// ---- analysis

type race struct {
	a, b access
}

// findRaces asks the solver, for each pair of conflicting accesses, for an
// order of the synchronisation events that makes them adjacent.
func (t *raceTrace) findRaces() (races []race, queries int, inconclusive int) {
	type pair struct {
		sa, sb int
		order  string
	}
	done := map[pair]bool{}
	racy := map[pair]bool{}
	seenWhere := map[string]bool{}
	type loc struct {
		k any
	}
	for k, la := range t.acc[0] {
		lb := t.acc[1][k]
		if lb == nil {
			continue
		}
		for _, a := range la {
			for _, b := range lb {
				if !a.wr && !b.wr {
					continue
				}
				order := t.order(a, b)
				p := pair{a.seg, b.seg, order}
				if !done[p] {
					done[p] = true
					queries++
					switch t.adjacent(a.seg, b.seg, order) {
					case Sat:
						racy[p] = true
					case Unknown:
						inconclusive++
					}
				}
				if racy[p] {
					key := a.where + "|" + b.where
					if !seenWhere[key] {
						seenWhere[key] = true
						races = append(races, race{a, b})
					}
				}
			}
		}
	}
	sort.Slice(races, func(i, j int) bool { return races[i].a.where+races[i].b.where < races[j].a.where+races[j].b.where })
	return
}

// order holds what must stay as observed for the two accesses to be reached
// at all: each thread's earlier reads see the values that they saw.
func (t *raceTrace) order(a, b access) string {
	type edge struct{ th0, s0, s1 int }
	edges := map[edge]bool{}
	for _, f := range t.from {
		if f.pos < b.pos {
			edges[edge{0, f.s0, f.s1}] = true
		}
	}
	for k, w := range t.first {
		if w.pos >= b.pos {
			continue
		}
		for _, r := range t.reads[k] {
			if r.pos < a.pos {
				edges[edge{1, r.seg, w.seg}] = true
			}
		}
	}
	var out []string
	for e := range edges {
		// thread 0 in segment s0 is before thread 1 in segment s1
		x := "true"
		if e.s0 > 0 && e.s1 < len(t.sync[1]) {
			x = fmt.Sprintf("(< e0_%d e1_%d)", e.s0-1, e.s1)
		}
		out = append(out, fmt.Sprintf("(assert %s)\n", x))
		// what is read before the racing access is written before it, too
		if e.th0 == 0 && e.s0 > 0 {
			out = append(out, fmt.Sprintf("(assert (< e0_%d x))\n", e.s0-1))
		}
	}
	sort.Strings(out)
	return strings.Join(slices.Compact(out), "")
}

func (t *raceTrace) adjacent(sa, sb int, order string) SatResult {
	var b bytes.Buffer
	b.WriteString("(set-logic QF_IDL)\n")
	name := func(th, i int) string { return fmt.Sprintf("e%d_%d", th, i) }
	seg := []int{sa, sb}
	for th := 0; th < 2; th++ {
		for i := range t.sync[th] {
			fmt.Fprintf(&b, "(declare-const %s Int)\n", name(th, i))
		}
	}
	b.WriteString("(declare-const x Int)\n")
	for th := 0; th < 2; th++ {
		n := len(t.sync[th])
		for i := 0; i+1 < n; i++ {
			fmt.Fprintf(&b, "(assert (< %s %s))\n", name(th, i), name(th, i+1))
		}
		// the access lies strictly between its neighbours
		if s := seg[th]; s > 0 {
			fmt.Fprintf(&b, "(assert (< %s x))\n", name(th, s-1))
		}
		if s := seg[th]; s < n {
			fmt.Fprintf(&b, "(assert (< x %s))\n", name(th, s))
		}
	}
	// critical sections
	type cs struct {
		l, u int
		excl bool
		k    any
	}
	var secs [2][]cs
	for th := 0; th < 2; th++ {
		open := map[any]int{}
		for i, e := range t.sync[th] {
			switch e.kind {
			case evLock:
				open[e.lock] = i
			case evUnlock:
				if l, ok := open[e.lock]; ok {
					secs[th] = append(secs[th], cs{l, i, e.excl, e.lock})
					delete(open, e.lock)
				}
			}
		}
		for k, l := range open {
			secs[th] = append(secs[th], cs{l, -1, t.sync[th][l].excl, k})
		}
	}
	for _, p := range secs[0] {
		for _, q := range secs[1] {
			if p.k != q.k || !p.excl && !q.excl {
				continue
			}
			f := "false"
			if p.u >= 0 {
				f += fmt.Sprintf(" (< %s %s)", name(0, p.u), name(1, q.l))
			}
			if q.u >= 0 {
				f += fmt.Sprintf(" (< %s %s)", name(1, q.u), name(0, p.l))
			}
			fmt.Fprintf(&b, "(assert (or %s))\n", f)
		}
	}
	// atomics keep the observed order
	for i, e := range t.sync[0] {
		if e.kind != evAtomic {
			continue
		}
		for j, f := range t.sync[1] {
			if f.kind == evAtomic && f.lock == e.lock {
				x, y := name(0, i), name(1, j)
				if f.rank < e.rank {
					x, y = y, x
				}
				fmt.Fprintf(&b, "(assert (< %s %s))\n", x, y)
			}
		}
	}
	b.WriteString(order)
	b.WriteString("(check-sat)\n")
	cmd := exec.Command("z3-new", "-in", "-smt2", "-T:20")
	cmd.Stdin = &b
	t0 := time.Now()
	out, _ := cmd.Output()
	atomic.AddInt64(&gstats.Nanos, int64(time.Since(t0)))
	switch strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0]) {
	case "sat":
		atomic.AddInt64(&gstats.SatN, 1)
		return Sat
	case "unsat":
		atomic.AddInt64(&gstats.UnsatN, 1)
		return Unsat
	}
	return Unknown
}

package main

// Per-worker state: one path at a time, explored by re-execution.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type abortKind int

const (
	abUnsupported abortKind = iota // engine cannot model this
	abAssume                       // assumption failed on this path
	abStop                         // harness asked to stop the path
	abBudget                       // step budget exhausted
	abTime                         // wall time exhausted
	abUnknown                      // solver gave up
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func unsupported(msg string) pathAbort { return pathAbort{abUnsupported, msg} }

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v     Val
	msg   string
	stack string
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Term *Term  `json:"-"`
	Val  int64  `json:"value"`
}

type Observed struct {
	name string
	v    Val
	kind string
}

type jent struct {
	p   *Val
	old Val
	f   func()
}

type Worker struct {
	id     int
	eng    *Engine
	p      *Pool
	sol    *Solver
	glob   []*Val // by global index
	inited map[*ssa.Package]bool

	// path state
	prefix    []int64
	pos       int
	decs      []int64
	alts      []workItem
	pc        []*Term
	lb        map[*Term][2]int64 // intervals implied by the path condition
	pcset     map[*Term]bool
	dom       map[int32][]bool
	multi     map[int32]bool
	model     []int64
	modelOK   bool
	seedModel map[string]int64
	inputs    []Input
	nameSeq   map[string]int
	observed  []Observed
	reached   map[string]bool
	steps     int64
	maxSteps  int64
	deadline  time.Time
	frames    int
	callStack []*ssa.Function

	journal       []jent
	jon           bool
	epoch         uint64
	freshSeq      int
	civil         map[int64]*civilVars
	mapOrder      int
	symMapOrd     bool
	onceDone      map[string]bool
	inconc        []string
	assumedK      bool // a concretisation cut the path short of full coverage
	res           *pathResult
	rev           bool // package initialisation runs with reversed map order
	initMapRanges map[*ssa.Package]bool
	curInit       *ssa.Package
	mutexes       map[*Val]int
	trace         *raceTrace
	stackbuf      []Val
	sp            int
	params        map[string]int
	deferFrames   []*frame
	civilOf       map[*Term][3]*Term
	other         func()
	lastPanic     string
	altGlob       map[int]altState
	heapMode      int
	initOrder     int
}

type workItem struct {
	prefix []int64
	model  map[string]int64
}

type pathResult struct {
	asserts   map[string]int
	trivial   int
	solved    int
	viols     []*Violation
	knowns    map[string]int
	completed bool
}

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"message"`
	Kind    string            `json:"kind"` // assert, panic, hang, race, deadlock
	Inputs  []Input           `json:"inputs"`
	Known   string            `json:"known,omitempty"`
	Stack   string            `json:"stack,omitempty"`
	Extra   any               `json:"extra,omitempty"`
	Params  map[string]int    `json:"params,omitempty"`
	Observe map[string]string `json:"observe,omitempty"`
}

// ---- journal

func (w *Worker) journaling(epoch uint64) bool { return w.jon && epoch != w.epoch }
func (w *Worker) jfun(f func())                { w.journal = append(w.journal, jent{f: f}) }

func (w *Worker) undo() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		j := &w.journal[i]
		if j.f != nil {
			j.f()
		} else {
			*j.p = j.old
		}
		*j = jent{}
	}
	w.journal = w.journal[:0]
}

// store writes v to the cell p (aggregates in place, so that interior
// pointers stay valid).
func (w *Worker) store(p *Val, v Val) {
	if dst, ok := p.o.(*Agg); ok {
		src, ok := v.o.(*Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("store of %T into aggregate", v.o)))
		}
		if dst == src {
			return
		}
		// src may alias parts of dst: registers are immutable copies, so no
		for i := range dst.f {
			w.store(&dst.f[i], src.f[i])
		}
		return
	}
	if w.trace != nil {
		w.trace.access(w, p, true)
	}
	if w.jon {
		w.journal = append(w.journal, jent{p: p, old: *p})
	}
	if _, ok := v.o.(*Agg); ok {
		v = copyVal(v)
	}
	*p = v
}

func (w *Worker) load(p *Val) Val {
	if _, ok := p.o.(*Agg); ok {
		if w.trace != nil {
			w.traceAgg(p, false)
		}
		return copyVal(*p)
	}
	if w.trace != nil {
		w.trace.access(w, p, false)
	}
	return *p
}

func (w *Worker) traceAgg(p *Val, wr bool) {
	if a, ok := p.o.(*Agg); ok {
		for i := range a.f {
			w.traceAgg(&a.f[i], wr)
		}
		return
	}
	w.trace.access(w, p, wr)
}

// ---- decisions

func (w *Worker) domOf(vid int32) []bool {
	if d, ok := w.dom[vid]; ok {
		return d
	}
	v := w.p.vars[vid]
	if v.dset != nil {
		return v.dset
	}
	return nil
}

// quick decides c by the current domain of its only variable. 1: true, 0:
// false, 2: both values occur in the domain, -1: not applicable.
func (w *Worker) quick(c *Term) int {
	tv := w.p.table(c)
	if tv == nil {
		return -1
	}
	d := w.domOf(c.vars[0])
	st, sf := false, false
	for i, x := range tv {
		if d != nil && !d[i] {
			continue
		}
		if x != 0 {
			st = true
		} else {
			sf = true
		}
		if st && sf {
			return 2
		}
	}
	if st {
		return 1
	}
	return 0
}

// simp replaces a boolean term by a constant if the domains decide it.
func (w *Worker) simp(c *Term) *Term {
	if c.op == BConst {
		return c
	}
	if w.pcset[c] {
		return w.p.T
	}
	if w.pcset[w.p.Not(c)] {
		return w.p.F
	}
	switch c.op {
	case BNot:
		if x := w.simp(c.args[0]); x != c.args[0] {
			return w.p.Not(x)
		}
	case BAnd, BOr:
		x, y := w.simp(c.args[0]), w.simp(c.args[1])
		if x != c.args[0] || y != c.args[1] {
			if c.op == BAnd {
				return w.p.And(x, y)
			}
			return w.p.Or(x, y)
		}
	}
	switch w.quick(c) {
	case 1:
		return w.p.T
	case 0:
		return w.p.F
	}
	if c.op == BEq0 || c.op == BLe0 {
		if lo, hi, ok := w.bounds(c.args[0]); ok {
			if c.op == BEq0 && (lo > 0 || hi < 0) {
				return w.p.F
			}
			if c.op == BLe0 {
				if hi <= 0 {
					return w.p.T
				}
				if lo > 0 {
					return w.p.F
				}
			}
		}
	}
	return c
}

// bounds computes an interval of t under the current variable domains.
func (w *Worker) bounds(t *Term) (int64, int64, bool) {
	if t.bits > 63 {
		return 0, 0, false
	}
	if t.op == OConst {
		return t.c, t.c, true
	}
	lo, hi, ok := w.bounds0(t)
	if !ok || len(w.lb) == 0 {
		return lo, hi, ok
	}
	if b, ok := w.lb[t]; ok {
		lo, hi = max(lo, b[0]), min(hi, b[1])
	}
	if t.op == OLin {
		if base, k, c := w.linBase(t); base != nil {
			if b, ok := w.lb[base]; ok {
				x, y := b[0]+c, b[1]+c
				if k < 0 {
					x, y = c-b[1], c-b[0]
				}
				lo, hi = max(lo, x), min(hi, y)
			}
		}
	}
	if lo > hi { // the path is infeasible
		return t.lo, t.hi, true
	}
	return lo, hi, true
}

func (w *Worker) bounds0(t *Term) (int64, int64, bool) {
	if tv := w.p.table(t); tv != nil {
		d := w.domOf(t.vars[0])
		first := true
		var lo, hi int64
		for i, x := range tv {
			if d != nil && !d[i] {
				continue
			}
			if first {
				lo, hi, first = x, x, false
			} else {
				lo, hi = min(lo, x), max(hi, x)
			}
		}
		if first {
			return t.lo, t.hi, true
		}
		return lo, hi, true
	}
	switch t.op {
	case OLin:
		lo, hi := t.c, t.c
		for i, a := range t.args {
			x, y, ok := w.bounds(a)
			if !ok {
				return t.lo, t.hi, true
			}
			k := t.coefs[i]
			p, o1 := mulOv(x, k)
			q, o2 := mulOv(y, k)
			if o1 || o2 {
				return t.lo, t.hi, true
			}
			if p > q {
				p, q = q, p
			}
			lo, o1 = addOv(lo, p)
			hi, o2 = addOv(hi, q)
			if o1 || o2 {
				return t.lo, t.hi, true
			}
		}
		return max(lo, t.lo), min(hi, t.hi), true
	case OFDiv:
		if x, y, ok := w.bounds(t.args[0]); ok {
			return max(floorDiv(x, t.c), t.lo), min(floorDiv(y, t.c), t.hi), true
		}
	case OFMod:
		if x, y, ok := w.bounds(t.args[0]); ok && floorDiv(x, t.c) == floorDiv(y, t.c) {
			return floorMod(x, t.c), floorMod(y, t.c), true
		}
	case OTbl:
		if x, y, ok := w.bounds(t.args[0]); ok {
			x, y = max(x, 0), min(y, int64(len(t.tbl)-1))
			if x <= y {
				lo, hi := t.tbl[x], t.tbl[x]
				for _, v := range t.tbl[x : y+1] {
					lo, hi = min(lo, v), max(hi, v)
				}
				return lo, hi, true
			}
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		if c := w.simp(t.args[0]); c.op == BConst {
			if c.c != 0 {
				return w.bounds(a)
			}
			return w.bounds(b)
		}
		x, y, o1 := w.bounds(a)
		u, v, o2 := w.bounds(b)
		if o1 && o2 {
			return min(x, u), max(y, v), true
		}
	}
	return t.lo, t.hi, true
}

func (w *Worker) truth(v Val) bool {
	if v.o == nil {
		return v.n != 0
	}
	return w.decide(v.o.(*Term))
}

func (w *Worker) addPC(c *Term) {
	if c.op == BConst {
		return
	}
	if w.pcset[c] {
		return
	}
	w.pc = append(w.pc, c)
	w.pcset[c] = true
	w.noteBound(c)
	if c.op == BAnd { // helps simp
		w.noteConj(c)
	}
	if tv := w.p.table(c); tv != nil {
		vid := c.vars[0]
		old := w.domOf(vid)
		nd := make([]bool, len(tv))
		for i, x := range tv {
			nd[i] = x != 0 && (old == nil || old[i])
		}
		w.dom[vid] = nd
	} else {
		for _, v := range c.vars {
			w.multi[v] = true
		}
	}
	if w.modelOK {
		if c.bigAny || w.evalModel(c) == 0 {
			w.modelOK = false
		}
	}
}

// addFact notes a condition that the path condition implies: it helps to
// simplify later conditions but need not be sent to the solver.
func (w *Worker) addFact(c *Term) {
	if c.op == BConst || w.pcset[c] {
		return
	}
	w.pcset[c] = true
	w.noteBound(c)
	if c.op == BAnd {
		w.noteConj(c)
	}
	if tv := w.p.table(c); tv != nil {
		vid := c.vars[0]
		old := w.domOf(vid)
		nd := make([]bool, len(tv))
		for i, x := range tv {
			nd[i] = x != 0 && (old == nil || old[i])
		}
		w.dom[vid] = nd
	}
}

func (w *Worker) noteConj(c *Term) {
	if c.op == BAnd {
		w.noteConj(c.args[0])
		w.noteConj(c.args[1])
		return
	}
	w.pcset[c] = true
	w.noteBound(c)
}

// linBase splits a linear term into k*base + c with k = 1 or -1.
func (w *Worker) linBase(t *Term) (base *Term, k, c int64) {
	if t.op != OLin || t.bits > 62 {
		return nil, 0, 0
	}
	base, k = w.p.AddC(t, -t.c), 1
	if base.op == OLin && base.coefs[0] < 0 {
		base, k = w.p.Neg(base), -1
	}
	if base.bits > 62 {
		return nil, 0, 0
	}
	return base, k, t.c
}

// noteBound keeps intervals of linear terms that known conditions imply.
func (w *Worker) noteBound(c *Term) {
	neg := false
	if c.op == BNot {
		c, neg = c.args[0], true
	}
	var lo, hi int64
	switch c.op {
	case BEq0:
		if neg {
			a := c.args[0]
			if l, h, ok := w.bounds(a); ok && (l == 0 || h == 0) && l < h {
				if l == 0 {
					w.setBound(a, 1, h)
				} else {
					w.setBound(a, l, -1)
				}
			}
			return
		}
	case BLe0:
		if neg {
			lo, hi = 1, 1<<60
		} else {
			lo, hi = -1<<60, 0
		}
	case BIn:
		if neg {
			return
		}
		r := c.tbl
		lo, hi = r[0], r[1]
		for i := 0; i+1 < len(r); i += 2 {
			lo, hi = min(lo, r[i]), max(hi, r[i+1])
		}
	default:
		return
	}
	w.setBound(c.args[0], lo, hi)
}

func (w *Worker) setBound(a *Term, lo, hi int64) {
	base, k, c := w.linBase(a)
	if base == nil {
		if a.op == OVar || a.op == OConst || a.bits > 62 {
			return
		}
		base, k, c = a, 1, 0
	}
	// lo <= k*base+c <= hi
	if k > 0 {
		lo, hi = lo-c, hi-c
	} else {
		lo, hi = c-hi, c-lo
	}
	b, ok := w.lb[base]
	if !ok {
		b = [2]int64{-1 << 61, 1 << 61}
	}
	w.lb[base] = [2]int64{max(b[0], lo), min(b[1], hi)}
}

func (w *Worker) evalModel(c *Term) int64 {
	for len(w.model) < len(w.p.vars) {
		v := w.p.vars[len(w.model)]
		w.model = append(w.model, w.defaultVal(v))
	}
	w.p.NewEval()
	return w.p.Eval(c, w.model)
}

func (w *Worker) defaultVal(v *Term) int64 {
	if w.seedModel != nil {
		if x, ok := w.seedModel[v.name]; ok {
			return x
		}
	}
	if d := w.domOf(v.vars[0]); d != nil {
		for i, b := range d {
			if b {
				return v.lo + int64(i)
			}
		}
	}
	return v.lo
}

// ensureModel makes w.model satisfy the path condition.
func (w *Worker) ensureModel() bool {
	if w.modelOK {
		// new variables since
		for len(w.model) < len(w.p.vars) {
			w.model = append(w.model, w.defaultVal(w.p.vars[len(w.model)]))
		}
		return true
	}
	// try the seed / previous model first
	w.model = w.model[:0]
	okAll := true
	for _, c := range w.pc {
		if c.bigAny || w.evalModel(c) == 0 {
			okAll = false
			break
		}
	}
	if okAll {
		w.evalModel(w.p.T)
		w.modelOK = true
		return true
	}
	r, m := w.sol.Check(w.pc)
	if r == Unknown {
		panic(pathAbort{abUnknown, "solver gave up on the path condition"})
	}
	if r == Unsat {
		return false
	}
	w.setModel(m)
	w.modelOK = true
	return true
}

func (w *Worker) setModel(m map[int32]int64) {
	for len(w.model) < len(w.p.vars) {
		w.model = append(w.model, w.defaultVal(w.p.vars[len(w.model)]))
	}
	for id, v := range m {
		w.model[id] = v
	}
}

// slice returns the constraints that share variables with c, transitively.
func (w *Worker) slice(c *Term) []*Term {
	in := map[int32]bool{}
	for _, v := range c.vars {
		in[v] = true
	}
	used := make([]bool, len(w.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, q := range w.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range q.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, q)
				for _, v := range q.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// feasible asks whether the path condition and c are satisfiable together;
// the path condition itself is.
func (w *Worker) feasible(c *Term) (SatResult, map[int32]int64) {
	switch w.quick(c) {
	case 0:
		return Unsat, nil
	case 1:
		return Sat, nil
	case 2:
		vid := c.vars[0]
		if !w.multi[vid] {
			// any value of the domain that satisfies c will do
			tv := w.p.table(c)
			d := w.domOf(vid)
			for i, x := range tv {
				if x != 0 && (d == nil || d[i]) {
					atomic.AddInt64(&gstats.Quick, 1)
					return Sat, map[int32]int64{vid: w.p.vars[vid].lo + int64(i)}
				}
			}
		}
	}
	cs := append(w.slice(c), c)
	if verbose {
		t0 := time.Now()
		r, m := w.sol.Check(cs)
		st := strings.Split(w.stackString(), " < ")
		noteQuery(strings.Join(st[:min(len(st), 3)], " < "), r, time.Since(t0))
		return r, m
	}
	return w.sol.Check(cs)
}

type queryStat struct {
	n, unsat int
	d        time.Duration
}

var queryStats = map[string]*queryStat{}
var queryMu sync.Mutex

// noteQuery collects where solver time goes (verbose runs).
func noteQuery(at string, r SatResult, d time.Duration) {
	if d < 100*time.Microsecond {
		return
	}
	queryMu.Lock()
	defer queryMu.Unlock()
	q := queryStats[at]
	if q == nil {
		q = &queryStat{}
		queryStats[at] = q
	}
	q.n++
	q.d += d
	if r == Unsat {
		q.unsat++
	}
}

func printQueryStats() {
	ks := sortedKeys(queryStats)
	sort.Slice(ks, func(i, j int) bool { return queryStats[ks[i]].d > queryStats[ks[j]].d })
	for _, k := range ks[:min(len(ks), 25)] {
		q := queryStats[k]
		fmt.Fprintf(os.Stderr, "  %8.1fs %6d queries %6d unsat  %s\n", q.d.Seconds(), q.n, q.unsat, k)
	}
}

func (w *Worker) nextDec() (int64, bool) {
	if w.pos < len(w.prefix) {
		v := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, v)
		return v, true
	}
	return 0, false
}

func (w *Worker) pushAlt(v int64, model map[int32]int64) {
	np := make([]int64, len(w.decs)+1)
	copy(np, w.decs)
	np[len(w.decs)] = v
	mm := make(map[string]int64, len(w.model))
	for i, t := range w.p.vars {
		if i < len(w.model) {
			mm[t.name] = w.model[i]
		}
	}
	for id, x := range model {
		mm[w.p.vars[id].name] = x
	}
	w.alts = append(w.alts, workItem{np, mm})
}

func (w *Worker) record(v int64) {
	w.decs = append(w.decs, v)
	w.pos = len(w.decs)
	if len(w.decs) > 20000 {
		panic(pathAbort{abBudget, "too many decisions"})
	}
}

// decide resolves a symbolic condition, forking when both outcomes are
// possible.
func (w *Worker) decide(c *Term) bool {
	c = w.simp(c)
	if c.op == BConst {
		return c.c != 0
	}
	if w.jon == false {
		panic(unsupported("symbolic decision outside a path"))
	}
	if v, ok := w.nextDec(); ok {
		b := v&1 != 0
		if !b {
			c = w.p.Not(c)
		}
		if v&2 != 0 {
			w.addFact(c)
		} else {
			w.addPC(c)
		}
		return b
	}
	w.checkTime()
	if !w.ensureModel() {
		panic(pathAbort{abAssume, "infeasible path"})
	}
	nc := w.p.Not(c)
	var cur bool
	if c.bigAny {
		// the model cannot be evaluated reliably: ask the solver for both
		r1, m1 := w.feasible(c)
		r0, m0 := w.feasible(nc)
		if r1 == Unknown || r0 == Unknown {
			panic(pathAbort{abUnknown, "solver gave up on a branch"})
		}
		switch {
		case r1 == Sat && r0 == Sat:
			w.pushAlt(0, m0)
			w.setModel(m1)
			w.record(1)
			w.addPC(c)
			return true
		case r1 == Sat:
			w.record(3)
			w.addFact(c)
			return true
		case r0 == Sat:
			w.record(2)
			w.addFact(nc)
			return false
		}
		panic(pathAbort{abAssume, "infeasible path"})
	}
	cur = w.evalModel(c) != 0
	other := nc
	if !cur {
		other = c
	}
	r, m := w.feasible(other)
	switch r {
	case Sat:
		w.pushAlt(b2i(!cur), m)
	case Unknown:
		panic(pathAbort{abUnknown, "solver gave up on a branch"})
	}
	here := c
	if !cur {
		here = nc
	}
	if r == Unsat {
		w.record(2 | b2i(cur))
		w.addFact(here)
	} else {
		w.record(b2i(cur))
		w.addPC(here)
	}
	return cur
}

// choose forks over 0..n-1 without constraint.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if v, ok := w.nextDec(); ok {
		return int(v)
	}
	for i := n - 1; i >= 1; i-- {
		w.pushAlt(int64(i), nil)
	}
	w.record(0)
	return 0
}

// concrete forces v to a single value, forking over all of them.
func (w *Worker) concrete(v Val) int64 {
	t, ok := v.o.(*Term)
	if !ok {
		return v.n
	}
	if t.isBool() {
		return b2i(w.decide(t))
	}
	for i := 0; ; i++ {
		if lo, hi, ok := w.bounds(t); ok && lo == hi {
			return lo
		}
		if i > 5000 {
			panic(unsupported("concretisation of a value with too many values"))
		}
		var k int64
		if x, ok := w.nextDec(); ok {
			k = x
		} else {
			if t.bigAny || !w.ensureModel() {
				panic(unsupported("concretisation of a wide value"))
			}
			k = w.evalModel(t)
			w.record(k)
		}
		if w.decide(w.p.Eq(t, w.p.Const(k))) {
			return k
		}
	}
}

func (w *Worker) checkTime() {
	if !w.deadline.IsZero() && time.Now().After(w.deadline) {
		panic(pathAbort{abTime, "time limit"})
	}
}

func (w *Worker) assume(v Val) {
	if v.o == nil {
		if v.n == 0 {
			panic(pathAbort{abAssume, "assumption"})
		}
		return
	}
	c := w.simp(v.o.(*Term))
	if c.op == BConst {
		if c.c == 0 {
			panic(pathAbort{abAssume, "assumption"})
		}
		return
	}
	if x, ok := w.nextDec(); ok {
		if x == 0 {
			panic(pathAbort{abAssume, "assumption"})
		}
		if x&2 != 0 {
			w.addFact(c)
		} else {
			w.addPC(c)
		}
		return
	}
	if w.ensureModel() && !c.bigAny && w.evalModel(c) != 0 {
		w.record(1)
		w.addPC(c)
		return
	}
	r, m := w.feasible(c)
	if r == Unknown {
		panic(pathAbort{abUnknown, "solver gave up on an assumption"})
	}
	if r == Unsat {
		w.record(0)
		panic(pathAbort{abAssume, "assumption"})
	}
	w.setModel(m)
	w.record(1)
	w.addPC(c)
}

// assert checks v on this path. The solver decides the negation.
func (w *Worker) assert(v Val, msg, known string, region Val) {
	w.res.asserts[msg]++
	var c *Term
	if v.o == nil {
		c = w.p.Bool(v.n != 0)
	} else {
		c = v.o.(*Term)
	}
	if c == w.p.T {
		w.res.trivial++
		return
	}
	rg := w.p.F
	if known != "" {
		rg = w.bterm(region)
	}
	replaying := w.pos < len(w.prefix)
	// outside the known region
	if !replaying {
		bad := w.p.And(w.p.Not(c), w.p.Not(rg))
		holds := w.checkBad(bad, msg, "")
		if known != "" {
			holds = w.checkBad(w.p.And(w.p.Not(c), rg), msg, known) && holds
		}
		if holds {
			c = w.simp(c)
			if c.op != BConst {
				w.record(3)
				w.addFact(c)
			}
			return
		}
	}
	// go on where it holds
	if c == w.p.F {
		panic(pathAbort{abStop, "assertion failed"})
	}
	w.assume(mkTerm(c))
}

func (w *Worker) checkBad(bad *Term, msg, known string) bool {
	if bad == w.p.F {
		w.res.trivial++
		return true
	}
	var r SatResult
	var m map[int32]int64
	if bad == w.p.T {
		if !w.ensureModel() {
			return true
		}
		r = Sat
	} else {
		// always the solver: no shortcut by domains
		cs := append(w.slice(bad), bad)
		r, m = w.sol.Check(cs)
	}
	w.res.solved++
	switch r {
	case Unsat:
		return true
	case Unknown:
		w.inconc = append(w.inconc, "assertion undecided: "+msg)
		return false
	}
	// complete model
	if !w.modelOK {
		w.ensureModel()
	}
	save := append([]int64(nil), w.model...)
	w.setModel(m)
	w.violation("assert", msg, known, "")
	w.model = save
	return false
}

func (w *Worker) violation(kind, msg, known, stack string) *Violation {
	ins := make([]Input, len(w.inputs))
	for i, in := range w.inputs {
		ins[i] = in
		if in.Term != nil {
			w.evalModel(w.p.T)
			w.p.NewEval()
			ins[i].Val = w.p.Eval(in.Term, w.model)
		}
	}
	v := &Violation{Msg: msg, Kind: kind, Inputs: ins, Known: known, Stack: stack}
	w.res.viols = append(w.res.viols, v)
	return v
}

func (w *Worker) stackString() string {
	var out []string
	for i := len(w.callStack) - 1; i >= 0 && len(out) < 14; i-- {
		out = append(out, w.callStack[i].String())
	}
	return strings.Join(out, " < ")
}

func (w *Worker) inputName(name string) string {
	n := w.nameSeq[name]
	w.nameSeq[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (w *Worker) fresh(prefix string, lo, hi int64) *Term {
	w.freshSeq++
	return w.p.Var(fmt.Sprintf("$%s%d", prefix, w.freshSeq), lo, hi, nil)
}

// touchMap records a map access for race detection.
func (w *Worker) touchMap(m *MapV, wr bool) {
	if w.trace != nil {
		w.trace.accessMap(w, m, wr)
	}
}

func (w *Worker) mapOrderOf(m *MapV) []int {
	var live []int
	for i := range m.keys {
		if !m.dead[i] {
			live = append(live, i)
		}
	}
	if len(live) > 1 && w.curInit != nil {
		w.initMapRanges[w.curInit] = true
	}
	if len(live) < 2 {
		return live
	}
	if w.symMapOrd && w.jon {
		if len(live) <= 3 {
			return permute(live, w.choose(fact(len(live))))
		}
		switch w.choose(3) {
		case 1:
			reverse(live)
		case 2:
			k := len(live) / 2
			live = append(live[k:], live[:k]...)
		}
		return live
	}
	if w.mapOrder == 1 {
		reverse(live)
	} else if w.mapOrder == 2 {
		k := len(live) / 2
		live = append(append([]int(nil), live[k:]...), live[:k]...)
	}
	return live
}

func fact(n int) int {
	r := 1
	for i := 2; i <= n; i++ {
		r *= i
	}
	return r
}

func permute(a []int, k int) []int {
	src := append([]int(nil), a...)
	var out []int
	for n := len(src); n > 0; n-- {
		f := fact(n - 1)
		i := k / f
		k %= f
		out = append(out, src[i])
		src = append(src[:i], src[i+1:]...)
	}
	return out
}

func reverse(a []int) {
	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
		a[i], a[j] = a[j], a[i]
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ types.Type

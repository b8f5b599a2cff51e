package main

// Model of package time: a Time is its wall clock (day number, second of day,
// nanosecond) together with the offset in force.

import (
	"fmt"
	"sort"
	"sync"
	"time"
)

type civ struct{ y, m, d Val }

type TimeV struct {
	days, sod, ns, off Val
	loc                *Val // nil: UTC
	hint               *civ // y, m (1..12), d (any) with the same day number
}

const zeroDays = -719162

var zeroTime = &TimeV{days: mkInt(zeroDays)}

func (t *TimeV) sym() bool {
	return t.days.o != nil || t.sod.o != nil || t.ns.o != nil || t.off.o != nil
}

type locKind int

const (
	locUTC locKind = iota
	locFixed
	locLocal
	locTrans
)

// LocV is a time.Location.
type LocV struct {
	kind  locKind
	name  string
	off   Val
	at    []Val // locTrans: transition instants (unix seconds), ascending
	offs  []Val // len(at)+1
	names []string
	limLo int64 // instants outside are not modelled
	limHi int64
}

type civilVars struct{ y, m, d *Term }

// ---- integer helpers on Val

func (w *Worker) vAdd(a, b Val) Val {
	if a.o == nil && b.o == nil {
		return Val{n: a.n + b.n}
	}
	return mkTerm(w.p.Add(w.term(a), w.term(b)))
}
func (w *Worker) vSub(a, b Val) Val {
	if a.o == nil && b.o == nil {
		return Val{n: a.n - b.n}
	}
	return mkTerm(w.p.Sub(w.term(a), w.term(b)))
}
func (w *Worker) vMulC(a Val, c int64) Val {
	if a.o == nil {
		return Val{n: a.n * c}
	}
	return mkTerm(w.p.MulC(w.term(a), c))
}
func (w *Worker) vAddC(a Val, c int64) Val {
	if a.o == nil {
		return Val{n: a.n + c}
	}
	return mkTerm(w.p.AddC(w.term(a), c))
}
func (w *Worker) vDiv(a Val, c int64) Val {
	if a.o == nil {
		return Val{n: floorDiv(a.n, c)}
	}
	t := w.term(a)
	if lo, hi, ok := w.bounds(t); ok && floorDiv(lo, c) == floorDiv(hi, c) {
		return Val{n: floorDiv(lo, c)}
	}
	return mkTerm(w.p.FDiv(t, c))
}
func (w *Worker) vMod(a Val, c int64) Val {
	if a.o == nil {
		return Val{n: floorMod(a.n, c)}
	}
	t := w.term(a)
	if lo, hi, ok := w.bounds(t); ok && floorDiv(lo, c) == floorDiv(hi, c) {
		return mkTerm(w.p.AddC(t, -c*floorDiv(lo, c)))
	}
	return mkTerm(w.p.FMod(t, c))
}
func (w *Worker) vLe(a, b Val) *Term { return w.simp(w.p.Le(w.term(a), w.term(b))) }
func (w *Worker) vLt(a, b Val) *Term { return w.simp(w.p.Lt(w.term(a), w.term(b))) }
func (w *Worker) vEq(a, b Val) *Term { return w.simp(w.p.Eq(w.term(a), w.term(b))) }
func (w *Worker) vIte(c *Term, a, b Val) Val {
	return mkTerm(w.p.Ite(w.simp(c), w.term(a), w.term(b)))
}
func (w *Worker) vBounds(a Val) (int64, int64) {
	if a.o == nil {
		return a.n, a.n
	}
	lo, hi, ok := w.bounds(w.term(a))
	if !ok {
		return -1 << 62, 1 << 62
	}
	return lo, hi
}

// ---- calendar arithmetic

var cumMarch = []int64{0, 306, 337, 0, 31, 61, 92, 122, 153, 184, 214, 245, 275} // by month 1..12, March = 0
var mdays = []int64{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func hostDays(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	return 365*y + floorDiv(y, 4) - floorDiv(y, 100) + floorDiv(y, 400) + cumMarch[m] + d - 1 - 719468
}

func hostLeap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func hostDim(y, m int64) int64 {
	if m == 2 && hostLeap(y) {
		return 29
	}
	return mdays[m]
}

func hostCivil(days int64) (y, m, d int64) {
	z := days + 719468
	era := floorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	if mp < 10 {
		m = mp + 3
	} else {
		m = mp - 9
	}
	if m <= 2 {
		y++
	}
	return
}

// daysOf is the day number of y-m-d; m lies in 1..12, d is arbitrary.
func (w *Worker) daysOf(y, m, d Val) Val {
	if y.o == nil && m.o == nil && d.o == nil {
		return mkInt(hostDays(y.n, m.n, d.n))
	}
	yy := w.vSub(y, w.vIte(w.vLe(m, mkInt(2)), mkInt(1), mkInt(0)))
	r := w.vMulC(yy, 365)
	r = w.vAdd(r, w.vDiv(yy, 4))
	r = w.vSub(r, w.vDiv(yy, 100))
	r = w.vAdd(r, w.vDiv(yy, 400))
	r = w.vAdd(r, w.tblOf(m, cumMarch))
	r = w.vAdd(r, d)
	return w.vAddC(r, -1-719468)
}

func (w *Worker) tblOf(i Val, tbl []int64) Val {
	if i.o == nil {
		if i.n < 0 || i.n >= int64(len(tbl)) {
			return mkInt(tbl[0])
		}
		return mkInt(tbl[i.n])
	}
	return mkTerm(w.p.Tbl(w.term(i), tbl))
}

func (w *Worker) leapT(y Val) *Term {
	if y.o == nil {
		return w.p.Bool(hostLeap(y.n))
	}
	p := w.p
	t := w.term(y)
	z := p.zero
	l := p.And(p.Eq(p.FMod(t, 4), z), p.Or(p.Not(p.Eq(p.FMod(t, 100), z)), p.Eq(p.FMod(t, 400), z)))
	return w.simp(l)
}

func (w *Worker) dimOf(y, m Val) Val {
	if y.o == nil && m.o == nil {
		return mkInt(hostDim(y.n, m.n))
	}
	base := w.tblOf(m, mdays)
	feb := w.vEq(m, mkInt(2))
	if feb == w.p.F {
		return base
	}
	return w.vAdd(base, w.vIte(w.p.And(feb, w.leapT(y)), mkInt(1), mkInt(0)))
}

func (w *Worker) civilDate(t *TimeV) (y, m, d Val) {
	if t.days.o == nil {
		a, b, c := hostCivil(t.days.n)
		return mkInt(a), mkInt(b), mkInt(c)
	}
	dt := t.days.o.(*Term)
	if c, ok := w.civilOf[dt]; ok {
		return mkTerm(c[0]), mkTerm(c[1]), mkTerm(c[2])
	}
	if h := t.hint; h != nil {
		y, m, d = h.y, h.m, h.d
		for i := 0; i < 3; i++ {
			dim := w.dimOf(y, m)
			if w.decide(w.p.Lt(w.term(d), w.p.Const(1))) {
				// the month before
				y = w.vSub(y, w.vIte(w.vEq(m, mkInt(1)), mkInt(1), mkInt(0)))
				m = w.vIte(w.vEq(m, mkInt(1)), mkInt(12), w.vAddC(m, -1))
				d = w.vAdd(d, w.dimOf(y, m))
				continue
			}
			if w.decide(w.p.Le(w.term(d), w.term(dim))) {
				w.civilOf[dt] = [3]*Term{w.term(y), w.term(m), w.term(d)}
				return
			}
			d = w.vSub(d, dim)
			y = w.vAdd(y, w.vIte(w.vEq(m, mkInt(12)), mkInt(1), mkInt(0)))
			m = w.vIte(w.vEq(m, mkInt(12)), mkInt(1), w.vAddC(m, 1))
		}
	}
	// fresh variables tied to the day number
	lo, hi := w.vBounds(t.days)
	if lo < -400000000 || hi > 400000000 {
		panic(unsupported("calendar date of an unbounded day number"))
	}
	ylo, _, _ := hostCivil(lo)
	yhi, _, _ := hostCivil(hi)
	w.freshSeq++
	id := w.freshSeq
	yv := w.p.Var(fmt.Sprintf("$y%d", id), ylo, yhi, nil)
	mv := w.p.Var(fmt.Sprintf("$m%d", id), 1, 12, nil)
	dv := w.p.Var(fmt.Sprintf("$d%d", id), 1, 31, nil)
	y, m, d = mkTerm(yv), mkTerm(mv), mkTerm(dv)
	if yv.op == OConst {
		y = mkInt(ylo)
	}
	// extend the model: the new variables are functions of the old ones
	if w.modelOK {
		days := w.evalModel(dt)
		a, b, c := hostCivil(days)
		w.evalModel(w.p.T)
		w.model[yv.vars[0]], w.model[mv.vars[0]], w.model[dv.vars[0]] = a, b, c
	}
	ok := w.p.And(w.p.Eq(w.term(w.daysOf(y, m, d)), dt), w.p.Le(w.term(d), w.term(w.dimOf(y, m))))
	w.addPC(ok)
	w.civilOf[dt] = [3]*Term{w.term(y), w.term(m), w.term(d)}
	return
}

// ---- locations

func (w *Worker) locOf(l *Val) *LocV {
	if l == nil {
		return &LocV{kind: locUTC}
	}
	lv, ok := l.o.(*LocV)
	if !ok {
		panic(unsupported("location"))
	}
	return lv
}

func (w *Worker) normLoc(v Val) *Val {
	if v.o == nil {
		return nil
	}
	c := v.o.(*Val)
	if lv := w.locOf(c); lv.kind == locUTC {
		return nil
	}
	return c
}

// lookup gives the offset at instant unix and the segment it lies in.
func (w *Worker) lookup(l *LocV, unix Val) (off Val, seg int) {
	switch l.kind {
	case locUTC, locLocal:
		return Val{}, 0
	case locFixed:
		return l.off, 0
	}
	if l.limHi > l.limLo {
		lo, hi := w.vBounds(unix)
		if lo < l.limLo || hi > l.limHi {
			panic(unsupported("instant outside the modelled range of a zone"))
		}
	}
	a, b := 0, len(l.at)
	// first transition after unix, by binary search
	for a < b {
		k := (a + b) / 2
		if w.decide(w.vLt(unix, l.at[k])) {
			b = k
		} else {
			a = k + 1
		}
	}
	return l.offs[a], a
}

func (w *Worker) abbrev(l *LocV, seg int) string {
	switch l.kind {
	case locUTC:
		return "UTC"
	case locLocal:
		return "UTC"
	case locFixed:
		return l.name
	}
	return l.names[seg]
}

func (w *Worker) unixOf(t *TimeV) Val {
	return w.vSub(w.vAdd(w.vMulC(t.days, 86400), t.sod), t.off)
}

// fromLocal builds a time from a wall clock given as day number and second of
// day (any size), in loc, with the offset already chosen.
func (w *Worker) fromLocal(days, sod, ns, off Val, loc *Val, hint *civ) *TimeV {
	lo, hi := w.vBounds(sod)
	if lo < 0 || hi >= 86400 {
		c := w.vDiv(sod, 86400)
		sod = w.vMod(sod, 86400)
		days = w.vAdd(days, c)
		if hint != nil {
			hint = &civ{hint.y, hint.m, w.vAdd(hint.d, c)}
		}
	}
	if hint != nil {
		if lo, hi := w.vBounds(hint.d); lo < -70 || hi > 100 {
			hint = nil
		}
	}
	return &TimeV{days: days, sod: sod, ns: ns, off: off, loc: loc, hint: hint}
}

func (w *Worker) hintOf(t *TimeV) *civ {
	if t.days.o == nil {
		y, m, d := hostCivil(t.days.n)
		return &civ{mkInt(y), mkInt(m), mkInt(d)}
	}
	if c, ok := w.civilOf[t.days.o.(*Term)]; ok {
		return &civ{mkTerm(c[0]), mkTerm(c[1]), mkTerm(c[2])}
	}
	return t.hint
}

func (w *Worker) timeDate(y, m, d, h, mi, s, ns Val, loc *Val) *TimeV {
	lo, hi := w.vBounds(m)
	if lo < 1 || hi > 12 {
		m0 := w.vAddC(m, -1)
		y = w.vAdd(y, w.vDiv(m0, 12))
		m = w.vAddC(w.vMod(m0, 12), 1)
	}
	// beyond some 34 billion years the seconds wrap as they do in package time
	for i, v := range []Val{y, d, h, mi, s} {
		most := int64(1) << 50
		if i == 0 {
			most = 1 << 35
		} else if i == 1 {
			most = 1 << 43
		}
		if lo, hi := w.vBounds(v); lo < -most || hi > most {
			if lo, hi := w.vBounds(ns); lo < 0 || hi > 999999999 {
				panic(unsupported("time.Date with unbounded fields"))
			}
			u := time.Date(int(w.concrete(y)), time.Month(w.concrete(m)), int(w.concrete(d)), int(w.concrete(h)), int(w.concrete(mi)), int(w.concrete(s)), 0, time.UTC).Unix()
			y, m, d, h, mi, s = mkInt(1970), mkInt(1), mkInt(1+floorDiv(u, 86400)), mkInt(0), mkInt(0), mkInt(floorMod(u, 86400))
			break
		}
	}
	sod := w.vAdd(w.vAdd(w.vMulC(h, 3600), w.vMulC(mi, 60)), s)
	if lo, hi := w.vBounds(ns); lo < 0 || hi > 999999999 {
		sod = w.vAdd(sod, w.vDiv(ns, 1000000000))
		ns = w.vMod(ns, 1000000000)
	}
	days := w.daysOf(y, m, d)
	hint := &civ{y, m, d}
	l := w.locOf(loc)
	off := Val{}
	switch l.kind {
	case locFixed:
		off = l.off
	case locTrans:
		// as time.Date does it
		unix := w.vAdd(w.vMulC(days, 86400), sod)
		o, seg := w.lookup(l, unix)
		off = o
		if !w.decide(w.vEq(o, mkInt(0))) {
			utc := w.vSub(unix, o)
			bad := w.p.F
			if seg > 0 {
				bad = w.p.Or(bad, w.vLt(utc, l.at[seg-1]))
			}
			if seg < len(l.at) {
				bad = w.p.Or(bad, w.vLe(l.at[seg], utc))
			}
			if w.decide(bad) {
				off, _ = w.lookup(l, utc)
			}
			// the instant is unix-off; its wall clock may differ in a gap
			inst := w.vSub(unix, off)
			real, _ := w.lookup(l, inst)
			sod = w.vAdd(sod, w.vSub(real, off))
			off = real
		}
	}
	return w.fromLocal(days, sod, ns, off, loc, hint)
}

// fromUnix is the time of an instant viewed in loc.
func (w *Worker) fromUnix(unix, ns Val, loc *Val) *TimeV {
	off, _ := w.lookup(w.locOf(loc), unix)
	return w.fromLocal(mkInt(0), w.vAdd(unix, off), ns, off, loc, nil)
}

func (w *Worker) timeIn(t *TimeV, loc *Val) *TimeV {
	l := w.locOf(loc)
	var off Val
	if l.kind == locTrans {
		off, _ = w.lookup(l, w.unixOf(t))
	} else {
		off, _ = w.lookup(l, Val{})
	}
	sod := w.vAdd(t.sod, w.vSub(off, t.off))
	return w.fromLocal(t.days, sod, t.ns, off, loc, w.hintOf(t))
}

func (w *Worker) addSecs(t *TimeV, secs, ns Val) *TimeV {
	if l := w.locOf(t.loc); l.kind == locTrans {
		return w.fromUnix(w.vAdd(w.unixOf(t), secs), ns, t.loc)
	}
	return w.fromLocal(t.days, w.vAdd(t.sod, secs), ns, t.off, t.loc, w.hintOf(t))
}

func (w *Worker) timeAdd(t *TimeV, d Val) *TimeV {
	tot := w.vAdd(t.ns, d)
	if tt, ok := tot.o.(*Term); ok && tt.bits > 63 {
		// keep exact: wide terms divide exactly as well
		return w.addSecs(t, mkTerm(w.p.FDiv(tt, 1000000000)), mkTerm(w.p.FMod(tt, 1000000000)))
	}
	return w.addSecs(t, w.vDiv(tot, 1000000000), w.vMod(tot, 1000000000))
}

func (w *Worker) addDate(t *TimeV, y, m, d Val) *TimeV {
	cy, cm, cd := w.civilDate(t)
	// ints wrap in Go; amounts are far from that here
	return w.timeDate(w.vAdd(cy, y), w.vAdd(cm, m), w.vAdd(cd, d), mkInt(0), mkInt(0), t.sod, t.ns, t.loc)
}

// lex compares civil dates part by part where that is exact (easier for the
// solver than day numbers): lt and eq, or nil.
func (w *Worker) lex(t, u *TimeV) (lt, eq *Term) {
	if t.off != u.off {
		return nil, nil
	}
	a, b := w.exactCivil(t), w.exactCivil(u)
	if a == nil || b == nil {
		return nil, nil
	}
	p := w.p
	lt, eq = w.vLt(t.ns, u.ns), w.vEq(t.ns, u.ns)
	for _, x := range [][2]Val{{t.sod, u.sod}, {a.d, b.d}, {a.m, b.m}, {a.y, b.y}} {
		e := w.vEq(x[0], x[1])
		lt = p.Or(w.vLt(x[0], x[1]), p.And(e, lt))
		eq = p.And(e, eq)
	}
	return
}

// exactCivil is a y-m-d with 1<=d<=length of the month, or nil.
func (w *Worker) exactCivil(t *TimeV) *civ {
	if t.days.o == nil {
		return w.hintOf(t)
	}
	if _, ok := w.civilOf[t.days.o.(*Term)]; ok {
		return w.hintOf(t)
	}
	if t.hint != nil {
		if lo, hi := w.vBounds(t.hint.d); lo >= 1 && hi <= 28 {
			return t.hint
		}
		if lo, hi := w.vBounds(t.hint.d); lo >= 1 && hi <= 31 {
			if w.simp(w.p.Le(w.term(t.hint.d), w.term(w.dimOf(t.hint.y, t.hint.m)))) == w.p.T {
				return t.hint
			}
		}
	}
	return nil
}

func (w *Worker) timeLess(t, u *TimeV) *Term {
	if lt, _ := w.lex(t, u); lt != nil {
		return lt
	}
	a, b := w.unixOf(t), w.unixOf(u)
	lt, eq := w.vLt(a, b), w.vEq(a, b)
	return w.p.Or(lt, w.p.And(eq, w.vLt(t.ns, u.ns)))
}

func (w *Worker) timeEqual(t, u *TimeV) *Term {
	if _, eq := w.lex(t, u); eq != nil {
		return eq
	}
	return w.p.And(w.vEq(w.unixOf(t), w.unixOf(u)), w.vEq(t.ns, u.ns))
}

func (w *Worker) timeIdentical(t, u *TimeV) bool {
	if t == u {
		return true
	}
	if t.loc != u.loc {
		return false
	}
	return w.decide(w.timeEqual(t, u))
}

func (w *Worker) isZeroTime(t *TimeV) *Term {
	if h := w.hintOf(t); h != nil && t.off == (Val{}) {
		if lo, hi := w.vBounds(h.d); lo >= 1 && hi <= 31 {
			// no day 1..31 of another month is 1 January
			one := mkInt(1)
			return w.p.And(w.p.And(w.vEq(h.y, one), w.vEq(h.m, one)), w.p.And(w.vEq(h.d, one), w.p.And(w.vEq(t.sod, Val{}), w.vEq(t.ns, Val{}))))
		}
	}
	return w.p.And(w.vEq(w.unixOf(t), mkInt(zeroDays*86400)), w.vEq(t.ns, mkInt(0)))
}

func hostTime(t *TimeV) time.Time {
	sec := t.days.n*86400 + t.sod.n - t.off.n
	ht := time.Unix(sec, t.ns.n).UTC()
	if t.loc == nil {
		return ht
	}
	return ht.In(time.FixedZone("", int(t.off.n)))
}

// ---- host zones

var hostZones sync.Map

func hostZone(name string) (*LocV, error) {
	if v, ok := hostZones.Load(name); ok {
		return v.(*LocV), nil
	}
	loc, err := time.LoadLocation(name)
	if err != nil {
		return nil, err
	}
	l := &LocV{kind: locTrans, name: name, limLo: -3900000000, limHi: 7200000000}
	at := func(u int64) int64 { _, o := time.Unix(u, 0).In(loc).Zone(); return int64(o) }
	nm := func(u int64) string { n, _ := time.Unix(u, 0).In(loc).Zone(); return n }
	cur := at(l.limLo)
	l.offs = []Val{mkInt(cur)}
	l.names = []string{nm(l.limLo)}
	for u := l.limLo; u < l.limHi; u += 86400 {
		o := at(u + 86400)
		if o != cur {
			k := u + int64(sort.Search(86400, func(i int) bool { return at(u+int64(i)) != cur }))
			l.at = append(l.at, mkInt(k))
			cur = at(k)
			l.offs = append(l.offs, mkInt(cur))
			l.names = append(l.names, nm(k))
		}
	}
	if len(l.at) == 0 {
		l = &LocV{kind: locFixed, name: name, off: l.offs[0]}
	}
	hostZones.Store(name, l)
	return l, nil
}

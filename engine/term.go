package main

// Terms: hash-consed, bounded mathematical-integer and boolean expressions.
//
// An integer term denotes an exact integer that lies in [lo,hi] for every
// assignment of the variables within their declared ranges; Go's modular
// arithmetic is introduced explicitly by OWrap where an operation may leave
// the range of its type.  Terms are emitted to SMT-LIB as bit-vectors that are
// wide enough for their range, so the encoding is exact.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin   // c + sum coefs[i]*args[i]
	OMul   // args[0]*args[1]
	OFDiv  // floor(args[0]/c), c>0
	OFMod  // args[0] mod c (floor), c>0
	OIte   // args[0]?args[1]:args[2]
	OTbl   // tbl[args[0]]
	OWrap  // wrap to c bits; signed if c<0
	OAnd   // bitwise
	OOr    //
	OXor   //
	BConst // c
	BVar
	BEq0 // args[0]==0
	BLe0 // args[0]<=0
	BNot
	BAnd
	BOr
	BIn // args[0] in ranges
)

type Term struct {
	op     Op
	args   []*Term
	coefs  []int64
	c      int64
	tbl    []int64
	lo, hi int64 // inclusive; meaningless if bits>63
	bits   int   // signed width needed
	id     int32
	name   string // OVar, BVar
	vars   []int32
	ts     *truth // memoised truth set / value table for single-variable terms
	evGen  uint64
	evVal  int64
	h      uint64
	emit   int32  // generation of solver in which it is defined
	bigAny bool   // some subterm needs more than 63 bits
	dset   []bool // OVar: admissible values (nil: all in [lo,hi])
}

type truth struct {
	ok   bool
	vals []int64 // value per var value lo..hi
}

type Pool struct {
	tab   map[string]*Term
	terms []*Term
	vars  []*Term // by var id
	gen   uint64
	kb    []byte
	T, F  *Term
	zero  *Term
}

func newPool() *Pool {
	p := &Pool{tab: map[string]*Term{}}
	p.F = p.mk(&Term{op: BConst, c: 0, lo: 0, hi: 0, bits: 1})
	p.T = p.mk(&Term{op: BConst, c: 1, lo: 1, hi: 1, bits: 1})
	p.zero = p.Const(0)
	return p
}

func (t *Term) isBool() bool { return t.op >= BConst }

func sbits(lo, hi int64) int {
	b := func(x int64) int {
		if x < 0 {
			x = ^x
		}
		return bits.Len64(uint64(x)) + 1
	}
	return max(b(lo), b(hi))
}

func put64(b []byte, v int64) []byte {
	u := uint64(v)
	return append(b, byte(u), byte(u>>8), byte(u>>16), byte(u>>24), byte(u>>32), byte(u>>40), byte(u>>48), byte(u>>56))
}

func (p *Pool) mk(t *Term) *Term {
	k := p.kb[:0]
	k = append(k, byte(t.op))
	k = put64(k, t.c)
	for _, a := range t.args {
		k = append(k, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	k = append(k, '|')
	for _, c := range t.coefs {
		k = put64(k, c)
	}
	if t.op == OVar || t.op == BVar {
		k = append(k, t.name...)
	}
	if t.tbl != nil {
		k = append(k, 'T')
		for _, c := range t.tbl {
			k = put64(k, c)
		}
	}
	p.kb = k
	if o, ok := p.tab[string(k)]; ok {
		// the same term may be reached with a tighter interval
		return o
	}
	t.id = int32(len(p.terms))
	t.bigAny = t.bits > 63
	for _, a := range t.args {
		t.bigAny = t.bigAny || a.bigAny
	}
	p.terms = append(p.terms, t)
	// structural hash (stable between pools)
	h := uint64(1469598103934665603)
	mix := func(v uint64) { h ^= v; h *= 1099511628211; h ^= h >> 29 }
	mix(uint64(t.op) + 77)
	mix(uint64(t.c))
	for _, a := range t.args {
		mix(a.h)
	}
	for _, c := range t.coefs {
		mix(uint64(c) + 3)
	}
	for _, c := range t.tbl {
		mix(uint64(c) + 5)
	}
	for i := 0; i < len(t.name); i++ {
		mix(uint64(t.name[i]))
	}
	t.h = h
	if t.op == OVar || t.op == BVar {
		vid := int32(len(p.vars))
		p.vars = append(p.vars, t)
		t.vars = []int32{vid}
	} else {
		t.vars = unionVars(t.args)
	}
	p.tab[string(k)] = t
	return t
}

func unionVars(args []*Term) []int32 {
	switch len(args) {
	case 0:
		return nil
	case 1:
		return args[0].vars
	}
	res := args[0].vars
	for _, a := range args[1:] {
		res = mergeVars(res, a.vars)
	}
	return res
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	i, j := 0, 0
	same := len(a) == len(b)
	if same {
		for k := range a {
			if a[k] != b[k] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (p *Pool) Const(c int64) *Term {
	return p.mk(&Term{op: OConst, c: c, lo: c, hi: c, bits: sbits(c, c)})
}

func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.T
	}
	return p.F
}

// Var makes (or finds) the integer variable name with range [lo,hi]; set, if
// not nil, lists the admissible values.
func (p *Pool) Var(name string, lo, hi int64, set []bool) *Term {
	key := fmt.Sprintf("%s:%d:%d", name, lo, hi)
	if set != nil {
		var sb strings.Builder
		for _, b := range set {
			if b {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		}
		key += ":" + sb.String()
	}
	return p.mk(&Term{op: OVar, name: key, lo: lo, hi: hi, bits: sbits(lo, hi), dset: set})
}

func (p *Pool) BoolVar(name string) *Term {
	return p.mk(&Term{op: BVar, name: name, lo: 0, hi: 1, bits: 1})
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a >= 0) == (b >= 0) && (s >= 0) != (a >= 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	hi, lo := bits.Mul64(absu(a), absu(b))
	if hi != 0 || lo > 1<<63-1 {
		return 0, true
	}
	if (a < 0) != (b < 0) {
		return -int64(lo), false
	}
	return int64(lo), false
}

func absu(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}

type linAcc struct {
	c     int64
	terms []*Term
	coefs []int64
	ov    bool
}

func (l *linAcc) add(t *Term, k int64) {
	if k == 0 || l.ov {
		return
	}
	switch t.op {
	case OConst:
		m, o1 := mulOv(t.c, k)
		s, o2 := addOv(l.c, m)
		l.c = s
		l.ov = l.ov || o1 || o2
	case OLin:
		m, o1 := mulOv(t.c, k)
		s, o2 := addOv(l.c, m)
		l.c = s
		l.ov = l.ov || o1 || o2
		for i, a := range t.args {
			m, o := mulOv(t.coefs[i], k)
			l.ov = l.ov || o
			l.addAtom(a, m)
		}
	default:
		l.addAtom(t, k)
	}
}

func (l *linAcc) addAtom(t *Term, k int64) {
	for i, a := range l.terms {
		if a == t {
			s, o := addOv(l.coefs[i], k)
			l.coefs[i] = s
			l.ov = l.ov || o
			return
		}
	}
	l.terms = append(l.terms, t)
	l.coefs = append(l.coefs, k)
}

func (p *Pool) finish(l *linAcc) *Term {
	// recompose c*FDiv(x,k) + (c/k)*FMod(x,k)
	for again := true; again; {
		again = false
		for i, a := range l.terms {
			if a.op != OFMod || l.coefs[i] == 0 {
				continue
			}
			for j, b := range l.terms {
				if b.op == OFDiv && b.args[0] == a.args[0] && b.c == a.c && l.coefs[j] != 0 {
					m, o := mulOv(l.coefs[i], a.c)
					if !o && m == l.coefs[j] {
						k := l.coefs[i]
						l.coefs[i], l.coefs[j] = 0, 0
						l.add(a.args[0], k)
						again = true
					}
				}
			}
			if again {
				break
			}
		}
	}
	n := 0
	for i := range l.terms {
		if l.coefs[i] != 0 {
			l.terms[n], l.coefs[n] = l.terms[i], l.coefs[i]
			n++
		}
	}
	l.terms, l.coefs = l.terms[:n], l.coefs[:n]
	if n == 0 {
		return p.Const(l.c)
	}
	if n == 1 && l.coefs[0] == 1 && l.c == 0 {
		return l.terms[0]
	}
	sort.Sort(l)
	lo, hi := l.c, l.c
	ov := false
	mag := 0.0
	for i, a := range l.terms {
		k := l.coefs[i]
		if a.bits > 63 {
			ov = true
		}
		x, o1 := mulOv(a.lo, k)
		y, o2 := mulOv(a.hi, k)
		if x > y {
			x, y = y, x
		}
		var o3, o4 bool
		lo, o3 = addOv(lo, x)
		hi, o4 = addOv(hi, y)
		ov = ov || o1 || o2 || o3 || o4
		m := pow2(a.bits) * float64(absu(k))
		mag += m
	}
	t := &Term{op: OLin, c: l.c, args: l.terms, coefs: l.coefs}
	if ov {
		t.lo, t.hi = -1<<63, 1<<63-1
		mag += float64(absu(l.c))
		b := 2
		for x := mag; x >= 1; x /= 2 {
			b++
		}
		t.bits = b
	} else {
		t.lo, t.hi = lo, hi
		t.bits = sbits(lo, hi)
	}
	return p.mk(t)
}

func pow2(n int) float64 {
	r := 1.0
	for ; n > 0; n-- {
		r *= 2
	}
	return r
}

func (l *linAcc) Len() int           { return len(l.terms) }
func (l *linAcc) Less(i, j int) bool { return l.terms[i].id < l.terms[j].id }
func (l *linAcc) Swap(i, j int) {
	l.terms[i], l.terms[j] = l.terms[j], l.terms[i]
	l.coefs[i], l.coefs[j] = l.coefs[j], l.coefs[i]
}

func (p *Pool) Lin2(a *Term, ka int64, b *Term, kb int64, c int64) *Term {
	l := &linAcc{c: c}
	l.add(a, ka)
	l.add(b, kb)
	if l.ov {
		// fall back on opaque products
		var ta, tb *Term = a, b
		if ka != 1 {
			ta = p.mulOpaque(a, p.Const(ka))
		}
		if kb != 1 {
			tb = p.mulOpaque(b, p.Const(kb))
		}
		l = &linAcc{c: c}
		l.addAtom(ta, 1)
		l.addAtom(tb, 1)
		l.ov = false
	}
	return p.finish(l)
}

func (p *Pool) Add(a, b *Term) *Term { return p.Lin2(a, 1, b, 1, 0) }
func (p *Pool) Sub(a, b *Term) *Term { return p.Lin2(a, 1, b, -1, 0) }
func (p *Pool) AddC(a *Term, c int64) *Term {
	if c == 0 {
		return a
	}
	return p.Lin2(a, 1, p.zero, 0, c)
}
func (p *Pool) MulC(a *Term, c int64) *Term {
	if c == 1 {
		return a
	}
	l := &linAcc{}
	l.add(a, c)
	if l.ov {
		return p.mulOpaque(a, p.Const(c))
	}
	return p.finish(l)
}
func (p *Pool) Neg(a *Term) *Term { return p.MulC(a, -1) }

func (p *Pool) mulOpaque(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OMul, args: []*Term{a, b}}
	t.setMulRange()
	return p.mk(t)
}

func (t *Term) setMulRange() {
	a, b := t.args[0], t.args[1]
	if a.bits <= 63 && b.bits <= 63 {
		var lo, hi int64
		ov := false
		for i, x := range []int64{a.lo, a.hi} {
			for j, y := range []int64{b.lo, b.hi} {
				m, o := mulOv(x, y)
				ov = ov || o
				if i+j == 0 {
					lo, hi = m, m
				}
				lo, hi = min(lo, m), max(hi, m)
			}
		}
		if !ov {
			t.lo, t.hi, t.bits = lo, hi, sbits(lo, hi)
			return
		}
	}
	t.lo, t.hi = -1<<63, 1<<63-1
	t.bits = a.bits + b.bits
}

func (p *Pool) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return p.MulC(b, a.c)
	}
	if b.op == OConst {
		return p.MulC(a, b.c)
	}
	return p.mulOpaque(a, b)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}
func floorMod(a, b int64) int64 { return a - b*floorDiv(a, b) }

// FDiv is floor(t/c) for a constant c>0.
func (p *Pool) FDiv(t *Term, c int64) *Term {
	if c == 1 {
		return t
	}
	if t.op == OConst {
		return p.Const(floorDiv(t.c, c))
	}
	if t.bits <= 63 && floorDiv(t.lo, c) == floorDiv(t.hi, c) {
		return p.Const(floorDiv(t.lo, c))
	}
	if t.op == OFDiv {
		if m, o := mulOv(t.c, c); !o {
			return p.FDiv(t.args[0], m)
		}
	}
	if t.op == OIte && (t.args[1].op == OConst || t.args[2].op == OConst) {
		return p.Ite(t.args[0], p.FDiv(t.args[1], c), p.FDiv(t.args[2], c))
	}
	if t.op == OLin {
		q := &linAcc{c: floorDiv(t.c, c)}
		r := &linAcc{c: floorMod(t.c, c)}
		for i, a := range t.args {
			if t.coefs[i]%c == 0 {
				q.add(a, t.coefs[i]/c)
			} else {
				r.add(a, t.coefs[i])
			}
		}
		if len(r.terms) == 0 {
			return p.finish(q)
		}
		if len(q.terms) > 0 || q.c != 0 {
			rt := p.finish(r)
			inner := p.fdivRaw(rt, c)
			q.add(inner, 1)
			return p.finish(q)
		}
	}
	return p.fdivRaw(t, c)
}

func (p *Pool) fdivRaw(t *Term, c int64) *Term {
	if t.op == OConst {
		return p.Const(floorDiv(t.c, c))
	}
	if t.bits <= 63 {
		lo, hi := floorDiv(t.lo, c), floorDiv(t.hi, c)
		if lo == hi {
			return p.Const(lo)
		}
		if t.op == OFDiv {
			if m, o := mulOv(t.c, c); !o {
				return p.fdivRaw(t.args[0], m)
			}
		}
		return p.mk(&Term{op: OFDiv, c: c, args: []*Term{t}, lo: lo, hi: hi, bits: sbits(lo, hi)})
	}
	return p.mk(&Term{op: OFDiv, c: c, args: []*Term{t}, lo: -1 << 63, hi: 1<<63 - 1, bits: max(t.bits-(bits.Len64(uint64(c))-1), 64)})
}

func (p *Pool) FMod(t *Term, c int64) *Term {
	if c == 1 {
		return p.zero
	}
	if t.op == OConst {
		return p.Const(floorMod(t.c, c))
	}
	if t.bits <= 63 && t.lo >= 0 && t.hi < c {
		return t
	}
	if t.op == OFMod && t.c%c == 0 {
		return p.FMod(t.args[0], c)
	}
	if t.op == OIte && (t.args[1].op == OConst || t.args[2].op == OConst) {
		return p.Ite(t.args[0], p.FMod(t.args[1], c), p.FMod(t.args[2], c))
	}
	if t.op == OLin {
		r := &linAcc{c: floorMod(t.c, c)}
		changed := r.c != t.c
		for i, a := range t.args {
			if t.coefs[i]%c == 0 {
				changed = true
				continue
			}
			r.add(a, t.coefs[i])
		}
		if changed {
			return p.FMod(p.finish(r), c)
		}
	}
	if t.bits <= 63 && floorDiv(t.lo, c) == floorDiv(t.hi, c) {
		return p.AddC(t, -c*floorDiv(t.lo, c))
	}
	if c == 7 && t.op == OLin && t.c != 0 {
		// weekdays: one remainder for all days of a week
		r := p.FMod(p.AddC(t, -t.c), c)
		k := floorMod(t.c, c)
		return p.Ite(p.Le(r, p.Const(c-1-k)), p.AddC(r, k), p.AddC(r, k-c))
	}
	lo, hi := int64(0), c-1
	return p.mk(&Term{op: OFMod, c: c, args: []*Term{t}, lo: lo, hi: hi, bits: sbits(lo, hi)})
}

func (p *Pool) Ite(b, x, y *Term) *Term {
	if b.op == BConst {
		if b.c != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.isBool() {
		return p.Or(p.And(b, x), p.And(p.Not(b), y))
	}
	if b.op == BNot {
		return p.Ite(b.args[0], y, x)
	}
	lo, hi := min(x.lo, y.lo), max(x.hi, y.hi)
	bt := max(x.bits, y.bits)
	return p.mk(&Term{op: OIte, args: []*Term{b, x, y}, lo: lo, hi: hi, bits: bt})
}

// Tbl is tbl[idx]; the caller has established 0<=idx<len(tbl).
func (p *Pool) Tbl(idx *Term, tbl []int64) *Term {
	if idx.op == OConst {
		if idx.c < 0 || idx.c >= int64(len(tbl)) {
			return p.Const(tbl[0])
		}
		return p.Const(tbl[idx.c])
	}
	if idx.lo >= int64(len(tbl)) || idx.hi < 0 {
		return p.Const(tbl[0])
	}
	a, b := max(idx.lo, 0), min(idx.hi, int64(len(tbl)-1))
	lo, hi := tbl[a], tbl[a]
	for i := a; i <= b; i++ {
		lo, hi = min(lo, tbl[i]), max(hi, tbl[i])
	}
	if lo == hi {
		return p.Const(lo)
	}
	t := tbl
	if a > 0 || b < int64(len(tbl)-1) {
		t = tbl[a : b+1]
		idx = p.AddC(idx, -a)
	}
	return p.mk(&Term{op: OTbl, args: []*Term{idx}, tbl: append([]int64(nil), t...), lo: lo, hi: hi, bits: sbits(lo, hi)})
}

// Wrap reduces t to nbits bits, signed or unsigned.  nbits<=64.
func (p *Pool) Wrap(t *Term, nbits int, signed bool) *Term {
	var lo, hi int64
	if signed {
		if nbits == 64 {
			lo, hi = -1<<63, 1<<63-1
		} else {
			lo, hi = -1<<(nbits-1), 1<<(nbits-1)-1
		}
	} else {
		if nbits == 64 {
			lo, hi = 0, 1<<63-1 // the caller guarantees the upper half is not reached
		} else {
			lo, hi = 0, 1<<nbits-1
		}
	}
	if t.bits <= 64 && t.lo >= lo && t.hi <= hi && (t.bits <= 63 || nbits == 64 && signed && t.bits == 64) {
		return t
	}
	c := int64(nbits)
	if signed {
		c = -c
	}
	if t.op == OConst {
		return p.Const(wrapConst(t.c, nbits, signed))
	}
	bt := sbits(lo, hi)
	if !signed && nbits == 64 {
		bt = 65
		lo, hi = -1<<63, 1<<63-1
	}
	return p.mk(&Term{op: OWrap, c: c, args: []*Term{t}, lo: lo, hi: hi, bits: bt})
}

func wrapConst(v int64, nbits int, signed bool) int64 {
	switch nbits {
	case 8:
		if signed {
			return int64(int8(v))
		}
		return int64(uint8(v))
	case 16:
		if signed {
			return int64(int16(v))
		}
		return int64(uint16(v))
	case 32:
		if signed {
			return int64(int32(v))
		}
		return int64(uint32(v))
	}
	return v
}

func (p *Pool) Bit(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		switch op {
		case OAnd:
			return p.Const(a.c & b.c)
		case OOr:
			return p.Const(a.c | b.c)
		default:
			return p.Const(a.c ^ b.c)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if op == OAnd {
			if b.c == 0 {
				return b
			}
			if b.c > 0 && b.c&(b.c+1) == 0 { // mask
				return p.FMod(a, b.c+1)
			}
		} else if b.c == 0 {
			return a
		}
		if op == OOr && b.c > 0 && a.lo >= 0 && a.bits <= 63 {
			// disjoint bits: addition (e.g. 0x20|c with c<0x20, or utf8 assembly)
			low := b.c & -b.c
			if a.hi < low {
				return p.AddC(a, b.c)
			}
		}
	}
	if op == OOr && a.lo >= 0 && b.lo >= 0 && a.bits <= 63 && b.bits <= 63 {
		// x*2^k | y with y<2^k
		if k := trailing(a); k > 0 && k < 62 && b.hi < 1<<k {
			return p.Add(a, b)
		}
		if k := trailing(b); k > 0 && k < 62 && a.hi < 1<<k {
			return p.Add(a, b)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	bt := max(a.bits, b.bits)
	var lo, hi int64
	if bt > 63 {
		lo, hi = -1<<63, 1<<63-1
	} else {
		lo, hi = -1<<(bt-1), 1<<(bt-1)-1
		if a.lo >= 0 && b.lo >= 0 {
			lo = 0
		}
		if op == OAnd {
			if a.lo >= 0 {
				lo, hi = 0, min(hi, a.hi)
			}
			if b.lo >= 0 {
				lo, hi = 0, min(hi, b.hi)
			}
		}
	}
	return p.mk(&Term{op: op, args: []*Term{a, b}, lo: lo, hi: hi, bits: sbits(lo, hi)})
}

func trailing(t *Term) int {
	switch t.op {
	case OConst:
		if t.c == 0 {
			return 62
		}
		return bits.TrailingZeros64(uint64(t.c))
	case OLin:
		k := 62
		if t.c != 0 {
			k = bits.TrailingZeros64(uint64(t.c))
		}
		for i, c := range t.coefs {
			k = min(k, bits.TrailingZeros64(uint64(c))+trailing(t.args[i]))
		}
		return k
	}
	return 0
}

// ---- booleans

func (p *Pool) Not(b *Term) *Term {
	switch b.op {
	case BConst:
		return p.Bool(b.c == 0)
	case BNot:
		return b.args[0]
	case BLe0: // !(x<=0) == x>=1 == 1-x<=0
		return p.Le0(p.Lin2(b.args[0], -1, p.zero, 0, 1))
	}
	return p.mk(&Term{op: BNot, args: []*Term{b}, lo: 0, hi: 1, bits: 1})
}

func (p *Pool) And(a, b *Term) *Term {
	if a.op == BConst {
		if a.c != 0 {
			return b
		}
		return a
	}
	if b.op == BConst {
		if b.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if p.Not(a) == b {
		return p.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(&Term{op: BAnd, args: []*Term{a, b}, lo: 0, hi: 1, bits: 1})
}

func (p *Pool) Or(a, b *Term) *Term {
	if a.op == BConst {
		if a.c != 0 {
			return a
		}
		return b
	}
	if b.op == BConst {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if p.Not(a) == b {
		return p.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(&Term{op: BOr, args: []*Term{a, b}, lo: 0, hi: 1, bits: 1})
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// normLin divides out the gcd of the coefficients. le: rounds the constant
// for <=0; otherwise reports divisibility.
func (p *Pool) normLin(t *Term, le bool) (*Term, bool) {
	if t.op != OLin {
		return t, true
	}
	g := uint64(0)
	for _, c := range t.coefs {
		g = gcd(g, absu(c))
	}
	if g > 1 && g < 1<<62 {
		c := t.c
		if le {
			// sum + c <= 0  <=>  sum/g <= floor(-c/g)
			c = -floorDiv(-c, int64(g))
		} else {
			if c%int64(g) != 0 {
				return t, false
			}
			c /= int64(g)
		}
		l := &linAcc{c: c}
		for i, a := range t.args {
			l.add(a, t.coefs[i]/int64(g))
		}
		return p.finish(l), true
	}
	return t, true
}

func (p *Pool) Eq0(t *Term) *Term {
	if t.op == OConst {
		return p.Bool(t.c == 0)
	}
	if t.bits <= 63 && (t.lo > 0 || t.hi < 0) {
		return p.F
	}
	n, div := p.normLin(t, false)
	if !div {
		return p.F
	}
	t = n
	if t.op == OConst {
		return p.Bool(t.c == 0)
	}
	if t.op == OLin && t.coefs[0] < 0 {
		t = p.Neg(t)
	}
	// ite with constant branches
	if x, k, c, ok := singleAtom(t); ok && x.op == OIte && (x.args[1].op == OConst || x.args[2].op == OConst) {
		f := func(a *Term) *Term { return p.Eq0(p.AddC(p.MulC(a, k), c)) }
		a1, a2 := f(x.args[1]), f(x.args[2])
		if a1.op == BConst || a2.op == BConst {
			return p.Ite(x.args[0], a1, a2)
		}
	}
	return p.mk(&Term{op: BEq0, args: []*Term{t}, lo: 0, hi: 1, bits: 1})
}

func singleAtom(t *Term) (x *Term, k, c int64, ok bool) {
	if t.op == OLin {
		if len(t.args) == 1 {
			return t.args[0], t.coefs[0], t.c, true
		}
		return nil, 0, 0, false
	}
	return t, 1, 0, true
}

func (p *Pool) Le0(t *Term) *Term {
	if t.op == OConst {
		return p.Bool(t.c <= 0)
	}
	if t.bits <= 63 {
		if t.hi <= 0 {
			return p.T
		}
		if t.lo > 0 {
			return p.F
		}
	}
	t, _ = p.normLin(t, true)
	if t.op == OConst {
		return p.Bool(t.c <= 0)
	}
	if x, k, c, ok := singleAtom(t); ok && x.op == OIte && (x.args[1].op == OConst || x.args[2].op == OConst) {
		f := func(a *Term) *Term { return p.Le0(p.AddC(p.MulC(a, k), c)) }
		a1, a2 := f(x.args[1]), f(x.args[2])
		if a1.op == BConst || a2.op == BConst {
			return p.Ite(x.args[0], a1, a2)
		}
	}
	return p.mk(&Term{op: BLe0, args: []*Term{t}, lo: 0, hi: 1, bits: 1})
}

func (p *Pool) Eq(a, b *Term) *Term {
	if a.isBool() {
		if a == b {
			return p.T
		}
		if a.op == BConst {
			a, b = b, a
		}
		if b.op == BConst {
			if b.c != 0 {
				return a
			}
			return p.Not(a)
		}
		return p.Or(p.And(a, b), p.And(p.Not(a), p.Not(b)))
	}
	if a == b {
		return p.T
	}
	if a.bits <= 63 && b.bits <= 63 && (a.hi < b.lo || b.hi < a.lo) {
		return p.F
	}
	return p.Eq0(p.Sub(a, b))
}
func (p *Pool) Le(a, b *Term) *Term { return p.Le0(p.Sub(a, b)) }
func (p *Pool) Lt(a, b *Term) *Term { return p.Le0(p.AddC(p.Sub(a, b), 1)) }

// In tests membership of t in a sorted list of inclusive ranges (flattened).
func (p *Pool) In(t *Term, ranges []int64) *Term {
	if t.op == OConst {
		return p.Bool(inRanges(t.c, ranges))
	}
	// clip
	var r []int64
	for i := 0; i+1 < len(ranges); i += 2 {
		lo, hi := max(ranges[i], t.lo), min(ranges[i+1], t.hi)
		if lo <= hi {
			if n := len(r); n > 0 && r[n-1]+1 >= lo {
				r[n-1] = max(r[n-1], hi)
			} else {
				r = append(r, lo, hi)
			}
		}
	}
	if len(r) == 0 {
		return p.F
	}
	if len(r) == 2 && r[0] == t.lo && r[1] == t.hi {
		return p.T
	}
	if len(r) == 2 && r[0] == r[1] {
		return p.Eq(t, p.Const(r[0]))
	}
	if x, k, c, ok := singleAtom(t); ok && t.op == OLin && k == 1 {
		for i := range r {
			r[i] -= c
		}
		return p.In(x, r)
	}
	return p.mk(&Term{op: BIn, args: []*Term{t}, tbl: r, lo: 0, hi: 1, bits: 1})
}

func inRanges(v int64, r []int64) bool {
	for i := 0; i+1 < len(r); i += 2 {
		if v < r[i] {
			return false
		}
		if v <= r[i+1] {
			return true
		}
	}
	return false
}

// ---- evaluation

// Eval evaluates t under m (value per variable id). The pool's generation must
// have been advanced (NewEval) since m last changed.
func (p *Pool) NewEval() { p.gen++ }

func (p *Pool) Eval(t *Term, m []int64) int64 {
	if t.op == OConst || t.op == BConst {
		return t.c
	}
	if t.evGen == p.gen {
		return t.evVal
	}
	v := p.eval(t, m)
	t.evGen, t.evVal = p.gen, v
	return v
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (p *Pool) eval(t *Term, m []int64) int64 {
	switch t.op {
	case OVar, BVar:
		id := t.vars[0]
		if int(id) < len(m) {
			return m[id]
		}
		return t.lo
	case OLin:
		s := t.c
		for i, a := range t.args {
			s += t.coefs[i] * p.Eval(a, m)
		}
		return s
	case OMul:
		return p.Eval(t.args[0], m) * p.Eval(t.args[1], m)
	case OFDiv:
		return floorDiv(p.Eval(t.args[0], m), t.c)
	case OFMod:
		return floorMod(p.Eval(t.args[0], m), t.c)
	case OIte:
		if p.Eval(t.args[0], m) != 0 {
			return p.Eval(t.args[1], m)
		}
		return p.Eval(t.args[2], m)
	case OTbl:
		i := p.Eval(t.args[0], m)
		if i < 0 || i >= int64(len(t.tbl)) {
			return t.tbl[0] // outside the caller's guarantee
		}
		return t.tbl[i]
	case OWrap:
		// evaluation is modulo 2^64, which is exact after wrapping
		n, s := int(t.c), false
		if n < 0 {
			n, s = -n, true
		}
		return wrapConst(p.Eval(t.args[0], m), n, s)
	case OAnd:
		return p.Eval(t.args[0], m) & p.Eval(t.args[1], m)
	case OOr:
		return p.Eval(t.args[0], m) | p.Eval(t.args[1], m)
	case OXor:
		return p.Eval(t.args[0], m) ^ p.Eval(t.args[1], m)
	case BEq0:
		return b2i(p.Eval(t.args[0], m) == 0)
	case BLe0:
		return b2i(p.Eval(t.args[0], m) <= 0)
	case BNot:
		return 1 - p.Eval(t.args[0], m)
	case BAnd:
		return p.Eval(t.args[0], m) & p.Eval(t.args[1], m)
	case BOr:
		return p.Eval(t.args[0], m) | p.Eval(t.args[1], m)
	case BIn:
		return b2i(inRanges(p.Eval(t.args[0], m), t.tbl))
	}
	panic("eval")
}

// evalBig reports whether evaluation may have overflowed int64 somewhere.
func (t *Term) big() bool {
	return t.bits > 63
}

const smallRange = 1200

// table returns the value of the single-variable term t for every value of its
// variable, or nil if t has not exactly one variable of small range.
func (p *Pool) table(t *Term) []int64 {
	if t.ts != nil {
		return t.ts.vals
	}
	t.ts = &truth{}
	if len(t.vars) != 1 || t.bigAny {
		return nil
	}
	v := p.vars[t.vars[0]]
	if v.op != OVar || v.hi-v.lo >= smallRange {
		return nil
	}
	m := make([]int64, t.vars[0]+1)
	out := make([]int64, v.hi-v.lo+1)
	for x := v.lo; x <= v.hi; x++ {
		m[t.vars[0]] = x
		p.NewEval()
		out[x-v.lo] = p.Eval(t, m)
	}
	p.NewEval()
	t.ts.vals = out
	return out
}

func (t *Term) String() string {
	switch t.op {
	case OConst, BConst:
		return fmt.Sprint(t.c)
	case OVar, BVar:
		return strings.SplitN(t.name, ":", 2)[0]
	case OLin:
		var sb strings.Builder
		sb.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if t.coefs[i] != 1 {
				fmt.Fprintf(&sb, "%d*", t.coefs[i])
			}
			sb.WriteString(a.String())
		}
		if t.c != 0 {
			fmt.Fprintf(&sb, " + %d", t.c)
		}
		sb.WriteString(")")
		return sb.String()
	}
	names := map[Op]string{OMul: "*", OFDiv: "div", OFMod: "mod", OIte: "ite", OTbl: "tbl", OWrap: "wrap", OAnd: "&", OOr: "|", OXor: "^", BEq0: "=0", BLe0: "<=0", BNot: "not", BAnd: "and", BOr: "or", BIn: "in"}
	var sb strings.Builder
	sb.WriteString("(" + names[t.op])
	for _, a := range t.args {
		sb.WriteString(" " + a.String())
	}
	if t.op == OFDiv || t.op == OFMod || t.op == OWrap {
		fmt.Fprintf(&sb, " %d", t.c)
	}
	if t.op == BIn {
		fmt.Fprintf(&sb, " %v", t.tbl)
	}
	sb.WriteString(")")
	return sb.String()
}

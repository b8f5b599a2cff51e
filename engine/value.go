package main

// Run-time values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is any Go value. Integers and booleans live in n (symbolic: o is a
// *Term); floats are math.Float64bits in n (symbolic: o is *FTerm); everything
// else is in o:
//
//	string          string | *SymStr
//	pointer         *Val (nil pointer: nil)
//	struct, array   *Agg
//	slice           *SliceV (nil slice: nil)
//	map             *MapV
//	interface       *Iface
//	func            *Closure
//	tuple           *Tuple
type Val struct {
	n int64
	o any
}

type Agg struct{ f []Val }

type SliceV struct{ a []Val }

type Iface struct {
	t types.Type // canonical
	v Val
}

type Closure struct {
	fn     *ssa.Function
	env    []Val
	native func(w *Worker, args []Val) Val
}

type Tuple struct{ v []Val }

// SymStr is a string of known length with symbolic bytes.
type SymStr struct{ b []Val }

// FTerm is the float64 t / 2^k; every operation checks that it is exact.
type FTerm struct {
	t *Term
	k uint
}

type HostObj struct {
	kind string
	v    any
	wrap []Val // the errors an error wraps
}

func mkInt(n int64) Val  { return Val{n: n} }
func mkStr(s string) Val { return Val{o: s} }
func mkBool(b bool) Val  { return Val{n: b2i(b)} }
func mkF(f float64) Val  { return Val{n: int64(math.Float64bits(f))} }
func (v Val) f() float64 { return math.Float64frombits(uint64(v.n)) }
func mkTerm(t *Term) Val {
	if t.op == OConst || t.op == BConst {
		return Val{n: t.c}
	}
	return Val{o: t}
}

func (w *Worker) term(v Val) *Term {
	if v.o != nil {
		if t, ok := v.o.(*Term); ok {
			return t
		}
		panic(unsupported(fmt.Sprintf("integer expected, got %T", v.o)))
	}
	return w.p.Const(v.n)
}

func (w *Worker) bterm(v Val) *Term {
	if v.o != nil {
		return v.o.(*Term)
	}
	return w.p.Bool(v.n != 0)
}

func isSym(v Val) bool {
	switch o := v.o.(type) {
	case nil:
		return false
	case *Term, *SymStr, *FTerm:
		return true
	case *TimeV:
		return o.sym()
	case *SliceV:
		for i := range o.a {
			if isSym(o.a[i]) {
				return true
			}
		}
	case *Iface:
		return isSym(o.v)
	case *Agg:
		for i := range o.f {
			if isSym(o.f[i]) {
				return true
			}
		}
	}
	return false
}

func anySym(args []Val) bool {
	for i := range args {
		if args[i].o != nil && isSym(args[i]) {
			return true
		}
	}
	return false
}

// canonStr turns a SymStr without symbolic bytes into a plain string.
func canonStr(b []Val) Val {
	for i := range b {
		if b[i].o != nil {
			return Val{o: &SymStr{b}}
		}
	}
	buf := make([]byte, len(b))
	for i := range b {
		buf[i] = byte(b[i].n)
	}
	return Val{o: string(buf)}
}

func strBytes(v Val) []Val {
	switch s := v.o.(type) {
	case string:
		out := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			out[i].n = int64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	case nil:
		return nil
	}
	panic(unsupported(fmt.Sprintf("string expected, got %T", v.o)))
}

func strLen(v Val) int {
	switch s := v.o.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	return 0
}

func strAt(v Val, i int) Val {
	switch s := v.o.(type) {
	case string:
		return Val{n: int64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSlice(v Val, lo, hi int) Val {
	switch s := v.o.(type) {
	case string:
		return Val{o: s[lo:hi]}
	case *SymStr:
		return canonStr(s.b[lo:hi:hi])
	}
	return Val{o: ""}
}

func strConcat(a, b Val) Val {
	x, ok1 := a.o.(string)
	y, ok2 := b.o.(string)
	if ok1 && ok2 {
		return Val{o: x + y}
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	p, q := strBytes(a), strBytes(b)
	out := make([]Val, 0, len(p)+len(q))
	out = append(append(out, p...), q...)
	return canonStr(out)
}

func (w *Worker) strEq(a, b Val) Val {
	x, ok1 := a.o.(string)
	y, ok2 := b.o.(string)
	if ok1 && ok2 {
		return mkBool(x == y)
	}
	if strLen(a) != strLen(b) {
		return mkBool(false)
	}
	t := w.p.T
	n := strLen(a)
	for i := 0; i < n; i++ {
		c, d := strAt(a, i), strAt(b, i)
		if c.o == nil && d.o == nil {
			if c.n != d.n {
				return mkBool(false)
			}
			continue
		}
		e := w.simp(w.p.Eq(w.term(c), w.term(d)))
		if e == w.p.F {
			return mkBool(false)
		}
		t = w.p.And(t, e)
	}
	return mkTerm(t)
}

// strLess decides a<b, forking per byte where needed.
func (w *Worker) strLess(a, b Val) bool {
	x, ok1 := a.o.(string)
	y, ok2 := b.o.(string)
	if ok1 && ok2 {
		return x < y
	}
	n, m := strLen(a), strLen(b)
	for i := 0; i < n && i < m; i++ {
		c, d := strAt(a, i), strAt(b, i)
		if c.o == nil && d.o == nil {
			if c.n != d.n {
				return c.n < d.n
			}
			continue
		}
		if w.decide(w.p.Lt(w.term(c), w.term(d))) {
			return true
		}
		if !w.decide(w.p.Eq(w.term(c), w.term(d))) {
			return false
		}
	}
	return n < m
}

func copyVal(v Val) Val {
	if a, ok := v.o.(*Agg); ok {
		f := make([]Val, len(a.f))
		for i := range a.f {
			if a.f[i].o != nil {
				f[i] = copyVal(a.f[i])
			} else {
				f[i] = a.f[i]
			}
		}
		return Val{n: v.n, o: &Agg{f}}
	}
	return v
}

func showVal(v Val) string {
	switch o := v.o.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case string:
		return fmt.Sprintf("%q", o)
	case *Term:
		return o.String()
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("\"")
		for _, b := range o.b {
			if b.o == nil {
				fmt.Fprintf(&sb, "%c", byte(b.n))
			} else {
				fmt.Fprintf(&sb, "{%s}", b.o.(*Term))
			}
		}
		sb.WriteString("\"")
		return sb.String()
	case *Iface:
		return fmt.Sprintf("%s(%s)", o.t, showVal(o.v))
	case *Agg:
		var parts []string
		for _, f := range o.f {
			parts = append(parts, showVal(f))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case *SliceV:
		var parts []string
		for _, f := range o.a {
			parts = append(parts, showVal(f))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case *Val:
		return "&..."
	}
	return fmt.Sprintf("%T", v.o)
}

// ---- maps

type MapV struct {
	si    map[string]int32
	ii    map[int64]int32
	keys  []Val
	vals  []Val
	dead  []bool
	n     int
	sym   []int32 // entries with symbolic keys
	epoch uint64
}

func newMap() *MapV { return &MapV{} }

// encodeKey renders a concrete key; ok=false if it is symbolic.
func encodeKey(v Val) (s string, i int64, isInt, ok bool) {
	switch o := v.o.(type) {
	case nil:
		return "", v.n, true, true
	case string:
		return o, 0, false, true
	case *Term, *SymStr, *FTerm:
		return "", 0, false, false
	case *Agg:
		var sb strings.Builder
		for _, f := range o.f {
			s, i, isInt, ok := encodeKey(f)
			if !ok {
				return "", 0, false, false
			}
			if isInt {
				fmt.Fprintf(&sb, "i%d,", i)
			} else {
				fmt.Fprintf(&sb, "s%d:%s,", len(s), s)
			}
		}
		return sb.String(), 0, false, true
	case *Iface:
		s, i, isInt, ok := encodeKey(o.v)
		if !ok {
			return "", 0, false, false
		}
		if isInt {
			return fmt.Sprintf("I%p:i%d", o.t, i), 0, false, true
		}
		return fmt.Sprintf("I%p:s%s", o.t, s), 0, false, true
	case *Val:
		return fmt.Sprintf("P%p", o), 0, false, true
	case *Closure:
		return fmt.Sprintf("F%p", o), 0, false, true
	}
	return fmt.Sprintf("O%p", v.o), 0, false, true
}

func (w *Worker) valEq(a, b Val) Val {
	switch x := a.o.(type) {
	case string, *SymStr:
		return w.strEq(a, b)
	case *Agg:
		y, ok := b.o.(*Agg)
		if !ok {
			return mkBool(false)
		}
		t := w.p.T
		for i := range x.f {
			e := w.valEq(x.f[i], y.f[i])
			if e.o == nil {
				if e.n == 0 {
					return e
				}
				continue
			}
			t = w.p.And(t, e.o.(*Term))
		}
		return mkTerm(t)
	case *Iface:
		y, ok := b.o.(*Iface)
		if !ok || x.t != y.t {
			return mkBool(false)
		}
		return w.valEq(x.v, y.v)
	case *Term:
		if x.isBool() {
			return mkTerm(w.p.Eq(x, w.bterm(b)))
		}
		return mkTerm(w.p.Eq(x, w.term(b)))
	case *FTerm:
		return w.fcmp("==", a, b)
	case *TimeV:
		y, ok := b.o.(*TimeV)
		if !ok {
			return mkBool(false)
		}
		return mkBool(w.timeIdentical(x, y))
	case nil:
		switch y := b.o.(type) {
		case nil:
			return mkBool(a.n == b.n)
		case *Term:
			if y.isBool() {
				return mkTerm(w.p.Eq(y, w.p.Bool(a.n != 0)))
			}
			return mkTerm(w.p.Eq(w.p.Const(a.n), y))
		case *FTerm:
			return w.fcmp("==", a, b)
		}
		return mkBool(false)
	}
	if a.o == b.o {
		return mkBool(true)
	}
	if p, ok := a.o.(*SliceV); ok {
		_ = p
		return mkBool(false)
	}
	return mkBool(false)
}

func (w *Worker) mapFind(m *MapV, k Val) int {
	s, i, isInt, ok := encodeKey(k)
	if ok {
		if isInt {
			if x, has := m.ii[i]; has {
				return int(x)
			}
		} else if x, has := m.si[s]; has {
			return int(x)
		}
		for _, x := range m.sym {
			if m.dead[x] {
				continue
			}
			if w.truth(w.valEq(m.keys[x], k)) {
				return int(x)
			}
		}
		return -1
	}
	for x := range m.keys {
		if m.dead[x] {
			continue
		}
		e := w.valEq(k, m.keys[x])
		if e.o == nil {
			if e.n != 0 {
				return x
			}
			continue
		}
		if w.decide(e.o.(*Term)) {
			return x
		}
	}
	return -1
}

func (w *Worker) mapSet(m *MapV, k, v Val) {
	v = copyVal(v)
	w.touchMap(m, true)
	x := w.mapFind(m, k)
	if x >= 0 {
		old := m.vals[x]
		if w.journaling(m.epoch) {
			w.jfun(func() { m.vals[x] = old })
		}
		m.vals[x] = v
		return
	}
	x = len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.n++
	s, i, isInt, ok := encodeKey(k)
	if !ok {
		m.sym = append(m.sym, int32(x))
	} else if isInt {
		if m.ii == nil {
			m.ii = map[int64]int32{}
		}
		m.ii[i] = int32(x)
	} else {
		if m.si == nil {
			m.si = map[string]int32{}
		}
		m.si[s] = int32(x)
	}
	if w.journaling(m.epoch) {
		w.jfun(func() {
			m.keys, m.vals, m.dead = m.keys[:x], m.vals[:x], m.dead[:x]
			m.n--
			if !ok {
				m.sym = m.sym[:len(m.sym)-1]
			} else if isInt {
				delete(m.ii, i)
			} else {
				delete(m.si, s)
			}
		})
	}
}

func (w *Worker) mapDelete(m *MapV, k Val) {
	w.touchMap(m, true)
	x := w.mapFind(m, k)
	if x < 0 {
		return
	}
	s, i, isInt, ok := encodeKey(m.keys[x])
	m.dead[x] = true
	m.n--
	if ok {
		if isInt {
			delete(m.ii, i)
		} else {
			delete(m.si, s)
		}
	}
	if w.journaling(m.epoch) {
		w.jfun(func() {
			m.dead[x] = false
			m.n++
			if ok {
				if isInt {
					m.ii[i] = int32(x)
				} else {
					m.si[s] = int32(x)
				}
			}
		})
	}
}

type mapIter struct {
	m     *MapV
	order []int
	pos   int
	base  int
	desc  bool
	str   Val
	isStr bool
}

package main

// Floats, runes and number formatting.

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"strconv"
	"unicode/utf8"
)

// ---- floats: FTerm is t/2^k, exact as long as |t| < 2^53

func (w *Worker) mkFTerm(t *Term, k uint) Val {
	for k > 0 {
		if t.op == OConst {
			return mkF(float64(t.c) / float64(int64(1)<<k))
		}
		if trailing(t) > 0 {
			t = w.p.FDiv(t, 2)
			k--
			continue
		}
		break
	}
	if t.op == OConst {
		return mkF(float64(t.c) / float64(int64(1)<<k))
	}
	lo, hi := w.vBounds(mkTerm(t))
	if lo < -1<<53 || hi > 1<<53 || t.bits > 63 {
		// beyond exact range: only sound if the value is in fact small
		if t.bits <= 63 && w.decide(w.p.And(w.p.Le(w.p.Const(-1<<53), t), w.p.Le(t, w.p.Const(1<<53)))) {
			return Val{o: &FTerm{t, k}}
		}
		return mkF(float64(w.concrete(mkTerm(t))) / float64(int64(1)<<k))
	}
	return Val{o: &FTerm{t, k}}
}

// fparts writes v as t/2^k.
func (w *Worker) fparts(v Val) (*Term, uint, bool) {
	if f, ok := v.o.(*FTerm); ok {
		return f.t, f.k, true
	}
	x := v.f()
	if math.IsInf(x, 0) || math.IsNaN(x) {
		return nil, 0, false
	}
	for k := uint(0); k <= 20; k++ {
		y := x * float64(int64(1)<<k)
		if y == math.Trunc(y) && math.Abs(y) < 1<<53 {
			return w.p.Const(int64(y)), k, true
		}
	}
	return nil, 0, false
}

func (w *Worker) falign(a, b Val) (x, y *Term, k uint, ok bool) {
	t, k1, ok1 := w.fparts(a)
	u, k2, ok2 := w.fparts(b)
	if !ok1 || !ok2 {
		return nil, nil, 0, false
	}
	for k1 < k2 {
		t = w.p.MulC(t, 2)
		k1++
	}
	for k2 < k1 {
		u = w.p.MulC(u, 2)
		k2++
	}
	return t, u, k1, true
}

func (w *Worker) fconcrete(v Val) float64 {
	if f, ok := v.o.(*FTerm); ok {
		return float64(w.concrete(mkTerm(f.t))) / float64(int64(1)<<f.k)
	}
	return v.f()
}

func (w *Worker) fcmp(op string, a, b Val) Val {
	if a.o == nil && b.o == nil {
		x, y := a.f(), b.f()
		switch op {
		case "==":
			return mkBool(x == y)
		case "<":
			return mkBool(x < y)
		case "<=":
			return mkBool(x <= y)
		case ">":
			return mkBool(x > y)
		default:
			return mkBool(x >= y)
		}
	}
	x, y, _, ok := w.falign(a, b)
	if !ok {
		return w.fcmp(op, mkF(w.fconcrete(a)), mkF(w.fconcrete(b)))
	}
	var t *Term
	switch op {
	case "==":
		t = w.p.Eq(x, y)
	case "<":
		t = w.p.Lt(x, y)
	case "<=":
		t = w.p.Le(x, y)
	case ">":
		t = w.p.Lt(y, x)
	default:
		t = w.p.Le(y, x)
	}
	return mkTerm(w.simp(t))
}

func (w *Worker) farith(op token.Token, a, b Val) Val {
	t, k1, ok1 := w.fparts(a)
	u, k2, ok2 := w.fparts(b)
	if ok1 && ok2 {
		switch op {
		case token.ADD, token.SUB:
			x, y, k, _ := w.falign(a, b)
			if op == token.ADD {
				return w.mkFTerm(w.p.Add(x, y), k)
			}
			return w.mkFTerm(w.p.Sub(x, y), k)
		case token.MUL:
			if t.op == OConst || u.op == OConst {
				r := w.p.Mul(t, u)
				if r.bits <= 63 {
					return w.mkFTerm(r, k1+k2)
				}
			}
		case token.QUO:
			if u.op == OConst && u.c != 0 {
				// division by a power of two is exact
				if m := u.c; m > 0 && m&(m-1) == 0 {
					k := k1
					for ; m > 1; m /= 2 {
						k++
					}
					for i := uint(0); i < k2; i++ {
						t = w.p.MulC(t, 2)
					}
					return w.mkFTerm(t, k)
				}
			}
		}
	}
	x, y := w.fconcrete(a), w.fconcrete(b)
	switch op {
	case token.ADD:
		return mkF(x + y)
	case token.SUB:
		return mkF(x - y)
	case token.MUL:
		return mkF(x * y)
	case token.QUO:
		return mkF(x / y)
	}
	panic(unsupported("float op " + op.String()))
}

func (w *Worker) f2iTerm(f *FTerm, ti intInfo) Val {
	t := f.t
	if f.k == 0 {
		return w.fitInt(t, ti)
	}
	// truncation
	if w.decide(w.p.Le(w.p.zero, t)) {
		return w.fitInt(w.p.FDiv(t, 1<<f.k), ti)
	}
	return w.fitInt(w.p.Neg(w.p.FDiv(w.p.Neg(t), 1<<f.k)), ti)
}

func (w *Worker) ffloor(v Val) Val {
	f, ok := v.o.(*FTerm)
	if !ok {
		return mkF(math.Floor(v.f()))
	}
	return w.mkFTerm(w.p.FDiv(f.t, 1<<f.k), 0)
}

func (w *Worker) fabs(v Val) Val {
	f, ok := v.o.(*FTerm)
	if !ok {
		return mkF(math.Abs(v.f()))
	}
	if w.decide(w.p.Le(w.p.zero, f.t)) {
		return v
	}
	return w.mkFTerm(w.p.Neg(f.t), f.k)
}

// parseFloat handles [0-9]+ with an optional fraction of symbolic digits.
func (w *Worker) parseFloat(s Val) (Val, bool) {
	b := strBytes(s)
	ip := b
	var fp []Val
	for i, c := range b {
		if c.o == nil && c.n == '.' {
			ip, fp = b[:i], b[i+1:]
			break
		}
	}
	if len(ip) == 0 || len(ip) > 15 {
		return Val{}, false
	}
	t := w.p.zero
	for _, c := range ip {
		if !w.decide(w.p.In(w.term(c), []int64{'0', '9'})) {
			return Val{}, false
		}
		t = w.p.Add(w.p.MulC(t, 10), w.p.AddC(w.term(c), -'0'))
	}
	if len(fp) == 0 {
		return w.mkFTerm(t, 0), true // "5" and "5."
	}
	// fractions are binary only by accident: fix their digits
	fs := []byte("0.")
	for _, c := range fp {
		fs = append(fs, byte(w.concrete(c)))
	}
	fr, err := strconv.ParseFloat(string(fs), 64)
	if err != nil {
		return Val{}, false
	}
	if _, k, ok := w.fparts(mkF(fr)); ok && k <= 20 {
		return w.farith(token.ADD, w.mkFTerm(t, 0), mkF(fr)), true
	}
	iv := w.concrete(mkTerm(t))
	full, err := strconv.ParseFloat(fmt.Sprintf("%d.%s", iv, fs[2:]), 64)
	if err != nil {
		return Val{}, false
	}
	return mkF(full), true
}

// ---- runes

func (w *Worker) decodeRune(s Val, i int) (Val, int) {
	if str, ok := s.o.(string); ok {
		r, n := utf8.DecodeRuneInString(str[i:])
		return mkInt(int64(r)), n
	}
	b := s.o.(*SymStr).b[i:]
	return w.decodeBytes(b)
}

func (w *Worker) decodeBytes(b []Val) (Val, int) {
	n := min(len(b), 4)
	buf := make([]byte, 0, 4)
	conc := true
	for k := 0; k < n; k++ {
		if b[k].o != nil {
			// concrete prefixes may already settle the length
			conc = false
			break
		}
		buf = append(buf, byte(b[k].n))
		if k == 0 && buf[0] < 0x80 {
			return b[0], 1
		}
		if r, size := utf8.DecodeRune(buf); r != utf8.RuneError && size == len(buf) {
			return mkInt(int64(r)), size
		}
	}
	if conc {
		r, size := utf8.DecodeRune(buf)
		return mkInt(int64(r)), size
	}
	bad := mkInt(utf8.RuneError)
	in := func(v Val, lo, hi int64) bool {
		if v.o == nil {
			return v.n >= lo && v.n <= hi
		}
		return w.decide(w.p.In(w.term(v), []int64{lo, hi}))
	}
	b0 := b[0]
	if in(b0, 0, 0x7f) {
		return b0, 1
	}
	cont := func(v Val) Val { return w.vAddC(v, -0x80) }
	if in(b0, 0xC2, 0xDF) {
		if len(b) < 2 || !in(b[1], 0x80, 0xBF) {
			return bad, 1
		}
		return w.vAdd(w.vMulC(w.vAddC(b0, -0xC0), 64), cont(b[1])), 2
	}
	if in(b0, 0xE0, 0xEF) {
		lo, hi := int64(0x80), int64(0xBF)
		if in(b0, 0xE0, 0xE0) {
			lo = 0xA0
		} else if in(b0, 0xED, 0xED) {
			hi = 0x9F
		}
		if len(b) < 2 || !in(b[1], lo, hi) || len(b) < 3 || !in(b[2], 0x80, 0xBF) {
			return bad, 1
		}
		r := w.vMulC(w.vAddC(b0, -0xE0), 4096)
		r = w.vAdd(r, w.vMulC(cont(b[1]), 64))
		return w.vAdd(r, cont(b[2])), 3
	}
	if in(b0, 0xF0, 0xF4) {
		lo, hi := int64(0x80), int64(0xBF)
		if in(b0, 0xF0, 0xF0) {
			lo = 0x90
		} else if in(b0, 0xF4, 0xF4) {
			hi = 0x8F
		}
		if len(b) < 2 || !in(b[1], lo, hi) || len(b) < 3 || !in(b[2], 0x80, 0xBF) || len(b) < 4 || !in(b[3], 0x80, 0xBF) {
			return bad, 1
		}
		r := w.vMulC(w.vAddC(b0, -0xF0), 262144)
		r = w.vAdd(r, w.vMulC(cont(b[1]), 4096))
		r = w.vAdd(r, w.vMulC(cont(b[2]), 64))
		return w.vAdd(r, cont(b[3])), 4
	}
	return bad, 1
}

func (w *Worker) encodeRune(dst []Val, r Val) []Val {
	if r.o == nil {
		var buf [4]byte
		n := utf8.EncodeRune(buf[:], rune(r.n))
		for i := 0; i < n; i++ {
			dst = append(dst, mkInt(int64(buf[i])))
		}
		return dst
	}
	t := w.term(r)
	rng := func(lo, hi int64) bool { return w.decide(w.p.In(t, []int64{lo, hi})) }
	if rng(0, 0x7f) {
		return append(dst, r)
	}
	low := func(k int64) Val { return w.vAddC(w.vMod(w.vDiv(r, k), 64), 0x80) }
	if rng(0x80, 0x7ff) {
		return append(dst, w.vAddC(w.vDiv(r, 64), 0xC0), low(1))
	}
	if rng(0x800, 0xd7ff) || rng(0xe000, 0xffff) {
		return append(dst, w.vAddC(w.vDiv(r, 4096), 0xE0), low(64), low(1))
	}
	if rng(0x10000, 0x10ffff) {
		return append(dst, w.vAddC(w.vDiv(r, 262144), 0xF0), low(4096), low(64), low(1))
	}
	return append(dst, mkInt(0xEF), mkInt(0xBF), mkInt(0xBD))
}

// mapRune applies a host function to a rune value.
func (w *Worker) mapRune(r Val, f func(rune) rune) Val {
	if r.o == nil {
		return mkInt(int64(f(rune(r.n))))
	}
	t := w.term(r)
	lo, hi := w.vBounds(r)
	if hi-lo > 4096 {
		return mkInt(int64(f(rune(w.concrete(r)))))
	}
	tbl := make([]int64, hi-lo+1)
	delta, same := int64(0), true
	for i := range tbl {
		tbl[i] = int64(f(rune(lo + int64(i))))
		if i == 0 {
			delta = tbl[0] - lo
		} else if tbl[i]-(lo+int64(i)) != delta {
			same = false
		}
	}
	if same {
		return w.vAddC(r, delta)
	}
	return mkTerm(w.p.Tbl(w.p.AddC(t, -lo), tbl))
}

// predRune applies a host predicate to a rune value.
func (w *Worker) predRune(r Val, f func(rune) bool) Val {
	if r.o == nil {
		return mkBool(f(rune(r.n)))
	}
	lo, hi := w.vBounds(r)
	if hi-lo > 70000 {
		hi = min(hi, 0x10ffff)
		lo = max(lo, 0)
	}
	var rs []int64
	for x := lo; x <= hi; x++ {
		if f(rune(x)) {
			if n := len(rs); n > 0 && rs[n-1]+1 == x {
				rs[n-1] = x
			} else {
				rs = append(rs, x, x)
			}
		}
	}
	return mkTerm(w.simp(w.p.In(w.term(r), rs)))
}

// ---- decimal text of integers

func (w *Worker) itoa(v Val) Val {
	if v.o == nil {
		return mkStr(strconv.FormatInt(v.n, 10))
	}
	t := w.term(v)
	neg := false
	if w.decide(w.p.Lt(t, w.p.zero)) {
		neg = true
		t = w.p.Neg(t)
	}
	n := 1
	for pw := int64(10); n < 19; n++ {
		if w.decide(w.p.Lt(t, w.p.Const(pw))) {
			break
		}
		if n == 18 {
			n++
			break
		}
		pw *= 10
	}
	out := make([]Val, n)
	pw := int64(1)
	for i := n - 1; i >= 0; i-- {
		out[i] = w.vAddC(w.vMod(w.vDiv(mkTerm(t), pw), 10), '0')
		pw *= 10
	}
	s := canonStr(out)
	if neg {
		s = strConcat(mkStr("-"), s)
	}
	return s
}

func padLeft(s Val, n int, c byte) Val {
	for strLen(s) < n {
		if c == '0' && strLen(s) > 0 {
			if f := strAt(s, 0); f.o == nil && f.n == '-' {
				rest := padLeft(strSlice(s, 1, strLen(s)), n-1, c)
				return strConcat(mkStr("-"), rest)
			}
		}
		s = strConcat(mkStr(string(c)), s)
	}
	return s
}

var _ = big.NewInt

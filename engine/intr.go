package main

// Intrinsics: functions that are modelled instead of interpreted.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

type intrinsic func(w *Worker, fc *fnCode, args []Val) (Val, bool)

var intrinsics = map[string]intrinsic{}

func def(names string, f func(w *Worker, args []Val) Val) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = func(w *Worker, fc *fnCode, args []Val) (Val, bool) { return f(w, args), true }
	}
}

// try is for functions that may decline (the body is then interpreted).
func try(names string, f func(w *Worker, args []Val) (Val, bool)) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = func(w *Worker, fc *fnCode, args []Val) (Val, bool) { return f(w, args) }
	}
}

func tup(vs ...Val) Val { return Val{o: &Tuple{vs}} }

func hostErr(err error) Val {
	if err == nil {
		return Val{}
	}
	return Val{o: &HostObj{kind: "error", v: mkStr(err.Error())}}
}

func prefixIntrinsic(name string) intrinsic {
	if strings.HasPrefix(name, "(*regexp.Regexp).") {
		m := strings.TrimPrefix(name, "(*regexp.Regexp).")
		return func(w *Worker, fc *fnCode, args []Val) (Val, bool) {
			v, ok := w.rxMethod(m, args)
			if !ok {
				panic(unsupported("regexp method " + m))
			}
			return v, true
		}
	}
	if strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(*time.Time).") {
		m := name[strings.LastIndex(name, ".")+1:]
		ptr := strings.HasPrefix(name, "(*")
		return func(w *Worker, fc *fnCode, args []Val) (Val, bool) {
			return w.timeMethod(m, ptr, args), true
		}
	}
	return nil
}

// concrete-only host functions: (strings, ints, runes, bools) -> likewise.
func host(name string, f func(a []Val) Val) {
	intrinsics[name] = func(w *Worker, fc *fnCode, args []Val) (Val, bool) {
		if anySym(args) {
			return Val{}, false
		}
		return f(args), true
	}
}

func S(v Val) string {
	if v.o == nil {
		return ""
	}
	return v.o.(string)
}

func strSliceVal(ss []string) Val {
	if ss == nil {
		return Val{}
	}
	out := make([]Val, len(ss))
	for i := range ss {
		out[i] = mkStr(ss[i])
	}
	return Val{o: &SliceV{out}}
}

func goStrings(v Val) []string {
	a := sliceOf(v)
	out := make([]string, len(a))
	for i := range a {
		out[i] = a[i].o.(string)
	}
	return out
}

func init() {
	// ---- strings, strconv, utf8: host when concrete
	host("strings.ToLower", func(a []Val) Val { return mkStr(strings.ToLower(S(a[0]))) })
	host("strings.ToUpper", func(a []Val) Val { return mkStr(strings.ToUpper(S(a[0]))) })
	host("strings.TrimSpace", func(a []Val) Val { return mkStr(strings.TrimSpace(S(a[0]))) })
	host("strings.Trim", func(a []Val) Val { return mkStr(strings.Trim(S(a[0]), S(a[1]))) })
	host("strings.TrimLeft", func(a []Val) Val { return mkStr(strings.TrimLeft(S(a[0]), S(a[1]))) })
	host("strings.TrimRight", func(a []Val) Val { return mkStr(strings.TrimRight(S(a[0]), S(a[1]))) })
	host("strings.TrimPrefix", func(a []Val) Val { return mkStr(strings.TrimPrefix(S(a[0]), S(a[1]))) })
	host("strings.TrimSuffix", func(a []Val) Val { return mkStr(strings.TrimSuffix(S(a[0]), S(a[1]))) })
	host("strings.Split", func(a []Val) Val { return strSliceVal(strings.Split(S(a[0]), S(a[1]))) })
	host("strings.SplitN", func(a []Val) Val { return strSliceVal(strings.SplitN(S(a[0]), S(a[1]), int(a[2].n))) })
	host("strings.Fields", func(a []Val) Val { return strSliceVal(strings.Fields(S(a[0]))) })
	host("strings.Join", func(a []Val) Val { return mkStr(strings.Join(goStrings(a[0]), S(a[1]))) })
	host("strings.Contains", func(a []Val) Val { return mkBool(strings.Contains(S(a[0]), S(a[1]))) })
	host("strings.ContainsRune", func(a []Val) Val { return mkBool(strings.ContainsRune(S(a[0]), rune(a[1].n))) })
	host("strings.HasPrefix", func(a []Val) Val { return mkBool(strings.HasPrefix(S(a[0]), S(a[1]))) })
	host("strings.HasSuffix", func(a []Val) Val { return mkBool(strings.HasSuffix(S(a[0]), S(a[1]))) })
	host("strings.Index", func(a []Val) Val { return mkInt(int64(strings.Index(S(a[0]), S(a[1])))) })
	host("strings.LastIndex", func(a []Val) Val { return mkInt(int64(strings.LastIndex(S(a[0]), S(a[1])))) })
	host("strings.Count", func(a []Val) Val { return mkInt(int64(strings.Count(S(a[0]), S(a[1])))) })
	host("strings.Replace", func(a []Val) Val { return mkStr(strings.Replace(S(a[0]), S(a[1]), S(a[2]), int(a[3].n))) })
	host("strings.ReplaceAll", func(a []Val) Val { return mkStr(strings.ReplaceAll(S(a[0]), S(a[1]), S(a[2]))) })
	host("strings.EqualFold", func(a []Val) Val { return mkBool(strings.EqualFold(S(a[0]), S(a[1]))) })
	host("strings.Repeat", func(a []Val) Val { return mkStr(strings.Repeat(S(a[0]), int(a[1].n))) })
	host("unicode/utf8.RuneCountInString", func(a []Val) Val { return mkInt(int64(utf8.RuneCountInString(S(a[0])))) })
	host("unicode/utf8.ValidString", func(a []Val) Val { return mkBool(utf8.ValidString(S(a[0]))) })
	host("unicode/utf8.ValidRune", func(a []Val) Val { return mkBool(utf8.ValidRune(rune(a[0].n))) })
	host("unicode/utf8.RuneLen", func(a []Val) Val { return mkInt(int64(utf8.RuneLen(rune(a[0].n)))) })
	def("unicode/utf8.DecodeRuneInString", func(w *Worker, a []Val) Val {
		if strLen(a[0]) == 0 {
			return tup(mkInt(utf8.RuneError), mkInt(0))
		}
		r, n := w.decodeRune(a[0], 0)
		return tup(r, mkInt(int64(n)))
	})
	def("unicode/utf8.DecodeRune", func(w *Worker, a []Val) Val {
		b := sliceOf(a[0])
		if len(b) == 0 {
			return tup(mkInt(utf8.RuneError), mkInt(0))
		}
		r, n := w.decodeBytes(b)
		return tup(r, mkInt(int64(n)))
	})
	def("unicode/utf8.AppendRune", func(w *Worker, a []Val) Val {
		enc := w.encodeRune(nil, a[1])
		return w.builtin("append", []Val{a[0], valSlice(enc)}, nil)
	})
	def("unicode/utf8.EncodeRune", func(w *Worker, a []Val) Val {
		enc := w.encodeRune(nil, a[1])
		dst := sliceOf(a[0])
		if len(dst) < len(enc) {
			rtPanic(w, "index out of range")
		}
		for i := range enc {
			w.store(&dst[i], enc[i])
		}
		return mkInt(int64(len(enc)))
	})

	// strings.ToLower/ToUpper on symbolic text, rune by rune
	caseMap := func(name string, f func(rune) rune, h func(string) string) {
		def(name, func(w *Worker, a []Val) Val {
			if s, ok := a[0].o.(string); ok {
				return mkStr(h(s))
			}
			var out []Val
			for i := 0; i < strLen(a[0]); {
				r, n := w.decodeRune(a[0], i)
				i += n
				out = w.encodeRune(out, w.mapRune(r, f))
			}
			return canonStr(out)
		})
	}
	caseMap("strings.ToLower", unicode.ToLower, strings.ToLower)
	caseMap("strings.ToUpper", unicode.ToUpper, strings.ToUpper)
	def("unicode.ToLower", func(w *Worker, a []Val) Val { return w.mapRune(a[0], unicode.ToLower) })
	def("unicode.ToUpper", func(w *Worker, a []Val) Val { return w.mapRune(a[0], unicode.ToUpper) })
	def("unicode.ToTitle", func(w *Worker, a []Val) Val { return w.mapRune(a[0], unicode.ToTitle) })
	for n, f := range map[string]func(rune) bool{"IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsSpace": unicode.IsSpace,
		"IsNumber": unicode.IsNumber, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct,
		"IsMark": unicode.IsMark, "IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic, "IsPrint": unicode.IsPrint, "IsSymbol": unicode.IsSymbol} {
		def("unicode."+n, func(w *Worker, a []Val) Val { return w.predRune(a[0], f) })
	}
	try("unicode.Is", func(w *Worker, a []Val) (Val, bool) {
		if a[1].o == nil {
			return Val{}, false
		}
		rt := w.rangeTable(a[0])
		return w.predRune(a[1], func(r rune) bool { return unicode.Is(rt, r) }), true
	})

	// ---- bytealg
	def("internal/bytealg.IndexByteString", func(w *Worker, a []Val) Val { return w.indexByte(strBytes(a[0]), a[1]) })
	def("internal/bytealg.IndexByte", func(w *Worker, a []Val) Val { return w.indexByte(sliceOf(a[0]), a[1]) })
	def("internal/bytealg.LastIndexByteString", func(w *Worker, a []Val) Val {
		b := strBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.truth(mkTerm(w.vEq(b[i], a[1]))) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	})
	def("internal/bytealg.CountString internal/bytealg.Count", func(w *Worker, a []Val) Val {
		var b []Val
		switch a[0].o.(type) {
		case string, *SymStr:
			b = strBytes(a[0])
		default:
			b = sliceOf(a[0])
		}
		n := int64(0)
		for i := range b {
			if w.truth(mkTerm(w.vEq(b[i], a[1]))) {
				n++
			}
		}
		return mkInt(n)
	})
	def("strings.Index internal/bytealg.IndexString internal/stringslite.Index", func(w *Worker, a []Val) Val { return w.indexStrIn(a[0], a[1]) })
	def("internal/bytealg.Equal bytes.Equal", func(w *Worker, a []Val) Val {
		return w.strEq(canonStr(sliceOf(a[0])), canonStr(sliceOf(a[1])))
	})
	def("internal/bytealg.Compare internal/bytealg.CompareString strings.Compare internal/runtime/strings.Compare cmp.compareString", func(w *Worker, a []Val) Val {
		x, y := a[0], a[1]
		if _, ok := x.o.(*SliceV); ok {
			x, y = canonStr(sliceOf(x)), canonStr(sliceOf(y))
		}
		if w.strLess(x, y) {
			return mkInt(-1)
		}
		if w.truth(w.strEq(x, y)) {
			return mkInt(0)
		}
		return mkInt(1)
	})
	def("internal/bytealg.MakeNoZero", func(w *Worker, a []Val) Val {
		n := w.concrete(a[0])
		return Val{o: &SliceV{make([]Val, n)}}
	})
	def("internal/abi.NoEscape internal/abi.Escape", func(w *Worker, a []Val) Val { return a[0] })
	def("strings.Clone internal/stringslite.Clone", func(w *Worker, a []Val) Val { return a[0] })

	// ---- math
	def("math.Floor", func(w *Worker, a []Val) Val { return w.ffloor(a[0]) })
	def("math.Abs", func(w *Worker, a []Val) Val { return w.fabs(a[0]) })
	def("math.Ceil", func(w *Worker, a []Val) Val {
		if f, ok := a[0].o.(*FTerm); ok {
			return w.mkFTerm(w.p.Neg(w.p.FDiv(w.p.Neg(f.t), 1<<f.k)), 0)
		}
		return mkF(math.Ceil(a[0].f()))
	})
	def("math.Trunc", func(w *Worker, a []Val) Val {
		if f, ok := a[0].o.(*FTerm); ok {
			if f.k == 0 {
				return a[0]
			}
			if w.decide(w.p.Le(w.p.zero, f.t)) {
				return w.ffloor(a[0])
			}
			return w.mkFTerm(w.p.Neg(w.p.FDiv(w.p.Neg(f.t), 1<<f.k)), 0)
		}
		return mkF(math.Trunc(a[0].f()))
	})
	def("math.Round", func(w *Worker, a []Val) Val {
		if f, ok := a[0].o.(*FTerm); ok {
			if f.k == 0 {
				return a[0]
			}
			// half away from zero
			half := int64(1) << (f.k - 1)
			if w.decide(w.p.Le(w.p.zero, f.t)) {
				return w.mkFTerm(w.p.FDiv(w.p.AddC(f.t, half), 1<<f.k), 0)
			}
			return w.mkFTerm(w.p.Neg(w.p.FDiv(w.p.AddC(w.p.Neg(f.t), half), 1<<f.k)), 0)
		}
		return mkF(math.Round(a[0].f()))
	})
	host("math.Pow", func(a []Val) Val { return mkF(math.Pow(a[0].f(), a[1].f())) })
	host("math.Mod", func(a []Val) Val { return mkF(math.Mod(a[0].f(), a[1].f())) })
	host("math.Sqrt", func(a []Val) Val { return mkF(math.Sqrt(a[0].f())) })
	def("math.Modf", func(w *Worker, a []Val) Val {
		x := w.fconcrete(a[0])
		i, f := math.Modf(x)
		return tup(mkF(i), mkF(f))
	})
	def("math.IsNaN", func(w *Worker, a []Val) Val {
		if a[0].o != nil {
			return mkBool(false)
		}
		return mkBool(math.IsNaN(a[0].f()))
	})
	def("math.IsInf", func(w *Worker, a []Val) Val {
		if a[0].o != nil {
			return mkBool(false)
		}
		return mkBool(math.IsInf(a[0].f(), int(a[1].n)))
	})
	host("math.Float64bits", func(a []Val) Val { return mkInt(a[0].n) })
	host("math.Float64frombits", func(a []Val) Val { return mkInt(a[0].n) })

	// ---- strconv
	try("strconv.ParseFloat", func(w *Worker, a []Val) (Val, bool) {
		if s, ok := a[0].o.(string); ok {
			f, err := strconv.ParseFloat(s, int(a[1].n))
			return tup(mkF(f), hostErr(err)), true
		}
		f, ok := w.parseFloat(a[0])
		if !ok {
			// split on the few bytes that are open
			b := strBytes(a[0])
			n := 0
			for _, c := range b {
				if c.o != nil {
					n++
				}
			}
			if n > 3 {
				panic(unsupported("ParseFloat of symbolic text " + showVal(a[0])))
			}
			var raw []byte
			for _, c := range b {
				raw = append(raw, byte(w.concrete(c)))
			}
			f, err := strconv.ParseFloat(string(raw), int(a[1].n))
			return tup(mkF(f), hostErr(err)), true
		}
		return tup(f, Val{}), true
	})
	def("strconv.Itoa", func(w *Worker, a []Val) Val { return w.itoa(a[0]) })
	try("strconv.FormatInt", func(w *Worker, a []Val) (Val, bool) {
		if w.concrete(a[1]) == 10 {
			return w.itoa(a[0]), true
		}
		return Val{}, false
	})
	host("strconv.Quote", func(a []Val) Val { return mkStr(strconv.Quote(S(a[0]))) })

	// ---- fmt
	def("fmt.Sprintf", func(w *Worker, a []Val) Val { return w.sprintf(a[0], a[1]) })
	def("fmt.Errorf", func(w *Worker, a []Val) Val {
		e := &HostObj{kind: "error", v: w.sprintf(a[0], a[1])}
		if f, ok := a[0].o.(string); ok && strings.Contains(f, "%w") {
			for _, x := range sliceOf(a[1]) {
				if i, ok := x.o.(*Iface); ok {
					if h, ok := i.v.o.(*HostObj); ok && h.kind == "error" {
						x = i.v
					}
				}
				if h, ok := x.o.(*HostObj); ok && h.kind == "error" {
					e.wrap = append(e.wrap, x)
				}
			}
		}
		return Val{o: e}
	})
	def("fmt.Sprint", func(w *Worker, a []Val) Val {
		out := mkStr("")
		for i, x := range sliceOf(a[0]) {
			if i > 0 {
				_, s1 := ifaceStr(x)
				_, s0 := ifaceStr(sliceOf(a[0])[i-1])
				if !s1 && !s0 {
					out = strConcat(out, mkStr(" "))
				}
			}
			out = strConcat(out, w.fmtAny(x, 'v'))
		}
		return out
	})
	def("fmt.Println fmt.Printf fmt.Print fmt.Fprintf fmt.Fprintln fmt.Fprint log.Println log.Printf", func(w *Worker, a []Val) Val {
		return tup(mkInt(0), Val{})
	})
	def("errors.New", func(w *Worker, a []Val) Val { return Val{o: &HostObj{kind: "error", v: a[0]}} })
	var is func(a, b Val) bool
	is = func(a, b Val) bool {
		if a.o == b.o {
			return true
		}
		h, ok := a.o.(*HostObj)
		if !ok {
			return false
		}
		for _, x := range h.wrap {
			if is(x, b) {
				return true
			}
		}
		return false
	}
	def("errors.Is", func(w *Worker, a []Val) Val { return mkBool(is(a[0], a[1])) })

	// ---- sync
	lock := func(w *Worker, a []Val) Val {
		w.lockOp(a[0], true, true)
		return Val{}
	}
	unlock := func(w *Worker, a []Val) Val {
		w.lockOp(a[0], false, true)
		return Val{}
	}
	def("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock (*sync.RWMutex).Lock", lock)
	def("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock (*sync.RWMutex).Unlock", unlock)
	def("(*sync.RWMutex).RLock", func(w *Worker, a []Val) Val { w.lockOp(a[0], true, false); return Val{} })
	def("(*sync.RWMutex).RUnlock", func(w *Worker, a []Val) Val { w.lockOp(a[0], false, false); return Val{} })
	def("(*sync.Mutex).TryLock", func(w *Worker, a []Val) Val {
		p := a[0].o.(*Val)
		if w.mutexes[p] != 0 {
			return mkBool(false)
		}
		w.lockOp(a[0], true, true)
		return mkBool(true)
	})
	def("(*sync.Pool).Get", func(w *Worker, a []Val) Val {
		p := a[0].o.(*Val).o.(*Agg)
		fn := p.f[len(p.f)-1]
		if fn.o == nil {
			return Val{}
		}
		return w.callVal(fn, nil)
	})
	def("(*sync.Pool).Put", func(w *Worker, a []Val) Val { return Val{} })
	def("(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait", func(w *Worker, a []Val) Val { return Val{} })
	// (*sync.Once).Do: synchronises, then behaves like a flag
	def("(*sync.Once).Do", func(w *Worker, a []Val) Val {
		cell := &a[0].o.(*Val).o.(*Agg).f[1] // m or done: any private cell
		w.onceDo(a[0], cell, a[1])
		return Val{}
	})
	// sync/atomic on plain cells
	at := func(name string, f func(w *Worker, p *Val, a []Val) Val) {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			n := strings.Replace(name, "T", t, 1)
			def("sync/atomic."+n+" internal/runtime/atomic."+n, func(w *Worker, a []Val) Val {
				p, ok := a[0].o.(*Val)
				if !ok {
					w.nilDeref(a[0])
				}
				w.atomicOp(p)
				return f(w, p, a)
			})
		}
	}
	quiet := func(w *Worker, f func()) {
		tr := w.trace
		w.trace = nil
		f()
		w.trace = tr
	}
	at("LoadT", func(w *Worker, p *Val, a []Val) Val { return *p })
	at("StoreT", func(w *Worker, p *Val, a []Val) Val { quiet(w, func() { w.store(p, a[1]) }); return Val{} })
	at("SwapT", func(w *Worker, p *Val, a []Val) Val {
		o := *p
		quiet(w, func() { w.store(p, a[1]) })
		return o
	})
	at("AddT", func(w *Worker, p *Val, a []Val) Val {
		n := w.vAdd(*p, a[1])
		quiet(w, func() { w.store(p, n) })
		return n
	})
	at("CompareAndSwapT", func(w *Worker, p *Val, a []Val) Val {
		if w.truth(w.valEq(*p, a[1])) {
			quiet(w, func() { w.store(p, a[2]) })
			return mkBool(true)
		}
		return mkBool(false)
	})

	// ---- sort
	intrinsics["sort.Slice"] = func(w *Worker, fc *fnCode, a []Val) (Val, bool) { w.sortSlice(a, false); return Val{}, true }
	intrinsics["sort.SliceStable"] = func(w *Worker, fc *fnCode, a []Val) (Val, bool) { w.sortSlice(a, true); return Val{}, true }

	// ---- regexp
	mk := func(must bool) func(w *Worker, a []Val) Val {
		return func(w *Worker, a []Val) Val {
			pat, ok := a[0].o.(string)
			if !ok {
				panic(unsupported("regexp from symbolic text"))
			}
			if w.jon || !must {
				if _, err := regexp.Compile(pat); err != nil {
					if must {
						panic(&targetPanic{msg: "regexp: Compile: " + err.Error(), stack: w.stackString()})
					}
					return tup(Val{}, hostErr(err))
				}
			}
			rx := Val{o: &HostObj{kind: "regexp", v: getRx(pat)}}
			if must {
				return rx
			}
			return tup(rx, Val{})
		}
	}
	def("regexp.MustCompile", mk(true))
	def("regexp.Compile", mk(false))
	host("regexp.QuoteMeta", func(a []Val) Val { return mkStr(regexp.QuoteMeta(S(a[0]))) })

	// ---- Julian days of the dependency go-juliandays, at midnight and at noon
	try("github.com/hablullah/go-juliandays.ToTime", func(w *Worker, a []Val) (Val, bool) {
		if a[0].o == nil {
			return Val{}, false
		}
		t, k, ok := w.fparts(w.farith(token.ADD, a[0], mkF(0.5)))
		if !ok || k != 0 {
			return Val{}, false
		}
		days := mkTerm(w.p.AddC(t, -2440588))
		if lo, _ := w.vBounds(days); lo < -141427 { // before 1582-10-15
			return Val{}, false
		}
		return Val{o: w.fromLocal(days, mkInt(0), mkInt(0), mkInt(0), nil, nil)}, true
	})
	try("github.com/hablullah/go-juliandays.FromTime", func(w *Worker, a []Val) (Val, bool) {
		t, ok := a[0].o.(*TimeV)
		if !ok || t.days.o == nil || t.sod.o != nil || t.sod.n != 43200 || t.off.o != nil || t.off.n != 0 {
			return Val{}, false
		}
		if lo, _ := w.vBounds(t.days); lo < -141427 {
			return Val{}, false
		}
		return tup(w.mkFTerm(w.term(w.vAddC(t.days, 2440588)), 0), Val{}), true
	})

	// ---- time
	def("time.Date", func(w *Worker, a []Val) Val {
		if a[7].o == nil {
			panic(&targetPanic{msg: "time: missing Location in call to Date", stack: w.stackString()})
		}
		return Val{o: w.timeDate(a[0], a[1], a[2], a[3], a[4], a[5], a[6], w.normLoc(a[7]))}
	})
	def("time.Unix", func(w *Worker, a []Val) Val {
		sec, ns := a[0], a[1]
		if lo, hi := w.vBounds(ns); lo < 0 || hi >= 1000000000 {
			sec = w.vAdd(sec, w.vDiv(ns, 1000000000))
			ns = w.vMod(ns, 1000000000)
		}
		return Val{o: w.fromUnix(sec, ns, w.localLoc())}
	})
	def("time.UnixMilli", func(w *Worker, a []Val) Val {
		return Val{o: w.fromUnix(w.vDiv(a[0], 1000), w.vMulC(w.vMod(a[0], 1000), 1000000), w.localLoc())}
	})
	def("time.Now", func(w *Worker, a []Val) Val {
		// the clock of the environment: a fixed instant, 2021-11-05 10:20:30 UTC
		return Val{o: w.fromUnix(mkInt(1636107630), mkInt(0), w.localLoc())}
	})
	def("time.FixedZone", func(w *Worker, a []Val) Val {
		nm, ok := a[0].o.(string)
		if !ok {
			nm = "?"
		}
		return Val{o: &Val{o: &LocV{kind: locFixed, name: nm, off: a[1]}}}
	})
	def("time.LoadLocation", func(w *Worker, a []Val) Val {
		nm, ok := a[0].o.(string)
		if !ok {
			panic(unsupported("zone of symbolic name"))
		}
		if nm == "" || nm == "UTC" {
			return tup(w.utcLoc(), Val{})
		}
		l, err := hostZone(nm)
		if err != nil {
			return tup(Val{}, hostErr(err))
		}
		return tup(Val{o: &Val{o: l}}, Val{})
	})
	def("(*time.Location).String", func(w *Worker, a []Val) Val {
		if a[0].o == nil {
			return mkStr("UTC")
		}
		l := w.locOf(a[0].o.(*Val))
		switch l.kind {
		case locUTC:
			return mkStr("UTC")
		case locLocal:
			return mkStr("Local")
		}
		return mkStr(l.name)
	})
	def("(*time.Location).lookup", func(w *Worker, a []Val) Val {
		l := &LocV{}
		if a[0].o != nil {
			l = w.locOf(a[0].o.(*Val))
		}
		off, seg := w.lookup(l, a[1])
		return tup(mkStr(w.abbrev(l, seg)), off, mkInt(0), mkInt(0), mkBool(false))
	})
	def("(*time.Location).lookupName", func(w *Worker, a []Val) Val {
		l := w.locOf(a[0].o.(*Val))
		nm, ok := a[1].o.(string)
		if !ok {
			panic(unsupported("symbolic zone abbreviation"))
		}
		for i := range max(1, len(l.names)) {
			if w.abbrev(l, i) == nm {
				if l.kind == locTrans {
					return tup(l.offs[i], mkBool(true))
				}
				return tup(l.off, mkBool(true))
			}
		}
		return tup(mkInt(0), mkBool(false))
	})
	def("time.Since time.Until", func(w *Worker, a []Val) Val { return mkInt(0) })
	def("time.Sleep", func(w *Worker, a []Val) Val { return Val{} })

	// the harness interface
	symIntrinsics()
}

func ifaceStr(v Val) (string, bool) {
	if i, ok := v.o.(*Iface); ok {
		s, ok := i.v.o.(string)
		return s, ok
	}
	return "", false
}

func (w *Worker) rangeTable(v Val) *unicode.RangeTable {
	a, ok := v.o.(*Val)
	if !ok {
		panic(unsupported("range table"))
	}
	ag := a.o.(*Agg)
	rt := &unicode.RangeTable{LatinOffset: int(ag.f[2].n)}
	for _, r := range sliceOf(ag.f[0]) {
		f := r.o.(*Agg).f
		rt.R16 = append(rt.R16, unicode.Range16{Lo: uint16(f[0].n), Hi: uint16(f[1].n), Stride: uint16(f[2].n)})
	}
	for _, r := range sliceOf(ag.f[1]) {
		f := r.o.(*Agg).f
		rt.R32 = append(rt.R32, unicode.Range32{Lo: uint32(f[0].n), Hi: uint32(f[1].n), Stride: uint32(f[2].n)})
	}
	return rt
}

func (w *Worker) indexByte(b []Val, c Val) Val {
	for i := range b {
		if b[i].o == nil && c.o == nil {
			if b[i].n == c.n {
				return mkInt(int64(i))
			}
			continue
		}
		if w.decide(w.vEq(b[i], c)) {
			return mkInt(int64(i))
		}
	}
	return mkInt(-1)
}

func (w *Worker) indexStrIn(s, sub Val) Val {
	x, ok1 := s.o.(string)
	y, ok2 := sub.o.(string)
	if ok1 && ok2 {
		return mkInt(int64(strings.Index(x, y)))
	}
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if w.truth(w.strEq(strSlice(s, i, i+m), sub)) {
			return mkInt(int64(i))
		}
	}
	return mkInt(-1)
}

func (w *Worker) utcLoc() Val {
	if g := w.eng.timePkg.Var("utcLoc"); g != nil {
		return Val{o: w.globalCell(w.eng.globalIndex(g))}
	}
	return Val{}
}

func (w *Worker) localLoc() *Val {
	g := w.eng.timePkg.Var("localLoc")
	c := w.globalCell(w.eng.globalIndex(g))
	if l := c.o.(*LocV); l.kind != locLocal {
		*c = Val{o: &LocV{kind: locLocal, name: "Local"}}
	}
	return c
}

func (w *Worker) timeMethod(m string, ptr bool, args []Val) Val {
	var t *TimeV
	var cell *Val
	if ptr {
		c, ok := args[0].o.(*Val)
		if !ok {
			w.nilDeref(args[0])
		}
		cell = c
		t = w.load(c).o.(*TimeV)
	} else {
		var ok bool
		t, ok = args[0].o.(*TimeV)
		if !ok {
			panic(unsupported(fmt.Sprintf("time value is %T", args[0].o)))
		}
	}
	T := func(i int) *TimeV { return args[i].o.(*TimeV) }
	tv := func(x *TimeV) Val { return Val{o: x} }
	switch m {
	case "Year":
		y, _, _ := w.civilDate(t)
		return y
	case "Month":
		_, m, _ := w.civilDate(t)
		return m
	case "Day":
		_, _, d := w.civilDate(t)
		return d
	case "Date":
		y, m, d := w.civilDate(t)
		return tup(y, m, d)
	case "Hour":
		return w.vDiv(t.sod, 3600)
	case "Minute":
		return w.vDiv(w.vMod(t.sod, 3600), 60)
	case "Second":
		return w.vMod(t.sod, 60)
	case "Clock":
		return tup(w.vDiv(t.sod, 3600), w.vDiv(w.vMod(t.sod, 3600), 60), w.vMod(t.sod, 60))
	case "Nanosecond":
		return t.ns
	case "Weekday":
		return w.vMod(w.vAddC(t.days, 4), 7)
	case "YearDay":
		y, _, _ := w.civilDate(t)
		return w.vAddC(w.vSub(t.days, w.daysOf(y, mkInt(1), mkInt(1))), 1)
	case "IsZero":
		return mkTerm(w.isZeroTime(t))
	case "Unix":
		return w.unixOf(t)
	case "unixSec":
		return w.unixOf(t)
	case "UnixNano":
		return w.fitInt(w.term(w.vAdd(w.vMulC(w.unixOf(t), 1000000000), t.ns)), intInfo{true, 64, true})
	case "UnixMilli":
		return w.vAdd(w.vMulC(w.unixOf(t), 1000), w.vDiv(t.ns, 1000000))
	case "UTC":
		return tv(w.timeIn(t, nil))
	case "Local":
		return tv(w.timeIn(t, w.localLoc()))
	case "In":
		if args[1].o == nil {
			panic(&targetPanic{msg: "time: missing Location in call to Time.In", stack: w.stackString()})
		}
		return tv(w.timeIn(t, w.normLoc(args[1])))
	case "setLoc":
		w.store(cell, tv(w.timeIn(t, w.normLoc(args[1]))))
		return Val{}
	case "addSec":
		w.store(cell, tv(w.addSecs(t, args[1], t.ns)))
		return Val{}
	case "Location":
		if t.loc == nil {
			return w.utcLoc()
		}
		return Val{o: t.loc}
	case "Zone":
		l := w.locOf(t.loc)
		seg := 0
		if l.kind == locTrans {
			_, seg = w.lookup(l, w.unixOf(t))
		}
		return tup(mkStr(w.abbrev(l, seg)), t.off)
	case "Add":
		return tv(w.timeAdd(t, args[1]))
	case "AddDate":
		return tv(w.addDate(t, args[1], args[2], args[3]))
	case "Sub":
		u := T(1)
		d := w.vAdd(w.vMulC(w.vSub(w.unixOf(t), w.unixOf(u)), 1000000000), w.vSub(t.ns, u.ns))
		if tt, ok := d.o.(*Term); ok && tt.bits > 64 {
			if w.decide(w.wideIn(tt)) {
				return mkTerm(w.narrow(tt))
			}
			if w.decide(w.timeLess(t, u)) {
				return mkInt(math.MinInt64)
			}
			return mkInt(math.MaxInt64)
		}
		if d.o == nil {
			return mkInt(int64(hostTime(t).Sub(hostTime(u))))
		}
		return d
	case "Before":
		return mkTerm(w.timeLess(t, T(1)))
	case "After":
		return mkTerm(w.timeLess(T(1), t))
	case "Equal":
		return mkTerm(w.timeEqual(t, T(1)))
	case "Compare":
		if w.decide(w.timeLess(t, T(1))) {
			return mkInt(-1)
		}
		return mkInt(b2i(w.decide(w.timeLess(T(1), t))))
	case "Truncate", "Round":
		if m == "Round" || w.concrete(args[1]) != int64(time.Second) {
			if !t.sym() && args[1].o == nil {
				ht := hostTime(t)
				if m == "Round" {
					ht = ht.Round(time.Duration(args[1].n))
				} else {
					ht = ht.Truncate(time.Duration(args[1].n))
				}
				return tv(w.fromUnix(mkInt(ht.Unix()), mkInt(int64(ht.Nanosecond())), t.loc))
			}
			panic(unsupported("rounding of a symbolic time"))
		}
		n := *t
		n.ns = mkInt(0)
		return tv(&n)
	case "String", "Format", "GoString":
		if t.sym() {
			if m == "Format" {
				return w.timeFormat(t, args[1])
			}
			return mkStr("<time>")
		}
		layout := "2006-01-02 15:04:05.999999999 -0700 MST"
		if m == "Format" {
			layout = w.fixedStr(args[1])
		}
		ht := hostTime(t)
		if t.loc != nil {
			_, seg := w.lookup(w.locOf(t.loc), w.unixOf(t))
			ht = ht.In(time.FixedZone(w.abbrev(w.locOf(t.loc), seg), int(t.off.n)))
		}
		return mkStr(ht.Format(layout))
	case "stripMono":
		return Val{}
	}
	panic(unsupported("time method " + m))
}

// fixedStr splits on every byte of a string that is open.
func (w *Worker) fixedStr(v Val) string {
	if s, ok := v.o.(string); ok {
		return s
	}
	var raw []byte
	for _, c := range strBytes(v) {
		raw = append(raw, byte(w.concrete(c)))
	}
	return string(raw)
}

// timeFormat prints a symbolic time in the common numeric layouts.
func (w *Worker) timeFormat(t *TimeV, layout Val) Val {
	l := w.fixedStr(layout)
	y, m, d := w.civilDate(t)
	out := mkStr("")
	num := func(v Val, n int) { out = strConcat(out, padLeft(w.itoa(v), n, '0')) }
	for len(l) > 0 {
		switch {
		case strings.HasPrefix(l, "2006"):
			num(y, 4)
			l = l[4:]
		case strings.HasPrefix(l, "01"):
			num(m, 2)
			l = l[2:]
		case strings.HasPrefix(l, "02"):
			num(d, 2)
			l = l[2:]
		case strings.HasPrefix(l, "15"):
			num(w.vDiv(t.sod, 3600), 2)
			l = l[2:]
		case strings.HasPrefix(l, "04"):
			num(w.vDiv(w.vMod(t.sod, 3600), 60), 2)
			l = l[2:]
		case strings.HasPrefix(l, "05"):
			num(w.vMod(t.sod, 60), 2)
			l = l[2:]
		case strings.ContainsRune("-/: T", rune(l[0])):
			out = strConcat(out, mkStr(l[:1]))
			l = l[1:]
		default:
			panic(unsupported("layout " + l))
		}
	}
	return out
}

// ---- fmt

func (w *Worker) fmtAny(v Val, verb byte) Val {
	i, ok := v.o.(*Iface)
	if !ok {
		if h, ok := v.o.(*HostObj); ok {
			if s, ok := h.v.(Val); ok {
				return s
			}
			return mkStr(fmt.Sprint(h.v))
		}
		return mkStr("<nil>")
	}
	switch o := i.v.o.(type) {
	case string, *SymStr:
		return i.v
	case *TimeV:
		return mkStr("<time>")
	case *HostObj:
		if s, ok := o.v.(Val); ok {
			return s
		}
	}
	// methods
	for _, name := range []string{"Error", "String"} {
		sel := w.eng.prog.MethodSets.MethodSet(i.t).Lookup(nil, name)
		if sel != nil {
			fn := w.eng.prog.MethodValue(sel)
			if fn != nil {
				return w.call(fn, []Val{i.v}, nil)
			}
		}
	}
	if b, ok := i.t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			return w.itoa(i.v)
		}
		if b.Info()&types.IsBoolean != 0 {
			if w.truth(i.v) {
				return mkStr("true")
			}
			return mkStr("false")
		}
		if b.Info()&types.IsFloat != 0 {
			return mkStr(fmt.Sprint(w.fconcrete(i.v)))
		}
	}
	if s, ok := i.v.o.(*SliceV); ok {
		out := mkStr("[")
		for k, e := range s.a {
			if k > 0 {
				out = strConcat(out, mkStr(" "))
			}
			switch e.o.(type) {
			case string, *SymStr:
				out = strConcat(out, e)
			case nil, *Term:
				out = strConcat(out, w.itoa(e))
			default:
				out = strConcat(out, mkStr("?"))
			}
		}
		return strConcat(out, mkStr("]"))
	}
	return mkStr("<" + i.t.String() + ">")
}

func (w *Worker) sprintf(format, args Val) Val {
	f, ok := format.o.(string)
	if !ok {
		panic(unsupported("symbolic format"))
	}
	as := sliceOf(args)
	out := mkStr("")
	k := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			return strConcat(out, mkStr(f))
		}
		out = strConcat(out, mkStr(f[:i]))
		f = f[i+1:]
		flags := ""
		for len(f) > 0 && strings.ContainsRune("+-# 0", rune(f[0])) {
			flags += f[:1]
			f = f[1:]
		}
		width, prec := 0, -1
		for len(f) > 0 && f[0] >= '0' && f[0] <= '9' {
			width = width*10 + int(f[0]-'0')
			f = f[1:]
		}
		if len(f) > 0 && f[0] == '.' {
			prec = 0
			f = f[1:]
			for len(f) > 0 && f[0] >= '0' && f[0] <= '9' {
				prec = prec*10 + int(f[0]-'0')
				f = f[1:]
			}
		}
		if len(f) == 0 {
			break
		}
		verb := f[0]
		f = f[1:]
		if verb == '%' {
			out = strConcat(out, mkStr("%"))
			continue
		}
		if k >= len(as) {
			out = strConcat(out, mkStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := as[k]
		k++
		var s Val
		switch verb {
		case 'd', 's', 'v', 'w':
			s = w.fmtAny(a, verb)
			if verb == 'd' {
				if i, ok := a.o.(*Iface); ok {
					if b, ok := i.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						s = w.itoa(i.v)
					}
				}
			}
			if strings.Contains(flags, "+") && verb == 'd' {
				if f := strAt(s, 0); f.o != nil || f.n != '-' {
					s = strConcat(mkStr("+"), s)
				}
			}
		case 'c':
			s = canonStr(w.encodeRune(nil, a.o.(*Iface).v))
		case 'q':
			s = w.fmtAny(a, 's')
			if str, ok := s.o.(string); ok {
				s = mkStr(strconv.Quote(str))
			} else {
				s = strConcat(strConcat(mkStr("\""), s), mkStr("\""))
			}
		case 'f', 'g', 'e':
			p := prec
			if p < 0 && verb == 'f' {
				p = 6
			}
			s = mkStr(strconv.FormatFloat(w.fconcrete(a.o.(*Iface).v), verb, p, 64))
		case 'T':
			s = mkStr("?")
		case 'p', 't', 'x', 'X', 'U':
			if i, ok := a.o.(*Iface); ok && i.v.o == nil {
				s = mkStr(fmt.Sprintf("%"+string(verb), i.v.n))
				if verb == 't' {
					s = mkStr(fmt.Sprint(i.v.n != 0))
				}
			} else {
				s = w.fmtAny(a, 'v')
			}
		default:
			panic(unsupported("format verb " + string(verb)))
		}
		if width > 0 {
			if strings.Contains(flags, "-") {
				for strLen(s) < width {
					s = strConcat(s, mkStr(" "))
				}
			} else if strings.Contains(flags, "0") {
				s = padLeft(s, width, '0')
			} else {
				s = padLeft(s, width, ' ')
			}
		}
		out = strConcat(out, s)
	}
	return out
}

// ---- sorting with the host's algorithm

type sorter struct {
	n    int
	less func(i, j int) bool
	swap func(i, j int)
}

func (s sorter) Len() int           { return s.n }
func (s sorter) Less(i, j int) bool { return s.less(i, j) }
func (s sorter) Swap(i, j int)      { s.swap(i, j) }

func (w *Worker) sortSlice(args []Val, stable bool) {
	i, ok := args[0].o.(*Iface)
	if !ok {
		panic(unsupported("sort of nil"))
	}
	a := sliceOf(i.v)
	s := sorter{len(a), func(x, y int) bool {
		return w.truth(w.callVal(args[1], []Val{mkInt(int64(x)), mkInt(int64(y))}))
	}, func(x, y int) {
		p, q := copyVal(a[x]), copyVal(a[y])
		w.store(&a[x], q)
		w.store(&a[y], p)
	}}
	if stable {
		sort.Stable(s)
	} else {
		sort.Sort(s)
	}
}

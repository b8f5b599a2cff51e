package main

// The harness interface, package sym.

import (
	"fmt"
	"sort"
	"strings"
)

func (w *Worker) addInput(name, kind string, t *Term, val int64) {
	w.inputs = append(w.inputs, Input{Name: name, Kind: kind, Term: t, Val: val})
}

func str1(v Val) string {
	s, ok := v.o.(string)
	if !ok {
		panic(unsupported("harness: name must be constant"))
	}
	return s
}

func (w *Worker) symByte(name string, set string) Val {
	name = w.inputName(name)
	var present [256]bool
	lo, hi := 255, 0
	for i := 0; i < len(set); i++ {
		present[set[i]] = true
		lo, hi = min(lo, int(set[i])), max(hi, int(set[i]))
	}
	if lo == hi {
		w.addInput(name, "byte", nil, int64(lo))
		return mkInt(int64(lo))
	}
	ds := present[lo : hi+1]
	full := true
	for _, b := range ds {
		full = full && b
	}
	var arg []bool
	if !full {
		arg = append([]bool(nil), ds...)
	}
	t := w.p.Var(name, int64(lo), int64(hi), arg)
	w.addInput(name, "byte", t, 0)
	return mkTerm(t)
}

func symIntrinsics() {
	d := func(name string, f func(w *Worker, a []Val) Val) { def(symPath+"."+name, f) }
	d("Int", func(w *Worker, a []Val) Val {
		name := w.inputName(str1(a[0]))
		lo, hi := a[1].n, a[2].n
		if lo == hi {
			w.addInput(name, "int", nil, lo)
			return mkInt(lo)
		}
		t := w.p.Var(name, lo, hi, nil)
		w.addInput(name, "int", t, 0)
		return mkTerm(t)
	})
	d("Bool", func(w *Worker, a []Val) Val {
		name := w.inputName(str1(a[0]))
		t := w.p.Var(name, 0, 1, nil)
		w.addInput(name, "bool", t, 0)
		return mkTerm(w.p.Eq(t, w.p.Const(1)))
	})
	d("Choose", func(w *Worker, a []Val) Val {
		name := w.inputName(str1(a[0]))
		n := int(w.concrete(a[1]))
		var k int
		if fix, ok := w.params["fix:"+name]; ok {
			k = fix
		} else {
			k = w.choose(n)
		}
		w.addInput(name, "choose", nil, int64(k))
		return mkInt(int64(k))
	})
	d("Byte", func(w *Worker, a []Val) Val { return w.symByte(str1(a[0]), str1(a[1])) })
	d("Digits", func(w *Worker, a []Val) Val {
		n := int(w.concrete(a[1]))
		b := make([]Val, n)
		for i := range b {
			b[i] = w.symByte(str1(a[0]), "0123456789")
		}
		return canonStr(b)
	})
	d("Text", func(w *Worker, a []Val) Val {
		n := int(w.concrete(a[1]))
		b := make([]Val, n)
		for i := range b {
			b[i] = w.symByte(str1(a[0]), str1(a[2]))
		}
		return canonStr(b)
	})
	d("Assume", func(w *Worker, a []Val) Val { w.assume(a[0]); return Val{} })
	d("Assert", func(w *Worker, a []Val) Val { w.assert(a[0], str1(a[1]), "", Val{}); return Val{} })
	d("Known", func(w *Worker, a []Val) Val {
		w.assert(a[0], str1(a[1]), str1(a[2]), a[3])
		return Val{}
	})
	d("Reach", func(w *Worker, a []Val) Val { w.reached[str1(a[0])] = true; return Val{} })
	d("ObsInt", func(w *Worker, a []Val) Val {
		w.observed = append(w.observed, Observed{str1(a[0]), a[1], "int"})
		return Val{}
	})
	d("ObsStr", func(w *Worker, a []Val) Val {
		w.observed = append(w.observed, Observed{str1(a[0]), a[1], "str"})
		return Val{}
	})
	d("ObsBool", func(w *Worker, a []Val) Val {
		w.observed = append(w.observed, Observed{str1(a[0]), a[1], "bool"})
		return Val{}
	})
	d("Stop", func(w *Worker, a []Val) Val { panic(pathAbort{abStop, "stop"}) })
	d("Param", func(w *Worker, a []Val) Val {
		v, ok := w.params[str1(a[0])]
		if !ok {
			return a[1]
		}
		return mkInt(int64(v))
	})
	d("Concrete", func(w *Worker, a []Val) Val { return mkInt(w.concrete(a[0])) })
	d("Decide", func(w *Worker, a []Val) Val { return mkBool(w.truth(a[0])) })
	d("And", func(w *Worker, a []Val) Val { return mkTerm(w.p.And(w.simp(w.bterm(a[0])), w.simp(w.bterm(a[1])))) })
	d("Or", func(w *Worker, a []Val) Val { return mkTerm(w.p.Or(w.simp(w.bterm(a[0])), w.simp(w.bterm(a[1])))) })
	d("Not", func(w *Worker, a []Val) Val { return w.notVal(a[0]) })
	d("Ite", func(w *Worker, a []Val) Val { return w.vIte(w.bterm(a[0]), a[1], a[2]) })
	d("EqStr", func(w *Worker, a []Val) Val { return w.strEq(a[0], a[1]) })
	d("FloorDiv", func(w *Worker, a []Val) Val { return w.vDiv(a[0], w.concrete(a[1])) })
	d("FloorMod", func(w *Worker, a []Val) Val { return w.vMod(a[0], w.concrete(a[1])) })
	d("DaysIn", func(w *Worker, a []Val) Val {
		m := a[1]
		if lo, hi := w.vBounds(m); lo < 1 || hi > 12 {
			if m.o == nil {
				return mkInt(0)
			}
			return w.vIte(w.p.In(w.term(m), []int64{1, 12}), w.dimOf(a[0], m), mkInt(0))
		}
		return w.dimOf(a[0], m)
	})
	d("DayNumber", func(w *Worker, a []Val) Val { return w.daysOf(a[0], a[1], a[2]) })
	d("TimeDays", func(w *Worker, a []Val) Val { return a[0].o.(*TimeV).days })
	d("TimeSod", func(w *Worker, a []Val) Val { return a[0].o.(*TimeV).sod })
	d("TimeOffset", func(w *Worker, a []Val) Val { return a[0].o.(*TimeV).off })
	d("Utc", func(w *Worker, a []Val) Val {
		// y, m, d valid (assumed by the harness); sod, ns in range
		t := w.timeDate(a[0], a[1], a[2], mkInt(0), mkInt(0), a[3], a[4], nil)
		if dt, ok := t.days.o.(*Term); ok {
			if _, has := w.civilOf[dt]; !has {
				w.civilOf[dt] = [3]*Term{w.term(a[0]), w.term(a[1]), w.term(a[2])}
			}
		}
		return Val{o: t}
	})
	d("MapOrder", func(w *Worker, a []Val) Val { w.mapOrder = int(w.concrete(a[0])); return Val{} })
	d("SymMapOrder", func(w *Worker, a []Val) Val { w.symMapOrd = w.truth(a[0]); return Val{} })
	d("Zone", func(w *Worker, a []Val) Val {
		// name, transition instant, offset before, offset after
		l := &LocV{kind: locTrans, name: str1(a[0]), at: []Val{a[1]}, offs: []Val{a[2], a[3]}, names: []string{"STD", "DST"}}
		return Val{o: &Val{o: l}}
	})
	d("Fixed", func(w *Worker, a []Val) Val {
		return Val{o: &Val{o: &LocV{kind: locFixed, name: str1(a[0]), off: a[1]}}}
	})
	d("Catch", func(w *Worker, a []Val) (res Val) {
		depth, frames := len(w.callStack), w.frames
		sb, sp := w.stackbuf, w.sp
		df := len(w.deferFrames)
		defer func() {
			if e := recover(); e != nil {
				tp, ok := e.(*targetPanic)
				if !ok {
					panic(e)
				}
				w.callStack = w.callStack[:depth]
				w.frames = frames
				w.stackbuf, w.sp = sb, sp
				w.deferFrames = w.deferFrames[:df]
				w.lastPanic = tp.msg + " at " + tp.stack
				res = mkStr(tp.msg)
			}
		}()
		w.callVal(a[0], nil)
		return mkStr("")
	})
	d("Threads", func(w *Worker, a []Val) Val {
		// name, f, g: both run on their own; every order of their accesses is judged
		w.threads(str1(a[0]), a[1], a[2])
		return Val{}
	})
	d("Interleave", func(w *Worker, a []Val) Val {
		// f runs; g runs as a whole at some point where f holds no lock
		g := a[1]
		w.other = func() { w.callVal(g, nil) }
		w.callVal(a[0], nil)
		if o := w.other; o != nil {
			w.other = nil
			o()
		}
		if w.anyHeld() {
			panic(&targetPanic{msg: "deadlock: a mutex is still held when the calls have returned", stack: ""})
		}
		return Val{}
	})
	d("LocksFree", func(w *Worker, a []Val) Val { return mkBool(!w.anyHeld()) })
	d("Log", func(w *Worker, a []Val) Val {
		if verbose {
			fmt.Println("LOG", str1(a[0]), showVal(a[1]))
		}
		return Val{}
	})
	d("Native", func(w *Worker, a []Val) Val { return mkBool(false) })
	d("Once", func(w *Worker, a []Val) Val {
		// once per worker, as part of the state that every path starts from
		k := str1(a[0])
		if !w.onceDone[k] {
			if w.onceDone == nil {
				w.onceDone = map[string]bool{}
			}
			w.onceDone[k] = true
			w.outside(func() { w.callVal(a[1], nil) })
		}
		return Val{}
	})
	d("Reinit", func(w *Worker, a []Val) Val { w.reinit(int(w.concrete(a[0]))); return Val{} })
}

func (w *Worker) threads(name string, f, g Val) {
	if w.trace != nil {
		panic(unsupported("nested threads"))
	}
	t := newRaceTrace()
	w.trace = t
	t.cur = 0
	w.callVal(f, nil)
	held := w.anyHeld()
	t.cur = 1
	if !held {
		w.callVal(g, nil)
		held = w.anyHeld()
	}
	w.trace = nil
	w.res.asserts["no deadlock: "+name]++
	if held {
		panic(&targetPanic{msg: "deadlock: a mutex is still held when the call has returned", stack: ""})
	}
	races, q, inc := t.findRaces()
	w.res.asserts["no data race: "+name]++
	w.res.solved += q
	gstatsAdd(q)
	if q == 0 {
		w.res.trivial++
	}
	if inc > 0 {
		w.inconc = append(w.inconc, fmt.Sprintf("race queries undecided: %d", inc))
	}
	if len(races) > 0 {
		var ds []string
		for _, r := range races {
			ds = append(ds, fmt.Sprintf("%s (write=%v) / %s (write=%v)", r.a.where, r.a.wr, r.b.where, r.b.wr))
		}
		sort.Strings(ds)
		if len(ds) > 8 {
			ds = ds[:8]
		}
		w.ensureModel()
		v := w.violation("race", "data race: "+name, "", strings.Join(ds, "; "))
		v.Extra = ds
	}
}

package main

// SSA functions are compiled to closures over a register frame.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	r         []Val
	w         *Worker
	fc        *fnCode
	env       []Val
	prev      int
	ret       Val
	defers    []func()
	pan       *targetPanic
	recovered bool
}

type instrFn func(fr *frame)

type block struct {
	code []instrFn
	dst  []int // destination register of each instruction, or -1
	phis []phi
	term func(fr *frame) int // next block or -1
}

type phi struct {
	dst int
	ops []opnd // by predecessor index
}

type opnd struct {
	reg int // -1: constant
	c   Val
	dyn func(fr *frame) Val
}

func (o *opnd) get(fr *frame) Val {
	if o.reg >= 0 {
		return fr.r[o.reg]
	}
	if o.dyn != nil {
		return o.dyn(fr)
	}
	return o.c
}

type fnCode struct {
	fn       *ssa.Function
	nregs    int
	blocks   []block
	preds    [][]int
	hasDefer bool
	recoverB int
	name     string
	intr     intrinsic
	nparam   int
	once     sync.Once
	repo     bool
	noBody   bool
}

type intInfo struct {
	isInt  bool
	bits   int
	signed bool
}

func intOf(t types.Type) intInfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}
	}
	switch b.Kind() {
	case types.Int8:
		return intInfo{true, 8, true}
	case types.Int16:
		return intInfo{true, 16, true}
	case types.Int32, types.UntypedRune:
		return intInfo{true, 32, true}
	case types.Int64, types.Int, types.UntypedInt:
		return intInfo{true, 64, true}
	case types.Uint8:
		return intInfo{true, 8, false}
	case types.Uint16:
		return intInfo{true, 16, false}
	case types.Uint32:
		return intInfo{true, 32, false}
	case types.Uint64, types.Uint, types.Uintptr:
		return intInfo{true, 64, false}
	}
	return intInfo{}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func norm(n int64, ii intInfo) int64 {
	if ii.bits == 64 {
		return n
	}
	return wrapConst(n, ii.bits, ii.signed)
}

// zeroOpaque lists named types that are modelled as host objects.
func opaqueZero(t types.Type) (Val, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return Val{}, false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "time.Time":
		return Val{o: zeroTime}, true
	case "time.Location":
		return Val{o: &LocV{kind: locUTC}}, true
	}
	return Val{}, false
}

func zeroVal(t types.Type) Val {
	if v, ok := opaqueZero(t); ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Val{o: ""}
		}
		return Val{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return Val{o: &Agg{f}}
	case *types.Array:
		f := make([]Val, u.Len())
		if len(f) > 0 {
			z := zeroVal(u.Elem())
			for i := range f {
				f[i] = copyVal(z)
			}
		}
		return Val{o: &Agg{f}}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroVal(u.At(i).Type())
		}
		return Val{o: &Tuple{f}}
	}
	return Val{}
}

func hasAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type compiler struct {
	e    *Engine
	fc   *fnCode
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.fc.nregs
	c.fc.nregs++
	c.regs[v] = r
	return r
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return c.constant(v)
	case *ssa.Global:
		gi := c.e.globalIndex(v)
		return opnd{reg: -1, dyn: func(fr *frame) Val { return Val{o: fr.w.globalCell(gi)} }}
	case *ssa.Function:
		return opnd{reg: -1, c: Val{o: &Closure{fn: v}}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: Val{o: v}}
	case *ssa.FreeVar:
		for i, f := range c.fc.fn.FreeVars {
			if f == v {
				return opnd{reg: -1, dyn: func(fr *frame) Val { return fr.env[i] }}
			}
		}
		panic("free var")
	}
	return opnd{reg: c.reg(v)}
}

func (c *compiler) constant(v *ssa.Const) opnd {
	t := v.Type()
	if v.Value == nil {
		if _, ok := t.Underlying().(*types.Struct); ok {
			if z, ok := opaqueZero(t); ok {
				return opnd{reg: -1, c: z}
			}
			return opnd{reg: -1, c: zeroVal(t)}
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			return opnd{reg: -1, c: zeroVal(t)}
		}
		if _, ok := t.Underlying().(*types.Tuple); ok {
			return opnd{reg: -1, c: zeroVal(t)}
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return opnd{reg: -1, c: Val{o: ""}}
		}
		return opnd{reg: -1}
	}
	return opnd{reg: -1, c: constVal(v.Value, t)}
}

func constVal(cv constant.Value, t types.Type) Val {
	if tp, ok := t.Underlying().(*types.Interface); ok {
		_ = tp
		panic("constant of interface type")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(cv))
	case b.Info()&types.IsString != 0:
		if cv.Kind() == constant.Int {
			i, _ := constant.Int64Val(cv)
			return mkStr(string(rune(i)))
		}
		return mkStr(constant.StringVal(cv))
	case b.Info()&types.IsInteger != 0:
		cv = constant.ToInt(cv)
		if i, ok := constant.Int64Val(cv); ok {
			return mkInt(norm(i, intOf(t)))
		}
		u, _ := constant.Uint64Val(cv)
		return mkInt(norm(int64(u), intOf(t)))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(cv))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return mkF(f)
	}
	return Val{o: &HostObj{kind: "const", v: cv}}
}

func (e *Engine) code(fn *ssa.Function) *fnCode {
	if v, ok := e.codes.Load(fn); ok {
		return v.(*fnCode)
	}
	e.mu.Lock()
	if v, ok := e.codes.Load(fn); ok {
		e.mu.Unlock()
		return v.(*fnCode)
	}
	defer e.mu.Unlock()
	fc := &fnCode{fn: fn, name: fullName(fn), nparam: len(fn.Params), recoverB: -1}
	fc.intr = intrinsics[fc.name]
	if fc.intr == nil {
		fc.intr = prefixIntrinsic(fc.name)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn.Signature.Recv() == nil {
		fc.intr = initIntrinsic(fn.Pkg)
	}
	if fn.Pkg != nil {
		fc.repo = e.isRepo(fn.Pkg.Pkg.Path())
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fc.repo = e.isRepo(fn.Origin().Pkg.Pkg.Path())
	}
	// bodies are built on demand
	if fn.Blocks == nil {
		if p := fn.Pkg; p != nil {
			p.Build()
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if fn.Blocks == nil {
		fc.noBody = true
		e.codes.Store(fn, fc)
		return fc
	}
	c := &compiler{e: e, fc: fc, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.reg(p)
	}
	fc.blocks = make([]block, len(fn.Blocks))
	fc.preds = make([][]int, len(fn.Blocks))
	for i, b := range fn.Blocks {
		c.block(&fc.blocks[i], b)
	}
	if fn.Recover != nil {
		fc.recoverB = fn.Recover.Index
	}
	e.codes.Store(fn, fc)
	return fc
}

func (c *compiler) block(out *block, b *ssa.BasicBlock) {
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi:
			ph := phi{dst: c.reg(ins)}
			for _, e := range ins.Edges {
				ph.ops = append(ph.ops, c.op(e))
			}
			out.phis = append(out.phis, ph)
		case *ssa.DebugRef:
		case *ssa.If:
			cond := c.op(ins.Cond)
			x, y := b.Succs[0].Index, b.Succs[1].Index
			out.term = func(fr *frame) int {
				v := cond.get(fr)
				if v.o == nil {
					if v.n != 0 {
						return x
					}
					return y
				}
				if fr.w.decide(v.o.(*Term)) {
					return x
				}
				return y
			}
		case *ssa.Jump:
			x := b.Succs[0].Index
			out.term = func(fr *frame) int { return x }
		case *ssa.Return:
			var ops []opnd
			for _, r := range ins.Results {
				ops = append(ops, c.op(r))
			}
			out.term = func(fr *frame) int {
				switch len(ops) {
				case 0:
				case 1:
					fr.ret = ops[0].get(fr)
				default:
					t := make([]Val, len(ops))
					for i := range ops {
						t[i] = ops[i].get(fr)
					}
					fr.ret = Val{o: &Tuple{t}}
				}
				return -1
			}
		case *ssa.Panic:
			x := c.op(ins.X)
			out.term = func(fr *frame) int {
				v := x.get(fr)
				panic(&targetPanic{v: v, msg: fr.w.panicText(v), stack: fr.w.stackString()})
			}
		case *ssa.RunDefers:
			c.fc.hasDefer = true
			out.code = append(out.code, func(fr *frame) { fr.runDefers() })
			out.dst = append(out.dst, -1)
		default:
			if f := c.instr(ins); f != nil {
				out.code = append(out.code, f)
				d := -1
				if v, ok := ins.(ssa.Value); ok {
					d = c.reg(v)
				}
				out.dst = append(out.dst, d)
			}
		}
	}
}

// predIndex: which edge of succ comes from b.
func (fc *fnCode) edge(from, to int) int {
	for i, p := range fc.fn.Blocks[to].Preds {
		if p.Index == from {
			return i
		}
	}
	return 0
}

func rtPanic(w *Worker, msg string) {
	panic(&targetPanic{v: Val{o: &HostObj{kind: "runtime.Error", v: msg}}, msg: "runtime error: " + msg, stack: w.stackString()})
}

func (w *Worker) panicText(v Val) string {
	if i, ok := v.o.(*Iface); ok {
		return showVal(i.v)
	}
	return showVal(v)
}

// ---- calling

func (w *Worker) call(fn *ssa.Function, args []Val, env []Val) Val {
	fc := w.eng.code(fn)
	if fc.intr != nil {
		if v, ok := fc.intr(w, fc, args); ok {
			return v
		}
	}
	if fc.noBody {
		panic(unsupported("no body: " + fc.name))
	}
	return w.exec(fc, args, env)
}

func (w *Worker) exec(fc *fnCode, args []Val, env []Val) Val {
	if w.frames > 3000 {
		panic(&targetPanic{msg: "stack overflow", stack: w.stackString()})
	}
	n := fc.nregs
	if w.sp+n > len(w.stackbuf) {
		// chained chunk: keep old frames valid
		w.stackbuf = make([]Val, max(1<<16, n*2))
		w.sp = 0
	}
	base := w.sp
	buf := w.stackbuf
	r := buf[base : base+n : base+n]
	w.sp += n
	copy(r, args)
	fr := frame{r: r, w: w, fc: fc, env: env}
	w.frames++
	w.callStack = append(w.callStack, fc.fn)
	if fc.repo {
		w.eng.touch(fc)
	}
	if fc.hasDefer || fc.recoverB >= 0 {
		w.execDefer(&fr)
	} else {
		fr.run(0)
	}
	w.callStack = w.callStack[:len(w.callStack)-1]
	w.frames--
	clear(r)
	if len(w.stackbuf) == len(buf) && &w.stackbuf[0] == &buf[0] {
		w.sp = base
	}
	return fr.ret
}

func (w *Worker) execDefer(fr *frame) {
	depth, frames := len(w.callStack), w.frames
	sb, sp := w.stackbuf, w.sp
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			tp, ok := e.(*targetPanic)
			if !ok {
				panic(e)
			}
			w.callStack = w.callStack[:depth]
			w.frames = frames
			w.stackbuf, w.sp = sb, sp
			fr.pan = tp
			fr.runDefers()
			if fr.pan != nil {
				panic(fr.pan)
			}
			// recovered
			if fr.fc.recoverB >= 0 {
				fr.run(fr.fc.recoverB)
			} else {
				fr.ret = zeroResults(fr.fc.fn)
			}
		}()
		fr.run(0)
	}()
}

func zeroResults(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return Val{}
	case 1:
		return zeroVal(rs.At(0).Type())
	}
	return zeroVal(rs)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if e := recover(); e != nil {
					tp, ok := e.(*targetPanic)
					if !ok {
						panic(e)
					}
					fr.pan = tp
				}
			}()
			fr.w.deferFrames = append(fr.w.deferFrames, fr)
			d()
			fr.w.deferFrames = fr.w.deferFrames[:len(fr.w.deferFrames)-1]
		}()
	}
	if fr.pan != nil && fr.recovered {
		fr.pan = nil
	}
}

func (fr *frame) run(b int) {
	w := fr.w
	fc := fr.fc
	prev := -1
	var tmp [8]Val
	for {
		bl := &fc.blocks[b]
		if len(bl.phis) > 0 {
			e := fc.edge(prev, b)
			if len(bl.phis) == 1 {
				fr.r[bl.phis[0].dst] = bl.phis[0].ops[e].get(fr)
			} else {
				t := tmp[:0]
				for i := range bl.phis {
					t = append(t, bl.phis[i].ops[e].get(fr))
				}
				for i := range bl.phis {
					fr.r[bl.phis[i].dst] = t[i]
				}
			}
		}
		for _, f := range bl.code {
			f(fr)
		}
		w.steps += int64(len(bl.code)) + 1
		if w.steps > w.maxSteps {
			panic(pathAbort{abBudget, "step budget at " + w.stackString()})
		}
		nb := bl.term(fr)
		if nb < 0 {
			return
		}
		prev, b = b, nb
	}
}

// ---- instructions

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *compiler) instr(ins ssa.Instruction) instrFn {
	switch ins := ins.(type) {
	case *ssa.Alloc:
		d := c.reg(ins)
		t := deref(ins.Type())
		if z, ok := opaqueZero(t); ok {
			if _, isLoc := z.o.(*LocV); isLoc {
				return func(fr *frame) { fr.r[d] = Val{o: &Val{o: &LocV{kind: locUTC}}} }
			}
			return func(fr *frame) { fr.r[d] = Val{o: &Val{o: z.o}} }
		}
		if hasAgg(t) {
			z := zeroVal(t)
			return func(fr *frame) {
				v := copyVal(z)
				fr.r[d] = Val{o: &v}
			}
		}
		z := zeroVal(t)
		return func(fr *frame) {
			v := z
			fr.r[d] = Val{o: &v}
		}
	case *ssa.Store:
		a, v := c.op(ins.Addr), c.op(ins.Val)
		return func(fr *frame) {
			p, ok := a.get(fr).o.(*Val)
			if !ok {
				fr.w.nilDeref(a.get(fr))
			}
			fr.w.store(p, v.get(fr))
		}
	case *ssa.UnOp:
		return c.unop(ins)
	case *ssa.BinOp:
		return c.binop(ins)
	case *ssa.Call:
		return c.callInstr(ins)
	case *ssa.Defer:
		c.fc.hasDefer = true
		prep := c.prepCall(&ins.Call)
		return func(fr *frame) {
			fn, args := prep(fr)
			w := fr.w
			fr.defers = append(fr.defers, func() { w.callVal(fn, args) })
		}
	case *ssa.Go:
		prep := c.prepCall(&ins.Call)
		return func(fr *frame) {
			fn, args := prep(fr)
			fr.w.callVal(fn, args) // run to completion; order is the schedule's business
		}
	case *ssa.MakeInterface:
		d, x := c.reg(ins), c.op(ins.X)
		t := c.e.canon(ins.X.Type())
		return func(fr *frame) { fr.r[d] = Val{o: &Iface{t, x.get(fr)}} }
	case *ssa.ChangeInterface:
		d, x := c.reg(ins), c.op(ins.X)
		return func(fr *frame) { fr.r[d] = x.get(fr) }
	case *ssa.ChangeType:
		d, x := c.reg(ins), c.op(ins.X)
		return func(fr *frame) { fr.r[d] = x.get(fr) }
	case *ssa.Convert:
		return c.convert(ins.X, ins.Type(), c.reg(ins))
	case *ssa.MultiConvert:
		return c.convert(ins.X, ins.Type(), c.reg(ins))
	case *ssa.SliceToArrayPointer:
		d, x := c.reg(ins), c.op(ins.X)
		n := int(deref(ins.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := sliceOf(x.get(fr))
			if len(s) < n {
				rtPanic(fr.w, "cannot convert slice to array pointer")
			}
			fr.r[d] = Val{o: &Val{o: &Agg{s[:n:n]}}}
		}
	case *ssa.Extract:
		d, x, i := c.reg(ins), c.op(ins.Tuple), ins.Index
		return func(fr *frame) { fr.r[d] = x.get(fr).o.(*Tuple).v[i] }
	case *ssa.Field:
		d, x, i := c.reg(ins), c.op(ins.X), ins.Field
		return func(fr *frame) { fr.r[d] = x.get(fr).o.(*Agg).f[i] }
	case *ssa.FieldAddr:
		d, x, i := c.reg(ins), c.op(ins.X), ins.Field
		return func(fr *frame) {
			p, ok := x.get(fr).o.(*Val)
			if !ok {
				fr.w.nilDeref(x.get(fr))
			}
			a, ok := p.o.(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("field of opaque %T in %s", p.o, fr.fc.name)))
			}
			fr.r[d] = Val{o: &a.f[i]}
		}
	case *ssa.IndexAddr:
		d, x, idx := c.reg(ins), c.op(ins.X), c.op(ins.Index)
		return func(fr *frame) {
			var a []Val
			xv := x.get(fr)
			switch o := xv.o.(type) {
			case *SliceV:
				a = o.a
			case *Val:
				a = o.o.(*Agg).f
			case nil:
			default:
				panic(unsupported(fmt.Sprintf("index of %T", xv.o)))
			}
			iv := idx.get(fr)
			if iv.o != nil {
				fr.r[d] = fr.w.symIndexAddr(a, iv)
				return
			}
			if iv.n < 0 || iv.n >= int64(len(a)) {
				rtPanic(fr.w, fmt.Sprintf("index out of range [%d] with length %d", iv.n, len(a)))
			}
			fr.r[d] = Val{o: &a[iv.n]}
		}
	case *ssa.Index:
		d, x, idx := c.reg(ins), c.op(ins.X), c.op(ins.Index)
		return func(fr *frame) {
			xv, iv := x.get(fr), idx.get(fr)
			if agg, ok := xv.o.(*Agg); ok {
				fr.r[d] = fr.w.indexVals(agg.f, iv)
				return
			}
			fr.r[d] = fr.w.indexStr(xv, iv)
		}
	case *ssa.Lookup:
		return c.lookup(ins)
	case *ssa.MapUpdate:
		m, k, v := c.op(ins.Map), c.op(ins.Key), c.op(ins.Value)
		return func(fr *frame) {
			mv, ok := m.get(fr).o.(*MapV)
			if !ok {
				panic(&targetPanic{msg: "assignment to entry in nil map", stack: fr.w.stackString()})
			}
			fr.w.mapSet(mv, k.get(fr), v.get(fr))
		}
	case *ssa.MakeMap:
		d := c.reg(ins)
		return func(fr *frame) { fr.r[d] = Val{o: &MapV{epoch: fr.w.epoch}} }
	case *ssa.MakeSlice:
		d, l, cp := c.reg(ins), c.op(ins.Len), c.op(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		z := zeroVal(et)
		agg := hasAgg(et)
		return func(fr *frame) {
			n, m := fr.w.concrete(l.get(fr)), fr.w.concrete(cp.get(fr))
			if n < 0 || m < n {
				rtPanic(fr.w, "makeslice: len out of range")
			}
			if m > 1<<24 {
				panic(unsupported("huge slice"))
			}
			a := make([]Val, n, m)
			if z.o != nil {
				full := a[:m]
				for i := range full {
					if agg {
						full[i] = copyVal(z)
					} else {
						full[i] = z
					}
				}
			}
			fr.r[d] = Val{o: &SliceV{a}}
		}
	case *ssa.MakeChan:
		d := c.reg(ins)
		return func(fr *frame) { fr.r[d] = Val{o: &HostObj{kind: "chan", v: nil}} }
	case *ssa.MakeClosure:
		d := c.reg(ins)
		var bs []opnd
		for _, b := range ins.Bindings {
			bs = append(bs, c.op(b))
		}
		fn := ins.Fn.(*ssa.Function)
		return func(fr *frame) {
			env := make([]Val, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.r[d] = Val{o: &Closure{fn: fn, env: env}}
		}
	case *ssa.Slice:
		return c.slice(ins)
	case *ssa.Range:
		d, x := c.reg(ins), c.op(ins.X)
		str := isString(ins.X.Type())
		return func(fr *frame) {
			xv := x.get(fr)
			if str {
				fr.r[d] = Val{o: &mapIter{isStr: true, str: xv}}
				return
			}
			m, _ := xv.o.(*MapV)
			it := &mapIter{m: m}
			if m != nil {
				fr.w.touchMap(m, false)
				it.order = fr.w.mapOrderOf(m)
			}
			fr.r[d] = Val{o: it}
		}
	case *ssa.Next:
		d, x := c.reg(ins), c.op(ins.Iter)
		return func(fr *frame) {
			it := x.get(fr).o.(*mapIter)
			if it.isStr {
				if it.pos >= strLen(it.str) {
					fr.r[d] = Val{o: &Tuple{[]Val{{}, {}, {}}}}
					return
				}
				r, size := fr.w.decodeRune(it.str, it.pos)
				p := it.pos
				it.pos += size
				fr.r[d] = Val{o: &Tuple{[]Val{mkBool(true), mkInt(int64(p)), r}}}
				return
			}
			for it.pos < len(it.order) && it.m.dead[it.order[it.pos]] {
				it.pos++
			}
			if it.m == nil || it.pos >= len(it.order) {
				fr.r[d] = Val{o: &Tuple{[]Val{{}, {}, {}}}}
				return
			}
			k := it.order[it.pos]
			it.pos++
			fr.r[d] = Val{o: &Tuple{[]Val{mkBool(true), it.m.keys[k], it.m.vals[k]}}}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(ins)
	case *ssa.Send, *ssa.Select:
		return func(fr *frame) { panic(unsupported("channel operation")) }
	}
	return func(fr *frame) { panic(unsupported(fmt.Sprintf("instruction %T", ins))) }
}

func (w *Worker) nilDeref(v Val) {
	if v.o == nil {
		panic(&targetPanic{msg: "runtime error: invalid memory address or nil pointer dereference", stack: w.stackString()})
	}
	panic(unsupported(fmt.Sprintf("dereference of %T at %s", v.o, w.stackString())))
}

func sliceOf(v Val) []Val {
	if s, ok := v.o.(*SliceV); ok {
		return s.a
	}
	if v.o == nil {
		return nil
	}
	panic(unsupported(fmt.Sprintf("slice expected, got %T", v.o)))
}

func (w *Worker) boundCheck(iv Val, n int) {
	t := iv.o.(*Term)
	ok := w.p.And(w.simp(w.p.Le(w.p.zero, t)), w.simp(w.p.Lt(t, w.p.Const(int64(n)))))
	if !w.decide(ok) {
		rtPanic(w, fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

// indexVals reads a[iv] for a possibly symbolic index.
func (w *Worker) indexVals(a []Val, iv Val) Val {
	if iv.o == nil {
		if iv.n < 0 || iv.n >= int64(len(a)) {
			rtPanic(w, fmt.Sprintf("index out of range [%d] with length %d", iv.n, len(a)))
		}
		return a[iv.n]
	}
	w.boundCheck(iv, len(a))
	t := iv.o.(*Term)
	lo, hi, _ := w.bounds(t)
	lo, hi = max(lo, 0), min(hi, int64(len(a)-1))
	plain := hi-lo < 4096
	for i := lo; plain && i <= hi; i++ {
		if a[i].o != nil {
			plain = false
		}
	}
	if plain {
		tbl := make([]int64, len(a))
		for i := range a {
			if a[i].o == nil {
				tbl[i] = a[i].n
			}
		}
		// restrict to the live window
		win := tbl[lo : hi+1]
		return mkTerm(w.p.Tbl(w.p.AddC(t, -lo), win))
	}
	// group equal entries to fork less
	k := w.concrete(iv)
	return a[k]
}

func (w *Worker) symIndexAddr(a []Val, iv Val) Val {
	w.boundCheck(iv, len(a))
	t := iv.o.(*Term)
	lo, hi, _ := w.bounds(t)
	lo, hi = max(lo, 0), min(hi, int64(len(a)-1))
	plain := hi-lo < 4096
	for i := lo; plain && i <= hi; i++ {
		if a[i].o != nil {
			plain = false
		}
	}
	if plain && hi > lo {
		// read-only view: a fresh cell that holds the selected value; writing
		// through it would be lost, so it is marked
		return Val{o: &Val{o: &symCell{a: a, idx: t, lo: lo, hi: hi}}}
	}
	k := w.concrete(iv)
	return Val{o: &a[k]}
}

// symCell is the target of &a[i] for a symbolic i over integer cells.
type symCell struct {
	a      []Val
	idx    *Term
	lo, hi int64
}

func (w *Worker) indexStr(s Val, iv Val) Val {
	n := strLen(s)
	if iv.o == nil {
		if iv.n < 0 || iv.n >= int64(n) {
			rtPanic(w, fmt.Sprintf("index out of range [%d] with length %d", iv.n, n))
		}
		return strAt(s, int(iv.n))
	}
	return w.indexVals(strBytes(s), iv)
}

func (c *compiler) unop(ins *ssa.UnOp) instrFn {
	d, x := c.reg(ins), c.op(ins.X)
	switch ins.Op {
	case token.MUL:
		return func(fr *frame) {
			v := x.get(fr)
			p, ok := v.o.(*Val)
			if !ok {
				fr.w.nilDeref(v)
			}
			if sc, ok := p.o.(*symCell); ok {
				fr.r[d] = fr.w.indexVals(sc.a, Val{o: sc.idx})
				return
			}
			fr.r[d] = fr.w.load(p)
		}
	case token.NOT:
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.r[d] = Val{n: 1 - v.n}
			} else {
				fr.r[d] = mkTerm(fr.w.p.Not(v.o.(*Term)))
			}
		}
	case token.SUB:
		if isFloat(ins.Type()) {
			return func(fr *frame) {
				v := x.get(fr)
				if v.o == nil {
					fr.r[d] = mkF(-v.f())
				} else {
					f := v.o.(*FTerm)
					fr.r[d] = Val{o: &FTerm{fr.w.p.Neg(f.t), f.k}}
				}
			}
		}
		ii := intOf(ins.Type())
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.r[d] = Val{n: norm(-v.n, ii)}
			} else {
				fr.r[d] = fr.w.fitInt(fr.w.p.Neg(fr.w.term(v)), ii)
			}
		}
	case token.XOR:
		ii := intOf(ins.Type())
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.r[d] = Val{n: norm(^v.n, ii)}
			} else {
				t := fr.w.p.Lin2(v.o.(*Term), -1, fr.w.p.zero, 0, -1)
				if !ii.signed {
					// ^x = 2^n-1-x
					if ii.bits == 64 {
						fr.r[d] = Val{n: ^fr.w.concrete(v)}
						return
					}
					t = fr.w.p.AddC(t, 1<<ii.bits)
				}
				fr.r[d] = fr.w.fitInt(t, ii)
			}
		}
	case token.ARROW:
		return func(fr *frame) { panic(unsupported("channel receive")) }
	}
	panic("unop " + ins.Op.String())
}

// fitInt brings a mathematical result into the range of its Go type. It forks
// on overflow, so that the usual path stays linear.
func (w *Worker) fitInt(t *Term, ii intInfo) Val {
	if t.op == OConst {
		return Val{n: norm(t.c, ii)}
	}
	var lo, hi int64
	switch {
	case ii.bits == 64 && ii.signed:
		if t.bits <= 64 {
			return mkTerm(t)
		}
		// wide: in range?
		if w.decide(w.wideIn(t)) {
			return mkTerm(w.narrow(t))
		}
		return mkTerm(w.p.Wrap(t, 64, true))
	case ii.bits == 64:
		if t.bits <= 63 && t.lo >= 0 {
			return mkTerm(t)
		}
		if t.bits <= 63 {
			if w.decide(w.p.Le(w.p.zero, t)) {
				return mkTerm(t)
			}
			// a large unsigned value: give it up to concretisation
			return Val{n: w.concrete(mkTerm(t))}
		}
		return Val{n: w.concrete(mkTerm(w.p.Wrap(t, 64, true)))}
	case ii.signed:
		lo, hi = -1<<(ii.bits-1), 1<<(ii.bits-1)-1
	default:
		lo, hi = 0, 1<<ii.bits-1
	}
	if t.bits <= 63 && t.lo >= lo && t.hi <= hi {
		return mkTerm(t)
	}
	if t.bits > 63 {
		return mkTerm(w.p.Wrap(t, ii.bits, ii.signed))
	}
	if w.decide(w.p.And(w.simp(w.p.Le(w.p.Const(lo), t)), w.simp(w.p.Le(t, w.p.Const(hi))))) {
		return mkTerm(t)
	}
	return mkTerm(w.p.Wrap(t, ii.bits, ii.signed))
}

func (w *Worker) wideIn(t *Term) *Term {
	// -2^63 <= t <= 2^63-1 on a term wider than 64 bits
	one := w.p.Wrap(t, 64, true)
	return w.p.mk(&Term{op: BEq0, args: []*Term{w.p.mk(&Term{op: OLin, args: []*Term{t, one}, coefs: []int64{1, -1}, lo: -1 << 63, hi: 1<<63 - 1, bits: t.bits + 1})}, lo: 0, hi: 1, bits: 1})
}

func (w *Worker) narrow(t *Term) *Term { return w.p.Wrap(t, 64, true) }

func (c *compiler) binop(ins *ssa.BinOp) instrFn {
	d, x, y := c.reg(ins), c.op(ins.X), c.op(ins.Y)
	xt := ins.X.Type()
	op := ins.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if isFloat(xt) {
			return func(fr *frame) {
				a, b := x.get(fr), y.get(fr)
				v := fr.w.fcmp("==", a, b)
				if neg {
					v = fr.w.notVal(v)
				}
				fr.r[d] = v
			}
		}
		ii := intOf(xt)
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			var v Val
			if a.o == nil && b.o == nil {
				v = mkBool(a.n == b.n)
			} else if ii.isInt {
				v = mkTerm(fr.w.simp(fr.w.p.Eq(fr.w.term(a), fr.w.term(b))))
			} else {
				v = fr.w.valEq(a, b)
			}
			if neg {
				v = fr.w.notVal(v)
			}
			fr.r[d] = v
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(xt) {
			return func(fr *frame) {
				a, b := x.get(fr), y.get(fr)
				var r bool
				switch op {
				case token.LSS:
					r = fr.w.strLess(a, b)
				case token.GTR:
					r = fr.w.strLess(b, a)
				case token.LEQ:
					r = !fr.w.strLess(b, a)
				default:
					r = !fr.w.strLess(a, b)
				}
				fr.r[d] = mkBool(r)
			}
		}
		if isFloat(xt) {
			o := op.String()
			return func(fr *frame) { fr.r[d] = fr.w.fcmp(o, x.get(fr), y.get(fr)) }
		}
		ii := intOf(xt)
		uns := !ii.signed && ii.bits == 64
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				var r bool
				if uns {
					p, q := uint64(a.n), uint64(b.n)
					switch op {
					case token.LSS:
						r = p < q
					case token.LEQ:
						r = p <= q
					case token.GTR:
						r = p > q
					default:
						r = p >= q
					}
				} else {
					switch op {
					case token.LSS:
						r = a.n < b.n
					case token.LEQ:
						r = a.n <= b.n
					case token.GTR:
						r = a.n > b.n
					default:
						r = a.n >= b.n
					}
				}
				fr.r[d] = mkBool(r)
				return
			}
			w := fr.w
			if uns && (a.o == nil && a.n < 0 || b.o == nil && b.n < 0) {
				// symbolic values are below 2^63
				var r bool
				if a.o == nil { // a huge
					r = op == token.GTR || op == token.GEQ
				} else {
					r = op == token.LSS || op == token.LEQ
				}
				fr.r[d] = mkBool(r)
				return
			}
			p, q := w.term(a), w.term(b)
			var t *Term
			switch op {
			case token.LSS:
				t = w.p.Lt(p, q)
			case token.LEQ:
				t = w.p.Le(p, q)
			case token.GTR:
				t = w.p.Lt(q, p)
			default:
				t = w.p.Le(q, p)
			}
			fr.r[d] = mkTerm(w.simp(t))
		}
	}
	if isString(xt) && op == token.ADD {
		return func(fr *frame) { fr.r[d] = strConcat(x.get(fr), y.get(fr)) }
	}
	if isFloat(xt) {
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				var r float64
				switch op {
				case token.ADD:
					r = a.f() + b.f()
				case token.SUB:
					r = a.f() - b.f()
				case token.MUL:
					r = a.f() * b.f()
				case token.QUO:
					r = a.f() / b.f()
				}
				if f32 {
					r = float64(float32(r))
				}
				fr.r[d] = mkF(r)
				return
			}
			fr.r[d] = fr.w.farith(op, a, b)
		}
	}
	ii := intOf(ins.Type())
	if !ii.isInt {
		return func(fr *frame) { panic(unsupported("binop on " + ins.Type().String())) }
	}
	yi := intOf(ins.Y.Type())
	switch op {
	case token.ADD:
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				fr.r[d] = Val{n: norm(a.n+b.n, ii)}
				return
			}
			fr.r[d] = fr.w.arith(op, a, b, ii)
		}
	case token.SUB:
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				fr.r[d] = Val{n: norm(a.n-b.n, ii)}
				return
			}
			fr.r[d] = fr.w.arith(op, a, b, ii)
		}
	}
	return func(fr *frame) {
		a, b := x.get(fr), y.get(fr)
		if a.o == nil && b.o == nil {
			fr.r[d] = Val{n: fr.w.intOp(op, a.n, b.n, ii, yi)}
			return
		}
		fr.r[d] = fr.w.arith(op, a, b, ii)
	}
}

func (w *Worker) notVal(v Val) Val {
	if v.o == nil {
		return Val{n: 1 - v.n}
	}
	return mkTerm(w.p.Not(v.o.(*Term)))
}

func (w *Worker) intOp(op token.Token, a, b int64, ii, yi intInfo) int64 {
	switch op {
	case token.ADD:
		return norm(a+b, ii)
	case token.SUB:
		return norm(a-b, ii)
	case token.MUL:
		return norm(a*b, ii)
	case token.QUO, token.REM:
		if b == 0 {
			rtPanic(w, "integer divide by zero")
		}
		if !ii.signed {
			if op == token.QUO {
				return norm(int64(uint64(a)/uint64(b)), ii)
			}
			return norm(int64(uint64(a)%uint64(b)), ii)
		}
		if b == -1 {
			if op == token.QUO {
				return norm(-a, ii)
			}
			return 0
		}
		if op == token.QUO {
			return norm(a/b, ii)
		}
		return norm(a%b, ii)
	case token.AND:
		return norm(a&b, ii)
	case token.OR:
		return norm(a|b, ii)
	case token.XOR:
		return norm(a^b, ii)
	case token.AND_NOT:
		return norm(a&^b, ii)
	case token.SHL, token.SHR:
		if yi.signed && b < 0 {
			rtPanic(w, "negative shift amount")
		}
		sh := uint64(b)
		if op == token.SHL {
			if sh >= 64 {
				return 0
			}
			return norm(a<<sh, ii)
		}
		if ii.signed {
			if sh >= 64 {
				sh = 63
			}
			return a >> sh
		}
		if sh >= 64 {
			return 0
		}
		return norm(int64(uint64(a)>>sh), ii)
	}
	panic(unsupported("int op " + op.String()))
}

func (w *Worker) arith(op token.Token, a, b Val, ii intInfo) Val {
	// unsigned 64-bit constants with the top bit set do not mix with terms
	if !ii.signed && ii.bits == 64 && (a.o == nil && a.n < 0 || b.o == nil && b.n < 0) {
		if op == token.ADD { // adding a "negative" constant is a subtraction
			if a.o == nil {
				a, b = b, a
			}
			return w.fitInt(w.p.AddC(w.term(a), b.n), ii)
		}
		x, y := w.concrete(a), w.concrete(b)
		return Val{n: w.intOp(op, x, y, ii, intInfo{true, 64, false})}
	}
	p := w.p
	switch op {
	case token.ADD:
		return w.fitInt(p.Add(w.term(a), w.term(b)), ii)
	case token.SUB:
		return w.fitInt(p.Sub(w.term(a), w.term(b)), ii)
	case token.MUL:
		return w.fitInt(p.Mul(w.term(a), w.term(b)), ii)
	case token.QUO, token.REM:
		if b.o != nil {
			if w.decide(w.p.Eq0(w.term(b))) {
				rtPanic(w, "integer divide by zero")
			}
			b = Val{n: w.concrete(b)}
		}
		if b.n == 0 {
			rtPanic(w, "integer divide by zero")
		}
		t := w.term(a)
		c := b.n
		neg := c < 0
		if neg {
			c = -c
		}
		lo, _, ok := w.bounds(t)
		if !ok || lo < 0 {
			if ii.signed {
				if !w.decide(p.Le(p.zero, t)) {
					// negative dividend: truncation towards zero
					q := p.Neg(p.FDiv(p.Neg(t), c))
					if op == token.REM {
						return w.fitInt(p.Lin2(t, 1, q, -c, 0), ii)
					}
					if neg {
						q = p.Neg(q)
					}
					return w.fitInt(q, ii)
				}
			}
		}
		if op == token.REM {
			return w.fitInt(p.FMod(t, c), ii)
		}
		q := p.FDiv(t, c)
		if neg {
			q = p.Neg(q)
		}
		return w.fitInt(q, ii)
	case token.AND, token.OR, token.XOR:
		o := map[token.Token]Op{token.AND: OAnd, token.OR: OOr, token.XOR: OXor}[op]
		return w.fitInt(p.Bit(o, w.term(a), w.term(b)), ii)
	case token.AND_NOT:
		if b.o == nil {
			// x &^ m
			nb := ^b.n
			if !ii.signed && ii.bits < 64 {
				nb = norm(nb, ii)
			}
			if !ii.signed && ii.bits == 64 {
				// x - (x & m)
				t := w.term(a)
				return w.fitInt(p.Sub(t, p.Bit(OAnd, t, p.Const(b.n))), ii)
			}
			return w.fitInt(p.Bit(OAnd, w.term(a), p.Const(nb)), ii)
		}
		return w.arith(token.AND_NOT, a, Val{n: w.concrete(b)}, ii)
	case token.SHL:
		if b.o != nil {
			b = Val{n: w.concrete(b)}
			if a.o == nil {
				return Val{n: w.intOp(op, a.n, b.n, ii, intInfo{true, 64, true})}
			}
		}
		if b.n >= 62 {
			x := w.concrete(a)
			return Val{n: w.intOp(op, x, b.n, ii, intInfo{true, 64, false})}
		}
		t := p.MulC(w.term(a), 1<<uint(b.n))
		return w.fitInt(t, ii)
	case token.SHR:
		if b.o != nil {
			b = Val{n: w.concrete(b)}
			if a.o == nil {
				return Val{n: w.intOp(op, a.n, b.n, ii, intInfo{true, 64, true})}
			}
		}
		if b.n >= 62 {
			b.n = 62
			if !ii.signed {
				return Val{}
			}
		}
		return w.fitInt(p.FDiv(w.term(a), 1<<uint(b.n)), ii)
	}
	panic(unsupported("symbolic " + op.String()))
}

func (c *compiler) convert(xv ssa.Value, to types.Type, d int) instrFn {
	x := c.op(xv)
	from := xv.Type()
	fi, ti := intOf(from), intOf(to)
	switch {
	case fi.isInt && ti.isInt:
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.r[d] = Val{n: norm(v.n, ti)}
			} else {
				fr.r[d] = fr.w.fitInt(fr.w.term(v), ti)
			}
		}
	case fi.isInt && isFloat(to):
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				if !fi.signed && v.n < 0 {
					fr.r[d] = mkF(float64(uint64(v.n)))
				} else {
					fr.r[d] = mkF(float64(v.n))
				}
			} else {
				fr.r[d] = fr.w.mkFTerm(fr.w.term(v), 0)
			}
		}
	case isFloat(from) && ti.isInt:
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				f := v.f()
				if !ti.signed {
					fr.r[d] = Val{n: norm(int64(uint64(f)), ti)}
				} else {
					fr.r[d] = Val{n: norm(f2i(f), ti)}
				}
			} else {
				fr.r[d] = fr.w.f2iTerm(v.o.(*FTerm), ti)
			}
		}
	case isFloat(from) && isFloat(to):
		f32 := to.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			v := x.get(fr)
			if f32 && v.o == nil {
				v = mkF(float64(float32(v.f())))
			}
			fr.r[d] = v
		}
	case isString(to):
		if fi.isInt {
			return func(fr *frame) {
				v := x.get(fr)
				if v.o == nil {
					fr.r[d] = mkStr(string(rune(v.n)))
				} else {
					fr.r[d] = canonStr(fr.w.encodeRune(nil, v))
				}
			}
		}
		if isString(from) {
			return func(fr *frame) { fr.r[d] = x.get(fr) }
		}
		if s, ok := from.Underlying().(*types.Slice); ok {
			if intOf(s.Elem()).bits == 32 { // []rune
				return func(fr *frame) {
					var b []Val
					for _, r := range sliceOf(x.get(fr)) {
						b = fr.w.encodeRune(b, r)
					}
					fr.r[d] = canonStr(b)
				}
			}
			return func(fr *frame) {
				a := sliceOf(x.get(fr))
				fr.r[d] = canonStr(append([]Val(nil), a...))
			}
		}
	}
	if s, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		if intOf(s.Elem()).bits == 32 {
			return func(fr *frame) {
				v := x.get(fr)
				out := []Val{}
				for i := 0; i < strLen(v); {
					r, size := fr.w.decodeRune(v, i)
					out = append(out, r)
					i += size
				}
				fr.r[d] = Val{o: &SliceV{out}}
			}
		}
		return func(fr *frame) {
			v := x.get(fr)
			fr.r[d] = Val{o: &SliceV{append([]Val{}, strBytes(v)...)}}
		}
	}
	// pointers, unsafe.Pointer, named slices, ...
	return func(fr *frame) { fr.r[d] = x.get(fr) }
}

func f2i(f float64) int64 {
	if math.IsNaN(f) || f >= 9.3e18 || f <= -9.3e18 {
		return -1 << 63 // amd64
	}
	return int64(f)
}

func (c *compiler) lookup(ins *ssa.Lookup) instrFn {
	d, x, k := c.reg(ins), c.op(ins.X), c.op(ins.Index)
	if isString(ins.X.Type()) {
		return func(fr *frame) { fr.r[d] = fr.w.indexStr(x.get(fr), k.get(fr)) }
	}
	et := ins.X.Type().Underlying().(*types.Map).Elem()
	z := zeroVal(et)
	commaOk := ins.CommaOk
	return func(fr *frame) {
		m, _ := x.get(fr).o.(*MapV)
		i := -1
		if m != nil {
			fr.w.touchMap(m, false)
			if m.n > 0 {
				i = fr.w.mapFind(m, k.get(fr))
			}
		}
		v := z
		if i >= 0 {
			v = m.vals[i]
		}
		if commaOk {
			fr.r[d] = Val{o: &Tuple{[]Val{v, mkBool(i >= 0)}}}
		} else {
			fr.r[d] = v
		}
	}
}

func (c *compiler) slice(ins *ssa.Slice) instrFn {
	d, x := c.reg(ins), c.op(ins.X)
	var lo, hi, mx opnd
	if ins.Low != nil {
		lo = c.op(ins.Low)
	}
	hasHi, hasMax := ins.High != nil, ins.Max != nil
	if hasHi {
		hi = c.op(ins.High)
	}
	if hasMax {
		mx = c.op(ins.Max)
	}
	hasLo := ins.Low != nil
	return func(fr *frame) {
		w := fr.w
		v := x.get(fr)
		l := 0
		if hasLo {
			l = int(w.concrete(lo.get(fr)))
		}
		switch o := v.o.(type) {
		case string, *SymStr:
			n := strLen(v)
			h := n
			if hasHi {
				h = int(w.concrete(hi.get(fr)))
			}
			if l < 0 || h < l || h > n {
				rtPanic(w, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.r[d] = strSlice(v, l, h)
			return
		case *SliceV, nil:
			var a []Val
			if s, ok := o.(*SliceV); ok {
				a = s.a
			}
			h := len(a)
			if hasHi {
				h = int(w.concrete(hi.get(fr)))
			}
			m := cap(a)
			if hasMax {
				m = int(w.concrete(mx.get(fr)))
			}
			if l < 0 || h < l || m < h || m > cap(a) {
				rtPanic(w, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(a)))
			}
			if v.o == nil {
				fr.r[d] = v
				return
			}
			fr.r[d] = Val{o: &SliceV{a[l:h:m]}}
			return
		case *Val: // array pointer
			ag, ok := o.o.(*Agg)
			if !ok {
				panic(unsupported("slice of opaque"))
			}
			a := ag.f
			h, m := len(a), len(a)
			if hasHi {
				h = int(w.concrete(hi.get(fr)))
			}
			if hasMax {
				m = int(w.concrete(mx.get(fr)))
			}
			if l < 0 || h < l || m < h || m > len(a) {
				rtPanic(w, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, len(a)))
			}
			fr.r[d] = Val{o: &SliceV{a[l:h:m]}}
			return
		}
		panic(unsupported(fmt.Sprintf("slice of %T", v.o)))
	}
}

func (c *compiler) typeAssert(ins *ssa.TypeAssert) instrFn {
	d, x := c.reg(ins), c.op(ins.X)
	t := ins.AssertedType
	_, toIface := t.Underlying().(*types.Interface)
	ct := c.e.canon(t)
	z := zeroVal(t)
	e := c.e
	commaOk := ins.CommaOk
	return func(fr *frame) {
		v := x.get(fr)
		ok := false
		res := z
		if ho, isHost := v.o.(*HostObj); isHost && ho.kind == "runtime.Error" {
			if toIface {
				ok, res = true, v
			}
		} else if i, is := v.o.(*Iface); is {
			if toIface {
				if e.implements(i.t, ct) {
					ok, res = true, v
				}
			} else if i.t == ct {
				ok, res = true, i.v
			}
		}
		if commaOk {
			fr.r[d] = Val{o: &Tuple{[]Val{res, mkBool(ok)}}}
			return
		}
		if !ok {
			panic(&targetPanic{msg: "interface conversion: not " + t.String(), stack: fr.w.stackString()})
		}
		fr.r[d] = res
	}
}

// ---- calls

func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *frame) (Val, []Val) {
	var ops []opnd
	for _, a := range cc.Args {
		ops = append(ops, c.op(a))
	}
	fv := c.op(cc.Value)
	if cc.IsInvoke() {
		meth := cc.Method
		return func(fr *frame) (Val, []Val) {
			recv := fv.get(fr)
			args := make([]Val, len(ops)+1)
			fn := fr.w.lookupMethod(recv, meth, &args[0])
			for i := range ops {
				args[i+1] = ops[i].get(fr)
			}
			return fn, args
		}
	}
	return func(fr *frame) (Val, []Val) {
		args := make([]Val, len(ops))
		for i := range ops {
			args[i] = ops[i].get(fr)
		}
		return fv.get(fr), args
	}
}

func (w *Worker) lookupMethod(recv Val, meth *types.Func, self *Val) Val {
	if recv.o == nil {
		w.nilDeref(recv)
	}
	switch i := recv.o.(type) {
	case *Iface:
		if ho, ok := i.v.o.(*HostObj); ok && ho.kind == "error" {
			*self = i.v
			return hostErrorMethod(meth.Name())
		}
		fn := w.eng.method(i.t, meth)
		*self = i.v
		return Val{o: &Closure{fn: fn}}
	case *HostObj:
		*self = recv
		return hostErrorMethod(meth.Name())
	}
	panic(unsupported(fmt.Sprintf("invoke on %T", recv.o)))
}

func hostErrorMethod(name string) Val {
	return Val{o: &Closure{native: func(w *Worker, args []Val) Val {
		switch name {
		case "Error":
			h := args[0].o.(*HostObj)
			if v, ok := h.v.(Val); ok {
				return v
			}
			return mkStr(fmt.Sprint(h.v))
		}
		panic(unsupported("method on host error: " + name))
	}}}
}

func (w *Worker) callVal(fn Val, args []Val) Val {
	switch f := fn.o.(type) {
	case *Closure:
		if f.native != nil {
			return f.native(w, args)
		}
		return w.call(f.fn, args, f.env)
	case *ssa.Builtin:
		return w.builtin(f.Name(), args, nil)
	case nil:
		w.nilDeref(fn)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn.o)))
}

func (c *compiler) callInstr(ins *ssa.Call) instrFn {
	d := c.reg(ins)
	cc := &ins.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var ops []opnd
		for _, a := range cc.Args {
			ops = append(ops, c.op(a))
		}
		name := b.Name()
		// fast paths
		if name == "len" {
			x := ops[0]
			return func(fr *frame) { fr.r[d] = fr.w.lenOf(x.get(fr)) }
		}
		return func(fr *frame) {
			var buf [4]Val
			args := buf[:0]
			for i := range ops {
				args = append(args, ops[i].get(fr))
			}
			fr.r[d] = fr.w.builtin(name, args, cc)
		}
	}
	if fn, ok := cc.Value.(*ssa.Function); ok && !cc.IsInvoke() {
		var ops []opnd
		for _, a := range cc.Args {
			ops = append(ops, c.op(a))
		}
		e := c.e
		var fc *fnCode
		var once sync.Once
		return func(fr *frame) {
			once.Do(func() { fc = e.code(fn) })
			var buf [6]Val
			args := buf[:0]
			if len(ops) > 6 {
				args = make([]Val, 0, len(ops))
			}
			for i := range ops {
				args = append(args, ops[i].get(fr))
			}
			w := fr.w
			if fc.intr != nil {
				if v, ok := fc.intr(w, fc, args); ok {
					fr.r[d] = v
					return
				}
			}
			if fc.noBody {
				panic(unsupported("no body: " + fc.name))
			}
			fr.r[d] = w.exec(fc, args, nil)
		}
	}
	prep := c.prepCall(cc)
	return func(fr *frame) {
		fn, args := prep(fr)
		fr.r[d] = fr.w.callVal(fn, args)
	}
}

func (w *Worker) lenOf(v Val) Val {
	switch o := v.o.(type) {
	case nil:
		return Val{}
	case string:
		return Val{n: int64(len(o))}
	case *SymStr:
		return Val{n: int64(len(o.b))}
	case *SliceV:
		return Val{n: int64(len(o.a))}
	case *MapV:
		w.touchMap(o, false)
		return Val{n: int64(o.n)}
	case *Agg:
		return Val{n: int64(len(o.f))}
	case *Val:
		if a, ok := o.o.(*Agg); ok {
			return Val{n: int64(len(a.f))}
		}
	}
	panic(unsupported(fmt.Sprintf("len of %T", v.o)))
}

func (w *Worker) builtin(name string, args []Val, cc *ssa.CallCommon) Val {
	switch name {
	case "len":
		return w.lenOf(args[0])
	case "cap":
		switch o := args[0].o.(type) {
		case *SliceV:
			return Val{n: int64(cap(o.a))}
		}
		return w.lenOf(args[0])
	case "append":
		var src []Val
		switch o := args[1].o.(type) {
		case *SliceV:
			src = o.a
		case nil:
		case string, *SymStr:
			src = strBytes(args[1])
		default:
			panic(unsupported("append"))
		}
		if len(src) == 0 {
			return args[0]
		}
		dst := sliceOf(args[0])
		if len(dst)+len(src) <= cap(dst) {
			n := len(dst)
			out := dst[:n+len(src)]
			for i, v := range src {
				w.store(&out[n+i], v)
			}
			return Val{o: &SliceV{out}}
		}
		nc := len(dst) + len(src)
		if g := cap(dst) * 2; g > nc && cap(dst) < 256 {
			nc = g
		} else if g := cap(dst) + cap(dst)/4; g > nc {
			nc = g
		}
		out := make([]Val, len(dst)+len(src), nc)
		copy(out, dst) // cells move; aggregates keep identity of the copy below
		for i := range dst {
			if _, ok := out[i].o.(*Agg); ok {
				out[i] = copyVal(out[i])
			}
		}
		for i, v := range src {
			out[len(dst)+i] = copyVal(v)
		}
		if nc > len(out) {
			// spare cells need a typed zero for aggregates
			z := zeroLike(out[len(out)-1])
			if z.o != nil {
				full := out[:nc]
				for i := len(out); i < nc; i++ {
					full[i] = copyVal(z)
				}
			}
		}
		return Val{o: &SliceV{out}}
	case "copy":
		dst := sliceOf(args[0])
		var src []Val
		switch args[1].o.(type) {
		case string, *SymStr:
			src = strBytes(args[1])
		default:
			src = sliceOf(args[1])
		}
		n := min(len(dst), len(src))
		tmp := make([]Val, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.store(&dst[i], tmp[i])
		}
		return Val{n: int64(n)}
	case "delete":
		if m, ok := args[0].o.(*MapV); ok {
			w.mapDelete(m, args[1])
		}
		return Val{}
	case "clear":
		switch o := args[0].o.(type) {
		case *MapV:
			for i := range o.keys {
				if !o.dead[i] {
					w.mapDelete(o, o.keys[i])
				}
			}
		case *SliceV:
			for i := range o.a {
				w.store(&o.a[i], zeroLike(o.a[i]))
			}
		}
		return Val{}
	case "min", "max":
		v := args[0]
		for _, a := range args[1:] {
			var less bool
			if cc != nil && isFloat(cc.Args[0].Type()) {
				if a.o == nil && v.o == nil {
					if name == "min" {
						v = mkF(math.Min(v.f(), a.f()))
					} else {
						v = mkF(math.Max(v.f(), a.f()))
					}
					continue
				}
				less = w.truth(w.fcmp("<", a, v))
			} else if _, ok := a.o.(string); ok {
				less = w.strLess(a, v)
			} else if a.o == nil && v.o == nil {
				less = a.n < v.n
			} else {
				c := w.simp(w.p.Lt(w.term(a), w.term(v)))
				x, y := w.term(a), w.term(v)
				if name == "min" {
					v = mkTerm(w.p.Ite(c, x, y))
				} else {
					v = mkTerm(w.p.Ite(c, y, x))
				}
				continue
			}
			if less == (name == "min") {
				v = a
			}
		}
		return v
	case "recover":
		// the frame whose deferred call is running
		if n := len(w.deferFrames); n > 0 {
			fr := w.deferFrames[n-1]
			if fr.pan != nil && !fr.recovered {
				fr.recovered = true
				p := fr.pan
				if p.v.o == nil {
					return Val{o: &HostObj{kind: "runtime.Error", v: p.msg}}
				}
				return p.v
			}
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "panic":
		panic(&targetPanic{v: args[0], msg: w.panicText(args[0]), stack: w.stackString()})
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			w.nilDeref(args[0])
		}
		return args[0]
	case "String": // unsafe.String(ptr,len)
		n := int(w.concrete(args[1]))
		if n == 0 {
			return mkStr("")
		}
		a := w.ptrToSlice(args[0], n)
		return canonStr(append([]Val(nil), a...))
	case "SliceData":
		s := sliceOf(args[0])
		if len(s) == 0 {
			if cap(s) > 0 {
				s = s[:1]
			} else {
				return Val{}
			}
		}
		return Val{o: &Val{o: &sliceData{s}}}
	case "StringData":
		return Val{o: &Val{o: &sliceData{strBytes(args[0])}}}
	case "Slice":
		n := int(w.concrete(args[1]))
		return Val{o: &SliceV{w.ptrToSlice(args[0], n)}}
	case "real", "imag", "complex":
		panic(unsupported("complex numbers"))
	case "close":
		return Val{}
	}
	panic(unsupported("builtin " + name))
}

// sliceData is what unsafe.SliceData and unsafe.StringData point at.
type sliceData struct{ a []Val }

func (w *Worker) ptrToSlice(p Val, n int) []Val {
	if c, ok := p.o.(*Val); ok {
		if sd, ok := c.o.(*sliceData); ok {
			return sd.a[:n:n]
		}
	}
	if n == 0 {
		return nil
	}
	panic(unsupported("unsafe pointer"))
}

func zeroLike(v Val) Val {
	switch o := v.o.(type) {
	case *Agg:
		f := make([]Val, len(o.f))
		for i := range f {
			f[i] = zeroLike(o.f[i])
		}
		return Val{o: &Agg{f}}
	case string, *SymStr:
		return Val{o: ""}
	case *TimeV:
		return Val{o: zeroTime}
	}
	return Val{}
}

var _ = constant.Int

// initIntrinsic wraps a package initialiser: packages of modules run in order,
// those of the standard library when one of their variables is first used.
func initIntrinsic(p *ssa.Package) intrinsic {
	return func(w *Worker, fc *fnCode, args []Val) (Val, bool) {
		if !w.eng.eager(p.Pkg.Path()) {
			return Val{}, true
		}
		if w.inited[p] {
			return Val{}, true
		}
		w.inited[p] = true
		old := w.curInit
		w.curInit = p
		w.exec(fc, nil, nil)
		w.curInit = old
		return Val{}, true
	}
}

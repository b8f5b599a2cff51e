package main

// SMT back end: terms are printed as QF_BV and decided by a live z3 process;
// hard queries go to a portfolio of fresh processes.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Portfolio, CacheHits, Quick int64
	Nanos                                                        int64
}

var gstats SolverStats

type Solver struct {
	p       *Pool
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.Closer
	out     *bufio.Reader
	nq      int
	cache   map[string]cacheEnt
	timeout int // ms for the live process
}

type cacheEnt struct {
	r SatResult
	m map[int32]int64
}

var solverGen int32

func newSolver(p *Pool) *Solver {
	return &Solver{p: p, cache: map[string]cacheEnt{}, timeout: 4000}
}

func (s *Solver) start() {
	if s.cmd != nil && s.nq < 5000 {
		s.nq++
		return
	}
	s.stop()
	cmd := exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout))
	w, _ := cmd.StdinPipe()
	r, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3-new: %v", err))
	}
	s.nq = 0
	s.cmd, s.in, s.inc, s.out = cmd, bufio.NewWriterSize(w, 1<<16), w, bufio.NewReaderSize(r, 1<<16)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvconst(v int64, w int) string {
	if w <= 64 {
		u := uint64(v)
		if w < 64 {
			u &= 1<<uint(w) - 1
		}
		return "(_ bv" + strconv.FormatUint(u, 10) + " " + strconv.Itoa(w) + ")"
	}
	if v >= 0 {
		return "(_ bv" + strconv.FormatInt(v, 10) + " " + strconv.Itoa(w) + ")"
	}
	// sign extension of a 64 bit constant
	return "((_ sign_extend " + strconv.Itoa(w-64) + ") " + bvconst(v, 64) + ")"
}

func fit(str string, from, to int) string {
	if from == to {
		return str
	}
	if from < to {
		return "((_ sign_extend " + strconv.Itoa(to-from) + ") " + str + ")"
	}
	return "((_ extract " + strconv.Itoa(to-1) + " 0) " + str + ")"
}

type emitter struct {
	w    *bytes.Buffer
	gen  int32
	defs int
	divs map[divKey]bool
}

type divKey struct {
	x string
	c int64
}

// divide introduces the quotient and the remainder of the non-negative
// bit-vector x (of width W, at most hi) by c as two variables that are fixed
// by x = c*q + r, 0 <= r < c.
func (e *emitter) divide(id int32, x string, W int, hi, c int64) (q, r string) {
	k := divKey{x, c}
	if e.divs == nil {
		e.divs = map[divKey]bool{}
	}
	h := fnv32(x)
	q = fmt.Sprintf("q%x_%d_%d", h, W, c)
	r = fmt.Sprintf("r%x_%d_%d", h, W, c)
	if e.divs[k] {
		return
	}
	e.divs[k] = true
	wq, wr := sbits(0, hi/c), sbits(0, c-1)
	// width that holds c*q+r for every q and r of these widths
	V := max(W, sbits(0, hi+c)+1)
	fmt.Fprintf(e.w, "(declare-const %s (_ BitVec %d))\n(declare-const %s (_ BitVec %d))\n", q, wq, r, wr)
	fmt.Fprintf(e.w, "(assert (= %s (bvadd (bvmul %s %s) %s)))\n", fit(x, W, V), bvconst(c, V), fit(q, wq, V), fit(r, wr, V))
	fmt.Fprintf(e.w, "(assert (bvsle %s %s))\n(assert (bvsle %s %s))\n", bvconst(0, wr), r, r, bvconst(c-1, wr))
	fmt.Fprintf(e.w, "(assert (bvsle %s %s))\n(assert (bvsle %s %s))\n", bvconst(0, wq), q, q, bvconst(hi/c, wq))
	return
}

func fnv32(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		return bvconst(t.c, t.bits)
	case BConst:
		if t.c != 0 {
			return "true"
		}
		return "false"
	case OVar, BVar:
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (e *emitter) define(t *Term) {
	if t.emit == e.gen || t.op == OConst || t.op == BConst {
		return
	}
	for _, a := range t.args {
		e.define(a)
	}
	t.emit = e.gen
	e.defs++
	w := t.bits
	switch t.op {
	case OVar:
		if t.lo != 0 && w <= 32 {
			// small ranges count from their lower end
			u := sbits(0, t.hi-t.lo)
			W := max(u, w)
			fmt.Fprintf(e.w, "(declare-const u%d (_ BitVec %d))\n", t.id, u)
			fmt.Fprintf(e.w, "(define-fun v%d () (_ BitVec %d) %s)\n", t.id, w, fit("(bvadd "+fit("u"+strconv.Itoa(int(t.id)), u, W)+" "+bvconst(t.lo, W)+")", W, w))
			return
		}
		fmt.Fprintf(e.w, "(declare-const v%d (_ BitVec %d))\n", t.id, w)
		return
	case BVar:
		fmt.Fprintf(e.w, "(declare-const v%d Bool)\n", t.id)
		return
	}
	var body string
	arg := func(i int, to int) string { return fit(ref(t.args[i]), t.args[i].bits, to) }
	switch t.op {
	case OLin:
		// modular arithmetic of the width of the result is exact
		W := w
		base := t.c
		var sb strings.Builder
		for i, a := range t.args {
			if a.op == OVar && a.lo != 0 && a.bits <= 32 && w <= 62 {
				base += t.coefs[i] * a.lo
			}
		}
		n := 0
		if base != 0 {
			n++
		}
		n += len(t.args)
		if n > 1 {
			sb.WriteString("(bvadd")
		}
		for i := range t.args {
			a := arg(i, W)
			k := t.coefs[i]
			if x := t.args[i]; x.op == OVar && x.lo != 0 && x.bits <= 32 && w <= 62 {
				a = fit("u"+strconv.Itoa(int(x.id)), sbits(0, x.hi-x.lo), W)
			}
			switch {
			case k == 1:
			case k == -1:
				a = "(bvneg " + a + ")"
			default:
				a = "(bvmul " + bvconst(k, W) + " " + a + ")"
			}
			if n > 1 {
				sb.WriteString(" ")
			}
			sb.WriteString(a)
		}
		if base != 0 {
			sb.WriteString(" " + bvconst(base, W))
		}
		if n > 1 {
			sb.WriteString(")")
		}
		body = fit(sb.String(), W, w)
	case OMul:
		W := max(t.args[0].bits+t.args[1].bits, w)
		body = fit("(bvmul "+arg(0, W)+" "+arg(1, W)+")", W, w)
	case OFDiv, OFMod:
		a := t.args[0]
		W := a.bits
		W = max(W, sbits(0, t.c))
		x := arg(0, W)
		switch {
		case a.bits <= 50 && a.lo >= 0:
			q, r := e.divide(t.id, x, W, a.hi, t.c)
			if t.op == OFDiv {
				body = fit(q, sbits(0, a.hi/t.c), w)
			} else {
				body = fit(r, sbits(0, t.c-1), w)
			}
		case a.bits <= 50:
			// shift to the non-negative side: x + c*K
			K := floorDiv(-a.lo, t.c) + 1
			m, _ := mulOv(K, t.c)
			W = max(W, sbits(0, a.hi+m)) + 1
			x = "(bvadd " + arg(0, W) + " " + bvconst(m, W) + ")"
			q, r := e.divide(t.id, x, W, a.hi+m, t.c)
			if t.op == OFDiv {
				W2 := max(sbits(0, (a.hi+m)/t.c), w, sbits(K, K)) + 1
				body = fit("(bvsub "+fit(q, sbits(0, (a.hi+m)/t.c), W2)+" "+bvconst(K, W2)+")", W2, w)
			} else {
				body = fit(r, sbits(0, t.c-1), w)
			}
		case t.op == OFMod:
			body = fit("(bvsmod "+x+" "+bvconst(t.c, W)+")", W, w)
		default:
			// floor = (x - smod(x,c)) / c exactly
			W++
			x = arg(0, W)
			body = fit("(bvsdiv (bvsub "+x+" (bvsmod "+x+" "+bvconst(t.c, W)+")) "+bvconst(t.c, W)+")", W, w)
		}
	case OIte:
		if w < t.args[1].bits || w < t.args[2].bits {
			w = max(t.args[1].bits, t.args[2].bits)
		}
		body = "(ite " + ref(t.args[0]) + " " + arg(1, w) + " " + arg(2, w) + ")"
		body = fit(body, w, t.bits)
		w = t.bits
	case OTbl:
		idx := t.args[0]
		iw := max(idx.bits, sbits(0, int64(len(t.tbl))))
		x := arg(0, iw)
		// runs of equal values
		type run struct{ lo, hi, v int64 }
		var runs []run
		for i, v := range t.tbl {
			if n := len(runs); n > 0 && runs[n-1].v == v {
				runs[n-1].hi = int64(i)
			} else {
				runs = append(runs, run{int64(i), int64(i), v})
			}
		}
		var rec func(a, b int) string
		rec = func(a, b int) string {
			if b-a == 1 {
				return bvconst(runs[a].v, w)
			}
			m := (a + b) / 2
			return "(ite (bvsle " + x + " " + bvconst(runs[m-1].hi, iw) + ") " + rec(a, m) + " " + rec(m, b) + ")"
		}
		body = rec(0, len(runs))
		body = "(ite (or (bvslt " + x + " " + bvconst(0, iw) + ") (bvsgt " + x + " " + bvconst(int64(len(t.tbl)-1), iw) + ")) " + bvconst(t.tbl[0], w) + " " + body + ")"
	case OWrap:
		n, signed := int(t.c), false
		if n < 0 {
			n, signed = -n, true
		}
		a := t.args[0]
		x := arg(0, max(a.bits, n))
		x = fit(x, max(a.bits, n), n)
		if signed {
			body = fit(x, n, w)
		} else {
			body = "((_ zero_extend " + strconv.Itoa(w-n) + ") " + x + ")"
		}
	case OAnd, OOr, OXor:
		W := max(t.args[0].bits, t.args[1].bits, w)
		nm := map[Op]string{OAnd: "bvand", OOr: "bvor", OXor: "bvxor"}[t.op]
		body = fit("("+nm+" "+arg(0, W)+" "+arg(1, W)+")", W, w)
	case BEq0:
		a := t.args[0]
		body = "(= " + ref(a) + " " + bvconst(0, a.bits) + ")"
	case BLe0:
		a := t.args[0]
		body = "(bvsle " + ref(a) + " " + bvconst(0, a.bits) + ")"
	case BNot:
		body = "(not " + ref(t.args[0]) + ")"
	case BAnd:
		body = "(and " + ref(t.args[0]) + " " + ref(t.args[1]) + ")"
	case BOr:
		body = "(or " + ref(t.args[0]) + " " + ref(t.args[1]) + ")"
	case BIn:
		body = inFormula(ref(t.args[0]), t.args[0].bits, t.tbl)
	default:
		panic("define")
	}
	if t.isBool() {
		fmt.Fprintf(e.w, "(define-fun t%d () Bool %s)\n", t.id, body)
	} else {
		fmt.Fprintf(e.w, "(define-fun t%d () (_ BitVec %d) %s)\n", t.id, w, body)
	}
}

func inFormula(x string, w int, r []int64) string {
	var sb strings.Builder
	sb.WriteString("(or false")
	for i := 0; i+1 < len(r); i += 2 {
		if r[i] == r[i+1] {
			fmt.Fprintf(&sb, " (= %s %s)", x, bvconst(r[i], w))
		} else {
			fmt.Fprintf(&sb, " (and (bvsle %s %s) (bvsle %s %s))", bvconst(r[i], w), x, x, bvconst(r[i+1], w))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func linWidth(t *Term) int {
	mag := float64(absu(t.c))
	for i, a := range t.args {
		m := 0.0
		if a.bits > 63 {
			m = pow2(a.bits)
		} else {
			m = float64(max(absu(a.lo), absu(a.hi)))
		}
		mag += (m + 1) * float64(absu(t.coefs[i]))
	}
	b := 2
	for x := mag; x >= 1; x /= 2 {
		b++
	}
	mw := t.bits
	for i, a := range t.args {
		mw = max(mw, a.bits, sbits(t.coefs[i], t.coefs[i]))
	}
	return max(b, mw, sbits(t.c, t.c))
}

func varDomain(t *Term) string {
	if t.op != OVar {
		return ""
	}
	x := ref(t)
	if t.dset != nil {
		var r []int64
		for i, b := range t.dset {
			if b {
				v := t.lo + int64(i)
				if n := len(r); n > 0 && r[n-1]+1 == v {
					r[n-1] = v
				} else {
					r = append(r, v, v)
				}
			}
		}
		f := inFormula(x, t.bits, r)
		if t.lo != 0 && t.bits <= 32 {
			u := sbits(0, t.hi-t.lo)
			f = "(and (bvsle " + bvconst(0, u) + " u" + strconv.Itoa(int(t.id)) + ") " + f + ")"
		}
		return f
	}
	if t.lo != 0 && t.bits <= 32 {
		u := sbits(0, t.hi-t.lo)
		n := "u" + strconv.Itoa(int(t.id))
		return fmt.Sprintf("(and (bvsle %s %s) (bvsle %s %s))", bvconst(0, u), n, n, bvconst(t.hi-t.lo, u))
	}
	full := t.lo == -1<<(t.bits-1) && t.hi == 1<<(t.bits-1)-1
	if full {
		return ""
	}
	return fmt.Sprintf("(and (bvsle %s %s) (bvsle %s %s))", bvconst(t.lo, t.bits), x, x, bvconst(t.hi, t.bits))
}

func sortedVars(cs []*Term) []int32 {
	seen := map[int32]bool{}
	var out []int32
	for _, c := range cs {
		for _, v := range c.vars {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// Check decides the conjunction of cs. On Sat it returns values for the
// variables that occur.
func (s *Solver) Check(cs []*Term) (SatResult, map[int32]int64) {
	// canonical key
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	kb := make([]byte, 0, len(ids)*4)
	for _, i := range ids {
		kb = append(kb, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	if e, ok := s.cache[string(kb)]; ok {
		atomic.AddInt64(&gstats.CacheHits, 1)
		return e.r, e.m
	}
	t0 := time.Now()
	r, m := s.checkLive(cs)
	if d := time.Since(t0); verbose && d > 150*time.Millisecond {
		s.dumpSlow(cs, d)
	}
	if r == Unknown {
		r, m = s.portfolio(cs, 20*time.Second)
	}
	atomic.AddInt64(&gstats.Nanos, int64(time.Since(t0)))
	atomic.AddInt64(&gstats.Queries, 1)
	switch r {
	case Sat:
		atomic.AddInt64(&gstats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&gstats.UnsatN, 1)
	default:
		atomic.AddInt64(&gstats.UnknownN, 1)
	}
	if len(s.cache) > 200000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[string(kb)] = cacheEnt{r, m}
	return r, m
}

// script writes the conjunction as a self-contained script body.
func (s *Solver) script(buf *bytes.Buffer, cs []*Term, vars []int32, cmd string) {
	em := &emitter{w: buf, gen: atomic.AddInt32(&solverGen, 1)}
	for _, v := range vars {
		em.define(s.p.vars[v])
	}
	for _, v := range vars {
		if d := varDomain(s.p.vars[v]); d != "" {
			buf.WriteString("(assert " + d + ")\n")
		}
	}
	for _, c := range cs {
		em.define(c)
		buf.WriteString("(assert " + ref(c) + ")\n")
	}
	buf.WriteString(cmd)
}

func (s *Solver) checkLive(cs []*Term) (res SatResult, model map[int32]int64) {
	defer func() {
		if e := recover(); e != nil {
			s.stop()
			res, model = Unknown, nil
		}
	}()
	s.start()
	var buf bytes.Buffer
	vars := sortedVars(cs)
	buf.WriteString("(push 1)\n")
	s.script(&buf, cs, vars, "(check-sat-using qfbv)\n")
	s.in.Write(buf.Bytes())
	if err := s.in.Flush(); err != nil {
		panic(err)
	}
	line := s.readLine()
	switch line {
	case "sat":
		model = map[int32]int64{}
		if len(vars) > 0 {
			var q bytes.Buffer
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(" " + ref(s.p.vars[v]))
			}
			q.WriteString("))\n(echo \"done\")\n")
			s.in.Write(q.Bytes())
			s.in.Flush()
			var sb strings.Builder
			for {
				l := s.readLine()
				if l == "done" {
					break
				}
				sb.WriteString(l + " ")
			}
			parseValues(s.p, sb.String(), vars, model)
		}
		res = Sat
	case "unsat":
		res = Unsat
	default:
		res = Unknown
		if strings.HasPrefix(line, "(error") {
			s.stop()
			lastSolverError.Store(line)
			return Unknown, nil
		}
	}
	s.in.WriteString("(pop 1)\n")
	return
}

var lastSolverError atomic.Value

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(err)
	}
	return strings.TrimSpace(l)
}

func parseValues(p *Pool, str string, vars []int32, model map[int32]int64) {
	byName := map[string]int32{}
	for _, v := range vars {
		byName[ref(p.vars[v])] = v
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(str))
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok {
			continue
		}
		t := p.vars[v]
		x := toks[i+1]
		switch {
		case x == "true":
			model[v] = 1
		case x == "false":
			model[v] = 0
		case strings.HasPrefix(x, "#x"), strings.HasPrefix(x, "#b"):
			base := 16
			if x[1] == 'b' {
				base = 2
			}
			u, err := strconv.ParseUint(x[2:], base, 64)
			if err != nil {
				continue
			}
			model[v] = signExt(u, t.bits)
		case x == "(" && i+4 < len(toks) && strings.HasPrefix(toks[i+3], "bv"):
			u, _ := strconv.ParseUint(toks[i+3][2:], 10, 64)
			model[v] = signExt(u, t.bits)
		}
	}
}

func signExt(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	if u>>(uint(w)-1)&1 == 1 {
		return int64(u | ^uint64(0)<<uint(w))
	}
	return int64(u)
}

var portfolioGate = make(chan struct{}, 4)

// portfolio runs several fresh solvers on a self-contained script.
func (s *Solver) portfolio(cs []*Term, limit time.Duration) (SatResult, map[int32]int64) {
	portfolioGate <- struct{}{}
	defer func() { <-portfolioGate }()
	atomic.AddInt64(&gstats.Portfolio, 1)
	var buf bytes.Buffer
	vars := sortedVars(cs)
	buf.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	s.script(&buf, cs, vars, "(check-sat)\n")
	if len(vars) > 0 {
		buf.WriteString("(get-value (")
		for _, v := range vars {
			buf.WriteString(" " + ref(s.p.vars[v]))
		}
		buf.WriteString("))\n")
	}
	script := buf.String()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type ans struct {
		r   SatResult
		out string
	}
	ch := make(chan ans, 3)
	cmds := [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum"}, {"cvc5", "--lang=smt2", "--produce-models", "--bitblast=eager"}}
	var wg sync.WaitGroup
	for _, c := range cmds {
		wg.Add(1)
		go func(c []string) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			o := string(out)
			first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
			switch first {
			case "sat":
				ch <- ans{Sat, o}
			case "unsat":
				ch <- ans{Unsat, o}
			default:
				ch <- ans{Unknown, o}
			}
		}(c)
	}
	res := SatResult(Unknown)
	var model map[int32]int64
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			res = a.r
			if a.r == Sat {
				model = map[int32]int64{}
				parseValues(s.p, a.out, vars, model)
			}
			break
		}
	}
	cancel()
	go wg.Wait()
	return res, model
}

var slowN int32

// dumpSlow writes a slow query to /tmp for inspection (verbose runs only).
func (s *Solver) dumpSlow(cs []*Term, d time.Duration) {
	n := atomic.AddInt32(&slowN, 1)
	if n > 40 {
		return
	}
	var buf bytes.Buffer
	buf.WriteString("(set-logic QF_BV)\n")
	s.script(&buf, cs, sortedVars(cs), "(check-sat)\n")
	os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", n), buf.Bytes(), 0o644)
	fmt.Fprintf(os.Stderr, "slow query %d: %v\n", n, d)
}

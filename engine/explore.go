package main

// Exploration of a harness: all paths, by re-execution from decision prefixes,
// over several workers.

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessRun struct {
	Name     string
	Params   map[string]int
	Limit    time.Duration // wall time for the exploration
	PathTime time.Duration
	MaxSteps int64
}

type Sample struct {
	Harness string            `json:"harness"`
	Inputs  []Input           `json:"inputs"`
	Params  map[string]int    `json:"params,omitempty"`
	Observe map[string]string `json:"observe"`
}

type RunResult struct {
	Name       string            `json:"harness"`
	Params     map[string]int    `json:"params,omitempty"`
	Paths      int               `json:"paths"`
	Completed  int               `json:"paths_completed"`
	Infeasible int               `json:"paths_outside_assumptions"`
	Pending    int               `json:"paths_not_explored"`
	Decisions  int64             `json:"decisions"`
	Steps      int64             `json:"instructions"`
	Asserts    map[string]int    `json:"assertions"`
	Trivial    int               `json:"assertions_constant"`
	Solved     int               `json:"assertion_queries"`
	Reach      map[string]int    `json:"reached"`
	Incon      map[string]int    `json:"inconclusive,omitempty"`
	Wall       float64           `json:"wall_s"`
	Viols      []*Violation      `json:"-"`
	Samples    []Sample          `json:"-"`
	InputNames map[string]string `json:"inputs"`
}

// runPath executes the harness once, following item.prefix and then deciding
// freshly. Everything the path did to the heap is undone.
func (w *Worker) runPath(fn *ssa.Function, item workItem, hr *HarnessRun, rr *RunResult, mu *sync.Mutex) {
	w.resetPath()
	w.prefix = item.prefix
	w.seedModel = item.model
	w.params = hr.Params
	w.maxSteps = hr.MaxSteps
	if hr.PathTime > 0 {
		w.deadline = time.Now().Add(hr.PathTime)
	} else {
		w.deadline = time.Time{}
	}
	w.epoch++
	w.jon = true
	incon := ""
	kind := ""
	func() {
		defer func() {
			e := recover()
			if e == nil {
				kind = "completed"
				return
			}
			switch x := e.(type) {
			case pathAbort:
				switch x.kind {
				case abAssume:
					kind = "assume"
				case abStop:
					kind = "completed"
				case abBudget:
					kind = "budget"
					if w.safeModel() {
						w.violation("hang", "the call does not return: "+x.msg, "", w.stackString())
					}
				case abTime:
					incon = "path time limit"
				case abUnknown:
					incon = "solver: " + x.msg
				default:
					incon = "unsupported: " + x.msg
					if verbose {
						incon += " at " + w.stackString()
					}
				}
			case *targetPanic:
				kind = "panic"
				if w.safeModel() {
					w.violation("panic", x.msg, "", x.stack)
				}
			default:
				incon = fmt.Sprintf("engine: %v at %s", e, w.stackString())
				if verbose {
					fmt.Fprintf(os.Stderr, "ENGINE PANIC %v\n%s\n%s\n", e, w.stackString(), debug.Stack())
				}
			}
		}()
		fc := w.eng.code(fn)
		w.exec(fc, nil, nil)
	}()
	// sample
	var smp *Sample
	if kind == "completed" {
		mu.Lock()
		want := len(rr.Samples) < 400 || rand.Intn(rr.Completed+1) < 200
		mu.Unlock()
		if want {
			smp = w.sample(hr)
		}
	}
	w.jon = true
	w.undo()
	w.jon = false
	w.switchHeap(0)
	res := w.res
	mu.Lock()
	defer mu.Unlock()
	rr.Paths++
	rr.Decisions += int64(len(w.decs))
	rr.Steps += w.steps
	for k, n := range res.asserts {
		rr.Asserts[k] += n
	}
	rr.Trivial += res.trivial
	rr.Solved += res.solved
	for _, v := range res.viols {
		v.Harness = hr.Name
		v.Params = hr.Params
		rr.Viols = append(rr.Viols, v)
	}
	for _, s := range w.inconc {
		rr.Incon[s]++
	}
	if incon != "" {
		rr.Incon[incon]++
	}
	switch kind {
	case "completed":
		rr.Completed++
		for k := range w.reached {
			rr.Reach[k]++
		}
	case "assume":
		rr.Infeasible++
	}
	for _, in := range w.inputs {
		if in.Term != nil {
			rr.InputNames[in.Name] = fmt.Sprintf("%s %d..%d", in.Kind, in.Term.lo, in.Term.hi)
		} else if _, ok := rr.InputNames[in.Name]; !ok {
			rr.InputNames[in.Name] = in.Kind
		}
	}
	if smp != nil {
		if len(rr.Samples) < 400 {
			rr.Samples = append(rr.Samples, *smp)
		} else {
			rr.Samples[rand.Intn(len(rr.Samples))] = *smp
		}
	}
}

func (w *Worker) safeModel() (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			w.inconc = append(w.inconc, fmt.Sprintf("no model for a failing path: %v", e))
			ok = false
		}
	}()
	w.deadline = time.Time{}
	return w.ensureModel()
}

func (w *Worker) sample(hr *HarnessRun) (s *Sample) {
	defer func() {
		if e := recover(); e != nil {
			s = nil
		}
	}()
	w.deadline = time.Time{}
	if !w.ensureModel() {
		return nil
	}
	v := w.violation("sample", "", "", "")
	w.res.viols = w.res.viols[:len(w.res.viols)-1]
	s = &Sample{Harness: hr.Name, Inputs: v.Inputs, Params: hr.Params, Observe: map[string]string{}}
	for _, o := range w.observed {
		s.Observe[o.name] = w.evalObs(o)
	}
	return s
}

func (w *Worker) evalVal(v Val) int64 {
	if t, ok := v.o.(*Term); ok {
		w.evalModel(w.p.T)
		w.p.NewEval()
		return w.p.Eval(t, w.model)
	}
	return v.n
}

func (w *Worker) evalObs(o Observed) string {
	switch o.kind {
	case "int":
		return fmt.Sprint(w.evalVal(o.v))
	case "bool":
		return fmt.Sprint(w.evalVal(o.v) != 0)
	}
	b := strBytes(o.v)
	out := make([]byte, len(b))
	for i := range b {
		out[i] = byte(w.evalVal(b[i]))
	}
	return string(out)
}

// Explorer holds the workers, reused between harnesses.
type Explorer struct {
	eng *Engine
	ws  []*Worker
}

func newExplorer(e *Engine, n int) (*Explorer, error) {
	x := &Explorer{eng: e, ws: make([]*Worker, n)}
	errs := make([]error, n)
	var wg sync.WaitGroup
	mk := func(i int) {
		defer func() {
			if e := recover(); e != nil {
				if tp, ok := e.(*targetPanic); ok {
					errs[i] = fmt.Errorf("initialisation panics: %s at %s", tp.msg, tp.stack)
				} else {
					st := ""
					if x.ws[i] != nil {
						st = x.ws[i].stackString()
					}
					errs[i] = fmt.Errorf("initialisation: %v at %s", e, st)
					if verbose {
						debug.PrintStack()
					}
				}
			}
		}()
		x.ws[i] = newWorker(e, i)
		x.ws[i].initAll()
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); mk(i) }()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	return x, nil
}

func (x *Explorer) close() {
	for _, w := range x.ws {
		w.sol.stop()
	}
}

func (x *Explorer) run(hr HarnessRun) *RunResult {
	rr := &RunResult{Name: hr.Name, Params: hr.Params, Asserts: map[string]int{}, Reach: map[string]int{}, Incon: map[string]int{}, InputNames: map[string]string{}}
	fn := x.eng.h.Func(hr.Name)
	if fn == nil {
		rr.Incon["no such harness"]++
		return rr
	}
	if hr.MaxSteps == 0 {
		hr.MaxSteps = 60_000_000
	}
	t0 := time.Now()
	var mu sync.Mutex
	var lmu sync.Mutex
	cond := sync.NewCond(&lmu)
	list := []workItem{{}}
	busy := 0
	stop := false
	var tick int64
	var wg sync.WaitGroup
	end := t0.Add(hr.Limit)
	for _, w := range x.ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(int64(w.id) + 1))
			for {
				lmu.Lock()
				for len(list) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(list) == 0 {
					lmu.Unlock()
					cond.Broadcast()
					return
				}
				if hr.Limit > 0 && time.Now().After(end) {
					stop = true
					lmu.Unlock()
					cond.Broadcast()
					return
				}
				i := len(list) - 1
				if rng.Intn(3) == 0 {
					i = rng.Intn(len(list))
				}
				it := list[i]
				list[i] = list[len(list)-1]
				list = list[:len(list)-1]
				busy++
				lmu.Unlock()
				w.runPath(fn, it, &hr, rr, &mu)
				alts := w.alts
				w.alts = nil
				lmu.Lock()
				list = append(list, alts...)
				busy--
				mu.Lock()
				nv := 0
				for _, v := range rr.Viols {
					if v.Known == "" {
						nv++
					}
				}
				if nv >= 12 {
					stop = true
				}
				mu.Unlock()
				lmu.Unlock()
				cond.Broadcast()
				if n := atomic.AddInt64(&tick, 1); verbose && n%500 == 0 {
					lmu.Lock()
					fmt.Fprintf(os.Stderr, "  %s: %d paths, %d pending, %.0fs, %d queries\n", hr.Name, n, len(list), time.Since(t0).Seconds(), atomic.LoadInt64(&gstats.Queries))
					lmu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
	rr.Pending = len(list)
	rr.Wall = time.Since(t0).Seconds()
	return rr
}

func (rr *RunResult) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s%s: %d paths (%d completed, %d outside, %d pending), %d asserts (%d constant, %d solved), %.1fs", rr.Name, showParams(rr.Params), rr.Paths, rr.Completed, rr.Infeasible, rr.Pending, sumMap(rr.Asserts), rr.Trivial, rr.Solved, rr.Wall)
	ks := sortedKeys(rr.Reach)
	sort.Strings(ks)
	fmt.Fprintf(&sb, " reach=%v", ks)
	n := 0
	for _, k := range sortedKeys(rr.Incon) {
		if n++; n > 6 {
			break
		}
		fmt.Fprintf(&sb, "\n    inconclusive x%d: %s", rr.Incon[k], k)
	}
	return sb.String()
}

func showParams(p map[string]int) string {
	if len(p) == 0 {
		return ""
	}
	var out []string
	for _, k := range sortedKeys(p) {
		out = append(out, fmt.Sprintf("%s=%d", k, p[k]))
	}
	return "[" + strings.Join(out, " ") + "]"
}

func sumMap(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func gstatsAdd(q int) {
	atomic.AddInt64(&gstats.Queries, int64(q))
}

// reinit gives the rest of the path a heap whose package initialisers ran
// with another map iteration order.
func (w *Worker) reinit(mode int) {
	known := w.switchHeap(mode)
	if known {
		return
	}
	w.outside(func() {
		w.initOrder = mode
		defer func() { w.initOrder = 0 }()
		w.mapOrder = mode
		fc := w.eng.code(w.eng.h.Func("init"))
		w.exec(fc, nil, nil)
	})
}

// switchHeap makes the globals of that initialisation the current ones (0: the
// usual one); false: they are new. What the current ones have grown to is kept.
func (w *Worker) switchHeap(mode int) bool {
	if mode == w.heapMode {
		return true
	}
	if w.altGlob == nil {
		w.altGlob = map[int]altState{}
	}
	w.altGlob[w.heapMode] = altState{w.glob, w.inited}
	st, known := w.altGlob[mode]
	if !known {
		st = altState{make([]*Val, len(w.glob)), map[*ssa.Package]bool{}}
	}
	w.glob, w.inited, w.heapMode = st.glob, st.inited, mode
	return known
}

type altState struct {
	glob   []*Val
	inited map[*ssa.Package]bool
}

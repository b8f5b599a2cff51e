package main

// Loading of /repo and everything it depends on as SSA.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const repoMod = "github.com/markusmobius/go-dateparser"
const hpkg = repoMod + "/internal/zverif/h"
const symPath = repoMod + "/internal/zverif/sym"

type Engine struct {
	prog    *ssa.Program
	codes   sync.Map // *ssa.Function -> *fnCode
	mu      sync.Mutex
	gmu     sync.Mutex
	gidx    map[*ssa.Global]int
	globals []*ssa.Global
	canonC  sync.Map // types.Type -> types.Type
	tm      typeutil.Map
	tmu     sync.Mutex
	implC   sync.Map
	methC   sync.Map
	touched sync.Map // *fnCode -> bool
	h       *ssa.Package
	rtErr   types.Type
	timePkg *ssa.Package
}

// loadEnv is the environment for the go command on /repo.
func loadEnv(modfile string) []string {
	var env []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOROOT", "GO111MODULE":
			continue
		case "PATH":
			if goBin() != "" {
				kv = "PATH=" + os.Getenv("PATH")
			}
		}
		env = append(env, kv)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off",
		"GOFLAGS=-mod=mod -modfile="+modfile)
}

// goBin is the directory of the toolchain the repository is built with.
func goBin() string {
	m, _ := filepath.Glob("/opt/veriftools/go1.24*/bin/go")
	sort.Strings(m)
	if len(m) > 0 {
		return filepath.Dir(m[len(m)-1])
	}
	return ""
}

// overlayFiles maps virtual files under /repo/internal/zverif to /verif/h.
func overlayFiles() map[string]string {
	res := map[string]string{}
	for _, d := range []string{"sym", "h", "main"} {
		m, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		for _, f := range m {
			res[filepath.Join(repoDir, "internal/zverif", d, filepath.Base(f))] = f
		}
	}
	return res
}

func loadEngine(modfile string) (*Engine, error) {
	ov := map[string][]byte{}
	for v, f := range overlayFiles() {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir: repoDir, Env: loadEnv(modfile), Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, hpkg)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, repoMod) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, gidx: map[*ssa.Global]int{}, h: sp[0]}
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "time" {
			e.timePkg = p
		}
	}
	return e, nil
}

func (e *Engine) isRepo(path string) bool {
	return strings.HasPrefix(path, repoMod) && !strings.Contains(path, "/zverif/")
}

// ours: packages whose initialisers run eagerly and in order.
func (e *Engine) eager(path string) bool {
	return strings.Contains(path, ".")
}

func (e *Engine) touch(fc *fnCode) { e.touched.LoadOrStore(fc, true) }

func (e *Engine) globalIndex(g *ssa.Global) int {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if i, ok := e.gidx[g]; ok {
		return i
	}
	i := len(e.globals)
	e.gidx[g] = i
	e.globals = append(e.globals, g)
	return i
}

func (e *Engine) globalAt(i int) *ssa.Global {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	return e.globals[i]
}

func (e *Engine) canon(t types.Type) types.Type {
	if c, ok := e.canonC.Load(t); ok {
		return c.(types.Type)
	}
	e.tmu.Lock()
	defer e.tmu.Unlock()
	c := e.tm.At(t)
	if c == nil {
		e.tm.Set(t, t)
		c = t
	}
	e.canonC.Store(t, c)
	return c.(types.Type)
}

type tpair struct{ a, b types.Type }

func (e *Engine) implements(t, iface types.Type) bool {
	k := tpair{t, iface}
	if v, ok := e.implC.Load(k); ok {
		return v.(bool)
	}
	e.tmu.Lock()
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	e.tmu.Unlock()
	e.implC.Store(k, r)
	return r
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if v, ok := e.methC.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.tmu.Lock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.tmu.Unlock()
	if fn == nil {
		panic(unsupported(fmt.Sprintf("no method %s on %s", m.Name(), t)))
	}
	e.methC.Store(k, fn)
	return fn
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// ---- worker set-up

func newWorker(e *Engine, id int) *Worker {
	p := newPool()
	w := &Worker{id: id, eng: e, p: p, sol: newSolver(p), inited: map[*ssa.Package]bool{},
		initMapRanges: map[*ssa.Package]bool{}, maxSteps: 1 << 60}
	w.resetPath()
	return w
}

func (w *Worker) resetPath() {
	w.pos = 0
	w.decs = nil
	w.alts = nil
	w.pc = nil
	w.lb = map[*Term][2]int64{}
	w.pcset = map[*Term]bool{}
	w.dom = map[int32][]bool{}
	w.multi = map[int32]bool{}
	w.model = nil
	w.modelOK = false
	w.seedModel = nil
	w.inputs = nil
	w.nameSeq = map[string]int{}
	w.observed = nil
	w.reached = map[string]bool{}
	w.steps = 0
	w.frames = 0
	w.callStack = w.callStack[:0]
	w.freshSeq = 0
	w.civil = map[int64]*civilVars{}
	w.mapOrder = 0
	w.symMapOrd = false
	w.inconc = nil
	w.res = &pathResult{asserts: map[string]int{}, knowns: map[string]int{}}
	w.mutexes = map[*Val]int{}
	w.trace = nil
	w.sp = 0
	w.deferFrames = nil
	w.other = nil
	w.lastPanic = ""
	w.seedModel = nil
	w.civilOf = map[*Term][3]*Term{}
	clear(w.stackbuf)
}

func (w *Worker) globalCell(i int) *Val {
	if i >= len(w.glob) {
		w.glob = append(w.glob, make([]*Val, i+64-len(w.glob))...)
	}
	c := w.glob[i]
	if c == nil {
		g := w.eng.globalAt(i)
		v := zeroVal(deref(g.Type()))
		c = &v
		w.glob[i] = c
		if g.Pkg != nil && !w.inited[g.Pkg] && !w.eng.eager(g.Pkg.Pkg.Path()) {
			w.lazyInit(g.Pkg)
		}
	}
	return c
}

// lazyInit runs the initialiser of a standard library package when one of its
// variables is first needed; parts that cannot be interpreted stay poisoned.
func (w *Worker) lazyInit(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	w.outside(func() { w.initPkg(p, true) })
}

// outside runs f as part of the permanent state, not of the current path.
func (w *Worker) outside(f func()) {
	jon, ep, tr, mo, sm, st, mf, fr := w.jon, w.epoch, w.trace, w.mapOrder, w.symMapOrd, w.steps, w.maxSteps, w.frames
	w.jon, w.epoch, w.trace, w.mapOrder, w.symMapOrd, w.maxSteps = false, 0, nil, 0, false, 1<<60
	defer func() {
		w.jon, w.epoch, w.trace, w.mapOrder, w.symMapOrd, w.steps, w.maxSteps, w.frames = jon, ep, tr, mo, sm, st, mf, fr
	}()
	f()
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/reflectlite": true,
	"internal/poll": true, "encoding/json": true, "fmt": true, "internal/godebug": true, "internal/cpu": true, "log": true,
	"internal/abi": true, "testing": true, "flag": true, "unsafe": true}

func (w *Worker) initPkg(p *ssa.Package, tolerant bool) {
	if skipInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	fc := w.eng.code(fn)
	if fc.noBody {
		return
	}
	if !tolerant {
		w.exec(fc, nil, nil)
		return
	}
	depth := len(w.callStack)
	sb, sp := w.stackbuf, w.sp
	fr := &frame{r: make([]Val, fc.nregs), w: w, fc: fc}
	b, prev := 0, -1
	for b >= 0 {
		bl := &fc.blocks[b]
		try := func(f func()) (ok bool) {
			defer func() {
				if e := recover(); e != nil {
					w.callStack = w.callStack[:depth]
					w.stackbuf, w.sp = sb, sp
					ok = false
				}
			}()
			f()
			return true
		}
		try(func() {
			if len(bl.phis) > 0 {
				e := fc.edge(prev, b)
				for i := range bl.phis {
					fr.r[bl.phis[i].dst] = bl.phis[i].ops[e].get(fr)
				}
			}
		})
		for k, f := range bl.code {
			if !try(func() { f(fr) }) && bl.dst[k] >= 0 {
				fr.r[bl.dst[k]] = Val{o: &HostObj{kind: "poison", v: nil}}
			}
		}
		nb := -1
		if !try(func() { nb = bl.term(fr) }) {
			// a branch that cannot be decided: take the last successor (skips)
			s := fc.fn.Blocks[b].Succs
			if len(s) > 0 {
				nb = s[len(s)-1].Index
			}
		}
		prev, b = b, nb
	}
}

// initAll initialises the harness package and everything it imports.
func (w *Worker) initAll() {
	w.jon = false
	w.epoch = 0
	w.maxSteps = 1 << 60
	fc := w.eng.code(w.eng.h.Func("init"))
	w.exec(fc, nil, nil)
	w.steps = 0
}

package main

// Command line: check one property, run one harness, replay a counterexample.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	verbose  bool
	nworkers = 8
)

func fail(err error) {
	fmt.Fprintln(os.Stderr, "engine:", err)
	os.Exit(2)
}

func main() {
	// go list must be the repository's own toolchain, so that its standard library is read
	if p := goBin(); p != "" {
		os.Setenv("PATH", p+":"+os.Getenv("PATH"))
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("REPO_DIR"); d != "" {
		repoDir = d
	}
	if n := runtime.NumCPU(); n < nworkers {
		nworkers = max(n, 2)
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check|run|replay|build ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("engine", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	params := fs.String("p", "", "k=v,k=v")
	limit := fs.Int("limit", 60, "seconds")
	prof := fs.String("prof", "", "")
	only := fs.String("only", "", "only harnesses with this substring")
	fs.BoolVar(&verbose, "v", false, "")
	fs.IntVar(&nworkers, "j", nworkers, "")
	cmd := os.Args[1]
	args := os.Args[2:]
	name := ""
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		name, args = args[0], args[1:]
	}
	fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch cmd {
	case "check":
		os.Exit(check(name, *tier, *only))
	case "run":
		pm := map[string]int{}
		for _, kv := range strings.Split(*params, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				pm[k], _ = strconv.Atoi(v)
			}
		}
		runOne(name, pm, time.Duration(*limit)*time.Second)
	case "replay":
		os.Exit(replayFile(name))
	case "build":
		tmp, err := newScratch()
		if err != nil {
			fail(err)
		}
		defer tmp.close()
		if _, err := tmp.native(false); err != nil {
			fail(err)
		}
		if _, err := tmp.native(true); err != nil {
			fail(err)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func runOne(name string, pm map[string]int, limit time.Duration) {
	tmp, err := newScratch()
	if err != nil {
		fail(err)
	}
	defer tmp.close()
	t0 := time.Now()
	eng, err := loadEngine(tmp.modfile)
	if err != nil {
		fail(err)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	t0 = time.Now()
	x, err := newExplorer(eng, nworkers)
	if err != nil {
		fail(err)
	}
	defer x.close()
	fmt.Printf("initialised %d workers in %.1fs\n", nworkers, time.Since(t0).Seconds())
	rr := x.run(HarnessRun{Name: name, Params: pm, Limit: limit})
	fmt.Println(rr.summary())
	if verbose {
		printQueryStats()
	}
	fmt.Printf("queries %d sat %d unsat %d unknown %d portfolio %d cache %d quick %d solver %.1fs\n", gstats.Queries, gstats.SatN, gstats.UnsatN, gstats.UnknownN, gstats.Portfolio, gstats.CacheHits, gstats.Quick, float64(gstats.Nanos)/1e9)
	for k, n := range rr.Asserts {
		fmt.Printf("  assert %dx %s\n", n, k)
	}
	if e := lastSolverError.Load(); e != nil {
		fmt.Println("solver error:", e)
	}
	bin, err := tmp.native(false)
	if err != nil {
		fmt.Println(err)
		return
	}
	nv := startNative(bin)
	defer nv.stop()
	for i, v := range rr.Viols {
		if i >= 12 {
			break
		}
		r, err := nv.run(v.Harness, v.Inputs, v.Params, 0, 20)
		fmt.Printf("VIOL %s %q known=%q %s\n   %s\n   native: %s %v\n", v.Kind, v.Msg, v.Known, inputString(v.Inputs), v.Stack, r.short(), err)
	}
	ok, bad := 0, 0
	for i, s := range rr.Samples {
		if i >= 60 {
			break
		}
		if d := nv.compare(s); d == "" {
			ok++
		} else {
			bad++
			if bad <= 5 {
				fmt.Printf("MISMATCH %s: %s\n", inputString(s.Inputs), d)
			}
		}
	}
	fmt.Printf("samples: %d agree, %d disagree\n", ok, bad)
	if verbose {
		for i, s := range rr.Samples {
			if i >= 8 {
				break
			}
			fmt.Println("  sample", inputString(s.Inputs), s.Observe)
		}
	}
}

// inputString shows inputs, joining the bytes of texts.
func inputString(ins []Input) string {
	var out []string
	text := map[string]string{}
	for _, in := range ins {
		base, _, _ := strings.Cut(in.Name, "#")
		if in.Kind == "byte" {
			if _, ok := text[base]; !ok {
				out = append(out, base)
			}
			text[base] += string([]byte{byte(in.Val)})
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", in.Name, in.Val))
	}
	for i, o := range out {
		if t, ok := text[o]; ok {
			out[i] = fmt.Sprintf("%s=%q", o, t)
		}
	}
	return strings.Join(out, " ")
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func check(prop, tier, only string) int {
	t0 := time.Now()
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	spec, ok := specs[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return 2
	}
	ev := &evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking", Coverage: map[string]any{}, Assumptions: append(append([]string(nil), commonAssumptions...), spec.Assume...)}
	defer func() {
		ev.Wall = time.Since(t0).Seconds()
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}()
	tmp, err := newScratch()
	if err != nil {
		fail(err)
	}
	defer tmp.close()
	// native replay binary in parallel with the load
	type nres struct {
		bin string
		err error
	}
	nch := make(chan nres, 1)
	go func() {
		b, err := tmp.native(false)
		nch <- nres{b, err}
	}()
	var notes []string
	note := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		notes = append(notes, s)
		fmt.Println("NOTE", s)
	}
	eng, err := loadEngine(tmp.modfile)
	nr := <-nch
	if err != nil || nr.err != nil {
		// the tree does not build with the harnesses: nothing is decided
		fmt.Println("NOTE cannot encode this tree:", err, nr.err)
		ev.Coverage["explanation"] = fmt.Sprint("the tree could not be loaded: ", err, nr.err)
		ev.Coverage["states"], ev.Coverage["transitions"], ev.Coverage["traces_validated_against_impl"], ev.Coverage["samples"] = 0, 0, 0, []any{}
		return 0
	}
	nv := startNative(nr.bin)
	defer nv.stop()
	nv.scratch = tmp
	x, err := newExplorer(eng, nworkers)
	var results []*RunResult
	nviol := 0
	findings := loadFindings()
	printed := map[string]bool{}
	var violated []string
	report := func(v *Violation, native *nativeResult) {
		id := ""
		if v.Known != "" {
			if findings[prop+"/"+v.Known] != "" {
				id = v.Known
			}
		}
		if id != "" {
			if !printed["k"+id] {
				printed["k"+id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, id, findings[prop+"/"+id])
			}
			return
		}
		key := v.Harness + v.Kind + v.Msg
		if printed[key] && nviol >= 4 {
			return
		}
		printed[key] = true
		nviol++
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, nviol))
		v.Observe = native.Observe
		b, _ := json.MarshalIndent(map[string]any{"violation": v, "native": native, "property": prop}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  %s: %s (%s): %s\n  native run: %s\n", v.Harness, v.Msg, v.Kind, inputString(v.Inputs), native.short())
		violated = append(violated, v.Msg)
	}
	if err != nil {
		// initialisation fails in the engine: if it fails natively too, that is C01
		r, nerr := nv.run("", nil, nil, 0, 30)
		note("initialisation: %v (native: %s %v)", err, r.short(), nerr)
		ev.Coverage["explanation"] = err.Error()
		ev.Coverage["states"], ev.Coverage["transitions"], ev.Coverage["traces_validated_against_impl"], ev.Coverage["samples"] = 0, 0, 0, []any{}
		return 0
	}
	defer x.close()
	loadWall := time.Since(t0).Seconds()
	runs := spec.Quick
	budget := time.Duration(spec.QuickBudget) * time.Second
	if budget == 0 {
		budget = 240 * time.Second
	}
	if tier == "thorough" {
		runs = append(append([]HarnessRun(nil), spec.Quick...), spec.Thorough...)
		if spec.ThoroughOnly {
			runs = spec.Thorough
		}
		budget = 800 * time.Second
	}
	tEnd := time.Now().Add(budget)
	agree, disagree := 0, 0
	var mism []string
	var samplesOut []any
	unconfirmed := 0
	bounds := []string{}
	for i, hr := range runs {
		if only != "" && !strings.Contains(hr.Name+showParams(hr.Params), only) {
			continue
		}
		left := time.Until(tEnd)
		n := len(runs) - i
		// each harness may use twice its even share of what is left
		share := left * 2 / time.Duration(n+1)
		if hr.Limit == 0 || hr.Limit > share {
			hr.Limit = share
		}
		if hr.Limit < 5*time.Second {
			hr.Limit = 5 * time.Second
		}
		if hr.PathTime == 0 {
			hr.PathTime = 60 * time.Second
		}
		rr := x.run(hr)
		results = append(results, rr)
		fmt.Println(rr.summary())
		if rr.Pending > 0 {
			note("%s%s: bound reduced, %d prefixes not explored in the time given", hr.Name, showParams(hr.Params), rr.Pending)
		}
		for k, n := range rr.Incon {
			note("%s: %d paths inconclusive: %s", hr.Name, n, k)
		}
		if len(rr.Asserts) == 0 {
			note("%s%s: no assertion was reached", hr.Name, showParams(hr.Params))
		}
		confirmedHere := map[string]int{}
		for _, v := range rr.Viols {
			if confirmedHere[v.Kind+v.Msg+v.Known] >= 2 {
				continue
			}
			ok, nres := nv.confirm(v)
			if !ok {
				unconfirmed++
				note("not reproduced by the real code, not reported: %s %s %s %s (native: %s)", v.Harness, v.Kind, v.Msg, inputString(v.Inputs), nres.short())
				if unconfirmed > 60 {
					break
				}
				continue
			}
			confirmedHere[v.Kind+v.Msg+v.Known]++
			report(v, nres)
		}
		// sampled paths against the real code
		max := 40
		if tier == "thorough" {
			max = 200
		}
		for j, s := range rr.Samples {
			if j >= max {
				break
			}
			if d := nv.compare(s); d == "" {
				agree++
			} else if nv.last != nil && nv.last.Known != "" && findings[prop+"/"+nv.last.Known] != "" {
				agree++ // fails as recorded
			} else {
				disagree++
				if len(mism) < 10 {
					mism = append(mism, fmt.Sprintf("%s %s: %s", s.Harness, inputString(s.Inputs), d))
				}
				// a failure of the real code on a path of the exploration
				if res := nv.last; res != nil && len(res.Failed) > 0 {
					report(&Violation{Harness: s.Harness, Params: s.Params, Inputs: s.Inputs, Kind: "assert", Msg: res.Failed[0]}, res)
				}
			}
			if j < 3 && len(samplesOut) < 24 {
				samplesOut = append(samplesOut, map[string]any{"harness": s.Harness, "inputs": inputString(s.Inputs), "result": s.Observe})
			}
		}
		bounds = append(bounds, rr.Name+showParams(rr.Params)+": "+boundString(rr))
		if nviol > 0 && time.Since(t0) > 100*time.Second {
			note("stopped after the first violations")
			break
		}
	}
	if disagree > 0 {
		note("the encoding and the real code disagree on %d sampled paths: %s", disagree, strings.Join(mism, " | "))
	}
	states, trans, solved, trivial, asserts := 0, int64(0), 0, 0, 0
	reach := map[string]int{}
	for _, rr := range results {
		states += rr.Paths
		trans += rr.Decisions
		solved += rr.Solved
		trivial += rr.Trivial
		asserts += sumMap(rr.Asserts)
		for k, n := range rr.Reach {
			reach[k] += n
		}
	}
	var missing []string
	for _, r := range spec.Reach {
		if reach[r] == 0 {
			missing = append(missing, r)
		}
	}
	if len(missing) > 0 && only == "" {
		note("not reached: %s", strings.Join(missing, ", "))
	}
	var fns []string
	eng.touched.Range(func(k, v any) bool {
		fns = append(fns, strings.ReplaceAll(k.(*fnCode).name, repoMod, "."))
		return true
	})
	sort.Strings(fns)
	c := ev.Coverage
	c["states"] = states
	c["transitions"] = trans
	c["traces_validated_against_impl"] = agree
	c["traces_disagreeing"] = disagree
	c["samples"] = samplesOut
	c["paths"] = states
	c["harness_runs"] = results
	c["bounds"] = bounds
	c["outside_bounds"] = spec.Outside
	c["assertion_instances"] = asserts
	c["assertion_queries"] = solved
	c["assertions_constant_true"] = trivial
	c["queries_discharged"] = map[string]int64{"total": atomic.LoadInt64(&gstats.Queries), "unsat": gstats.UnsatN, "sat": gstats.SatN, "unknown": gstats.UnknownN, "portfolio": gstats.Portfolio, "cached": gstats.CacheHits, "decided_by_domain": gstats.Quick}
	c["solver_s"] = float64(gstats.Nanos) / 1e9
	c["load_s"] = loadWall
	c["functions_encoded"] = fns
	c["functions_encoded_count"] = len(fns)
	c["reached"] = reach
	c["not_reached"] = missing
	c["unconfirmed_counterexamples"] = unconfirmed
	c["notes"] = notes
	exh := true
	for _, rr := range results {
		if rr.Pending > 0 || len(rr.Incon) > 0 {
			exh = false
		}
	}
	c["exhaustive"] = exh
	ev.Violations = nviol
	fmt.Printf("%s %s: %d paths, %d assertion instances, %d solver queries (%.1fs solver), %d repo functions, %d sampled paths agree with the real code, %.1fs\n",
		prop, tier, states, asserts, gstats.Queries, float64(gstats.Nanos)/1e9, len(fns), agree, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func boundString(rr *RunResult) string {
	var out []string
	base := map[string]int{}
	kinds := map[string]string{}
	for n, k := range rr.InputNames {
		b, _, _ := strings.Cut(n, "#")
		base[b]++
		kinds[b] = k
	}
	for _, b := range sortedKeys(base) {
		if base[b] > 1 {
			out = append(out, fmt.Sprintf("%s: %d x %s", b, base[b], kinds[b]))
		} else {
			out = append(out, fmt.Sprintf("%s: %s", b, kinds[b]))
		}
	}
	s := strings.Join(out, ", ")
	if rr.Pending == 0 && len(rr.Incon) == 0 {
		return s + " (all paths)"
	}
	return s + " (partly explored)"
}

// loadFindings reads known-findings.txt: "property=C05 id=x what fails".
func loadFindings() map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		res[strings.TrimPrefix(f[1], "property=")+"/"+strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return res
}

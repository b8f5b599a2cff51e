package main

// Native builds of the harnesses and replay on the real code.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type scratch struct {
	dir     string
	modfile string
	mu      sync.Mutex
	bins    map[bool]string
}

func newScratch() (*scratch, error) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		return nil, err
	}
	s := &scratch{dir: dir, modfile: filepath.Join(dir, "dateparser.mod"), bins: map[bool]string{}}
	for _, p := range [][2]string{{"go.mod", "dateparser.mod"}, {"go.sum", "dateparser.sum"}} {
		b, err := os.ReadFile(filepath.Join(repoDir, p[0]))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(dir, p[1]), b, 0o644); err != nil {
			return nil, err
		}
	}
	ov := map[string]any{"Replace": overlayFiles()}
	b, _ := json.Marshal(ov)
	return s, os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
}

func (s *scratch) close() { os.RemoveAll(s.dir) }

func (s *scratch) native(race bool) (string, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if b := s.bins[race]; b != "" {
		return b, nil
	}
	out := filepath.Join(s.dir, "native")
	args := []string{"build", "-overlay", filepath.Join(s.dir, "overlay.json")}
	if race {
		out += "-race"
		args = append(args, "-race")
	}
	args = append(args, "-o", out, repoMod+"/internal/zverif/main")
	gobin := "go"
	if p := goBin(); p != "" {
		gobin = filepath.Join(p, "go")
	}
	cmd := exec.Command(gobin, args...)
	cmd.Dir = repoDir
	cmd.Env = append(loadEnv(s.modfile), "CGO_ENABLED=1")
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, firstN(string(b), 3000))
	}
	s.bins[race] = out
	return out, nil
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type nativeResult struct {
	Failed  []string          `json:"failed,omitempty"`
	Known   string            `json:"known,omitempty"`
	Outside bool              `json:"outside,omitempty"`
	Panic   string            `json:"panic,omitempty"`
	Hang    bool              `json:"hang,omitempty"`
	Observe map[string]string `json:"observe,omitempty"`
	Reached []string          `json:"reached,omitempty"`
	Race    string            `json:"race,omitempty"`
	Err     string            `json:"err,omitempty"`
}

func (r *nativeResult) short() string {
	if r == nil {
		return "none"
	}
	var out []string
	if len(r.Failed) > 0 {
		out = append(out, "fails: "+strings.Join(r.Failed, "; "))
	}
	if r.Outside {
		out = append(out, "outside the assumptions")
	}
	if r.Panic != "" {
		out = append(out, "panic: "+firstN(strings.ReplaceAll(r.Panic, "\n", " | "), 700))
	}
	if r.Hang {
		out = append(out, "does not return")
	}
	if r.Race != "" {
		out = append(out, "race: "+firstN(r.Race, 400))
	}
	if r.Err != "" {
		out = append(out, r.Err)
	}
	if len(r.Observe) > 0 {
		b, _ := json.Marshal(r.Observe)
		out = append(out, string(b))
	}
	if len(out) == 0 {
		return "holds"
	}
	return strings.Join(out, ", ")
}

type nativeProc struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	last    *nativeResult
	scratch *scratch
}

func startNative(bin string) *nativeProc { return &nativeProc{bin: bin} }

func (n *nativeProc) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func nativeEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "TZ=") {
			env = append(env, kv)
		}
	}
	return append(env, "TZ=UTC", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
}

func request(h string, ins []Input, params map[string]int, repeat, timeout int) []byte {
	m := map[string]int64{}
	for _, i := range ins {
		m[i.Name] = i.Val
	}
	b, _ := json.Marshal(map[string]any{"harness": h, "inputs": m, "params": params, "repeat": repeat, "timeout": timeout})
	return append(b, '\n')
}

func (n *nativeProc) run(h string, ins []Input, params map[string]int, repeat, timeout int) (*nativeResult, error) {
	if n.cmd == nil {
		cmd := exec.Command(n.bin)
		cmd.Env = nativeEnv()
		w, _ := cmd.StdinPipe()
		r, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return &nativeResult{Err: err.Error()}, err
		}
		n.cmd, n.in, n.out = cmd, w, bufio.NewReaderSize(r, 1<<20)
	}
	n.last = nil
	n.in.Write(request(h, ins, params, repeat, timeout))
	type lr struct {
		b   []byte
		err error
	}
	ch := make(chan lr, 1)
	go func() {
		b, err := n.out.ReadBytes('\n')
		ch <- lr{b, err}
	}()
	select {
	case l := <-ch:
		if l.err != nil {
			n.stop()
			// the process died: a fatal error of the runtime
			return &nativeResult{Panic: "the process died: " + l.err.Error()}, nil
		}
		var r nativeResult
		if err := json.Unmarshal(l.b, &r); err != nil {
			return &nativeResult{Err: err.Error()}, err
		}
		if r.Hang {
			n.stop()
		}
		n.last = &r
		return &r, nil
	case <-time.After(time.Duration(timeout+30) * time.Second):
		n.stop()
		return &nativeResult{Hang: true}, nil
	}
}

// compare runs a sampled path natively and compares what it observed.
func (n *nativeProc) compare(s Sample) string {
	r, err := n.run(s.Harness, s.Inputs, s.Params, 0, 30)
	if err != nil {
		return err.Error()
	}
	if len(r.Failed) > 0 || r.Panic != "" || r.Hang || r.Outside {
		return r.short()
	}
	for k, v := range s.Observe {
		if r.Observe[k] != v {
			return fmt.Sprintf("%s: engine %q, real code %q", k, v, r.Observe[k])
		}
	}
	for k := range r.Observe {
		if _, ok := s.Observe[k]; !ok {
			return "real code observes " + k
		}
	}
	return ""
}

// confirm replays a counterexample; only what the real code does counts.
func (n *nativeProc) confirm(v *Violation) (bool, *nativeResult) {
	switch v.Kind {
	case "race":
		bin, err := n.scratch.native(true)
		if err != nil {
			return false, &nativeResult{Err: err.Error()}
		}
		for i := 0; i < 4; i++ {
			cmd := exec.Command(bin)
			cmd.Env = nativeEnv()
			cmd.Stdin = bytes.NewReader(request(v.Harness, v.Inputs, v.Params, 200, 60))
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			cmd.Run()
			if i := strings.Index(se.String(), "DATA RACE"); i >= 0 {
				return true, &nativeResult{Race: se.String()[i:min(len(se.String()), i+3000)]}
			}
			if strings.Contains(se.String(), "fatal error") {
				return true, &nativeResult{Panic: firstN(se.String(), 1000)}
			}
		}
		return false, &nativeResult{}
	case "hang":
		r, err := n.run(v.Harness, v.Inputs, v.Params, 0, 15)
		return err == nil && (r.Hang || len(r.Failed) > 0 || r.Panic != ""), r
	}
	rep := 0
	if strings.HasPrefix(v.Harness, "C15") {
		rep = 400
	}
	r, err := n.run(v.Harness, v.Inputs, v.Params, rep, 30)
	if err != nil {
		return false, r
	}
	if len(r.Failed) > 0 || r.Panic != "" || r.Hang {
		return true, r
	}
	if strings.HasPrefix(v.Harness, "C07") {
		// map order differs between processes: compare what they observe
		first := ""
		for i := 0; i < 40; i++ {
			p := startNative(n.bin)
			q, err := p.run(v.Harness, v.Inputs, v.Params, 0, 30)
			p.stop()
			if err != nil {
				continue
			}
			if len(q.Failed) > 0 || q.Panic != "" {
				return true, q
			}
			b, _ := json.Marshal(q.Observe)
			if first == "" {
				first = string(b)
			} else if first != string(b) {
				return true, &nativeResult{Failed: []string{"two runs differ: " + first + " / " + string(b)}}
			}
		}
	}
	return false, r
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fail(err)
	}
	var f struct {
		Violation Violation `json:"violation"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fail(err)
	}
	tmp, err := newScratch()
	if err != nil {
		fail(err)
	}
	defer tmp.close()
	bin, err := tmp.native(false)
	if err != nil {
		fail(err)
	}
	n := startNative(bin)
	n.scratch = tmp
	defer n.stop()
	ok, r := n.confirm(&f.Violation)
	fmt.Println(inputString(f.Violation.Inputs))
	fmt.Println("native:", r.short())
	if ok {
		return 1
	}
	return 0
}

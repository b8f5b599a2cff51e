// Command main runs harnesses natively: one request per line on stdin.
package main

import (
	"bufio"
	"encoding/json"
	"os"
	"time"

	"github.com/markusmobius/go-dateparser/internal/zverif/h"
	"github.com/markusmobius/go-dateparser/internal/zverif/sym"
)

type request struct {
	Harness string           `json:"harness"`
	Inputs  map[string]int64 `json:"inputs"`
	Params  map[string]int   `json:"params"`
	Repeat  int              `json:"repeat"`
	Timeout int              `json:"timeout"`
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq request
		if json.Unmarshal(line, &rq) != nil {
			continue
		}
		f := h.All[rq.Harness]
		done := make(chan *sym.Run, 1)
		go func() {
			var r *sym.Run
			for i := 0; i <= rq.Repeat; i++ {
				r = &sym.Run{Inputs: rq.Inputs, Params: rq.Params}
				if f == nil {
					r.Panic = "no such harness"
				} else {
					sym.Exec(r, f)
				}
				if len(r.Failed) > 0 || r.Panic != "" {
					break
				}
			}
			done <- r
		}()
		if rq.Timeout == 0 {
			rq.Timeout = 30
		}
		var r *sym.Run
		select {
		case r = <-done:
		case <-time.After(time.Duration(rq.Timeout) * time.Second):
			r = &sym.Run{Hang: true}
		}
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		out.Flush()
		if r.Hang {
			os.Exit(3)
		}
	}
}

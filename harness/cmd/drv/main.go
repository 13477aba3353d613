// Command drv replays behaviours of the TLA+ specifications on the real phoenix code and records
// what the code showed after every operation.  stdin: one case per line; stdout: one trace per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

// J is a decoded JSON object.
type J map[string]any

func (j J) s(k string) string {
	v, _ := j[k].(string)
	return v
}
func (j J) n(k string) int {
	v, _ := j[k].(float64)
	return int(v)
}
func (j J) b(k string) bool {
	v, _ := j[k].(bool)
	return v
}
func (j J) has(k string) bool { _, ok := j[k]; return ok }
func (j J) arr(k string) []any {
	v, _ := j[k].([]any)
	return v
}
func (j J) ints(k string) []int { return toInts(j[k]) }
func (j J) obj(k string) J {
	v, _ := j[k].(map[string]any)
	return J(v)
}
func toInts(v any) []int {
	a, _ := v.([]any)
	r := make([]int, len(a))
	for i, x := range a {
		f, _ := x.(float64)
		r[i] = int(f)
	}
	return r
}

// Sys is one instance of the system under test.
type Sys interface {
	Apply(op J)
	Obs() any
}

// whole is a component which produces its whole trace itself (concurrent systems).
type wholeFn func(c J) J

var systems = map[string]func(cfg J) Sys{}
var wholes = map[string]wholeFn{}

// serial lists components which must not run concurrently (they touch process-global state).
var serial = map[string]bool{}

type trace struct {
	Cfg any    `json:"cfg"`
	Ops []any  `json:"ops"`
	Obs []any  `json:"obs"`
	Err string `json:"err,omitempty"`
}

// workers says how many cases of a component run at a time (default: one per CPU).
var workers = map[string]int{}

// quietIO lists components whose programs may hand the process's own streams to children.
var quietIO = map[string]bool{}

var keep []*os.File

const caseLimit = 20 * time.Second

// hung counts the cases which did not finish; after a few of them the rest is not run.
var hung atomic.Int32

func runCase(mk func(cfg J) Sys, c J) (tr *trace) {
	tr = &trace{Cfg: c["cfg"], Ops: []any{}, Obs: []any{}}
	if hung.Load() >= 4 {
		tr.Obs = append(tr.Obs, map[string]any{"panic": true})
		return tr
	}
	done := make(chan struct{})
	var mu sync.Mutex
	dead := false
	add := func(op, ob any) {
		mu.Lock()
		defer mu.Unlock()
		if dead {
			return
		}
		if op != nil {
			tr.Ops = append(tr.Ops, op)
		}
		if ob != nil {
			tr.Obs = append(tr.Obs, ob)
		}
	}
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				add(nil, map[string]any{"panic": true})
				mu.Lock()
				if !dead {
					tr.Err = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				mu.Unlock()
			}
		}()
		s := mk(c.obj("cfg"))
		if cl, ok := s.(interface{ Close() }); ok {
			defer cl.Close()
		}
		add(nil, s.Obs())
		past := history{}
		for _, o := range c.arr("ops") {
			add(o, nil)
			past.apply(s, J(o.(map[string]any)))
			add(nil, s.Obs())
		}
	}()
	select {
	case <-done:
	case <-time.After(caseLimit):
		hung.Add(1)
		add(nil, map[string]any{"panic": true})
		mu.Lock()
		dead = true
		tr.Err = "no result within the case limit"
		mu.Unlock()
	}
	return tr
}

func main() {
	if os.Getenv(hostEnv) != "" {
		ttyHost()
		return
	}
	comp := os.Args[1]
	if timed[comp] {
		withTest(func() { run(comp) })
	}
	run(comp)
}

func run(comp string) {
	mk, ok := systems[comp]
	wf, ok2 := wholes[comp]
	if !ok && !ok2 {
		fmt.Fprintln(os.Stderr, "unknown component", comp)
		os.Exit(3)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	var cases []J
	for {
		var c J
		if err := dec.Decode(&c); err != nil {
			break
		}
		cases = append(cases, c)
	}
	n := runtime.NumCPU()
	if workers[comp] > 0 {
		n = workers[comp]
	}
	stdout := os.Stdout
	keep = []*os.File{os.Stdin, os.Stdout, os.Stderr} // or the collector closes them
	if quietIO[comp] {
		null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Stdin, os.Stdout, os.Stderr = null, null, null
		log.SetOutput(null)
	}
	if serial[comp] {
		n = 1
	}
	res := make([][]byte, len(cases))
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				var v any
				if ok2 {
					v = wf(cases[i])
				} else {
					v = runCase(mk, cases[i])
				}
				b, err := json.Marshal(v)
				if err != nil {
					fmt.Fprintln(os.Stderr, "marshal:", err)
					os.Exit(4)
				}
				res[i] = b
			}
		}()
	}
	for i := range cases {
		next <- i
	}
	close(next)
	wg.Wait()
	out := bufio.NewWriterSize(stdout, 1<<20)
	for _, b := range res {
		out.Write(b)
		out.WriteByte('\n')
	}
	out.Flush()
}

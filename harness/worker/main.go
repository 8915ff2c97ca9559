// worker runs the workload of one property and watches it.
// It prints nothing but its report file; the exit code is 0 when it finished, whatever it found.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Case   string `json:"case"`
}

type Report struct {
	mu         sync.Mutex
	Evals      int64            `json:"evaluations"`
	Distinct   map[uint64]bool  `json:"-"`
	DistinctL  []string         `json:"distinct"`
	Counts     map[string]int64 `json:"counts"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Notes      []string         `json:"notes"`
	Sites      int              `json:"sites"`
	Pairs      int              `json:"pairs"`
	Done       bool             `json:"done"`
}

type Env struct {
	prop   string
	seed   uint64
	tier   string
	shard  int
	shards int
	only   int // replay only this case, -1 for all
	out    string
	rep    *Report
	caseN  atomic.Int64
}

const maxViolations = 4

// Viol records a violation. When there are enough of them the worker stops at once.
func (e *Env) Viol(c, key, f string, a ...interface{}) {
	r := e.rep
	r.mu.Lock()
	for _, v := range r.Violations {
		if v.Key == key {
			r.mu.Unlock()
			return
		}
	}
	d := fmt.Sprintf(f, a...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	r.Violations = append(r.Violations, Violation{Key: key, Detail: d, Case: c})
	n := len(r.Violations)
	r.mu.Unlock()
	if n >= maxViolations {
		e.finish(true)
	}
}

func (e *Env) violated() bool {
	e.rep.mu.Lock()
	defer e.rep.mu.Unlock()
	return len(e.rep.Violations) > 0
}

func (e *Env) Eval(n int) { atomic.AddInt64(&e.rep.Evals, int64(n)) }

func (e *Env) Count(k string, n int) {
	e.rep.mu.Lock()
	e.rep.Counts[k] += int64(n)
	e.rep.mu.Unlock()
}

func (e *Env) Distinct(f string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, f, a...)
	v := h.Sum64()
	e.rep.mu.Lock()
	if len(e.rep.Distinct) < 200000 {
		e.rep.Distinct[v] = true
	}
	e.rep.mu.Unlock()
}

func (e *Env) Sample(f string, a ...interface{}) {
	e.rep.mu.Lock()
	if len(e.rep.Samples) < 3 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		e.rep.Samples = append(e.rep.Samples, s)
	}
	e.rep.mu.Unlock()
}

func (e *Env) N(quick, thorough int) int {
	if e.tier == "thorough" {
		return thorough
	}
	return quick
}

func (e *Env) finish(exit bool) {
	r := e.rep
	r.mu.Lock()
	for d := range r.Distinct {
		r.DistinctL = append(r.DistinctL, fmt.Sprintf("%x", d))
	}
	r.Sites, r.Pairs = hookStats()
	r.Done = true
	b, _ := json.Marshal(r)
	if err := os.WriteFile(e.out+".tmp", b, 0666); err != nil {
		panic(err)
	}
	os.Rename(e.out+".tmp", e.out)
	if exit {
		os.Exit(0)
	}
	r.mu.Unlock()
}

// mine says whether case number i belongs to this shard
func (e *Env) mine(i int) bool {
	if e.only >= 0 {
		return i == e.only
	}
	return i%e.shards == e.shard
}

// rng of a case depends on seed, property and number of case only
func (e *Env) rng(i int) *rand.Rand {
	h := fnv.New64a()
	io.WriteString(h, e.prop)
	return rand.New(rand.NewPCG(e.seed*0x9e3779b97f4a7c15+h.Sum64(), uint64(i)*0xbf58476d1ce4e5b9+1))
}

// Cases runs f for cases of this shard, par at once
func (e *Env) Cases(n, par int, f func(i int, r *rand.Rand)) {
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		if !e.mine(i) {
			continue
		}
		if e.violated() {
			break
		}
		sem <- struct{}{}
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			f(i, e.rng(i))
		}(i)
	}
	wg.Wait()
}

type propFn func(e *Env)

var props = map[string]propFn{}

func main() {
	e := &Env{rep: &Report{Distinct: map[uint64]bool{}, Counts: map[string]int64{}}}
	level := flag.Uint("level", 0, "perturbation")
	flag.StringVar(&e.prop, "prop", "", "")
	flag.Uint64Var(&e.seed, "seed", 1, "")
	flag.StringVar(&e.tier, "tier", "quick", "")
	flag.IntVar(&e.shard, "shard", 0, "")
	flag.IntVar(&e.shards, "shards", 1, "")
	flag.IntVar(&e.only, "only", -1, "")
	flag.StringVar(&e.out, "out", "/dev/null", "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if !*verbose {
		log.SetOutput(io.Discard)
	}
	f := props[e.prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", e.prop)
		os.Exit(3)
	}
	startCanary()
	stepClock(e)
	hookLevel(uint32(*level))
	f(e)
	hookLevel(0)
	e.finish(true)
}

func stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

var _ = time.Now

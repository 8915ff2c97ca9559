package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() {
	props["C23"] = c23
	props["C24"] = c24
}

func c23(e *Env) {
	n := e.N(9600, 115200)
	e.Cases(n, 2, func(i int, r *rand.Rand) {
		c23case(e, fmt.Sprintf("case %d", i), r)
	})
}

type job struct {
	*rec
	hold   *gate
	panics int // 1: before an answer, 2: after it, 3: after it has expired
	runs   atomic.Int32
	in     *gate
	late   bool // sent after Stop returned
	killed bool
}

func c23case(e *Env, cs string, r *rand.Rand) {
	N := pick(r, 0, 1, 1, 2, 3, 4, 7, 16, 60)
	want := max(N, 1)
	var jobs []*job
	var jm sync.Mutex
	var cur, top atomic.Int64
	serv := iproto.BF{N: N}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
		n := cur.Add(1)
		defer cur.Add(-1)
		for m := top.Load(); n > m && !top.CompareAndSwap(m, n); m = top.Load() {
		}
		jm.Lock()
		j := jobs[q.Id]
		jm.Unlock()
		j.runs.Add(1)
		if n > int64(want) {
			e.Viol(cs, "too-many", "%s: %d handlers run at once in a pool of %d", cs, n, N)
		}
		j.in.open()
		if j.hold != nil {
			j.hold.wait()
		}
		switch j.panics {
		case 1:
			panic("handler fails")
		case 2:
			q.RespondBytes(iproto.RcTemporary, []byte("before panic"))
			panic(fmt.Errorf("handler fails"))
		case 3:
			q.Expire()
			var m map[string]int
			m["x"] = 1
		}
		return iproto.RetCode(0x40), iproto.Body(fmt.Sprint("job ", q.Id))
	})
	add := func(hold *gate, panics int) *job {
		jm.Lock()
		j := &job{rec: newRec(uint32(len(jobs)), 9, nil), hold: hold, panics: panics, in: newGate()}
		jobs = append(jobs, j)
		jm.Unlock()
		return j
	}
	what := func() string { return fmt.Sprintf("%s: pool of %d, %d requests so far", cs, N, len(jobs)) }
	check := func(j *job) bool {
		if !closed(j.done) {
			e.hung(cs, "answer", "%s: request %d (panics %d, killed %v) is not answered", what(), j.Id, j.panics, j.killed)
			return false
		}
		code, body := iproto.RetCode(0x40), fmt.Sprint("job ", j.Id)
		switch {
		case j.killed:
			code, body = iproto.RcCanceled, ""
		case j.panics == 1 || j.panics == 3:
			code, body = iproto.RcInternalError, ""
		case j.panics == 2:
			code, body = iproto.RcTemporary, "before panic"
		}
		if j.code != code || string(j.body) != body {
			e.Viol(cs, "answer", "%s: request %d (panics %d) is answered with %s %q instead of %s %q", what(), j.Id, j.panics, codeName(j.code), j.body, codeName(code), body)
			return false
		}
		return true
	}
	rounds := 1 + r.IntN(3)
	npanic := 0
	for round := 0; round < rounds; round++ {
		// some work with panics, and requests which die in the queue
		var some []*job
		for k := r.IntN(40); k > 0; k-- {
			p := 0
			if r.IntN(3) == 0 {
				p = 1 + r.IntN(3)
				npanic++
			}
			j := add(nil, p)
			some = append(some, j)
			serv.Send(&j.Request)
		}
		for _, j := range some {
			if !check(j) {
				return
			}
		}
		// full capacity and not more
		g := newGate()
		k := r.IntN(2*want + 3)
		some = nil
		for ; k > 0; k-- {
			j := add(g, r.IntN(5)/4)
			if j.panics != 0 {
				npanic++
			}
			some = append(some, j)
			serv.Send(&j.Request)
		}
		busy := int64(min(want, len(some)))
		if !until(func() bool { return cur.Load() >= busy }) {
			e.hung(cs, "capacity", "%s: only %d handlers run, though %d requests wait, after %d panics", what(), cur.Load(), len(some), npanic)
			return
		}
		for k, j := range some {
			if k >= want && r.IntN(3) == 0 && !j.in.is() {
				j.killed = true
				j.Cancel()
			}
		}
		g.open()
		for _, j := range some {
			if !check(j) {
				return
			}
			if j.killed && j.runs.Load() != 0 || !j.killed && j.runs.Load() != 1 {
				e.Viol(cs, "runs", "%s: request %d was run %d times (cancelled in the queue: %v)", what(), j.Id, j.runs.Load(), j.killed)
				return
			}
		}
	}
	// stop: workers are busy with some, others wait
	g := newGate()
	var some []*job
	running := r.IntN(want + 1)
	queued := 0
	for k := 0; k < running; k++ {
		j := add(g, 0)
		some = append(some, j)
		serv.Send(&j.Request)
	}
	for k, j := range some {
		if !closed(j.in.ch) {
			e.hung(cs, "capacity", "%s: %d handlers run, request %d waits", what(), cur.Load(), k)
			return
		}
	}
	if running == want {
		queued = pick(r, 0, 1, 5, 100)
		if r.IntN(100) == 0 {
			queued = 17500
		}
		for k := 0; k < queued; k++ {
			j := add(g, 0)
			some = append(some, j)
			serv.Send(&j.Request)
		}
	}
	var wg sync.WaitGroup
	var concurrent []*job
	var cm sync.Mutex
	for s := r.IntN(3); s > 0; s-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				j := add(g, 0)
				cm.Lock()
				concurrent = append(concurrent, j)
				cm.Unlock()
				serv.Send(&j.Request)
				if k%8 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	if !finishes(serv.Stop) {
		e.hung(cs, "stop", "%s: Stop does not return", what())
		return
	}
	var after []*job
	for k := r.IntN(20); k >= 0; k-- {
		j := add(g, 0)
		j.late = true
		after = append(after, j)
		serv.Send(&j.Request)
	}
	stops := r.IntN(3)
	for k := 0; k < stops; k++ {
		if !finishes(serv.Stop) {
			e.hung(cs, "stop", "%s: Stop number %d does not return", what(), k+2)
			return
		}
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: sending to a stopped pool does not return", what())
		return
	}
	// though handlers which run are not finished yet
	for k, j := range append(after, some[running:]...) {
		if !closed(j.done) {
			e.hung(cs, "stop", "%s: request %d of %d which was queued or sent later (%v) is not answered after the stop", what(), k, len(after)+queued, j.late)
			return
		}
		if j.code != iproto.RcShutdown || j.runs.Load() != 0 {
			e.Viol(cs, "stop", "%s: request %d which was queued or sent later (%v) is answered with %s after the stop, run %d times", what(), j.Id, j.late, codeName(j.code), j.runs.Load())
			return
		}
	}
	g.open()
	for _, j := range some[:running] {
		if !check(j) {
			return
		}
	}
	ran := 0
	for _, j := range concurrent {
		if !closed(j.done) {
			e.hung(cs, "stop", "%s: request sent during the stop is not answered", what())
			return
		}
		n := j.runs.Load()
		if n == 0 && j.code != iproto.RcShutdown || n == 1 && j.code != 0x40 || n > 1 {
			e.Viol(cs, "stop", "%s: request sent during the stop was run %d times and is answered with %s", what(), n, codeName(j.code))
		}
		ran += int(n)
	}
	jm.Lock()
	for _, j := range jobs {
		if j.answers() != 1 {
			e.Viol(cs, "not-once", "%s: request %d was answered %d times", cs, j.Id, j.answers())
		}
	}
	jm.Unlock()
	if !until(func() bool { return cur.Load() == 0 }) {
		e.hung(cs, "stop", "%s: handlers are still running", what())
	}
	e.Eval(1)
	e.Count("requests", len(jobs))
	e.Count("panics", npanic)
	e.Count("queued when stopped", queued)
	e.Count("running when stopped", running)
	e.Count("sent during a stop", len(concurrent))
	e.Count("max handlers at once", int(top.Load()))
	e.Distinct("%d %d %d %d %d %d", N, len(jobs), npanic, running, queued, ran)
	e.Sample("%s: pool of %d, %d requests, %d panics; stopped with %d running, %d queued, %d being sent (%d of them run)", cs, N, len(jobs), npanic, running, queued, len(concurrent), ran)
}

// C24

func c24(e *Env) {
	n := e.N(32000, 384000)
	e.Cases(n, 2, func(i int, r *rand.Rand) {
		if i%401 == 400 {
			c24clients(e, fmt.Sprintf("case %d", i), r)
			return
		}
		c24case(e, fmt.Sprintf("case %d", i), r)
	})
}

type kid struct {
	iproto.EndPoint
	name    string
	gate    *gate // not nil: takes one request and thinks until it is open
	quits   bool  // its loop is over at once
	busy    atomic.Bool
	taken   atomic.Int64
	exited  *gate
	started *gate
}

func c24case(e *Env, cs string, r *rand.Rand) {
	var kids []*kid
	type brec struct {
		*rec
		taken atomic.Int32
		by    atomic.Pointer[kid]
	}
	var reqs []*brec
	var rm sync.Mutex
	get := func(q *iproto.Request) *brec {
		rm.Lock()
		defer rm.Unlock()
		return reqs[q.Id]
	}
	newKid := func(kind int) *kid {
		k := &kid{name: fmt.Sprint("child ", len(kids)), exited: newGate(), started: newGate()}
		switch kind {
		case 1:
			k.gate = newGate()
		case 2:
			k.quits = true
		}
		inflight := r.IntN(2) == 0
		k.EndPoint = newPoint(func(p *point) {
			k.started.open()
			defer k.exited.open()
			for !k.quits {
				select {
				case <-p.ExitChan():
					return
				case q := <-p.ReceiveChan():
					if q.SetInFly(nil) {
						k.taken.Add(1)
						b := get(q)
						b.taken.Add(1)
						b.by.Store(k)
						answer := func() { q.RespondBytes(iproto.RetCode(0x80), []byte(k.name)) }
						if k.gate != nil {
							k.busy.Store(true)
							k.gate.wait()
							k.busy.Store(false)
						}
						if inflight {
							go answer()
						} else {
							answer()
						}
					}
				}
			}
			<-p.ExitChan()
		})
		kids = append(kids, k)
		return k
	}
	balancers := 0
	var fill func(b *iproto.BalancerPoint, depth int, kinds []int)
	fill = func(b *iproto.BalancerPoint, depth int, kinds []int) {
		balancers++
		for _, kind := range kinds {
			if depth < 3 && r.IntN(4) == 0 {
				in := &iproto.BalancerPoint{}
				in.Init()
				fill(in, depth+1, []int{kind})
				b.AddChild(in)
			} else {
				b.AddChild(newKid(kind))
			}
		}
	}
	b := &iproto.BalancerPoint{}
	b.Init()
	ng := r.IntN(4)
	nq := r.IntN(3) / 2
	nl := r.IntN(4)
	var kinds []int
	for k := 0; k < ng+nq+nl; k++ {
		kinds = append(kinds, pick2(k < ng, 1, pick2(k < ng+nq, 2, 0)))
	}
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	fill(b, 0, kinds)
	what := fmt.Sprintf("%s: balancer of %d children which block, %d which quit, %d live ones in %d balancers", cs, ng, nq, nl, balancers)
	send := func() *brec {
		rm.Lock()
		q := &brec{rec: newRec(uint32(len(reqs)), 4, nil)}
		reqs = append(reqs, q)
		rm.Unlock()
		b.Send(&q.Request)
		return q
	}
	var wg sync.WaitGroup
	add := r.IntN(3) // added while it runs
	var late []*kid
	for k := 0; k < add; k++ {
		late = append(late, newKid(0))
	}
	iproto.Run(b)
	adder := func() {
		for _, k := range late {
			if balancers > 1 && r.IntN(3) == 0 {
				in := &iproto.BalancerPoint{}
				in.Init()
				in.AddChild(k)
				b.AddChild(in)
			} else {
				b.AddChild(k)
			}
		}
	}
	concurrently := r.IntN(2) == 0
	if concurrently {
		adder()
	}
	// all blocking children take one and block; nobody else is kept from anything
	var first []*brec
	if nl+add > 0 && (nl > 0 || concurrently) {
		for k := 0; k < 3*ng+1; k++ {
			first = append(first, send())
		}
		// as long as there is someone live, everything but what is being thought about is answered
		n := func() (k int) {
			for _, q := range first {
				if !q.answered() {
					k++
				}
			}
			return
		}
		busy := func() (k int) {
			for _, x := range kids {
				if x.gate != nil && x.busy.Load() {
					k++
				}
			}
			return
		}
		if !until(func() bool { return n() <= busy() }) {
			e.hung(cs, "starve", "%s: %d requests of %d wait, though only %d children are blocked", what, n(), len(first), busy())
			return
		}
	}
	if !concurrently {
		adder()
	}
	stopEarly := r.IntN(3) == 0
	senders := 1 + r.IntN(3)
	per := r.IntN(60)
	for s := 0; s < senders; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				send()
				if k%16 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	sent := finishes(wg.Wait)
	if !sent {
		e.hung(cs, "send", "%s: sending does not return", what)
		return
	}
	live := nl + add
	if live > 0 && !stopEarly {
		for _, q := range reqs {
			if !until(func() bool { return q.answered() || q.by.Load() != nil && q.by.Load().gate != nil }) {
				e.hung(cs, "starve", "%s and %d added ones: request %d of %d is not answered (taken %d times)", what, add, q.Id, len(reqs), q.taken.Load())
				return
			}
		}
		if r.IntN(4) == 0 {
			// every live child is really used: those added last as well
			for _, k := range kids {
				if k.gate == nil && !k.quits {
					if !until(func() bool { send(); return k.taken.Load() > 0 }) {
						e.hung(cs, "unused", "%s and %d added ones: %s never gets a request", what, add, k.name)
						return
					}
				}
			}
		}
	}
	if !finishes(b.Stop) {
		e.hung(cs, "stop", "%s: Stop does not return", what)
		return
	}
	var after []*brec
	for k := r.IntN(5); k >= 0; k-- {
		after = append(after, send())
	}
	for _, k := range kids {
		if k.gate != nil {
			k.gate.open()
		}
	}
	b.Stop()
	for _, k := range kids {
		if !closed(k.exited.ch) && k.started.is() || !until(func() bool { return k.started.is() && k.exited.is() }) {
			e.hung(cs, "stop", "%s: %s is not stopped (started %v)", what, k.name, k.started.is())
			return
		}
	}
	ok, shut := 0, 0
	by := map[string]int{}
	for _, q := range reqs {
		if !closed(q.done) {
			e.hung(cs, "stop", "%s: request %d (taken %d times) is not answered after the stop", what, q.Id, q.taken.Load())
			return
		}
		if q.answers() != 1 || q.taken.Load() > 1 {
			e.Viol(cs, "not-once", "%s: request %d was taken %d times, answered %d times", what, q.Id, q.taken.Load(), q.answers())
		}
		if x := q.by.Load(); x != nil {
			ok++
			by[x.name]++
			if q.code != 0x80 || string(q.body) != x.name {
				e.Viol(cs, "answer", "%s: request %d taken by %s is answered with %s %q", what, q.Id, x.name, codeName(q.code), q.body)
			}
		} else {
			shut++
			if q.code != iproto.RcShutdown {
				e.Viol(cs, "answer", "%s: request %d, not taken by anyone, is answered with %s", what, q.Id, codeName(q.code))
			}
		}
	}
	e.Eval(1)
	e.Count("taken by a child", ok)
	e.Count("shut down", shut)
	e.Count("children", len(kids))
	e.Distinct("%d %d %d %d %d %v", ng, nq, nl, add, balancers, by)
	e.Sample("%s, %d added: %d requests taken by %v, %d shut down", what, add, ok, by, shut)
}

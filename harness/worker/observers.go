package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() {
	props["C29"] = c29
	props["C27"] = c27
}

// watcher is an observer
type watcher struct {
	iproto.Bookmark
	h     *history
	name  string
	n     atomic.Int32
	again int // how many times to send again
	serv  iproto.Service
	only  bool // answers to retry: temporary ones only
}

// history of what was called for one request
type history struct {
	m   sync.Mutex
	ev  []string
	req *rec
	e   *Env
	cs  string
}

func (h *history) add(f string, a ...interface{}) {
	h.m.Lock()
	h.ev = append(h.ev, fmt.Sprintf(f, a...))
	h.m.Unlock()
}

func resText(res *iproto.Response) string {
	return fmt.Sprintf("%d:%d:%x:%s", res.Id, res.Msg, uint32(res.Code), res.Body)
}

func (w *watcher) Respond(res *iproto.Response) {
	n := w.n.Add(1)
	if w.h.req.answers() != 0 {
		w.h.e.Viol(w.h.cs, "after", "%s: observer %s is called after the final responder", w.h.cs, w.name)
	}
	req := w.Request
	if req != &w.h.req.Request {
		w.h.e.Viol(w.h.cs, "request", "%s: observer %s is called with another request", w.h.cs, w.name)
		return
	}
	w.h.add("%s %s", w.name, resText(res))
	if int(n) <= w.again && (!w.only || res.Code == iproto.RcTemporary) {
		req.ResetToNew()
		go w.serv.Send(req)
	}
}

func c29(e *Env) {
	n := e.N(60000, 720000)
	e.Cases(n, 4, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		if i%2 == 0 {
			c29stack(e, cs, r)
		} else {
			c29race(e, cs, r)
		}
	})
}

type handlerLog struct {
	m sync.Mutex
	n map[*iproto.Request]int
}

// c29stack builds a stack of observers, some of which send again, and compares what is called with what has to be
func c29stack(e *Env, cs string, r *rand.Rand) {
	q := newRec(uint32(r.IntN(100)), iproto.RequestType(r.IntN(100)), []byte("body"))
	h := &history{req: q, e: e, cs: cs}
	var calls atomic.Int32
	var late []*watcher
	var lm sync.Mutex
	// answer number n of the end point
	answerOf := func(n int) (iproto.RetCode, string) {
		return iproto.RetCode(n << 3), fmt.Sprint("answer ", n)
	}
	tooLate := func(req *iproto.Request, where string) {
		w := &watcher{h: h, name: "late"}
		lm.Lock()
		late = append(late, w)
		lm.Unlock()
		if req.ChainBookmark(w) {
			e.Viol(cs, "late", "%s: an observer is chained to a request which is %s", cs, where)
		}
	}
	handle := func(req *iproto.Request) (iproto.RetCode, string) {
		n := int(calls.Add(1))
		if n%2 == 1 {
			tooLate(req, "taken")
		}
		return answerOf(n)
	}
	var base iproto.Service
	var stop func()
	kind := r.IntN(4)
	switch kind {
	case 0:
		base = iproto.SF(func(req *iproto.Request) {
			c, b := handle(req)
			req.RespondBytes(c, []byte(b))
		})
	case 1:
		s := iproto.BF{N: 2}.New(func(cx *iproto.Context, req *iproto.Request) (iproto.RetCode, interface{}) {
			c, b := handle(req)
			return c, iproto.Body(b)
		})
		base, stop = s, s.Stop
	case 2:
		s := newPoint(func(p *point) {
			for {
				select {
				case <-p.ExitChan():
					p.ShutDownAll()
					return
				case req := <-p.ReceiveChan():
					if req.SetInFly(nil) {
						c, b := handle(req)
						go req.Respond(c, iproto.Body(b))
					}
				}
			}
		})
		iproto.Run(s)
		base, stop = s, s.Stop
	case 3:
		s := newPoint(func(p *point) {
			for {
				select {
				case <-p.ExitChan():
					p.ShutDownAll()
					return
				case req := <-p.ReceiveChan():
					if cx := req.Context(); cx != nil {
						c, b := handle(req)
						req.RespondBytes(c, []byte(b))
						cx.Done()
					}
				}
			}
		})
		iproto.Run(s)
		base, stop = s, s.Stop
	}
	// The stack from the innermost (called first) to the outermost. Observers which send again
	// send to the base service, statistics wrappers sit between the caller and the base.
	depth := r.IntN(9)
	type obs struct {
		name  string
		again int
		w     *watcher
		stat  *atomic.Int32
		dur   time.Duration
	}
	var own []*obs // chained by hand before sending: outer ones
	for k := 0; k < depth; k++ {
		o := &obs{name: fmt.Sprint("own", k)}
		o.w = &watcher{h: h, name: o.name, serv: base}
		if r.IntN(4) == 0 {
			o.again = 1 + r.IntN(3)
			o.w.again = o.again
		}
		own = append(own, o)
	}
	serv := base
	var stats []*obs // chained later: inner ones
	for k := r.IntN(4); k > 0; k-- {
		o := &obs{name: fmt.Sprint("stat", k), stat: &atomic.Int32{}}
		serv = iproto.StatWrap(serv, func(req *iproto.Request, d time.Duration) {
			o.stat.Add(1)
			if req != &q.Request {
				e.Viol(cs, "request", "%s: statistics are called with another request", cs)
			} else if q.answers() != 0 {
				e.Viol(cs, "after", "%s: statistics are called after the final responder", cs)
			}
			if d < -5*time.Millisecond || d > time.Since(q.sent)+5*time.Millisecond {
				e.Viol(cs, "elapsed", "%s: statistics wrapper measured %v of %v", cs, d, time.Since(q.sent))
			}
			h.add("%s %s", o.name, resText(req.Response))
		})
		stats = append(stats, o)
	}
	for _, o := range own {
		if !q.ChainBookmark(o.w) {
			e.Viol(cs, "chain", "%s: an observer is not chained to a new request", cs)
		}
	}
	q.sent = time.Now()
	q.nested = func(res *iproto.Response) { h.add("final %s", resText(res)) }
	serv.Send(&q.Request)
	if !closed(q.done) {
		e.hung(cs, "answer", "request with %d observers is not answered, seen so far: %v", depth, h.ev)
		return
	}
	tooLate(&q.Request, "answered")
	// what has to be seen. Observers chained last are called first: stats[0] wraps the base, so it is chained last.
	var stack []*obs
	stack = append(stack, stats...)
	for k := len(own) - 1; k >= 0; k-- {
		stack = append(stack, own[k])
	}
	var want []string
	n := 1
	text := func() string {
		c, b := answerOf(n)
		return fmt.Sprintf("%d:%d:%x:%s", q.Id, q.Msg, uint32(c), b)
	}
	for len(stack) > 0 {
		o := stack[0]
		want = append(want, o.name+" "+text())
		if o.again > 0 {
			o.again--
			n++ // it is sent to the base again, this one observes the next answer
			continue
		}
		stack = stack[1:]
	}
	want = append(want, "final "+text())
	h.m.Lock()
	got := append([]string(nil), h.ev...)
	h.m.Unlock()
	if strings.Join(got, "; ") != strings.Join(want, "; ") {
		e.Viol(cs, "sequence", "%s (service %d): observers were called as\n%s\ninstead of\n%s", cs, kind, strings.Join(got, "; "), strings.Join(want, "; "))
	}
	if int(calls.Load()) != n {
		e.Viol(cs, "calls", "%s: the service was called %d times instead of %d", cs, calls.Load(), n)
	}
	q.Cancel()
	q.Expire()
	for _, w := range late {
		if w.n.Load() != 0 {
			e.Viol(cs, "late", "%s: observer which came too late is called", cs)
		}
	}
	if q.answers() != 1 {
		e.Viol(cs, "not-once", "%s: final responder was called %d times", cs, q.answers())
	}
	if stop != nil {
		stop()
	}
	e.Eval(1)
	e.Count("calls of observers", len(want)-1)
	e.Count("resends", n-1)
	e.Distinct("%d %d %d %d", kind, depth, len(stats), n)
	e.Sample("%s: %s", cs, strings.Join(want, "; "))
}

// c29race lets answers, cancellation and resending race
func c29race(e *Env, cs string, r *rand.Rand) {
	n := 1 + r.IntN(12)
	temps := r.IntN(3)
	type one struct {
		*rec
		h     *history
		in    *watcher
		retry *watcher
		out   *watcher
		temps atomic.Int32
		runs  atomic.Int32
		dead  bool
		how   int
		stat  atomic.Int32
		late  atomic.Int32
		isin  bool
	}
	qs := make([]*one, n)
	var pool atomic.Int64
	serv := iproto.BF{N: 1 + r.IntN(4)}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
		pool.Add(1)
		o := qs[q.Id]
		o.runs.Add(1)
		if o.temps.Add(1) <= int32(temps) {
			return iproto.RcTemporary, iproto.Body("again")
		}
		return iproto.RcOK, iproto.Body("fine")
	})
	wrapped := iproto.StatWrap(serv, func(q *iproto.Request, d time.Duration) { qs[q.Id].stat.Add(1) })
	var wg sync.WaitGroup
	for k := range qs {
		o := &one{rec: newRec(uint32(k), 5, nil), how: r.IntN(4)}
		o.h = &history{req: o.rec, e: e, cs: cs}
		o.out = &watcher{h: o.h, name: "out"}
		o.retry = &watcher{h: o.h, name: "retry", again: 1 << 20, only: true, serv: serv}
		o.in = &watcher{h: o.h, name: "in"}
		qs[k] = o
	}
	for _, o := range qs {
		o.ChainBookmark(o.out)
		o.ChainBookmark(o.retry)
		o.isin = o.ChainBookmark(o.in)
		wg.Add(2)
		s1, s2 := r.Uint64(), r.Uint64()
		go func() {
			defer wg.Done()
			jitter(rand.New(rand.NewPCG(s1, 3)))
			wrapped.Send(&o.Request)
		}()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(s2, 3))
			for k := r.IntN(3); k >= 0; k-- {
				jitter(r)
			}
			switch o.how {
			case 0:
				o.Cancel()
			case 1:
				o.IOError()
			case 2:
				w := &watcher{h: o.h, name: "racing"}
				if !o.ChainBookmark(w) {
					w = nil
				}
				if w != nil {
					o.late.Add(1)
				}
			}
		}()
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "sending does not return")
		return
	}
	codes := map[string]int{}
	for k, o := range qs {
		if !closed(o.done) {
			e.hung(cs, "answer", "request %d (attack %d) is not answered after %d runs: %v", k, o.how, o.runs.Load(), o.h.ev)
			return
		}
		codes[codeName(o.code)]++
		ok := o.code == iproto.RcOK && string(o.body) == "fine" && int(o.runs.Load()) == temps+1 ||
			o.how == 0 && o.code == iproto.RcCanceled || o.how == 1 && o.code == iproto.RcIOError
		if !ok || o.answers() != 1 {
			e.Viol(cs, "final", "%s: request %d (attack %d, %d temporary answers, %d runs) is answered %d times, with %s %q: %v", cs, k, o.how, temps, o.runs.Load(), o.answers(), codeName(o.code), o.body, o.h.ev)
		}
		if o.out.n.Load() != 1 {
			e.Viol(cs, "outer", "%s: outer observer of request %d was called %d times: %v", cs, k, o.out.n.Load(), o.h.ev)
		}
		if o.in.n.Load() != 1 {
			e.Viol(cs, "inner", "%s: inner observer of request %d was called %d times: %v", cs, k, o.in.n.Load(), o.h.ev)
		}
		if o.stat.Load() > 1 {
			e.Viol(cs, "inner", "%s: statistics of request %d were called %d times: %v", cs, k, o.stat.Load(), o.h.ev)
		}
		o.h.m.Lock()
		seen := 0
		for _, s := range o.h.ev {
			if strings.HasPrefix(s, "racing") {
				seen++
			}
		}
		last := o.h.ev[len(o.h.ev)-1]
		o.h.m.Unlock()
		if seen != int(o.late.Load()) {
			e.Viol(cs, "racing", "%s: observer chained while request %d was on its way (success: %d) was called %d times: %v", cs, k, o.late.Load(), seen, o.h.ev)
		}
		if !strings.HasPrefix(last, "out") {
			e.Viol(cs, "order", "%s: outer observer of request %d is not the last one: %v", cs, k, o.h.ev)
		}
	}
	serv.Stop()
	e.Eval(1)
	e.Count("racing requests", n)
	e.Distinct("race %d %d %v", n, temps, codes)
	e.Sample("%s: %d requests with %d temporary answers each: %v", cs, n, temps, codes)
}

package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

func init() { props["C31"] = c31 }

// what a process holds
type held struct {
	heap       int64
	goroutines int
	fds        int
}

func holds() (h held) {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	h.heap = int64(m.HeapAlloc)
	h.goroutines = runtime.NumGoroutine()
	if d, err := os.ReadDir("/proc/self/fd"); err == nil {
		h.fds = len(d)
	}
	return
}

// work is done in rounds; round returns false if it has reported something
type work struct {
	n     int // operations of a round
	round func(n int) bool
	what  string
	idle  func()      // stops it
	full  func() bool // tells when it holds as much as it may between rounds
	limit int64       // bytes which may be held after three rounds, 0 - 5 MB
}

var works = []func(e *Env, cs string, r *rand.Rand, kind int) *work{
	workTimeouts, workContexts, workMultis, workPool, workOverflow, workCalls, workCut, workPeers, workPings, workBalancer, workResize, workDeaf,
}

func c31(e *Env) {
	// heaps of timers are made once
	ts := make([]alarm, 40000)
	for k := range ts {
		ts[k].t.After(time.Hour, &ts[k])
	}
	for k := range ts {
		ts[k].t.Stop()
	}
	e.Cases(e.N(192, 1440), 1, func(i int, r *rand.Rand) {
		k := (i + 3*(i/8)) % len(works) // each shard gets all of them
		c31case(e, fmt.Sprintf("case %d", i), works[k](e, fmt.Sprintf("case %d", i), r, i/8/3+i%8))
	})
}

func c31case(e *Env, cs string, w *work) {
	defer w.idle()
	if w.limit == 0 {
		w.limit = 5 << 20
	}
	if !w.round(w.n) {
		return
	}
	var before held
	if w.full != nil {
		until(w.full)
	}
	// what is being finished has to become quiet
	for i := 0; i < 20; i++ {
		before = holds()
		time.Sleep(20 * time.Millisecond)
		if h := holds(); h.goroutines == before.goroutines && h.fds == before.fds && h.heap > before.heap-1<<18 {
			break
		}
	}
	for i := 0; i < 3; i++ {
		if !w.round(w.n) {
			return
		}
	}
	var after held
	if !until(func() bool {
		after = holds()
		return after.heap-before.heap < w.limit && after.goroutines <= before.goroutines+8 && after.fds <= before.fds+8
	}) {
		key := "memory"
		switch {
		case after.goroutines > before.goroutines+8:
			key = "goroutines"
		case after.fds > before.fds+8:
			key = "descriptors"
		}
		e.Viol(cs, key, "%s: after three more rounds of %d, all of them over, process holds %d KB instead of %d KB, %d goroutines instead of %d, %d descriptors instead of %d: %s",
			cs, w.n, after.heap>>10, before.heap>>10, after.goroutines, before.goroutines, after.fds, before.fds, w.what)
	}
	e.Eval(1)
	e.Count("operations", 4*w.n)
	e.Distinct("%s", w.what)
	e.Sample("%s: %s: %d KB before, %d KB after three more rounds of %d", cs, w.what, before.heap>>10, after.heap>>10, w.n)
}

func bigBody() []byte { return make([]byte, 8<<10) }

func quickService() iproto.Service {
	return iproto.SF(func(q *iproto.Request) { q.RespondBytes(iproto.RcOK, nil) })
}

// requests with long timeouts are answered at once
func workTimeouts(e *Env, cs string, r *rand.Rand, kind int) *work {
	kind %= 6
	p := newPoint(func(p *point) {
		for {
			select {
			case q := <-p.ReceiveChan():
				if q.SetInFly(nil) {
					q.RespondBytes(iproto.RcOK, nil)
				}
			case <-p.ExitChan():
				p.ShutDownAll()
				return
			}
		}
	})
	if kind == 1 || kind == 5 {
		p.Timeout = time.Hour
	}
	iproto.Run(p)
	dying := make(chan *rec, 1)
	if kind == 5 {
		go func() {
			for q := range dying {
				q.Cancel()
			}
		}()
	}
	s := quickService()
	one := func(k int) bool {
		q := newRec(uint32(k), 1, bigBody())
		switch kind {
		case 0:
			q.SetTimeout(time.Hour)
		case 2: // dies early
			q.SetTimeout(time.Hour)
			q.Cancel()
		case 3: // dies while a handler thinks
			q.SetTimeout(time.Hour)
			iproto.SF(func(q *iproto.Request) { q.IOError() }).Send(&q.Request)
		case 4: // is dead before
			q.Cancel()
			q.SetTimeout(time.Hour)
			p.Send(&q.Request)
		case 5: // dies while it is being sent
			dying <- q
			for j := 0; j < k%64; j++ {
				runtime.Gosched()
			}
			p.Send(&q.Request)
		}
		if kind < 2 && k%2 == 0 {
			p.Send(&q.Request)
		} else if kind < 2 {
			s.Send(&q.Request)
		}
		if !closed(q.done) {
			e.hung(cs, "answer", "request is not answered")
			return false
		}
		return true
	}
	return &work{n: 3000, what: fmt.Sprintf("requests with a timeout of an hour, kind %d", kind), idle: func() { p.Stop(); close(dying) }, round: func(n int) bool {
		for k := 0; k < n; k++ {
			if !one(k) {
				return false
			}
		}
		return true
	}}
}

// one context lives long, what is made of it ends
func workContexts(e *Env, cs string, r *rand.Rand, kind int) *work {
	kind %= 7
	h := &holder{}
	s, slow := quickService(), h.service()
	root := &iproto.Context{}
	return &work{n: 3000, what: fmt.Sprintf("things of a context which lives long, kind %d", kind), idle: func() {}, round: func(n int) bool {
		var cxs []*iproto.Context
		for k := 0; k < n; k++ {
			switch kind {
			case 0:
				root.CallMsgBody(s, 1, iproto.Body(bigBody()))
			case 1:
				c, _ := root.Child()
				c.CallMsgBody(s, 1, iproto.Body(bigBody()))
				if k%2 == 0 {
					c.Cancel()
				}
				c.Done()
			case 2:
				b := bigBody()
				cxs = append(cxs, root.Go(func(cx *iproto.Context) { b[0] = 1; cx.CallMsgBody(s, 1, iproto.Body(b)) }))
			case 3:
				m := root.NewMulti()
				if k%3 == 0 {
					m.SetTimeout(time.Hour)
				}
				m.SendMsgBody(s, 1, iproto.Body(bigBody()))
				if k%2 == 0 {
					m.Results()
				} else {
					for range m.Each() {
					}
				}
			case 4: // answered later
				c, _ := root.Child()
				_, ch := c.SendMsgBody(slow, 1, iproto.Body(bigBody()))
				if k%3 == 0 {
					c.Cancel()
				}
				h.answer(r, 100)
				<-ch
				c.Done()
			case 5:
				req, ch := root.NewRequest(1, iproto.Body(bigBody()))
				req.SetTimeout(time.Hour)
				if k%2 == 0 {
					req.Cancel()
				} else {
					s.Send(req)
				}
				<-ch
			case 6:
				b := bigBody()
				cxs = append(cxs, root.GoInt(func(cx *iproto.Context, i interface{}) {
					c, _ := cx.Child()
					c.CallMsgBody(s, 1, iproto.Body(i.([]byte)))
					c.Done()
				}, b))
			}
			if len(cxs) == 100 {
				for _, c := range cxs {
					if !finishes(c.WaitAll) {
						e.hung(cs, "wait", "context does not end")
						return false
					}
				}
				cxs = cxs[:0]
			}
		}
		if !finishes(root.WaitAll) {
			e.hung(cs, "wait", "context waits for what is over")
			return false
		}
		return true
	}}
}

// multi-requests without a context and with long timeouts
func workMultis(e *Env, cs string, r *rand.Rand, kind int) *work {
	each, before, cx := kind%2 == 0, kind/2%3, r.IntN(2) == 0
	root := &iproto.Context{}
	h := &holder{}
	return &work{n: 1500, what: fmt.Sprintf("multi-requests with a timeout of an hour, each %v, answered %d, of a context: %v", each, before, cx), idle: func() {}, round: func(n int) bool {
		for k := 0; k < n; k++ {
			m := &iproto.MultiRequest{}
			if cx {
				m = root.NewMulti()
			}
			m.SetTimeout(time.Hour)
			for j := 0; j < 3; j++ {
				m.SendMsgBody(h.service(), 1, iproto.Body(bigBody()))
			}
			if before == 0 {
				h.answer(r, 100)
			} else {
				if before == 1 {
					h.answer(r, 50)
				}
				t := time.AfterFunc(time.Duration(r.IntN(20))*time.Microsecond, func() { h.answer(rand.New(rand.NewPCG(1, 1)), 100) })
				defer t.Stop()
			}
			got := 0
			if !finishes(func() {
				if each {
					for range m.Each() {
						got++
					}
				} else {
					got = len(m.Results())
				}
			}) || got != 3 {
				e.hung(cs, "multi", "multi-request of 3 has given %d answers", got)
				return false
			}
		}
		return true
	}}
}

// a pool with handlers which answer, panic, are cancelled and expire
func workPool(e *Env, cs string, r *rand.Rand, kind int) *work {
	kind %= 5
	bf := iproto.BF{N: 1 + r.IntN(8)}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
		switch kind {
		case 1:
			panic("failing handler")
		case 2: // cancelled while it runs
			for cx.Alive() {
				time.Sleep(time.Microsecond)
			}
		case 3:
			c, _ := cx.Child()
			c.CallMsgBody(quickService(), 1, iproto.Body(bigBody()))
			c.Done()
		case 4:
			for cx.Alive() {
				time.Sleep(time.Microsecond)
			}
		}
		return iproto.RcOK, q.Body
	})
	n := []int{3000, 1500, 1500, 3000, 1500}[kind]
	return &work{n: n, what: fmt.Sprintf("calls of a pool, kind %d", kind), idle: bf.Stop, round: func(n int) bool {
		var qs []*rec
		for k := 0; k < n; k++ {
			q := newRec(uint32(k), 1, bigBody())
			if kind != 4 {
				q.SetTimeout(time.Hour)
			} else {
				q.SetTimeout(200 * time.Microsecond)
			}
			bf.Send(&q.Request)
			if kind == 2 {
				time.AfterFunc(time.Duration(k%50)*time.Microsecond, q.Cancel)
			}
			qs = append(qs, q)
			if len(qs) == 50 || k == n-1 {
				for _, q := range qs {
					if !closed(q.done) {
						e.hung(cs, "answer", "request to a pool is not answered")
						return false
					}
				}
				qs = qs[:0]
			}
		}
		return true
	}}
}

// a queue overflows again and again
func workOverflow(e *Env, cs string, r *rand.Rand, kind int) *work {
	var open atomic.Pointer[gate]
	open.Store(newGate())
	dying := kind % 3
	p := newPoint(func(p *point) {
		for {
			open.Load().wait()
			select {
			case q := <-p.ReceiveChan():
				if q.SetInFly(nil) {
					q.RespondBytes(iproto.RcOK, nil)
				}
			case <-p.ExitChan():
				p.ShutDownAll()
				return
			}
		}
	})
	iproto.Run(p)
	return &work{n: 130000, limit: 3 << 20, what: fmt.Sprintf("requests which overflow the queue, %d of 4 die in it", dying), idle: func() { open.Load().open(); p.Stop() }, round: func(n int) bool {
		qs := make([]*qrec, n)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := g; k < n; k += 4 {
					q := &qrec{}
					q.Responder = qresp{q}
					qs[k] = q
					p.Send(&q.Request)
					if k%4 < dying {
						q.Cancel()
					}
				}
			}()
		}
		if !finishes(wg.Wait) {
			e.hung(cs, "send", "senders are blocked")
			return false
		}
		g := open.Load()
		g.open()
		for k, q := range qs {
			if !until(func() bool { return atomic.LoadInt32(&q.n) > 0 }) {
				e.hung(cs, "lost", "request %d of %d is not delivered", k, n)
				return false
			}
		}
		open.Store(newGate())
		return true
	}}
}

// calls through a client to a server
func workCalls(e *Env, cs string, r *rand.Rand, kind int) *work {
	kind %= 3
	rc := rcOf(r)
	h := &holder{}
	ep := iproto.SF(func(q *iproto.Request) { q.RespondBytes(iproto.RcOK, q.Body) })
	if kind == 2 { // cancelled by callers while a handler thinks, answered after
		ep = h.service().(iproto.SF)
	}
	s := newServer(r, r.IntN(2) == 0, ep, rc, nil)
	c := newClient(s.Network, s.Address, rc, 1+r.IntN(3), func(c *client.ServerConfig) {
		if kind == 1 {
			c.Timeout = time.Hour
		}
	})
	n := 4000
	small := kind == 0
	if small {
		n = 120000 // many ids of the wire
	}
	return &work{n: n, what: fmt.Sprintf("calls through a client, kind %d", kind), idle: func() {
		c.Stop()
		s.Stop()
	}, round: func(n int) bool {
		if kind != 2 && !ready(e, cs, c, 1) {
			return false
		}
		var qs []*rec
		for k := 0; k < n; k++ {
			b := []byte{1, 2, 3}
			if !small {
				b = bigBody()
			}
			q := newRec(uint32(k), 1, b)
			c.Send(&q.Request)
			qs = append(qs, q)
			if len(qs) == 200 || k == n-1 {
				if kind == 2 {
					time.Sleep(2 * time.Millisecond)
					for j, q := range qs {
						if j%2 == 0 {
							q.Cancel()
						}
					}
				}
				for _, q := range qs {
					if !until(func() bool {
						if kind == 2 {
							h.answer(r, 100)
						}
						return q.answered()
					}) {
						e.hung(cs, "answer", "call through a client is not answered")
						return false
					}
				}
				qs = qs[:0]
			}
		}
		return true
	}}
}

// connections of a client are cut again and again, calls are being made
func workCut(e *Env, cs string, r *rand.Rand, kind int) *work {
	rc := rcOf(r)
	f := newFake(r, r.IntN(2) == 0, rc)
	kind %= 3
	cut := r.IntN(2) == 0
	var n atomic.Int64
	f.onReq = func(c *raw, q frame) {
		switch {
		case n.Add(1)%3 != 0:
			c.send(true, frame{msg: q.msg, id: q.id})
		case kind == 0:
			c.reset()
		case kind == 1:
			c.send(true, frame{msg: q.msg, id: q.id})
			c.Close()
		default:
			c.closeWrite()
			if cut {
				c.Close()
			}
		}
	}
	f.start()
	c := newClient(f.network, f.addr, rc, 32, func(c *client.ServerConfig) {
		c.Timeout = time.Hour
	})
	return &work{n: 200, limit: 3 << 20, what: fmt.Sprintf("connections of a client which are cut, kind %d", kind), idle: func() {
		c.Stop()
		f.stop()
	}, full: func() bool { return f.nconns() == 32 }, round: func(n int) bool {
		for from := f.totalConns(); f.totalConns() < from+n; {
			q := newRec(1, 1, bigBody())
			c.Send(&q.Request)
			if !closed(q.done) {
				e.hung(cs, "answer", "request is not answered")
				return false
			}
			if q.code != 0 {
				time.Sleep(50 * time.Microsecond)
			}
		}
		return true
	}}
}

// peers of a server come and go
func workPeers(e *Env, cs string, r *rand.Rand, kind int) *work {
	kind %= 5
	rc := rcOf(r)
	h := &holder{}
	var ep iproto.Service = quickService()
	if kind == 3 {
		ep = h.service()
	}
	s := newServer(r, r.IntN(2) == 0, ep, rc, nil)
	return &work{n: 1000, what: fmt.Sprintf("peers of a server which come and go, kind %d", kind), idle: func() { s.Stop() }, round: func(n int) bool {
		for k := 0; k < n; k++ {
			p := dialRaw(s.Network, s.Address, rcLen(rc))
			if kind > 0 {
				p.send(false, frame{msg: 1, id: 5, body: bigBody()}, frame{msg: 0xFF00, id: 1})
			}
			switch kind {
			case 1, 2: // is answered
				for j := 0; j < 2; j++ {
					if _, err := p.read(); err != nil {
						e.Viol(cs, "answer", "%s: peer is not answered: %v", cs, err)
						return false
					}
				}
			case 3: // is answered after it has gone
			case 4: // breaks off in the middle
				p.Write([]byte{1, 0, 0, 0, 255, 255, 0, 0, 1, 0, 0, 0, 1, 2, 3})
			}
			if k%3 == 0 && kind != 2 {
				p.reset()
			} else {
				p.Close()
			}
			if kind == 3 {
				h.answer(r, 100)
			}
		}
		time.Sleep(50 * time.Millisecond)
		h.answer(r, 100)
		return true
	}}
}

// connections which are only pinged
func workPings(e *Env, cs string, r *rand.Rand, kind int) *work {
	s := newServer(r, r.IntN(2) == 0, quickService(), nt.RC4byte, nil)
	c := newClient(s.Network, s.Address, nt.RC4byte, 4, func(c *client.ServerConfig) {
		c.PingInterval = 50 * time.Microsecond
		c.ReadTimeout = time.Minute
	})
	p := dialRaw(s.Network, s.Address, 4)
	return &work{n: 20000, limit: 2 << 20, what: "pings", idle: func() {
		p.Close()
		c.Stop()
		s.Stop()
	}, round: func(n int) bool {
		for k := 0; k < n; k += 500 {
			fs := make([]frame, 500)
			for j := range fs {
				fs[j] = frame{msg: 0xFF00, id: uint32(k + j)}
			}
			go p.send(false, fs...)
			for j := range fs {
				f, err := p.read()
				if err != nil || f.msg != 0xFF00 || f.id != uint32(k+j) {
					e.Viol(cs, "ping", "%s: ping %d is answered with %+v, %v", cs, k+j, f, err)
					return false
				}
			}
		}
		return true
	}}
}

// requests through a tree of balancers
func workBalancer(e *Env, cs string, r *rand.Rand, kind int) *work {
	b, in := &iproto.BalancerPoint{}, &iproto.BalancerPoint{}
	b.Init()
	in.Init()
	for k := 0; k < 4; k++ {
		p := newPoint(func(p *point) {
			for {
				select {
				case q := <-p.ReceiveChan():
					if q.SetInFly(nil) {
						q.RespondBytes(iproto.RcOK, nil)
					}
				case <-p.ExitChan():
					return
				}
			}
		})
		if k%2 == 0 {
			b.AddChild(p)
		} else {
			in.AddChild(p)
		}
	}
	b.AddChild(in)
	b.Timeout = time.Hour
	iproto.Run(b)
	return &work{n: 3000, what: "calls of a balancer", idle: b.Stop, round: func(n int) bool {
		for k := 0; k < n; k++ {
			q := newRec(uint32(k), 1, bigBody())
			b.Send(&q.Request)
			if k%5 == 0 {
				q.Cancel()
			}
			if !closed(q.done) {
				e.hung(cs, "answer", "request to a balancer is not answered")
				return false
			}
		}
		return true
	}}
}

// a client is resized again and again
func workResize(e *Env, cs string, r *rand.Rand, kind int) *work {
	s := newServer(r, r.IntN(2) == 0, quickService(), nt.RC4byte, nil)
	c := newClient(s.Network, s.Address, nt.RC4byte, 1, func(c *client.ServerConfig) { c.Timeout = time.Hour })
	return &work{n: 2, limit: 2 << 20, what: "changes of the count of connections", idle: func() {
		c.Stop()
		s.Stop()
	}, round: func(n int) bool {
		for k := 0; k < n; k++ {
			for _, m := range []int{60, 1} {
				c.SetConnections(m)
				time.Sleep(300 * time.Millisecond)
				for j := 0; j < 100; j++ {
					q := newRec(uint32(j), 1, bigBody())
					c.Send(&q.Request)
					if !closed(q.done) {
						e.hung(cs, "answer", "request is not answered")
						return false
					}
				}
			}
		}
		return true
	}}
}

// servers are started and stopped, one after another; clients of nobody wait for them
func workDeaf(e *Env, cs string, r *rand.Rand, kind int) *work {
	network, addr := freeAddr(r, r.IntN(2) == 0)
	c := newClient(network, addr, nt.RC4byte, 3, func(c *client.ServerConfig) {
		c.Timeout = time.Hour
	})
	rounds := 0
	return &work{n: 8, limit: 3 << 20, what: "servers which start and stop", idle: c.Stop, round: func(n int) bool {
		for k := 0; k < n; k++ {
			var s *server.Server
			rounds++
			if !until(func() bool {
				cfg := server.Config{EndPoint: quickService(), RCType: nt.RC4byte, Network: network, Address: addr}
				s = cfg.NewServer()
				return s.Run() == nil
			}) {
				panic("HARNESS: server does not start")
			}
			for j := 0; j < 10; j++ {
				q := newRec(uint32(j), 1, bigBody())
				c.Send(&q.Request)
				if !closed(q.done) {
					e.hung(cs, "answer", "request is not answered")
					return false
				}
			}
			s.Stop()
		}
		return true
	}}
}

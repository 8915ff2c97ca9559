package main

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
)

func c27(e *Env) {
	n := e.N(5760, 69120)
	e.Cases(n, 6, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		switch i % 6 {
		case 0:
			c27stuck(e, cs, r)
		case 1:
			c27busy(e, cs, r)
		case 2:
			c27silent(e, cs, r)
		case 3:
			c27nowhere(e, cs, r)
		case 4:
			c27multi(e, cs, r)
		case 5:
			c27first(e, cs, r)
		}
	})
}

func someTimeout(r *rand.Rand) time.Duration {
	return time.Duration(200+r.IntN(pick(r, 1000, 5000, 20000))) * time.Microsecond
}

// late checks that a request is answered with a timeout, and not before its time
func (q *rec) late(e *Env, cs, what string, limit time.Duration) bool {
	if !closed(q.done) {
		e.hung(cs, "timeout", "%s is not answered %v after its timeout of %v", what, time.Since(q.sent)-limit, limit)
		return false
	}
	took := q.at.Sub(q.sent)
	if q.code != iproto.RcTimeout || len(q.body) != 0 {
		e.Viol(cs, "code", "%s: %s is answered with %s %q after %v", cs, what, codeName(q.code), q.body, took)
		return false
	}
	if took < limit-early {
		e.Viol(cs, "early", "%s: %s with timeout %v has expired in %v", cs, what, limit, took)
		return false
	}
	if q.answers() != 1 || !q.idOK {
		e.Viol(cs, "not-once", "%s: %s is answered %d times, with its id and type: %v", cs, what, q.answers(), q.idOK)
		return false
	}
	return true
}

// nobody takes requests at all
func c27stuck(e *Env, cs string, r *rand.Rand) {
	T := someTimeout(r)
	exit := newGate()
	p := newPoint(func(p *point) {
		<-p.ExitChan()
		exit.open()
		p.ShutDownAll()
	})
	p.Timeout = T
	iproto.Run(p)
	var s iproto.Service = p
	if r.IntN(3) == 0 {
		s = iproto.StatWrap(p, func(*iproto.Request, time.Duration) {})
	}
	n := pick(r, 1, 2, 10, 50, 300)
	if r.IntN(40) == 0 {
		n = 17000
	}
	var qs []*rec
	for k := 0; k < n; k++ {
		q := newRec(uint32(k), 6, nil)
		qs = append(qs, q)
		q.sent = time.Now()
		s.Send(&q.Request)
		if k%50 == 1 {
			time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
		}
	}
	for k, q := range qs {
		if !q.late(e, cs, fmt.Sprintf("request %d of %d which nobody takes", k, n), T) {
			return
		}
	}
	p.Stop()
	e.Eval(1)
	e.Count("nobody takes", n)
	e.Distinct("stuck %d %v", n, T)
	e.Sample("%s: %d requests which nobody takes, timeout %v", cs, n, T)
}

// workers are busy with something else
func c27busy(e *Env, cs string, r *rand.Rand) {
	T := someTimeout(r)
	N := 1 + r.IntN(3)
	g := newGate()
	type run struct {
		*rec
		timeout bool
		in      *gate
		ran     int
	}
	n := N + r.IntN(20)
	qs := make([]*run, n)
	var m sync.Mutex
	s := iproto.BF{N: N, Timeout: T}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
		m.Lock()
		x := qs[q.Id]
		x.ran++
		m.Unlock()
		x.in.open()
		g.wait()
		m.Lock()
		x.timeout = !cx.Alive() && cx.Timeout()
		m.Unlock()
		return iproto.RcOK, iproto.Body("done")
	})
	for k := range qs {
		qs[k] = &run{rec: newRec(uint32(k), 6, nil), in: newGate()}
		qs[k].sent = time.Now()
		s.Send(&qs[k].Request)
	}
	running := 0
	for k, q := range qs {
		if !until(func() bool { return q.in.is() || q.answered() }) {
			e.hung(cs, "timeout", "request %d, %v old, is neither expired after %v nor taken by %d workers", k, time.Since(q.sent), T, N)
			return
		}
		if q.in.is() {
			running++
		} else if !q.late(e, cs, fmt.Sprintf("request %d in the queue of %d busy workers", k, N), T) {
			return
		}
	}
	// what is running has expired as well by now
	time.Sleep(time.Until(qs[n-1].sent.Add(T + 3*time.Millisecond)))
	for k, q := range qs {
		if q.in.is() && q.answered() {
			e.Viol(cs, "running", "%s: request %d which is running is answered with %s", cs, k, codeName(q.code))
			return
		}
	}
	g.open()
	for k, q := range qs {
		if !closed(q.done) {
			e.hung(cs, "answer", "request %d which was running when it expired is not answered", k)
			return
		}
		m.Lock()
		ran := q.ran
		m.Unlock()
		if q.in.is() && (ran != 1 || q.code != iproto.RcOK || string(q.body) != "done") || !q.in.is() && ran != 0 {
			e.Viol(cs, "running", "%s: request %d, expired (while running: %v), is answered with %s %q, run %d times", cs, k, q.in.is(), codeName(q.code), q.body, ran)
		}
	}
	// a quick one is not affected
	q := newRec(0, 1, nil)
	m.Lock()
	qs[0] = &run{rec: q, in: newGate()}
	m.Unlock()
	s.Send(&q.Request)
	if !closed(q.done) {
		e.hung(cs, "answer", "request after expired ones is not answered")
		return
	}
	if q.code == iproto.RcOK {
		time.Sleep(T + time.Millisecond)
	}
	if q.answers() != 1 {
		e.Viol(cs, "not-once", "%s: request answered in time is answered %d times", cs, q.answers())
	}
	s.Stop()
	e.Eval(1)
	e.Count("expired in a queue", n-running)
	e.Count("expired while running", running)
	e.Distinct("busy %d %d %v", N, n, running)
	e.Sample("%s: %d workers are busy, %d requests expire in the queue and %d running ones after %v", cs, N, n-running, running, T)
}

// the peer does not answer, or answers too late
func c27silent(e *Env, cs string, r *rand.Rand) {
	T := 5*time.Millisecond + someTimeout(r)
	rc := rcOf(r)
	f := newFake(r, r.IntN(2) == 0, rc)
	var m sync.Mutex
	type held struct {
		c *raw
		f frame
	}
	var hold []held
	got := 0
	f.onReq = func(c *raw, q frame) {
		m.Lock()
		defer m.Unlock()
		got++
		if q.msg == 1 {
			hold = append(hold, held{c, q})
			return
		}
		c.send(true, frame{msg: q.msg, id: q.id, code: 0, body: append([]byte("re "), q.body...)})
	}
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, 1+r.IntN(3), func(c *client.ServerConfig) { c.Timeout = T })
	defer c.Stop()
	if !ready(e, cs, c, 2) {
		return
	}
	rounds := 1 + r.IntN(3)
	n := 1 + r.IntN(20)
	quick := 0
	for round := 0; round < rounds; round++ {
		var qs []*rec
		for k := 0; k < n; k++ {
			q := newRec(uint32(k), 1, []byte{byte(k)})
			qs = append(qs, q)
			q.sent = time.Now()
			c.Send(&q.Request)
		}
		for k, q := range qs {
			if !q.late(e, cs, fmt.Sprintf("request %d of %d to a silent server", k, n), T) {
				return
			}
		}
		// now it answers what was asked and has expired
		m.Lock()
		for _, h := range hold {
			h.c.send(true, frame{msg: h.f.msg, id: h.f.id, code: 5, body: []byte("too late")})
		}
		hold = nil
		m.Unlock()
		for k := 0; k < 10; k++ {
			q := newRec(uint32(k), 2, []byte(fmt.Sprint(round, " ", k)))
			q.sent = time.Now()
			c.Send(&q.Request)
			if !closed(q.done) {
				e.hung(cs, "answer", "request after expired ones is not answered")
				return
			}
			if q.code == iproto.RcTimeout && time.Since(q.sent) >= T-early {
				continue // an overloaded machine
			}
			quick++
			if q.code != iproto.RcOK || string(q.body) != fmt.Sprintf("re %d %d", round, k) {
				e.Viol(cs, "foreign", "%s: request sent after others have expired is answered with %s %q after %v of %v", cs, codeName(q.code), q.body, time.Since(q.sent), T)
				return
			}
		}
		for k, q := range qs {
			if q.answers() != 1 {
				e.Viol(cs, "not-once", "%s: expired request %d is answered %d times", cs, k, q.answers())
			}
		}
	}
	e.Eval(1)
	e.Count("expired at a silent server", n*rounds)
	e.Count("answered in time", quick)
	e.Distinct("silent %d %d %v %d", n, rounds, T, rc)
	e.Sample("%s: %d times %d requests to a server which answers later than %v", cs, rounds, n, T)
}

// there is no server
func c27nowhere(e *Env, cs string, r *rand.Rand) {
	T := someTimeout(r)
	network, addr := freeAddr(r, r.IntN(2) == 0)
	var f *fake
	if r.IntN(2) == 0 {
		// somebody accepts, and does not say a word
		f = newFake(r, network == "tcp", nt.RC4byte)
		g := newGate()
		defer g.open()
		f.onConn = func(c *raw) bool { g.wait(); return false }
		f.start()
		defer func() { g.open(); f.stop() }()
		network, addr = f.network, f.addr
	}
	c := newClient(network, addr, nt.RC4byte, 1+r.IntN(3), func(c *client.ServerConfig) {
		c.Timeout = T
		c.DialTimeout = 50 * time.Millisecond
		c.ReadTimeout = 50 * time.Millisecond
	})
	n := 1 + r.IntN(30)
	var qs []*rec
	for k := 0; k < n; k++ {
		q := newRec(uint32(k), 1, []byte{byte(k)})
		qs = append(qs, q)
		q.sent = time.Now()
		c.Send(&q.Request)
		if k%8 == 0 {
			time.Sleep(time.Duration(r.IntN(1000)) * time.Microsecond)
		}
	}
	io := 0
	for k, q := range qs {
		if closed(q.done) && q.code == iproto.RcIOError {
			io++
			continue
		}
		if !q.late(e, cs, fmt.Sprintf("request %d of %d to a server which is not there", k, n), T) {
			return
		}
	}
	c.Stop()
	e.Eval(1)
	e.Count("no server: expired", n-io)
	e.Count("no server: failed", io)
	e.Distinct("nowhere %d %v %d", n, f != nil, io)
	e.Sample("%s: %d requests to nobody (accepting: %v), timeout %v: %d failed, others expired", cs, n, f != nil, T, io)
}

// multi-requests
func c27multi(e *Env, cs string, r *rand.Rand) {
	T := someTimeout(r)
	p := newPoint(func(p *point) {
		<-p.ExitChan()
		p.ShutDownAll()
	})
	from := r.IntN(4)
	if from == 1 || from == 3 {
		p.Timeout = T
	}
	iproto.Run(p)
	h := &holder{}
	cx := &iproto.Context{}
	mr := cx.NewMulti()
	t0 := time.Now()
	fromService := false
	switch from {
	case 0:
		mr.SetTimeout(T)
		if r.IntN(2) == 0 {
			mr.SetTimeout(T / 10) // the first one stays
		}
	case 1:
		if fromService = r.IntN(2) == 0; fromService {
			mr.TimeoutFrom(p)
		} // or each request has it by itself
	case 2:
		mr.SetTimeout(T)
	case 3: // given first, so that the one of the service does not apply
		mr.SetTimeout(farAway(r))
	}
	n := 1 + r.IntN(40)
	quick := iproto.SF(func(q *iproto.Request) { q.RespondBytes(iproto.RcOK, q.Body) })
	where := make([]int, n)
	for k := range where {
		where[k] = r.IntN(3)
		if from == 1 && where[k] == 2 && !fromService {
			where[k] = 1
		}
		mr.SendMsgBody([]iproto.Service{quick, p, h.service()}[where[k]], 4, iproto.Body{byte(k)})
	}
	var rs []*iproto.Response
	each := r.IntN(2) == 0
	if from == 3 {
		c27multiLong(e, cs, r, mr, p, h, T, n, where, each)
		return
	}
	ok := finishes(func() {
		if each {
			for res := range mr.Each() {
				rs = append(rs, res)
			}
		} else {
			rs = mr.Results()
		}
	})
	if !ok {
		e.hung(cs, "timeout", "multi-request of %d with timeout %v (kind %d, each %v) does not end: %d answers", n, T, from, each, len(rs))
		return
	}
	took := time.Since(t0)
	expired := 0
	for _, res := range rs {
		if where[res.Id] == 0 && res.Code == iproto.RcOK && len(res.Body) == 1 && res.Body[0] == byte(res.Id) {
			continue
		}
		expired++
		if res.Code != iproto.RcTimeout || where[res.Id] == 0 && took < T-early {
			e.Viol(cs, "code", "%s: request %d of a multi-request (kind %d, service %d) is answered with %s %q", cs, res.Id, from, where[res.Id], codeName(res.Code), res.Body)
		}
	}
	if len(rs) != n {
		e.Viol(cs, "results", "%s: %d answers of %d", cs, len(rs), n)
	}
	if expired > 0 && took < T-early {
		e.Viol(cs, "early", "%s: a multi-request with timeout %v (kind %d) has expired in %v", cs, T, from, took)
	}
	h.answer(r, 100)
	p.Stop()
	if !finishes(cx.WaitAll) {
		e.hung(cs, "wait", "context waits for an expired multi-request")
		return
	}
	e.Eval(1)
	e.Count("expired in multi-requests", expired)
	e.Distinct("multi %d %d %v %d", n, from, each, expired)
	e.Sample("%s: multi-request of %d, %d expired after %v", cs, n, expired, took)
}

// a multi-request has an hour, and the service of its requests a short timeout
func c27multiLong(e *Env, cs string, r *rand.Rand, mr *iproto.MultiRequest, p *point, h *holder, T time.Duration, n int, where []int, each bool) {
	alive := 0
	t0 := time.Now()
	go func() {
		time.Sleep(T + 2*time.Millisecond)
		mr.Cancel()
	}()
	var rs []*iproto.Response
	ok := finishes(func() {
		if each {
			for res := range mr.Each() {
				rs = append(rs, res)
			}
		} else {
			rs = mr.Results()
		}
	})
	if !ok {
		e.hung(cs, "cancel", "cancelled multi-request of %d (each %v) does not end: %d answers", n, each, len(rs))
		return
	}
	for _, res := range rs {
		if where[res.Id] == 0 && res.Code == iproto.RcOK {
			continue
		}
		alive++
		if res.Code != iproto.RcCanceled {
			e.Viol(cs, "first", "%s: request %d of a multi-request with a timeout of an hour, sent to service %d with a timeout of %v, is answered with %s after %v", cs, res.Id, where[res.Id], T, codeName(res.Code), time.Since(t0))
			break
		}
	}
	h.answer(r, 100)
	p.Stop()
	e.Eval(1)
	e.Count("outlived the timeout of the service", alive)
	e.Distinct("multilong %d %v %d", n, each, alive)
}

// the first limit applies, and what was answered in time stays
func c27first(e *Env, cs string, r *rand.Rand) {
	short := someTimeout(r)
	long := farAway(r)
	p := newPoint(func(p *point) {
		for {
			select {
			case <-p.ExitChan():
				p.ShutDownAll()
				return
			case q := <-p.ReceiveChan():
				if q.Msg == 1 { // those answered at once
					if q.SetInFly(nil) {
						q.RespondBytes(iproto.RcOK, []byte("quick"))
					}
				}
			}
		}
	})
	kind := r.IntN(4)
	p.Timeout = []time.Duration{long, short, 0, short}[kind]
	iproto.Run(p)
	n := 1 + r.IntN(40)
	cx := &iproto.Context{}
	var qs, fast []*rec
	var cxs []cxReq
	t0 := time.Now()
	for k := 0; k < n; k++ {
		q := newRec(uint32(k), 2, nil)
		q.sent = time.Now()
		switch kind {
		case 0: // own short one, then the long one of the service
			q.SetTimeout(short)
		case 1: // own long one, then the short one of the service
			q.SetTimeout(long)
		case 2: // only its own
			q.SetTimeout(short)
			q.SetTimeout(long)
		case 3: // only of the service
			q.SetTimeout(0)
			q.SetTimeout(-1)
		}
		qs = append(qs, q)
		if kind != 1 && r.IntN(4) == 0 {
			time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond) // may expire before it is sent
		}
		p.Send(&q.Request)
		f := newRec(uint32(k), 1, nil)
		f.sent = time.Now()
		if r.IntN(2) == 0 {
			f.SetTimeout(short)
		}
		fast = append(fast, f)
		p.Send(&f.Request)
		if r.IntN(4) == 0 {
			q, ch := cx.NewRequest(1, nil)
			q.SetTimeout(short)
			p.Send(q)
			cxs = append(cxs, cxReq{ch, q})
		}
	}
	if kind == 1 {
		time.Sleep(short + 2*time.Millisecond)
		for k, q := range qs {
			if q.answered() {
				e.Viol(cs, "first", "%s: request %d with a timeout of an hour is answered with %s after %v (service has a timeout of %v)", cs, k, codeName(q.code), q.at.Sub(q.sent), short)
				return
			}
		}
		p.Stop()
		for _, q := range qs {
			q.Cancel()
		}
	}
	inTime := 0
	for k, q := range qs {
		if kind != 1 && !q.late(e, cs, fmt.Sprintf("request %d of %d (kind %d)", k, n, kind), short) {
			return
		}
	}
	for _, f := range fast {
		if !closed(f.done) {
			e.hung(cs, "answer", "a quick request is not answered")
			return
		}
		switch {
		case f.code == iproto.RcOK:
			inTime++
		case f.code == iproto.RcTimeout && f.at.Sub(f.sent) >= short-early:
		case kind == 1 && f.code == iproto.RcShutdown:
		default:
			e.Viol(cs, "code", "%s: a quick request is answered with %s after %v of %v", cs, codeName(f.code), f.at.Sub(f.sent), short)
		}
	}
	for _, q := range cxs {
		if _, ok := recv(q.ch); !ok {
			e.hung(cs, "answer", "a quick request of a context is not answered")
			return
		}
	}
	// wait until everything left behind would have fired
	time.Sleep(time.Until(t0.Add(short + 2*time.Millisecond)))
	for _, f := range fast {
		if f.answers() != 1 {
			e.Viol(cs, "not-once", "%s: request answered in time is answered %d times", cs, f.answers())
		}
	}
	if !finishes(cx.WaitAll) || !cx.Alive() {
		e.Viol(cs, "context", "%s: context of requests answered in time is dead", cs)
	}
	p.Stop()
	e.Eval(1)
	e.Count("answered in time", inTime)
	e.Distinct("first %d %d %d", kind, n, inTime)
	e.Sample("%s: %d requests, kind %d, timeout %v, %d quick ones answered in time", cs, n, kind, short, inTime)
}

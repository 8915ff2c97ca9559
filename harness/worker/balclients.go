package main

import (
	"math/rand/v2"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

// c24clients: children of a balancer are network clients. One of them has no connection, or loses it,
// while the other one is still connecting: the queue is not its own, so requests have to wait for the other.
func c24clients(e *Env, cs string, r *rand.Rand) {
	loses := r.IntN(2) == 0
	rc := rcOf(r)
	live, bad := newFake(r, r.IntN(2) == 0, rc), newFake(r, r.IntN(2) == 0, rc)
	defer live.stop()
	defer bad.stop()
	ready, blocked, cut := newGate(), newGate(), newGate()
	var served atomic.Int64
	hello := func(c *raw) bool {
		q, err := c.read()
		return err == nil && c.send(true, frame{msg: 0xFF00, id: q.id}) == nil
	}
	live.onConn = func(c *raw) bool {
		ready.wait()
		return hello(c)
	}
	live.onReq = func(c *raw, q frame) {
		served.Add(1)
		c.send(true, frame{msg: q.msg, id: q.id, body: q.body})
	}
	bad.onConn = func(c *raw) bool {
		if !hello(c) {
			return false
		}
		c.br.Peek(1)
		blocked.open()
		cut.wait()
		c.reset()
		return false
	}
	live.start()
	if loses {
		bad.start()
	} else {
		bad.l.Close()
	}
	child := func(f *fake) *client.Server {
		cfg := client.ServerConfig{Network: f.network, Address: f.addr, Connections: 1 + r.IntN(2), RetCodeType: rc, PingInterval: -1}
		if loses {
			cfg.Connections = 1
		}
		return cfg.NewServer()
	}
	b := &iproto.BalancerPoint{}
	b.Init()
	top := b
	kids := []iproto.EndPoint{child(bad)}
	if !loses {
		kids = append(kids, child(live))
		r.Shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
	}
	for _, k := range kids {
		b.AddChild(k)
	}
	if r.IntN(3) == 0 { // nested
		top = &iproto.BalancerPoint{}
		top.Init()
		top.AddChild(b)
	}
	iproto.Run(top)
	var stuck *rec
	if loses {
		stuck = newRec(0, 5, make([]byte, 16<<20))
		top.Send(&stuck.Request)
		if !closed(blocked.ch) {
			e.hung(cs, "connect", "client in a balancer does not connect")
			return
		}
		b.AddChild(child(live))
	}
	n := 1 + r.IntN(200)
	qs := make([]*rec, n)
	for k := range qs {
		qs[k] = newRec(uint32(k), 3, []byte{byte(k), 1, 2})
		top.Send(&qs[k].Request)
	}
	if loses {
		bad.l.Close() // so that it does not connect again
	}
	cut.open()
	if loses {
		if !closed(stuck.done) {
			e.hung(cs, "answer", "request in flight on a lost connection of a client in a balancer is not answered")
			return
		}
	}
	time.Sleep(time.Duration(r.IntN(500)) * time.Millisecond) // some attempts to connect again
	ready.open()
	for k, q := range qs {
		if !closed(q.done) {
			e.hung(cs, "answer", "request %d of %d to a balancer of clients is not answered", k, n)
			return
		}
		if q.code != 0 || len(q.body) != 3 || q.body[0] != byte(k) || q.answers() != 1 {
			e.Viol(cs, "failed", "%s: request %d of %d waiting in a balancer for a client which connects is answered with %s %d times (another client has lost its connection: %v, could not connect: %v)", cs, k, n, codeName(q.code), q.answers(), loses, !loses)
			return
		}
	}
	top.Stop()
	late := newRec(7, 3, nil)
	if !until(func() bool {
		late = newRec(7, 3, nil)
		top.Send(&late.Request)
		return closed(late.done) && late.code == iproto.RcShutdown
	}) {
		e.hung(cs, "stop", "request to a stopped balancer of clients is answered with %s", codeName(late.code))
		return
	}
	e.Eval(1)
	e.Count("requests which waited for a client", n)
	e.Distinct("clients %v %d", loses, n)
}

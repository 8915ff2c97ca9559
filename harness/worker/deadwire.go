package main

import (
	"encoding/binary"
	"math/rand/v2"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

// c02wire: requests die in the queue of a network client whose connection is stuck, and must not be sent when it goes on
func c02wire(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	f := newFake(r, r.IntN(2) == 0, rc)
	g := newGate()
	const msg = 77
	n := 1 + r.IntN(pick(r, 10, 100, 1000))
	var m sync.Mutex
	seen := make(map[uint32]int)
	blocked := newGate()
	f.onConn = func(c *raw) bool {
		q, err := c.read() // first ping
		if err != nil || c.send(true, frame{msg: 0xFF00, id: q.id}) != nil {
			return false
		}
		if _, err := c.br.Peek(1); err != nil {
			return false
		}
		blocked.open()
		g.wait()
		return true
	}
	f.onReq = func(c *raw, q frame) {
		if q.msg == msg && len(q.body) >= 4 {
			m.Lock()
			seen[binary.LittleEndian.Uint32(q.body)]++
			m.Unlock()
		}
		c.send(true, frame{msg: q.msg, id: q.id})
	}
	f.start()
	defer f.stop()
	serviceTimeout := r.IntN(4) == 0
	T := 30 * time.Millisecond
	c := newClient(f.network, f.addr, rc, 1, func(c *client.ServerConfig) {
		if serviceTimeout {
			c.Timeout = T
		}
	})
	defer c.Stop()
	// nothing is read: the connection is stuck in this one
	stuck := newRec(9, msg+1, make([]byte, 16<<20))
	stuck.SetTimeout(time.Hour)
	c.Send(&stuck.Request)
	if !closed(blocked.ch) {
		e.hung(cs, "connect", "client does not connect")
		return
	}
	cx := &iproto.Context{}
	mr := &iproto.MultiRequest{}
	var nmulti, ncx int
	all := make([]*rec, n)
	dead := make([]bool, n)
	var chs []<-chan *iproto.Response
	kinds := make(map[string]int)
	for k := range all {
		b := make([]byte, pick(r, 4, 20, 1024, 1025, 3000))
		binary.LittleEndian.PutUint32(b, uint32(k))
		kind := r.IntN(7)
		switch kind {
		case 3: // of a context
			_, ch := cx.SendMsgBody(c, msg, iproto.Body(b))
			chs = append(chs, ch)
			dead[k] = true
			ncx++
			continue
		case 4:
			mr.SendMsgBody(c, msg, iproto.Body(b))
			dead[k] = true
			nmulti++
			continue
		}
		q := newRec(uint32(k), msg, b)
		all[k] = q
		if serviceTimeout && kind != 5 {
			q.SetTimeout(time.Hour)
		}
		switch kind {
		case 2:
			q.SetTimeout(someTimeout(r))
			dead[k] = !serviceTimeout
		case 5:
			dead[k] = serviceTimeout
		}
		c.Send(&q.Request)
		if kind == 0 || kind == 1 {
			dead[k] = true
		}
		if kind == 0 {
			q.Cancel()
		}
		if kind == 1 {
			defer q.Cancel()
			go q.Cancel()
		}
	}
	if r.IntN(2) == 0 {
		mr.Cancel()
	} else {
		mr.Expire()
	}
	cx.Cancel()
	nd := 0
	for k, q := range all {
		if !dead[k] {
			continue
		}
		nd++
		if q != nil && !closed(q.done) {
			e.hung(cs, "answer", "request %d, cancelled or expired in the queue of a client, is not answered", k)
			return
		}
		if q != nil {
			kinds[codeName(q.code)]++
		}
	}
	for _, ch := range chs {
		<-ch
	}
	if k := len(mr.Results()); k != nmulti {
		e.Viol(cs, "multi", "%s: multi-request of %d has %d answers", cs, nmulti, k)
	}
	if stuck.answered() {
		e.Count("was not stuck", 1)
		return
	}
	g.open()
	last := newRec(1, msg, []byte{255, 255, 255, 255})
	last.SetTimeout(time.Hour)
	c.Send(&last.Request)
	for k, q := range append(all, stuck, last) {
		if q != nil && !closed(q.done) {
			e.hung(cs, "answer", "request %d of %d is not answered after its connection goes on", k, n)
			return
		}
	}
	if last.code != 0 || stuck.code != 0 {
		return // the connection was lost
	}
	m.Lock()
	defer m.Unlock()
	for k := range dead {
		if t := seen[uint32(k)]; dead[k] && t > 0 || t > 1 {
			e.Viol(cs, "sent", "%s: request %d of %d was sent %d times, dead before that: %v (%d of a context, %d of a multi-request, timeout of the client: %v)", cs, k, n, t, dead[k], ncx, nmulti, serviceTimeout)
			return
		}
		if q := all[k]; !dead[k] && (seen[uint32(k)] == 0) != (q.code != 0) {
			e.Viol(cs, "sent", "%s: request %d of %d was sent %d times and is answered with %s", cs, k, n, seen[uint32(k)], codeName(q.code))
			return
		}
	}
	e.Eval(1)
	e.Count("died in the queue of a client", nd)
	e.Count("of contexts and multi-requests", ncx+nmulti)
	e.Distinct("wire %d %d %v %v", n, nd, serviceTimeout, kinds)
	e.Sample("%s: %d of %d requests of a stuck client die: %v", cs, nd, n, kinds)
}

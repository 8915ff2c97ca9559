package main

import (
	"fmt"
	"math/rand/v2"
	"sync"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

// bodies which came through sockets: of requests at a server, of responses at a client
func c11net(e *Env, cs string, r *rand.Rand) {
	var m sync.Mutex
	var ks []kept
	n := 10 + r.IntN(80)
	appends := r.IntN(2) == 0
	ep := iproto.SF(func(q *iproto.Request) {
		m.Lock()
		ks = keep(ks, q.Body, "a body of a request")
		m.Unlock()
		if appends {
			_ = append(q.Body, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee)
		}
		q.RespondBytes(0, append([]byte(nil), q.Body...))
	})
	srv := newServer(r, r.IntN(2) == 0, ep, nt.RC4byte, nil)
	cl := newClient(srv.Network, srv.Address, nt.RC4byte, 1, nil)
	var recs []*rec
	size := pick(r, 30, 300, 10000)
	for i := 0; i < n; i++ {
		q := newRec(uint32(i), 5, randBody(r, r.IntN(size)))
		recs = append(recs, q)
		q.nested = func(res *iproto.Response) {
			m.Lock()
			ks = keep(ks, res.Body, "a body of a response")
			m.Unlock()
			if appends {
				_ = append(res.Body, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd)
			}
		}
		cl.Send(&q.Request)
	}
	for i, q := range recs {
		if !closed(q.done) {
			e.hung(cs, "answer", "request %d of %d is not answered", i, n)
			return
		}
	}
	m.Lock()
	defer m.Unlock()
	if len(ks) != 2*n {
		e.Viol(cs, "lost", "%s: %d bodies of %d requests and responses were delivered", cs, len(ks), n)
	}
	e.Eval(1)
	e.Distinct("net %d %d %v", n, size, appends)
	e.Sample("%s: %s", cs, fmt.Sprintf("%d requests of up to %d bytes over a socket", n, size))
	scribble(e, cs, r, ks)
	cl.Stop()
	srv.Stop()
}

package main

import (
	"bytes"
	"io"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

// C26, memory: a header may claim any length, but memory is taken for what has come

// claimed is what may be allocated for n bytes which came in k frames
func claimed(n, k int) uint64 { return uint64(6*n) + uint64(k)*(16<<20) }

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func claim(r *rand.Rand) uint32 {
	return pick(r, 1<<30, 1<<30+1, 1<<31-1, 0xFFFFFFFF, 0x80000000, 300<<20, 900<<20+r.Uint32N(1<<20))
}

func c26claims(e *Env) {
	r := e.rng(1 << 31)
	for i := 0; i < e.N(60, 400) && !e.violated(); i++ {
		rc := rcOf(r)
		var stream []byte
		whole := r.IntN(3)
		for k := 0; k < whole; k++ {
			stream = refFrame(stream, frame{msg: 5, id: 1, code: 2, body: randBody(r, r.IntN(9000))}, true, rcLen(rc))
		}
		n := claim(r)
		stream = put32(put32(put32(stream, 5), n), 7)
		stream = append(stream, randBody(r, pick(r, 0, 1, 4, 12, 9000, 1<<20, 5<<20))...)
		resp := r.IntN(2) == 0
		var err error
		got := 0
		a := totalAlloc()
		var h nt.HeaderReader
		h.Init(&chopped{b: stream, r: r, mode: 2 + 2*r.IntN(2), end: io.EOF}, 0, rc)
		if p := guarded(func() {
			for err == nil {
				if resp {
					_, err = h.ReadResponse()
				} else {
					_, err = h.ReadRequest()
				}
				if err == nil {
					got++
				}
			}
		}); p != nil || got != whole {
			e.Viol("", "claims-read", "a frame which claims %d bytes after %d whole ones, %d bytes in all: panic %v, error %v, %d frames read", n, whole, len(stream), p, err, got)
		} else if b := totalAlloc() - a; b > claimed(len(stream), whole+1) {
			e.Viol("", "claims-memory", "a frame which claims %d bytes in a stream of %d bytes: %d bytes are allocated", n, len(stream), b)
		}
		e.Eval(1)
		e.Count("frames claiming much", 1)
	}
	for i := 0; i < e.N(6, 40) && !e.violated(); i++ {
		claimsServer(e, r)
		claimsClient(e, r)
	}
}

func claimsServer(e *Env, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	s := iproto.BF{N: 4}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
		return 0, q.Body
	})
	defer s.Stop()
	srv := newServer(r, r.IntN(2) == 0, s, rc, nil)
	defer srv.Stop()
	good := dialRaw(srv.Network, srv.Address, rcl)
	defer good.Close()
	a := totalAlloc()
	k, n := 2+r.IntN(7), 0
	for i := 0; i < k; i++ {
		c := dialRaw(srv.Network, srv.Address, rcl)
		defer c.Close()
		b := put32(put32(put32(nil, 9), claim(r)), uint32(i))
		b = append(b, pad(1, r.IntN(3000))...)
		n += len(b)
		c.Conn.Write(b)
	}
	body := randBody(r, pick(r, 10, 3000, 1<<20+r.IntN(100), 3<<20+r.IntN(1<<20)))
	n += 4 * len(body)
	time.Sleep(100 * time.Millisecond)
	var f frame
	var err error
	if !finishes(func() {
		go good.send(false, frame{msg: 3, id: 8, body: body})
		f, err = good.read()
	}) {
		e.hung("", "claims", "server, a peer beside those which claim much is not answered")
		return
	}
	if err != nil || f.id != 8 || !bytes.Equal(f.body, body) {
		e.Viol("", "claims-healthy", "server, %d peers claim much: a request of %d bytes is answered with id %d, %d bytes, error %v", k, len(body), f.id, len(f.body), err)
	}
	if b := totalAlloc() - a; b > claimed(n, k+1) {
		e.Viol("", "claims-memory", "server, %d peers which claim much have sent %d bytes in all: %d bytes are allocated", k, n, b)
	}
	e.Eval(1)
	e.Count("peers claiming much", k)
}

func claimsClient(e *Env, r *rand.Rand) {
	rc := rcOf(r)
	f := newFake(r, r.IntN(2) == 0, rc)
	var sent atomic.Int64
	answered := make(chan bool, 8)
	f.onReq = func(c *raw, q frame) {
		b := put32(put32(put32(nil, q.msg), claim(r)), q.id)
		b = append(b, pad(1, r.IntN(3000))...)
		sent.Add(int64(len(b)))
		c.Conn.Write(b)
		time.Sleep(50 * time.Millisecond)
		answered <- true
		c.Close()
	}
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, 1, nil)
	defer c.Stop()
	a := totalAlloc()
	n := 1 + r.IntN(3)
	for i := 0; i < n; i++ {
		h := newHang()
		for {
			q := newRec(uint32(i), 3, []byte("body"))
			c.Send(&q.Request)
			if !closed(q.done) || h.over() {
				e.hung("", "claims", "client of a server which claims much: a request is not answered")
				return
			}
			if q.code&7 != iproto.RcInternal {
				e.Viol("", "claims-client", "client of a server which claims much: a request is answered with %s %x", codeName(q.code), q.body)
				return
			}
			if len(answered) > 0 { // it has come to the server
				<-answered
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	if b := totalAlloc() - a; b > claimed(int(sent.Load()), n) {
		e.Viol("", "claims-memory", "client of a server whose %d answers claim much, %d bytes in all: %d bytes are allocated", n, sent.Load(), b)
	}
	e.Eval(1)
	e.Count("answers claiming much", n)
}

package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

// c05busy: sizes are changed, and the client is stopped, while its queue is never empty
func c05busy(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, false, rc) // unix sockets hold less
	f.stay = r.IntN(2) == 0
	f.onConn = func(c *raw) bool {
		for n := 0; ; n++ {
			q, err := c.read()
			if err != nil {
				break
			}
			if q.msg == 0xFF00 {
				c.send(true, frame{msg: 0xFF00, id: q.id})
				continue
			}
			tok, ok := l.saw(q)
			if !ok {
				break
			}
			if tok == probeTok {
				c.send(true, frame{msg: q.msg, id: q.id, body: []byte("probe")})
				continue
			}
			c.asked.Add(1)
			if n%32 == 31 {
				time.Sleep(time.Millisecond)
			}
			c.send(true, tokFrame(q, tok))
		}
		f.linger(c)
		return false
	}
	need := 2 + r.IntN(4)
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, need, nil)
	defer c.Stop()
	if !probe(e, cs, c) {
		return
	}
	// so many calls are always on their way
	width := 2000 + r.IntN(3000)
	var m sync.Mutex
	all := map[*tcall]bool{}
	var stop, stopCalled atomic.Bool
	var total, failed atomic.Int64
	again := make(chan *tcall, width)
	for k := 0; k < width; k++ {
		again <- nil
	}
	pumped := make(chan struct{})
	sizes := fmt.Sprint(need)
	seed := r.Uint64()
	go func() {
		defer close(pumped)
		r := rand.New(rand.NewPCG(seed, 79))
		for k := 0; ; k++ {
			q := <-again
			if q != nil {
				m.Lock()
				delete(all, q)
				left := len(all)
				m.Unlock()
				late := stopCalled.Load()
				if !q.judge(e, cs, cs+": busy client, sizes change", rcl, func(code iproto.RetCode) bool {
					return late && (code == iproto.RcIOError || code == iproto.RcShutdown)
				}) {
					failed.Add(1)
				} else {
					total.Add(1)
				}
				if stop.Load() {
					if left == 0 {
						return
					}
					continue
				}
				if e.violated() {
					continue
				}
			}
			q = newCall(r, 1, uint32(k))
			p := q
			q.nested = func(*iproto.Response) {
				go func() {
					<-p.done
					again <- p
				}()
			}
			m.Lock()
			all[q] = true
			m.Unlock()
			c.Send(&q.Request)
		}
	}()
	// each connection has been used, so that client knows that it is established
	settled := func() bool {
		f.m.Lock()
		defer f.m.Unlock()
		for c := range f.conns {
			if c.asked.Load() == 0 {
				return e.violated()
			}
		}
		return len(f.conns) == need || e.violated()
	}
	for k := 1 + r.IntN(4); k > 0 && !e.violated(); k-- {
		if !until(settled) {
			e.hung(cs, "settle", "%s: %d calls are always on their way, sizes %s, but there are %d connections", cs, width, sizes, f.nconns())
			return
		}
		time.Sleep(time.Duration(r.IntN(20)) * time.Millisecond)
		need = 1 + r.IntN(5)
		sizes += fmt.Sprint(" ", need)
		c.SetConnections(need)
	}
	if !until(settled) {
		e.hung(cs, "settle", "%s: %d calls are always on their way, sizes %s, but there are %d connections", cs, width, sizes, f.nconns())
		return
	}
	if e.violated() {
		return
	}
	time.Sleep(time.Duration(r.IntN(5)) * time.Millisecond)
	stopCalled.Store(true)
	if !finishes(c.Stop) {
		e.hung(cs, "stop", "%s: Stop does not return", cs)
		return
	}
	if need = 0; !until(settled) {
		e.hung(cs, "settle", "%s: %d calls are always on their way, sizes changed, client is stopped, but there are %d connections", cs, width, f.nconns())
		return
	}
	stop.Store(true)
	if !closed(pumped) {
		m.Lock()
		defer m.Unlock()
		e.hung(cs, "answer", "%s: client is stopped, but %d calls are not answered", cs, len(all))
		return
	}
	e.Eval(1)
	e.Count("genuine of a busy client", int(total.Load()))
	e.Count("failed by a stop", int(failed.Load()))
	e.Distinct("busy %s %d", sizes, width/1000)
	e.Sample("%s: %d calls always on their way, sizes %s, %d answered, %d failed after the stop", cs, width, sizes, total.Load(), failed.Load())
}

// stallCheck reads what is left for a peer which did not read for too long
func stallCheck(e *Env, cs, what string, toks map[uint32]uint64, c *raw, rcl int) (n int, cut bool) {
	asked := len(toks)
	for n < asked {
		var f frame
		var err error
		if !finishes(func() { f, err = c.read() }) {
			e.hung(cs, "answer", "%s: %d answers of %d have come, the connection is not closed", what, n, asked)
			return
		}
		if err != nil {
			return n, true
		}
		tok, ok := toks[f.id]
		if !ok || f.msg != tokMsg(tok) || f.code != wireCode(outward(tokCode(tok), nil), rcl) || !bytes.Equal(f.body, tokReply(tok)) {
			e.Viol(cs, "foreign", "%s: frame %d is not an answer to anything: type %d, id %x, code 0x%x, body of %d bytes %.40x", what, n, f.msg, f.id, f.code, len(f.body), f.body)
			return
		}
		delete(toks, f.id)
		n++
	}
	return
}

// c06stall: a peer does not read for longer than the server can wait, and reads then
func c06stall(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	kind := r.IntN(3)
	b := newBackend(l, r, kind)
	defer b.stop()
	limit := time.Duration(5+r.IntN(60)) * time.Millisecond
	srv := newServer(r, false, b, rc, func(c *server.Config) { c.WriteTimeout = limit })
	defer srv.Stop()
	class := pick(r, 0, 1, 2, 4)
	n := map[int]int{0: 20000, 1: 2500, 2: 300, 4: 10}[class]
	slowly := r.IntN(2) == 0
	what := fmt.Sprintf("%s: %s, %d calls of class %d, write limit %v, asked slowly %v", cs, b.name, n, class, limit, slowly)
	c := dialRaw(srv.Network, srv.Address, rcl)
	defer c.Close()
	toks := map[uint32]uint64{}
	for id := uint32(0); id < uint32(n); id++ {
		tok := newTok(r, class)
		if c.send(false, frame{msg: tokMsg(tok), id: id, body: tokAsk(tok)}) != nil {
			break // server has given up already
		}
		toks[id] = tok
		if slowly && id%16 == 15 {
			time.Sleep(time.Duration(r.IntN(400)) * time.Microsecond)
		}
	}
	time.Sleep(limit * time.Duration(pick(r, 0, 1, 2, 3)))
	got, cut := stallCheck(e, cs, what, toks, c, rcl)
	if e.violated() {
		return
	}
	e.Eval(1)
	e.Count("answers read late", got)
	if cut {
		e.Count("connections cut by the write limit", 1)
	}
	e.Distinct("stall %d %d %v %v", kind, class, slowly, cut)
	e.Sample("%s: %d answers read, then the end: %v", what, got, cut)
}

// rest reads what a client left in a connection it has given up
func (l *ledger) rest(c *raw) (n int) {
	for {
		q, err := c.read()
		if err != nil {
			return
		}
		if q.msg == 0xFF00 {
			continue
		}
		if _, ok := l.saw(q); !ok {
			io.Copy(io.Discard, c.Conn)
			return
		}
		n++
	}
}

// handshake: a server which accepts connections, but is silent, or answers its first ping late, or with nonsense
func handshake(e *Env, cs string, r *rand.Rand, stopping bool) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, r.IntN(2) == 0, rc)
	p := newReplier(l, r)
	f.onReq = p.onReq
	mode := r.IntN(5)
	name := []string{"silent", "late", "nonsense", "half of a ping", "closing"}[mode]
	limit := time.Duration(20+r.IntN(100)) * time.Millisecond
	if mode == 1 {
		limit = time.Minute
	}
	var first atomic.Int32
	bad := int32(1 + r.IntN(3))
	if mode == 1 {
		bad = 1 << 20
	}
	if stopping && mode != 1 {
		bad = 1 << 30
	}
	accepted := newGate()
	seed := r.Uint64()
	f.onConn = func(c *raw) bool {
		q, err := c.read()
		if err != nil {
			return false
		}
		if q.msg != 0xFF00 || q.id != 0xFFFFFFFF || len(q.body) != 0 {
			e.Viol(cs, "request", "%s: the first frame of a client is %+v instead of a ping", cs, q)
			return false
		}
		accepted.open()
		k := first.Add(1)
		r := rand.New(rand.NewPCG(seed, uint64(k)))
		if k <= bad {
			// nothing more comes until its ping is answered
			more := 0
			wait := func(d time.Duration) {
				var b [1]byte
				c.SetReadDeadline(time.Now().Add(d))
				more, _ = c.br.Read(b[:])
				c.SetReadDeadline(time.Time{})
			}
			switch mode {
			case 0:
				wait(time.Hour) // until it is closed
			case 1:
				wait(time.Duration(1+r.IntN(30)) * time.Millisecond)
			case 2:
				wait(time.Millisecond)
				c.send(false, frame{msg: pick(r, uint32(0xFF00), 5), id: uint32(r.IntN(5))})
			case 3:
				c.Conn.Write(refFrame(nil, frame{msg: 0xFF00, id: 0xFFFFFFFF}, true, rcl)[:1+r.IntN(11)])
				wait(time.Hour)
			case 4:
				wait(time.Millisecond)
			}
			if more > 0 {
				e.Viol(cs, "request", "%s: client uses a connection whose server (%s) has not answered its ping", cs, name)
				return false
			}
			if mode != 1 {
				return false
			}
		}
		c.send(true, frame{msg: 0xFF00, id: 0xFFFFFFFF})
		return true
	}
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, 1+r.IntN(3), func(c *client.ServerConfig) { c.DialTimeout = limit })
	defer c.Stop()
	var all []*tcall
	for k := 1 + r.IntN(30); k > 0; k-- {
		q := newCall(r, 0, uint32(k))
		all = append(all, q)
		c.Send(&q.Request)
	}
	if stopping {
		if r.IntN(4) > 0 && !closed(accepted.ch) {
			e.hung(cs, "connect", "%s: client does not connect", cs)
			return
		}
		time.Sleep(time.Duration(r.IntN(10)) * time.Millisecond)
		if mode != 1 && c.AnyConnected() {
			e.Viol(cs, "request", "%s: client says it is connected to a server which is %s at first", cs, name)
		}
		c.Stop()
	}
	good := 0
	for _, q := range all {
		if !closed(q.done) {
			e.hung(cs, "answer", "%s: server is %s at first, time for dialing is %v, client is stopped: %v; %v is not answered", cs, name, limit, stopping, q)
			return
		}
		if q.judge(e, cs, cs+": server is "+name, rcl, func(code iproto.RetCode) bool {
			return code == iproto.RcIOError || stopping && code == iproto.RcShutdown
		}) {
			good++
		}
	}
	if stopping {
		if !until(func() bool { return f.nconns() == 0 }) {
			e.hung(cs, "close", "%s: server is %s at first, %d connections are open after the stop", cs, name, f.nconns())
			return
		}
	} else {
		if mode == 1 && good != len(all) {
			e.Viol(cs, "foreign", "%s: server answers pings late: %d calls of %d have failed", cs, len(all)-good, len(all))
		}
		if !probe(e, cs, c) {
			return
		}
	}
	e.Eval(1)
	e.Count("first ping of a server: "+name, 1)
	e.Distinct("handshake %v %s %d", stopping, name, len(all))
}

// c05stuck: client of a server which has stopped reading is stopped. What is in its queue fails at once,
// what is on its way does when the connection is broken.
func c05stuck(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, false, rc)
	g := newGate()
	reads := r.IntN(2) == 0
	f.onConn = func(c *raw) bool {
		if q, err := c.read(); err != nil || q.msg != 0xFF00 {
			return false
		}
		c.send(true, frame{msg: 0xFF00, id: 0xFFFFFFFF})
		g.wait()
		if reads {
			l.rest(c)
		}
		return false
	}
	f.start()
	defer f.stop()
	defer g.open()
	conns := 1 + r.IntN(3)
	c := newClient(f.network, f.addr, rc, conns, nil)
	defer c.Stop()
	var all []*tcall
	class := pick(r, 1, 4)
	add := func() *tcall {
		q := newCall(r, class, uint32(len(all)))
		all = append(all, q)
		c.Send(&q.Request)
		return q
	}
	// until writers do not take them any more
	stuck := 0
	for k := 0; stuck < 10 && k < 100000; k++ {
		q := add()
		stuck++
		for j := 0; j < 100; j++ {
			if q.State() != iproto.RsPending {
				stuck = 0
				break
			}
			time.Sleep(20 * time.Microsecond)
		}
	}
	for k := r.IntN(100); k > 0; k-- {
		add()
	}
	c.Stop()
	queued := 0
	for _, q := range all {
		q := q
		if q.State() != iproto.RsInFly {
			queued++
		}
		if !until(func() bool { return q.State() == iproto.RsInFly || q.answered() }) {
			e.hung(cs, "answer", "%s: server does not read, client is stopped, %v is not answered, though it has not been taken from the queue", cs, q)
			return
		}
	}
	g.open()
	for _, q := range all {
		if !closed(q.done) {
			e.hung(cs, "answer", "%s: server did not read and went away, client is stopped: %v is not answered", cs, q)
			return
		}
		q.judge(e, cs, cs+": server does not read, client is stopped", rcl, func(code iproto.RetCode) bool {
			return code == iproto.RcIOError || code == iproto.RcShutdown
		})
	}
	if !until(func() bool { return f.nconns() == 0 }) {
		e.hung(cs, "close", "%s: %d connections are open after the stop", cs, f.nconns())
		return
	}
	e.Eval(1)
	e.Count("queued for a stuck server", queued)
	e.Distinct("stuck %d %d %v", conns, min(queued, 10), reads)
}

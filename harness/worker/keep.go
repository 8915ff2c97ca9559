package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

// Timeouts of connections: a connection on which something arrives in time is kept, a silent one is given up, not before its time.

func drip(c *raw, b []byte, pause time.Duration) error {
	for i := range b {
		if i > 0 {
			time.Sleep(pause)
		}
		if _, err := c.Conn.Write(b[i : i+1]); err != nil {
			return err
		}
	}
	return nil
}

// c04keep: pings or slow bytes keep connections of a client
func c04keep(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, r.IntN(2) == 0, rc)
	limit := time.Duration(200+r.IntN(200)) * time.Millisecond
	mode := r.IntN(3)
	conns := 1 + r.IntN(3)
	if mode > 0 { // others would be silent
		conns = 1
	}
	name := []string{"pings", "slow bytes", "rare answers"}[mode]
	var wg sync.WaitGroup
	f.onConn = func(c *raw) bool {
		defer wg.Wait()
		for {
			q, err := c.read()
			if err != nil {
				return false
			}
			if q.msg == 0xFF00 {
				f.pings.Add(1)
				c.send(true, frame{msg: 0xFF00, id: q.id})
				continue
			}
			tok, ok := l.saw(q)
			if !ok {
				return false
			}
			if tok == probeTok {
				c.send(true, frame{msg: q.msg, id: q.id, body: []byte("probe")})
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := refFrame(nil, tokFrame(q, tok), true, rcl)
				switch mode {
				case 0: // much later than a silence which is permitted
					time.Sleep(limit*3/2 + time.Duration(tok>>32)%limit)
					c.wm.Lock()
					c.Conn.Write(b)
					c.wm.Unlock()
				case 1: // whole answer takes longer, its bytes come in time
					n := min(len(b), 8)
					c.wm.Lock()
					drip(c, b[:n], limit/4)
					c.Conn.Write(b[n:])
					c.wm.Unlock()
				case 2:
					time.Sleep(limit / 4)
					c.wm.Lock()
					c.Conn.Write(b)
					c.wm.Unlock()
				}
				l.answered(tok)
			}()
		}
	}
	f.start()
	defer f.stop()
	t0 := time.Now()
	cl := newClient(f.network, f.addr, rc, conns, func(c *client.ServerConfig) {
		c.ReadTimeout = limit
		if r.IntN(2) == 0 {
			c.WriteTimeout = limit
		}
		if mode == 0 {
			c.PingInterval = limit / 10
		}
	})
	defer cl.Stop()
	if !until(func() bool { return f.nconns() == conns }) {
		e.hung(cs, "connect", "%s: %d connections of %d", cs, f.nconns(), conns)
		return
	}
	what := fmt.Sprintf("%s: silence of %v is permitted, %s", cs, limit, name)
	var all []*tcall
	send := func() *tcall {
		q := newCall(r, 0, uint32(len(all)))
		all = append(all, q)
		q.sent = time.Now()
		cl.Send(&q.Request)
		return q
	}
	switch mode {
	case 0:
		for n := 1 + r.IntN(6); n > 0; n-- {
			send()
			time.Sleep(time.Duration(r.Int64N(int64(limit / 2))))
		}
	case 1:
		for n := 1 + r.IntN(3); n > 0; n-- {
			if q := send(); !closed(q.done) {
				e.hung(cs, "answer", "%s: %v is not answered", what, q)
				return
			}
		}
	case 2:
		for n := 6 + r.IntN(6); n > 0; n-- {
			if q := send(); !closed(q.done) {
				e.hung(cs, "answer", "%s: %v is not answered", what, q)
				return
			}
		}
	}
	good := 0
	for _, q := range all {
		if !closed(q.done) {
			e.hung(cs, "answer", "%s: %v is not answered", what, q)
			return
		}
		if q.judge(e, cs, what, rcl, func(code iproto.RetCode) bool { return code == iproto.RcIOError }) {
			good++
		}
	}
	took := time.Since(t0)
	total := f.totalConns()
	if calm(t0) {
		if good != len(all) || total != conns {
			e.Viol(cs, "given-up", "%s: %d calls of %d have got answers during %v, there were %d connections instead of %d", what, good, len(all), took, total, conns)
		}
		e.Count("connections kept: "+name, 1)
	} else {
		e.Count("disturbed", 1)
	}
	e.Eval(1)
	e.Distinct("keep %d %d %d", mode, conns, len(all))
}

// c04mute: connections on which nothing comes are given up in time, and not before it
func c04mute(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	stuck := r.IntN(2) == 0                       // does not even read
	f := newFake(r, !stuck && r.IntN(2) == 0, rc) // unix sockets hold less
	p := newReplier(l, r)
	f.onReq = p.onReq
	resume := 0 // reads again after so many halves of the limit
	if stuck {
		resume = pick(r, 0, 0, 1, 2, 3, 4, 5, 7)
	}
	limit := time.Duration(60+r.IntN(200)) * time.Millisecond
	var n atomic.Int32
	var last atomic.Int64
	g := newGate()
	f.onConn = func(c *raw) bool {
		if n.Add(1) > 1 {
			return true
		}
		q, err := c.read()
		if err != nil || q.msg != 0xFF00 {
			return false
		}
		last.Store(mono(time.Now()))
		c.send(true, frame{msg: 0xFF00, id: q.id})
		if !stuck {
			go io.Copy(io.Discard, c.Conn)
		}
		if resume > 0 {
			time.Sleep(limit * time.Duration(resume) / 2)
			return true
		}
		g.wait()
		if stuck {
			e.Count("requests left in connections given up", l.rest(c))
		}
		return false
	}
	f.start()
	defer f.stop()
	defer g.open()
	cl := newClient(f.network, f.addr, rc, 1, func(c *client.ServerConfig) {
		if stuck {
			c.WriteTimeout = limit
		} else {
			c.ReadTimeout = limit
		}
	})
	defer cl.Stop()
	if !until(func() bool { return last.Load() != 0 }) {
		e.hung(cs, "connect", "%s: client does not connect", cs)
		return
	}
	what := fmt.Sprintf("%s: peer is silent, limit is %v, it reads: %v", cs, limit, !stuck)
	size, k := 0, 1+r.IntN(20)
	var all []*tcall
	trickle := stuck && r.IntN(2) == 0
	// one by one, until the writer does not take them any more
	for trickle && size < 8<<20 {
		q := newCall(r, 1, uint32(len(all)))
		size += len(q.Body)
		all = append(all, q)
		q.sent = time.Now()
		cl.Send(&q.Request)
		for k := 0; q.State() == iproto.RsPending; k++ {
			time.Sleep(time.Duration(k) * time.Microsecond)
			if k == 200 {
				size = 8 << 20
				break
			}
		}
	}
	for len(all) < k || stuck && size < 8<<20 {
		q := newCall(r, pick(r, 0, 1, 2), uint32(len(all)))
		if stuck {
			q = newCall(r, 4, uint32(len(all)))
		}
		size += len(q.Body)
		all = append(all, q)
		q.sent = time.Now()
		cl.Send(&q.Request)
	}
	first := time.Now().Add(time.Hour)
	failed := 0
	for _, q := range all {
		if !closed(q.done) {
			e.hung(cs, "answer", "%s: %v is not answered", what, q)
			return
		}
		if !q.judge(e, cs, what, rcl, func(code iproto.RetCode) bool { return code == iproto.RcIOError }) {
			failed++
			if q.at.Before(first) {
				first = q.at
			}
		}
	}
	if d := time.Duration(mono(first) - last.Load()); failed > 0 && d < limit && resume == 0 {
		e.Viol(cs, "early", "%s: calls fail %v after the last data", what, d)
	}
	if failed == 0 && resume == 0 {
		e.Viol(cs, "foreign", "%s: nothing has failed, though %d calls were given to a mute server", what, len(all))
	}
	if !probe(e, cs, cl) {
		return
	}
	e.Eval(1)
	e.Count("mute connections given up", 1)
	e.Distinct("mute %v %v %d %d", stuck, trickle, resume, min(failed, 5))
}

// c04lame: one connection is served, all others of the same client are refused again and again. While the former lives
// nothing fails, not even what waits in the queue, and it lives longer than dialing may take.
func c04lame(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	l := newLedger(e, cs)
	f := newFake(r, r.IntN(2) == 0, rc)
	p := newReplier(l, r)
	p.lag = time.Duration(r.IntN(3)) * time.Millisecond
	kind := r.IntN(4)
	name := []string{"closed", "reset", "not accepted", "mute"}[kind]
	var alive atomic.Bool
	var served, refused atomic.Int32
	var hold atomic.Pointer[gate]
	end := newGate()
	f.onConn = func(c *raw) bool {
		if !alive.CompareAndSwap(false, true) {
			refused.Add(1)
			switch kind {
			case 1:
				c.reset()
			case 3:
				end.wait()
			}
			return false
		}
		served.Add(1)
		defer alive.Store(false)
		for {
			q, err := c.read()
			if err != nil {
				return false
			}
			if g := hold.Load(); g != nil {
				g.wait()
			}
			if q.msg == 0xFF00 {
				c.send(true, frame{msg: 0xFF00, id: q.id})
				continue
			}
			p.onReq(c, q)
		}
	}
	f.start()
	defer f.stop()
	defer end.open()
	dial := time.Duration(150+r.IntN(150)) * time.Millisecond
	conns := 2 + r.IntN(3)
	cl := newClient(f.network, f.addr, rc, conns, func(c *client.ServerConfig) {
		c.DialTimeout = dial
		c.PingInterval = pick(r, -1, -1, 20*time.Millisecond)
	})
	defer cl.Stop()
	if !probe(e, cs, cl) {
		return
	}
	if kind == 2 {
		f.l.Close()
	}
	was := served.Load()
	what := fmt.Sprintf("%s: one connection of %d is served, others are %s, dialing may take %v", cs, conns, name, dial)
	var all []*tcall
	send := func(n, class int) {
		for ; n > 0; n-- {
			q := newCall(r, class, uint32(len(all)))
			all = append(all, q)
			q.sent = time.Now()
			cl.Send(&q.Request)
		}
	}
	for k := 1 + r.IntN(2); k > 0; k-- {
		g := newGate()
		stuck := r.IntN(3) > 0
		if stuck {
			hold.Store(g)
			send(20+r.IntN(20), 4) // more than fits in the sockets: the rest waits in the queue
		}
		send(r.IntN(50), pick(r, 0, 1, 2))
		time.Sleep(time.Duration(200+r.IntN(300)) * time.Millisecond) // in every 200 ms the client tries others
		hold.Store(nil)
		g.open()
		send(r.IntN(20), 0)
		for _, q := range all {
			if !closed(q.done) {
				e.hung(cs, "answer", "%s: %v is not answered", what, q)
				return
			}
			if q.judge(e, cs, what, rcLen(rc), nil) {
				e.Count("answered through the only connection", 1)
			}
		}
	}
	p.wg.Wait()
	if n := served.Load(); n != was || !alive.Load() {
		e.Viol(cs, "given-up", "%s: the connection is given up, there were %d more ones", what, n-was)
	}
	e.Count("refused connections beside a good one", int(refused.Load()))
	e.Eval(1)
	e.Distinct("lame %d %d %d", kind, conns, len(all))
}

// c06keep: timeouts of a server
func c06keep(e *Env, cs string, r *rand.Rand) {
	limit := time.Duration(200+r.IntN(200)) * time.Millisecond
	mode := r.IntN(4)
	name := []string{"pings", "slow bytes", "silence", "silence before an answer"}[mode]
	rc := rcOf(r)
	rcl := rcLen(rc)
	want := frame{msg: 1 + uint32(r.IntN(1000)), id: r.Uint32(), body: pad(r.Uint64(), r.IntN(50)), code: 0}
	passed := make(chan *iproto.Request, 8)
	srv := newServer(r, r.IntN(2) == 0, iproto.SF(func(q *iproto.Request) { passed <- q }), rc, func(c *server.Config) {
		c.ReadTimeout = limit
		if r.IntN(2) == 0 {
			c.WriteTimeout = limit
		}
	})
	defer srv.Stop()
	fromLast := time.Now()
	c := dialRaw(srv.Network, srv.Address, rcl)
	defer c.Close()
	what := fmt.Sprintf("%s: silence of %v is permitted, %s", cs, limit, name)
	t0 := time.Now()
	bytes := refFrame(nil, want, false, rcl)
	lost := func(err error) {
		if calm(t0) {
			e.Viol(cs, "given-up", "%s: the connection is lost after %v: %v", what, time.Since(t0), err)
		}
	}
	type got struct {
		f   frame
		err error
	}
	in := make(chan got, 100)
	go func() {
		for {
			f, err := c.read()
			in <- got{f, err}
			if err != nil {
				return
			}
		}
	}()
	switch mode {
	case 0:
		for k := 0; time.Since(t0) < limit*5/2; k++ {
			if err := c.send(false, frame{msg: 0xFF00, id: uint32(k)}); err != nil {
				lost(err)
				return
			}
			x, ok := recv(in)
			if !ok {
				e.hung(cs, "ping", "%s: ping is not answered", what)
				return
			}
			if x.err != nil {
				lost(x.err)
				return
			}
			if x.f.msg != 0xFF00 || x.f.id != uint32(k) || len(x.f.body) != 0 {
				e.Viol(cs, "ping", "%s: ping %d is answered with %+v", what, k, x.f)
			}
			time.Sleep(limit / 10)
		}
		c.Conn.Write(bytes)
	case 1:
		n := min(len(bytes), 10)
		if err := drip(c, bytes[:n], limit/4); err != nil {
			lost(err)
			return
		}
		c.Conn.Write(bytes[n:])
	case 2:
		x, ok := recv(in)
		d := time.Since(fromLast)
		switch ne, isNet := x.err.(net.Error); {
		case !ok:
			e.hung(cs, "silence", "%s: the connection is not closed", what)
		case x.err == nil || isNet && ne.Timeout():
			e.Viol(cs, "silence", "%s: server says %+v %v", what, x.f, x.err)
		case d < limit:
			e.Viol(cs, "early", "%s: the connection is closed after %v", what, d)
		}
		e.Eval(1)
		e.Count("connections given up", 1)
		return
	case 3:
		c.Conn.Write(bytes)
	}
	q, ok := recv(passed)
	if !ok {
		if calm(t0) {
			e.hung(cs, "pass", "%s: request does not come", what)
		}
		return
	}
	if mode == 3 {
		time.Sleep(limit * 3 / 2)
	}
	if uint32(q.Msg) != want.msg || string(q.Body) != string(want.body) {
		e.Viol(cs, "pass", "%s: request %+v is passed as %d % x", what, want, q.Msg, q.Body)
	}
	say := pad(r.Uint64(), r.IntN(60))
	q.RespondBytes(0, say)
	x, ok := recv(in)
	if !ok {
		e.hung(cs, "answer", "%s: request is not answered", what)
		return
	}
	if x.err != nil {
		// silence of a peer which waits for its answer is not its end
		if mode == 3 {
			e.Viol(cs, "answer", "%s: the connection is lost without the answer: %v", what, x.err)
		} else {
			lost(x.err)
		}
		return
	}
	if x.f.msg != want.msg || x.f.id != want.id || string(x.f.body) != string(say) || x.f.code != 0 {
		e.Viol(cs, "answer", "%s: request %+v is answered with %+v", what, want, x.f)
	}
	e.Eval(1)
	e.Count("connections kept: "+name, 1)
	e.Distinct("keep %d %d", mode, rcl)
}

var _ = nt.RC4byte

// c05defaults: a client which is given nothing but an address
func c05defaults(e *Env) {
	r := e.rng(1 << 29)
	for k := 0; k < 4; k++ {
		cs := fmt.Sprintf("defaults %d", k)
		l := newLedger(e, cs)
		f := newFake(r, k&1 == 0, nt.RC4byte)
		p := newReplier(l, r)
		f.onReq = p.onReq
		f.start()
		cfg := client.ServerConfig{Address: f.addr, Connections: -k / 2, RetCodeType: nt.RC4byte}
		if f.network == "unix" && k == 3 {
			cfg.Network = "unix"
		}
		c := cfg.NewServer()
		if len(c.Name()) == 0 {
			e.Viol(cs, "name", "%s: client has no name", cs)
		}
		iproto.Run(c)
		if !probe(e, cs, c) {
			return
		}
		was := f.pings.Load()
		if !until(func() bool { return f.pings.Load() > was+1 }) {
			e.hung(cs, "ping", "%s: client does not ping", cs)
			return
		}
		if n := f.nconns(); n != 1 || f.totalConns() != 1 {
			e.Viol(cs, "settle", "%s: there are %d connections (%d in all) by default", cs, n, f.totalConns())
		}
		c.Stop()
		if !until(func() bool { return f.nconns() == 0 }) {
			e.hung(cs, "close", "%s: connections are open after the stop", cs)
			return
		}
		f.stop()
		e.Eval(1)
		e.Count("clients with defaults", 1)
	}
}

// c04refused: while a server can not be reached what is sent fails, without timeouts, and without Stop
func c04refused(e *Env, cs string, r *rand.Rand) {
	l := newLedger(e, cs)
	rc := rcOf(r)
	rcl := rcLen(rc)
	kind := r.IntN(3)
	what := cs + ": " + []string{"nobody listens", "everyone is disconnected", "server has gone"}[kind]
	var f *fake
	network, addr := freeAddr(r, r.IntN(2) == 0)
	switch kind {
	case 1:
		f = newFake(r, network == "tcp", rc)
		f.onConn = func(c *raw) bool { return false }
	case 2:
		f = newFake(r, network == "tcp", rc)
		fullServe(f, newReplier(l, r), time.Millisecond)
	}
	if f != nil {
		network, addr = f.network, f.addr
		f.start()
		defer func() { f.stop() }()
	}
	conns := 1 + r.IntN(4)
	c := newClient(network, addr, rc, conns, func(c *client.ServerConfig) {
		if r.IntN(2) == 0 {
			c.DialTimeout = time.Duration(1+r.IntN(100)) * time.Millisecond
		}
	})
	defer c.Stop()
	var all []*tcall
	send := func(n int) {
		for ; n > 0; n-- {
			q := newCall(r, 0, uint32(n))
			all = append(all, q)
			c.Send(&q.Request)
		}
	}
	good := 0
	wait := func() bool {
		for _, q := range all {
			if !closed(q.done) {
				e.hung(cs, "answer", "%s: %v (of %d) is not answered", what, q, len(all))
				return false
			}
			if q.judge(e, cs, what, rcl, func(code iproto.RetCode) bool { return code == iproto.RcIOError }) {
				good++
				if kind != 2 {
					e.Viol(cs, "foreign", "%s: %v is answered by nobody", what, q)
				}
			}
		}
		return true
	}
	if kind == 2 {
		if !until(func() bool { return f.nconns() == conns }) {
			e.hung(cs, "connect", "%s: %d connections of %d", what, f.nconns(), conns)
			return
		}
		send(r.IntN(10))
		if r.IntN(2) == 0 && !wait() {
			return
		}
		f.l.Close()
		f.dropAll(r.IntN(2) == 0)
	}
	n := 0
	for k := 1 + r.IntN(3); k > 0; k-- {
		send(1 + r.IntN(20))
		n = len(all)
		time.Sleep(time.Duration(r.IntN(pick(r, 1, 3000, 300000))+1) * time.Microsecond)
	}
	if !wait() {
		return
	}
	e.Eval(1)
	e.Count("failed for the lack of a server", n-good)
	e.Distinct("refused %d %d %d", kind, conns, n)
	e.Sample("%s: %d requests have failed, %d were answered before", what, n-good, good)
}

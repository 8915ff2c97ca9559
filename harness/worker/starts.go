package main

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"syscall"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
)

// Servers which can not start or accept at the moment, and refused configurations.

// callOnce talks to a server once; what it gives is not empty if it is not answered as it has to
func callOnce(network, addr string, rcl int, body []byte, what string, e *Env, cs string) (code uint32, ok bool) {
	nc, err := net.Dial(network, addr)
	if err != nil {
		e.Viol(cs, "connect", "%s: %s: %v", cs, what, err)
		return
	}
	defer nc.Close()
	c := newRaw(nc, rcl, true)
	if err := c.send(false, frame{msg: 5, id: 77, body: body}); err != nil {
		e.Viol(cs, "connect", "%s: %s: %v", cs, what, err)
		return
	}
	var f frame
	got := make(chan error, 1)
	go func() {
		var err error
		f, err = c.read()
		got <- err
	}()
	err, in := recv(got)
	if !in {
		e.hung(cs, "serve", "%s: %s: request is not answered", cs, what)
		return
	}
	if err != nil || f.id != 77 || f.msg != 5 || string(f.body) != string(body) {
		e.Viol(cs, "serve", "%s: %s: request is answered by %v, %v", cs, what, f, err)
		return
	}
	return f.code, true
}

// c08start: a server which can not be started says so, and may be started later
func c08start(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	echo := func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
		return 0, iproto.Body(append([]byte(nil), q.Body...))
	}
	p := newPoint(func(p *point) {
		for {
			select {
			case <-p.ExitChan():
				p.ShutDownAll()
				return
			case q := <-p.ReceiveChan():
				if cx := q.Context(); cx != nil {
					q.Respond(echo(&cx.Context, q))
					cx.Done()
				}
			}
		}
	})
	cfg := server.Config{EndPoint: p, RCType: rc}
	var l net.Listener
	l, cfg.Network, cfg.Address = listenFree(r, r.IntN(2) == 0)
	srv := cfg.NewServer()
	run := func() (err error, ok bool) {
		if x := guarded(func() { err = srv.Run() }); x != nil {
			e.Viol(cs, "start-panic", "%s: Run panics: %v", cs, x)
			return nil, false
		}
		return err, true
	}
	steps := ""
	pointRuns, free := false, false
	for !pointRuns || !free {
		switch r.IntN(3) {
		case 0:
			if !pointRuns {
				steps += " end point is run,"
				iproto.Run(p)
				pointRuns = true
			}
		case 1:
			if !free {
				steps += " address is freed,"
				l.Close()
				free = true
			}
		}
		if pointRuns && free {
			break
		}
		if r.IntN(2) == 0 {
			steps += " started,"
			err, ok := run()
			if !ok {
				return
			}
			if err == nil {
				e.Viol(cs, "start", "%s: after%s no error, though end point runs: %v, address is free: %v", cs, steps, pointRuns, free)
				return
			}
			e.Count("starts which fail", 1)
		}
	}
	err, ok := run()
	for i := 0; err != nil && ok && i < 50; i++ {
		// somebody else could have taken the address for a moment
		time.Sleep(20 * time.Millisecond)
		err, ok = run()
	}
	if !ok {
		return
	}
	if err != nil {
		if cfg.Network == "unix" {
			e.Viol(cs, "start", "%s: after%s server does not start: %v", cs, steps, err)
		}
		return
	}
	for n := 1 + r.IntN(2); n > 0; n-- {
		if _, ok := callOnce(srv.Network, srv.Address, rcLen(rc), pad(r.Uint64(), r.IntN(100)), "started after"+steps, e, cs); !ok {
			return
		}
	}
	srv.Stop()
	if !closed(srv.Running) {
		e.hung(cs, "completion", "%s: server started after%s is stopped, its completion is not reported", cs, steps)
		return
	}
	if c, err := net.Dial(srv.Network, srv.Address); err == nil {
		if cfg.Network == "unix" {
			e.Viol(cs, "accept", "%s: stopped server accepts", cs)
		}
		c.Close()
	}
	p.Stop()
	e.Eval(1)
	e.Distinct("start %s", steps)
	e.Sample("%s:%s then served and stopped", cs, steps)
}

// c07nofile: a server runs out of descriptors while peers connect
func c07nofile(e *Env, k int) {
	cs := fmt.Sprintf("no descriptors %d", k)
	r := e.rng(2000000 + k)
	rc := rcOf(r)
	b := iproto.SF(func(q *iproto.Request) { q.RespondBytes(0, q.Body) })
	tcp := r.IntN(2) == 0
	srv := newServer(r, tcp, b, rc, nil)
	healthy, err := net.Dial(srv.Network, srv.Address)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer healthy.Close()
	hc := newRaw(healthy, rcLen(rc), true)
	talk := func(when string) bool {
		body := pad(r.Uint64(), r.IntN(50))
		if err := hc.send(false, frame{msg: 5, id: 8, body: body}); err != nil {
			e.Viol(cs, "healthy", "%s: %s: %v", cs, when, err)
			return false
		}
		got := make(chan error, 1)
		var f frame
		go func() {
			var err error
			f, err = hc.read()
			got <- err
		}()
		err, in := recv(got)
		if !in {
			e.hung(cs, "healthy", "%s: %s: request of a connected peer is not answered", cs, when)
		} else if err != nil || f.id != 8 || string(f.body) != string(body) {
			e.Viol(cs, "healthy", "%s: %s: request of a connected peer is answered by %v, %v", cs, when, f, err)
			in = false
		}
		return in
	}
	if !talk("before") {
		return
	}
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		return
	}
	low := lim
	low.Cur = min(lim.Cur, uint64(fds()+60))
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
		return
	}
	dir, err := os.Open(".")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	var held []int
	for {
		n, err := syscall.Dup(int(dir.Fd()))
		if err != nil {
			break
		}
		held = append(held, n)
	}
	peers := 1 + r.IntN(3)
	for n := 0; n < peers && n < len(held); n++ {
		syscall.Close(held[n])
	}
	held = held[min(peers, len(held)):]
	free := func() {
		for _, n := range held {
			syscall.Close(n)
		}
		held = nil
		dir.Close()
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	}
	defer free()
	// these take all what is left, so that the server can not accept at least some of them
	var late []*raw
	for n := 0; n < peers; n++ {
		nc, err := net.Dial(srv.Network, srv.Address)
		if err != nil {
			break
		}
		defer nc.Close()
		late = append(late, newRaw(nc, rcLen(rc), true))
	}
	time.Sleep(time.Duration(1+r.IntN(60)) * time.Millisecond)
	if !talk("without descriptors") {
		return
	}
	free()
	for n, c := range late {
		body := pad(r.Uint64(), r.IntN(50))
		c.send(false, frame{msg: 5, id: uint32(n), body: body})
		got := make(chan error, 1)
		var f frame
		go func() {
			var err error
			f, err = c.read()
			got <- err
		}()
		err, in := recv(got)
		if !in {
			e.hung(cs, "accept", "%s: peer %d of %d, which connected when there were no descriptors, is not served after there are some", cs, n, len(late))
			return
		}
		if err != nil || string(f.body) != string(body) {
			e.Viol(cs, "accept", "%s: peer %d of %d, which connected when there were no descriptors, is answered by %v, %v", cs, n, len(late), f, err)
			return
		}
	}
	if _, ok := callOnce(srv.Network, srv.Address, rcLen(rc), []byte("after"), "after descriptors were exhausted", e, cs); !ok {
		return
	}
	srv.Stop()
	healthy.Close()
	for _, c := range late {
		c.Close()
	}
	if !closed(srv.Running) {
		e.hung(cs, "completion", "%s: completion is not reported", cs)
		return
	}
	e.Eval(1)
	e.Count("peers which came when there were no descriptors", len(late))
	e.Distinct("nofile %d %v", len(late), tcp)
}

// c09maps: maps which would break the promise are refused, or do no harm
func c09maps(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	m := map[iproto.RetCode]iproto.RetCode{}
	for k := r.IntN(4); k > 0; k-- {
		m[iproto.RetCode(someCode(r)&^7|3)] = iproto.RetCode(someCode(r) &^ 3)
	}
	from, to := someCode(r), someCode(r)
	if r.IntN(2) == 0 { // something ordinary is mapped
		if from&7 == 3 {
			from ^= 1
		}
		if from == to {
			to ^= 0x100
		}
	} else {
		from, to = from&^7|3, to&^7|3
	}
	m[iproto.RetCode(from)] = iproto.RetCode(to)
	b := iproto.SF(func(q *iproto.Request) { q.RespondBytes(iproto.RetCode(from), q.Body) })
	var srv *server.Server
	if guarded(func() { srv = newServer(r, r.IntN(2) == 0, b, rc, func(c *server.Config) { c.RCMap = m }) }) != nil {
		e.Count("maps refused", 1)
		e.Eval(1)
		e.Distinct("map %v %v", from&7 == 3, to&7 == 3)
		return
	}
	defer srv.Stop()
	code, ok := callOnce(srv.Network, srv.Address, rcl, []byte("x"), "with a map", e, cs)
	if !ok {
		return
	}
	if code&7 == 3 || from&7 != 3 && code != wireCode(from, rcl) {
		e.Viol(cs, "map", "%s: server with map %v answers %s to a peer instead of %s (%d bytes of code)", cs, m, codeName(iproto.RetCode(code)), codeName(iproto.RetCode(from)), rcl)
	}
}

// c09broken: what peers of a server see of handlers which fail
func c09broken(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	kind := r.IntN(3)
	b := iproto.BF{N: pick(r, 1, 2, 5)}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
		switch kind {
		case 0:
			panic("handler fails")
		case 1:
			q.Cancel()
		case 2:
			q.IOError()
		}
		return 0, nil
	})
	defer b.Stop()
	want := []uint32{0xfc02, 0xff02, 0xfe02}[kind]
	name := []string{"panicking", "cancelling", "failing"}[kind]
	srv := newServer(r, r.IntN(2) == 0, b, rc, nil)
	defer srv.Stop()
	q := newRec(1, 5, []byte("x"))
	b.Send(&q.Request)
	if !closed(q.done) {
		e.hung(cs, "serve", "request to a %s handler is not answered", name)
		return
	}
	if own := []uint32{0xfc02, 0xff03, 0xfe03}[kind]; uint32(q.code) != own || len(q.body) != 0 {
		e.Viol(cs, "broken", "%s: request to a %s handler is answered with code 0x%x, %q instead of 0x%x", cs, name, uint32(q.code), q.body, own)
	}
	for k := 0; k < 3; k++ {
		nc, err := net.Dial(srv.Network, srv.Address)
		if err != nil {
			e.Viol(cs, "connect", "%s: %v", cs, err)
			return
		}
		defer nc.Close()
		c := newRaw(nc, rcl, true)
		if err := c.send(false, frame{msg: 5, id: 77, body: []byte("x")}); err != nil {
			e.Viol(cs, "connect", "%s: %v", cs, err)
			return
		}
		var f frame
		got := make(chan error, 1)
		go func() {
			var err error
			f, err = c.read()
			got <- err
		}()
		err, in := recv(got)
		if !in {
			e.hung(cs, "serve", "%s: request to a %s handler is not answered", cs, name)
			return
		}
		if err != nil || f.id != 77 || f.msg != 5 || len(f.body) != 0 || f.code != wireCode(want, rcl) {
			e.Viol(cs, "broken", "%s: request to a %s handler is answered by %v, %v instead of code 0x%x (%d bytes of code)", cs, name, f, err, want, rcl)
			return
		}
	}
	e.Eval(3)
	e.Count("failing handlers", 3)
	e.Distinct("broken %d %d", kind, rcl)
	e.Sample("%s: %s handler, code 0x%x for peers", cs, name, want)
}

package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

func init() {
	props["C06"] = c06
	props["C07"] = c07
	props["C08"] = c08
	props["C09"] = c09
}

// outward is a code as a peer has to see it
func outward(c uint32, m map[iproto.RetCode]iproto.RetCode) uint32 {
	if c&7 != 3 {
		return c
	}
	if v, ok := m[iproto.RetCode(c)]; ok {
		return uint32(v)
	}
	return c&^7 | 2
}

// backend is an end point for calls with tokens
type backend struct {
	iproto.Service
	l       *ledger
	name    string
	m       sync.Mutex
	r       *rand.Rand
	held    []*iproto.Request
	holding bool
	lag     time.Duration
	wg      sync.WaitGroup
	stop    func()
	got     atomic.Int64
}

func (b *backend) take(q *iproto.Request) (tok uint64, ok bool) {
	tok, ok = b.l.saw(frame{msg: uint32(q.Msg), body: q.Body})
	b.got.Add(1)
	return
}

func (b *backend) answer(q *iproto.Request, tok uint64) {
	if tok == probeTok {
		q.RespondBytes(0, []byte("probe"))
		return
	}
	q.RespondBytes(iproto.RetCode(tokCode(tok)), tokReply(tok))
	b.l.answered(tok)
}

func (b *backend) serve(q *iproto.Request) {
	tok, ok := b.take(q)
	if !ok {
		q.RespondBytes(0, nil)
		return
	}
	b.m.Lock()
	if b.holding && tok != probeTok {
		b.held = append(b.held, q)
		b.m.Unlock()
		return
	}
	lag := time.Duration(0)
	if b.lag > 0 && b.r.IntN(2) == 0 {
		lag = time.Duration(b.r.Int64N(int64(b.lag)))
	}
	b.m.Unlock()
	if lag == 0 {
		b.answer(q, tok)
		return
	}
	b.wg.Add(1)
	time.AfterFunc(lag, func() {
		defer b.wg.Done()
		b.answer(q, tok)
	})
}

func tokOf(q *iproto.Request) uint64 {
	var v uint64
	for k := 7; k >= 0; k-- {
		v = v<<8 | uint64(q.Body[k])
	}
	return v
}

// release answers n of what is held, at random
func (b *backend) release(n int) (k int) {
	b.m.Lock()
	b.r.Shuffle(len(b.held), func(i, j int) { b.held[i], b.held[j] = b.held[j], b.held[i] })
	n = min(n, len(b.held))
	out := append([]*iproto.Request(nil), b.held[:n]...)
	b.held = append([]*iproto.Request(nil), b.held[n:]...)
	b.m.Unlock()
	for _, q := range out {
		b.answer(q, tokOf(q))
	}
	return n
}

func (b *backend) count() int {
	b.m.Lock()
	defer b.m.Unlock()
	return len(b.held)
}

func newBackend(l *ledger, r *rand.Rand, kind int) *backend {
	b := &backend{l: l, r: rand.New(rand.NewPCG(r.Uint64(), 9)), stop: func() {}}
	switch kind {
	case 0:
		b.name = "function"
		b.Service = iproto.SF(b.serve)
	case 1:
		n := pick(r, 1, 4, 64)
		b.name = fmt.Sprint("pool of ", n)
		s := iproto.BF{N: n}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
			tok, ok := b.take(q)
			if !ok {
				return 0, nil
			}
			if tok == probeTok {
				return 0, iproto.Body("probe")
			}
			if b.lag > 0 && tok>>8&3 == 0 {
				time.Sleep(time.Duration(tok >> 10 % uint64(b.lag)))
			}
			b.l.answered(tok)
			return iproto.RetCode(tokCode(tok)), iproto.Body(tokReply(tok))
		})
		b.Service, b.stop = s, s.Stop
	case 2:
		b.name = "point"
		s := newPoint(func(p *point) {
			for {
				select {
				case <-p.ExitChan():
					p.ShutDownAll()
					return
				case q := <-p.ReceiveChan():
					if q.SetInFly(nil) {
						b.serve(q)
					}
				}
			}
		})
		iproto.Run(s)
		b.Service, b.stop = s, s.Stop
	}
	return b
}

// C06

func c06(e *Env) {
	n := e.N(2400, 28800)
	e.Cases(n, 3, func(i int, r *rand.Rand) {
		if i%17 == 13 {
			c06stall(e, fmt.Sprintf("case %d", i), r)
			return
		}
		c06case(e, fmt.Sprintf("case %d", i), r)
	})
	e.Cases(e.N(96, 960), 12, func(i int, r *rand.Rand) {
		c06keep(e, fmt.Sprintf("case %d", i), r)
	})
}

func c06case(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	kind := r.IntN(3)
	b := newBackend(l, r, kind)
	defer b.stop()
	if r.IntN(3) == 0 {
		b.lag = time.Millisecond
	}
	b.holding = kind != 1 && r.IntN(3) == 0
	srv := newServer(r, r.IntN(2) == 0, b, rc, func(c *server.Config) {
		if r.IntN(3) == 0 {
			c.ReadTimeout, c.WriteTimeout = time.Minute, time.Minute
		}
	})
	defer srv.Stop()
	peers := 1 + r.IntN(4)
	n := pick(r, 1, 5, 30, 100, 300, 600)
	class := pick(r, 0, 0, 1, 2, 3)
	if n <= 30 && r.IntN(4) == 0 {
		class = 4
	}
	what := fmt.Sprintf("%s: %d peers with %d requests each (sizes %d) to a %s, codes of %d bytes, held: %v", cs, peers, n, class, b.name, rcl, b.holding)
	var wg, senders sync.WaitGroup
	hold := b.holding
	slow := r.IntN(3) == 0
	readGo := newGate()
	if !slow {
		readGo.open()
	}
	var pings atomic.Int64
	ends := make([]bool, peers)
	for k := 0; k < peers; k++ {
		c := dialRaw(srv.Network, srv.Address, rcl)
		defer c.Close()
		var stream []byte
		toks := map[uint32]uint64{}
		pingN := map[uint32]int{}
		npings := 0
		for j := 0; j < n; j++ {
			tok := newTok(r, class)
			id := uint32(j)
			if r.IntN(8) == 0 {
				id = r.Uint32()
			}
			if _, dup := toks[id]; dup {
				id = uint32(j) + 1<<31
			}
			toks[id] = tok
			stream = refFrame(stream, frame{msg: tokMsg(tok), id: id, body: tokAsk(tok)}, false, 0)
			for r.IntN(6) == 0 {
				pid := pick(r, id, uint32(0xFFFFFFFF), r.Uint32(), 0)
				pingN[pid]++
				npings++
				stream = refFrame(stream, frame{msg: 0xFF00, id: pid}, false, 0)
			}
		}
		wg.Add(2)
		senders.Add(1)
		seed := r.Uint64()
		mode := r.IntN(4)
		half := r.IntN(2) == 0
		ends[k] = half
		go func() {
			defer senders.Done()
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 79))
			for len(stream) > 0 {
				m := len(stream)
				switch mode {
				case 0:
					m = min(m, 1+r.IntN(30))
				case 1:
					m = min(m, 1+r.IntN(1000))
				case 2:
					m = min(m, 1+r.IntN(20000))
				}
				if len(stream) > 200000 {
					m = max(m, 1000)
				}
				if _, err := c.Conn.Write(stream[:m]); err != nil {
					e.Viol(cs, "write", "%s: server has broken the connection: %v", what, err)
					return
				}
				stream = stream[m:]
				if r.IntN(200) == 0 {
					jitter(r)
				}
			}
			if half {
				c.closeWrite()
			}
		}()
		go func() {
			defer wg.Done()
			left := len(toks) + npings
			readGo.wait()
			for left > 0 {
				f, err := c.read()
				if err != nil {
					e.Viol(cs, "lost", "%s: peer %d (half-closed: %v): %v when %d answers are still missing", what, k, half, err, left)
					return
				}
				left--
				if f.msg == 0xFF00 {
					pings.Add(1)
					if pingN[f.id] == 0 || len(f.body) != 0 {
						e.Viol(cs, "ping", "%s: ping with id %x and %d bytes is not an answer to any ping", what, f.id, len(f.body))
						return
					}
					pingN[f.id]--
					continue
				}
				tok, ok := toks[f.id]
				if !ok || f.msg != tokMsg(tok) {
					e.Viol(cs, "foreign", "%s: peer %d got an answer with id %x and type %d which it did not ask for or has already got (type asked: %d)", what, k, f.id, f.msg, tokMsg(tok))
					return
				}
				delete(toks, f.id)
				if f.code != wireCode(outward(tokCode(tok), nil), rcl) || !bytes.Equal(f.body, tokReply(tok)) {
					e.Viol(cs, "answer", "%s: answer has code 0x%x and %d bytes %.40x instead of 0x%x and %.40x", what, f.code, len(f.body), f.body, wireCode(outward(tokCode(tok), nil), rcl), tokReply(tok))
					return
				}
			}
			if half {
				if f, err := c.read(); err != io.EOF {
					e.Viol(cs, "end", "%s: after all answers a half-closed peer got %v %v instead of the end", what, f, err)
				}
				return
			}
			// nothing more comes
			c.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
			if f, err := c.read(); err == nil {
				e.Viol(cs, "extra", "%s: after all answers peer got one more: %d %x", what, f.msg, f.id)
			}
		}()
	}
	if hold {
		// all of them are passed while none is answered, though peers may be not reading
		if !until(func() bool { return b.count() == peers*n || e.violated() }) {
			e.hung(cs, "pass", "%s: only %d requests have come to the end point", what, b.count())
			return
		}
		for b.count() > 0 && r.IntN(4) > 0 {
			b.release(1 + b.count()/3)
			jitter(r)
		}
		if !finishes(func() { b.release(1 << 30) }) {
			e.hung(cs, "block", "%s: answering blocks the end point", what)
			return
		}
		b.m.Lock()
		b.holding = false
		b.m.Unlock()
		b.release(1 << 30)
	} else if slow && class != 4 {
		// though nobody reads, everything is accepted and handled
		if !until(func() bool { return b.got.Load() == int64(peers*n) || e.violated() }) {
			e.hung(cs, "slow", "%s: only %d requests have come to the end point while peers are not reading", what, b.got.Load())
			return
		}
	}
	readGo.open()
	if !finishes(wg.Wait) {
		e.hung(cs, "answer", "%s: peers wait for answers; the end point has got %d requests", what, b.got.Load())
		return
	}
	if got := b.got.Load(); got != int64(peers*n) && !e.violated() {
		e.Viol(cs, "count", "%s: end point has got %d requests", what, got)
	}
	b.wg.Wait()
	e.Eval(1)
	e.Count("requests answered", peers*n)
	e.Count("pings answered", int(pings.Load()))
	e.Distinct("%d %d %d %s %d %v %v %v", peers, n, class, b.name, rcl, hold, slow, ends)
	e.Sample("%s, slow readers: %v, %d pings", what, slow, pings.Load())
}

// C07

func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

func c07(e *Env) {
	n := e.N(800, 9600)
	// goroutines and descriptors are counted for the process: one by one
	e.Cases(n, 1, func(i int, r *rand.Rand) {
		c07case(e, fmt.Sprintf("case %d", i), r)
	})
	for k := 0; k < e.N(4, 40) && !e.violated() && e.only < 0; k++ {
		c07nofile(e, k)
	}
}

// libGoroutines counts goroutines running the library's code, and returns their stacks
func libGoroutines(part string) (n int, text string) {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, part) {
			n++
			text += g + "\n\n"
		}
	}
	return
}

var huge = make([]byte, 2<<20)

func c07case(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	tcp := r.IntN(2) == 0
	kind := r.IntN(3)
	b := newBackend(l, r, kind)
	// requests with an odd type are held by the end point
	var hm sync.Mutex
	var held []*iproto.Request
	// those which come after one which took the end point long, of a peer which was gone meanwhile
	var after []*iproto.Request
	taken, broken := make(chan bool, 8), make(chan bool, 8)
	big := make([]byte, 60000)
	var ep iproto.Service = iproto.Route(func(q *iproto.Request) {
		if len(q.Body) >= 8 && q.Msg < 100000 {
			b.Send(q)
			return
		}
		if q.SetPending() && q.SetInFly(nil) {
			switch q.Msg {
			case 100001: // held
				hm.Lock()
				held = append(held, q)
				hm.Unlock()
			case 100002: // a big answer at once
				q.RespondBytes(0, big)
			case 100003: // the end point takes its time to take it
				taken <- true
				<-broken
				q.RespondBytes(0, big)
				time.Sleep(5 * time.Millisecond)
			case 100004:
				hm.Lock()
				after = append(after, q)
				hm.Unlock()
			default:
				q.RespondBytes(0, nil)
			}
		}
	})
	timeouts := r.IntN(3) == 0
	srv := newServer(r, tcp, ep, rc, func(c *server.Config) {
		if timeouts {
			c.WriteTimeout = 50 * time.Millisecond
		}
	})
	what := fmt.Sprintf("%s: %s, codes of %d bytes, write timeout: %v", cs, b.name, rcl, timeouts)
	fd0 := fds()
	// healthy ones
	stop := atomic.Bool{}
	var wg sync.WaitGroup
	var served atomic.Int64
	healthy := 1 + r.IntN(2)
	rounds := make([]atomic.Int64, healthy)
	for k := 0; k < healthy; k++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 83))
			c := dialRaw(srv.Network, srv.Address, rcl)
			defer c.Close()
			for id := uint32(0); !stop.Load() && !e.violated(); id++ {
				tok := newTok(r, pick(r, 0, 1))
				if c.send(false, frame{msg: tokMsg(tok), id: id, body: tokAsk(tok)}) != nil {
					e.Viol(cs, "broken", "%s: connection of a healthy peer is broken", what)
					return
				}
				var f frame
				var err error
				if !finishes(func() { f, err = c.read() }) {
					e.hung(cs, "blocked", "%s: request %d of a healthy peer is not answered", what, id)
					return
				}
				if err != nil {
					e.Viol(cs, "broken", "%s: connection of a healthy peer: %v", what, err)
					return
				}
				if f.id != id || f.code != wireCode(outward(tokCode(tok), nil), rcl) || !bytes.Equal(f.body, tokReply(tok)) {
					e.Viol(cs, "foreign", "%s: healthy peer got id %x, code 0x%x, body %.40x instead of id %x, code 0x%x, body %.40x", what, f.id, f.code, f.body, id, wireCode(outward(tokCode(tok), nil), rcl), tokReply(tok))
					return
				}
				served.Add(1)
				rounds[k].Add(1)
				if r.IntN(4) == 0 {
					time.Sleep(time.Duration(r.IntN(500)) * time.Microsecond)
				}
			}
		}()
	}
	var did []string
	var bad []*raw
	abusers := 1 + r.IntN(5)
	type gone struct {
		c    *raw
		how  int
		reqs []*iproto.Request
	}
	var lost []gone
	for k := 0; k < abusers && !e.violated(); k++ {
		c := dialRaw(srv.Network, srv.Address, rcl)
		switch r.IntN(7) {
		case 6: // is reset while one of many requests is being taken
			did = append(did, "reset while taken")
			many := []frame{{msg: 100003, id: 1000}}
			for j := 20 + r.IntN(100); j > 0; j-- {
				many = append(many, frame{msg: 100004, id: uint32(j)})
			}
			c.send(false, many...)
			if _, ok := recv(taken); !ok {
				e.hung(cs, "pass", "%s: request of a peer is not passed to the end point", what)
				return
			}
			c.reset()
			n := canaryRounds.Load()
			until(func() bool { return canaryRounds.Load() > n+4 })
			broken <- true
		case 0: // cut in the middle of a frame
			did = append(did, "cut")
			b := refFrame(nil, frame{msg: 5, id: 1, body: make([]byte, 100+r.IntN(20000))}, false, 0)
			c.Conn.Write(b[:r.IntN(len(b))])
			if r.IntN(2) == 0 {
				c.reset()
			} else {
				c.Close()
			}
		case 1: // silent for ever
			did = append(did, "silent")
			bad = append(bad, c)
		case 2: // asks for a lot and does not read
			did = append(did, "flood")
			c.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
			for j := 0; j < 400; j++ {
				if c.send(false, frame{msg: 100002, id: uint32(j)}) != nil {
					break
				}
			}
			bad = append(bad, c)
		case 3: // many pings, nothing is read
			did = append(did, "pings")
			c.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
			var many []frame
			for j := 0; j < 1000; j++ {
				many = append(many, frame{msg: 0xFF00, id: uint32(j)})
			}
			for j := 0; j < 50; j++ {
				if c.send(false, many...) != nil {
					break
				}
			}
			bad = append(bad, c)
		case 4, 5: // asks for things which take long, and vanishes
			n := 30 + r.IntN(100)
			var many []frame
			for j := 0; j < n; j++ {
				many = append(many, frame{msg: 100001, id: uint32(j)})
			}
			c.send(false, many...)
			var mine []*iproto.Request
			if !until(func() bool {
				hm.Lock()
				defer hm.Unlock()
				return len(held) == n
			}) {
				e.hung(cs, "pass", "%s: requests of a peer are not passed to the end point", what)
				return
			}
			hm.Lock()
			mine, held = held, nil
			hm.Unlock()
			how := r.IntN(3)
			did = append(did, []string{"vanish", "vanish by reset", "stops reading"}[how])
			switch how {
			case 0:
				c.Close()
			case 1:
				c.reset()
			case 2:
				if !timeouts {
					c.Close()
					how = 0
				} else {
					bad = append(bad, c)
				}
			}
			lost = append(lost, gone{c, how, mine})
		}
		if r.IntN(3) == 0 {
			time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
		}
	}
	// answers to those who have vanished: the first ones let the server know, the rest are cancelled
	cancelled := 0
	for _, x := range lost {
		answeredN := 0
		// a reset has come to the other side after a while: the first answer fails
		one := x.how == 1 && r.IntN(2) == 0
		if one {
			n := canaryRounds.Load()
			until(func() bool { return canaryRounds.Load() > n+4 })
		}
		for k, q := range x.reqs {
			if q.Performed() || one && k > 0 {
				break
			}
			answeredN++
			body := []byte("late")
			if x.how == 2 {
				body = huge
			}
			if !finishes(func() { q.RespondBytes(0, body) }) {
				e.hung(cs, "block", "%s: answering to a peer which does not read blocks the end point", what)
				return
			}
			if x.how != 2 {
				for j := 0; j < 40 && !x.reqs[len(x.reqs)-1].Performed(); j++ {
					time.Sleep(time.Duration(j*10) * time.Microsecond)
				}
				if k > 10 {
					break
				}
			} else if k >= 24 {
				// more than any buffers of a connection hold
				break
			}
		}
		if !until(func() bool {
			for _, q := range x.reqs {
				if !q.Performed() {
					return false
				}
			}
			return true
		}) {
			e.hung(cs, "cancel", "%s: peer has vanished (%v), %d answers could not be delivered to it, but the others of %d requests are not cancelled", what, did, answeredN, len(x.reqs))
			return
		}
		cancelled += len(x.reqs) - answeredN
	}
	// healthy ones go on
	for k := range rounds {
		n := rounds[k].Load()
		if !until(func() bool { return rounds[k].Load() >= n+20 || e.violated() }) {
			e.hung(cs, "blocked", "%s: a healthy peer is not served besides %v", what, did)
			return
		}
	}
	stop.Store(true)
	wg.Wait()
	for _, c := range bad {
		if r.IntN(2) == 0 {
			c.reset()
		} else {
			c.Close()
		}
	}
	if e.violated() {
		return
	}
	// everything is released
	n := 0
	var text string
	begin := time.Now()
	if !until(func() bool {
		n, text = libGoroutines("go-iproto/net/server.(*Connection)")
		if n > 0 && time.Since(begin) > 2*time.Second {
			// the first answer was written before the reset came: another one lets the server know
			hm.Lock()
			for _, q := range after {
				if !q.Performed() {
					q.RespondBytes(0, nil)
					break
				}
			}
			hm.Unlock()
		}
		return n == 0
	}) {
		e.Viol(cs, "leak", "%s: after %v all peers are gone, but %d goroutines of connections are left:\n%s", what, did, n, text)
		return
	}
	if !until(func() bool { return fds() <= fd0 }) {
		e.Viol(cs, "leak", "%s: after %v all peers are gone, but %d descriptors are open instead of %d", what, did, fds(), fd0)
		return
	}
	left := 0
	if !until(func() bool {
		hm.Lock()
		defer hm.Unlock()
		left = 0
		for _, q := range after {
			if !q.Performed() {
				left++
			}
		}
		return left == 0
	}) {
		e.hung(cs, "cancel", "%s: after %v all peers are gone, but %d of %d requests passed to the end point after that are not cancelled", what, did, left, len(after))
		return
	}
	srv.Stop()
	if !closed(srv.Running) {
		e.hung(cs, "stop", "%s: after %v the server does not stop", what, did)
	}
	b.stop()
	e.Eval(1)
	e.Count("requests passed to the end point of a vanishing peer", len(after))
	e.Count("healthy calls", int(served.Load()))
	e.Count("requests of vanished peers cancelled", cancelled)
	for _, d := range did {
		e.Count("abuse: "+d, 1)
	}
	e.Distinct("%v %s %v %v", did, b.name, timeouts, tcp)
	e.Sample("%s: %v; %d healthy calls, %d requests cancelled", what, did, served.Load(), cancelled)
}

// C08

func c08(e *Env) {
	n := e.N(6000, 72000)
	e.Cases(n, 4, func(i int, r *rand.Rand) {
		if i%20 == 7 {
			c08start(e, fmt.Sprintf("case %d", i), r)
			return
		}
		c08case(e, fmt.Sprintf("case %d", i), r)
	})
	e.leftover("go-iproto/net/server.", "all servers have reported their end")
}

func c08case(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	kind := r.IntN(3)
	b := newBackend(l, r, kind)
	defer b.stop()
	hold := kind != 1 && r.IntN(2) == 0
	b.holding = hold
	if r.IntN(2) == 0 {
		b.lag = 2 * time.Millisecond
	}
	tcp := r.IntN(2) == 0
	srv := newServer(r, tcp, b, rc, nil)
	peers := pick(r, 0, 0, 1, 2, 5)
	n := pick(r, 1, 5, 40, 200)
	class := pick(r, 0, 1, 2)
	slow := r.IntN(3) == 0
	racing := !hold && r.IntN(2) == 0
	idle := r.IntN(3)
	what := fmt.Sprintf("%s: %s, %d peers with %d requests each (sizes %d), %d idle ones, held: %v, slow: %v, racing: %v", cs, b.name, peers, n, class, idle, hold, slow, racing)
	type peer struct {
		c    *raw
		toks []uint64
		got  map[uint64]bool
		end  error
	}
	var ps []*peer
	var wg sync.WaitGroup
	readGo := newGate()
	for k := 0; k < peers+idle; k++ {
		p := &peer{c: dialRaw(srv.Network, srv.Address, rcl), got: map[uint64]bool{}}
		defer p.c.Close()
		ps = append(ps, p)
		var fs []frame
		for j := 0; j < n && k < peers; j++ {
			tok := newTok(r, class)
			p.toks = append(p.toks, tok)
			fs = append(fs, frame{msg: tokMsg(tok), id: uint32(j), body: tokAsk(tok)})
		}
		wg.Add(2)
		go func() {
			defer wg.Done()
			p.c.send(false, fs...)
		}()
		go func() {
			defer wg.Done()
			if slow {
				readGo.wait()
			}
			for {
				f, err := p.c.read()
				if err != nil {
					p.end = err
					return
				}
				if int(f.id) >= len(p.toks) {
					e.Viol(cs, "foreign", "%s: answer with id %x", what, f.id)
					return
				}
				tok := p.toks[f.id]
				if p.got[tok] || f.code != wireCode(outward(tokCode(tok), nil), rcl) || !bytes.Equal(f.body, tokReply(tok)) {
					e.Viol(cs, "answer", "%s: answer %x has code 0x%x and body %.40x (got before: %v)", what, f.id, f.code, f.body, p.got[tok])
					return
				}
				p.got[tok] = true
			}
		}()
	}
	if !racing {
		if !until(func() bool { return b.got.Load() == int64(peers*n) || e.violated() }) {
			e.hung(cs, "pass", "%s: only %d requests have come to the end point", what, b.got.Load())
			return
		}
	} else {
		for k := r.IntN(4); k > 0; k-- {
			jitter(r)
		}
	}
	if r.IntN(4) == 0 && idle > 0 {
		ps[len(ps)-1].c.Close() // leaves just before
	}
	again := pick(r, 0, 0, 0, 1, 3, 6)
	var stops sync.WaitGroup
	for k := 0; k < again; k++ {
		if r.IntN(2) == 0 {
			stops.Add(1)
			go func() { defer stops.Done(); srv.Stop() }()
		} else if !finishes(srv.Stop) {
			e.hung(cs, "stop", "%s: one of %d stops does not return", what, again+1)
			return
		}
	}
	if !finishes(srv.Stop) || !finishes(stops.Wait) {
		e.hung(cs, "stop", "%s: one of %d stops does not return", what, again+1)
		return
	}
	// nobody new
	if c, err := net.Dial(srv.Network, srv.Address); err == nil {
		x := newRaw(c, rcl, true)
		x.send(false, frame{msg: 0xFF00, id: 1})
		var err error
		if !finishes(func() { _, err = x.read() }) {
			e.hung(cs, "accept", "%s: connection made after the stop stays open", what)
			return
		}
		if err == nil {
			e.Viol(cs, "accept", "%s: connection made after the stop is served", what)
		}
		c.Close()
	}
	early := 0
	if hold && peers > 0 {
		b.release(b.count() / 2)
		time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
		select {
		case <-srv.Running:
			e.Viol(cs, "early", "%s: server reports its end while %d requests are not answered", what, b.count())
		default:
			early++
		}
		b.release(1 << 30)
	}
	readGo.open()
	if !closed(srv.Running) {
		e.hung(cs, "end", "%s: end of the server is not reported, %d requests were seen", what, b.got.Load())
		return
	}
	// the end is reported when all connections are finished
	if k := b.count(); k > 0 && hold {
		e.Viol(cs, "early", "%s: server has reported its end, but %d requests are not answered", what, k)
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "close", "%s: connections are not closed after the end of the server", what)
		return
	}
	if again > 0 {
		for k := 0; k < again; k++ {
			if !finishes(srv.Stop) {
				e.hung(cs, "stop", "%s: stop %d after the end does not return", what, k)
				return
			}
		}
		e.Count("repeated stops", 2*again)
	}
	b.wg.Wait()
	answered, unread := 0, 0
	for k, p := range ps {
		for _, tok := range p.toks {
			switch {
			case l.look(tok).n > 0 && !p.got[tok]:
				if racing && p.end != io.EOF {
					continue // this peer was sending to a closed connection
				}
				e.Viol(cs, "lost", "%s: server had received a request of peer %d, but it is not answered (end: %v, %d answers)", what, k, p.end, len(p.got))
			case p.got[tok]:
				answered++
			default:
				unread++
			}
		}
	}
	e.Eval(1)
	e.Count("answered though stopped", answered)
	e.Count("not received by the server", unread)
	e.Count("stops without peers", pick2(len(ps) == 0, 1, 0))
	e.Count("end looked at while requests were held", early)
	e.Distinct("%d %d %d %d %v %v %v %s %d", peers, n, class, idle, hold, slow, racing, b.name, answered)
	e.Sample("%s: %d answered, %d not received", what, answered, unread)
}

// C09

func c09(e *Env) {
	n := e.N(1600, 19200)
	e.Cases(n, 3, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		if i%16 == 5 {
			c09maps(e, cs, r)
		} else if i%16 == 11 {
			c09broken(e, cs, r)
		} else if i%2 == 0 {
			c09codes(e, cs, r, i)
		} else {
			c09own(e, cs, r)
		}
	})
}

func someCode(r *rand.Rand) uint32 {
	switch r.IntN(8) {
	case 0:
		return pick(r, uint32(iproto.RcShutdown), uint32(iproto.RcProtocolError), uint32(iproto.RcInternalError), uint32(iproto.RcIOError), uint32(iproto.RcTimeout), 0xff02, 0xfe02, 0x0303, 3, 2, 1, 0)
	case 1:
		return uint32(r.IntN(256))
	case 2:
		return uint32(r.IntN(0x10000))
	case 3:
		return uint32(r.IntN(0x10000))&^7 | 3
	case 4:
		return r.Uint32()&^7 | 3
	case 5:
		return uint32(r.IntN(8)) | 0xFFFFFFF8
	}
	return r.Uint32()
}

func c09codes(e *Env, cs string, r *rand.Rand, i int) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	var m map[iproto.RetCode]iproto.RetCode
	if r.IntN(3) > 0 {
		m = map[iproto.RetCode]iproto.RetCode{}
		for k := r.IntN(8); k >= 0; k-- {
			from := someCode(r)&^7 | 3
			to := someCode(r)
			if to&7 == 3 {
				to ^= 1
			}
			m[iproto.RetCode(from)] = iproto.RetCode(to)
		}
	}
	answer := func(q *iproto.Request) (iproto.RetCode, iproto.Body) {
		var c uint32
		for k := 3; k >= 0; k-- {
			c = c<<8 | uint32(q.Body[k])
		}
		return iproto.RetCode(c), q.Body
	}
	var ep iproto.Service
	var stop func() = func() {}
	kind := r.IntN(3)
	cancelled := func(q *iproto.Request) bool {
		if len(q.Body) != 5 {
			return false
		}
		switch q.Body[4] {
		case 1:
			q.Cancel()
		case 2:
			q.IOError()
		case 3:
			q.ShutDown()
		}
		return true
	}
	h := func(q *iproto.Request) {
		if cancelled(q) {
			return
		}
		c, b := answer(q)
		if q.Id%2 == 0 {
			q.Respond(c, b)
		} else {
			q.RespondBytes(c, b)
		}
	}
	switch kind {
	case 0:
		ep = iproto.SF(h)
	case 1:
		p := newPoint(func(p *point) {
			for {
				select {
				case <-p.ExitChan():
					p.ShutDownAll()
					return
				case q := <-p.ReceiveChan():
					if q.SetInFly(nil) {
						h(q)
					}
				}
			}
		})
		iproto.Run(p)
		ep, stop = p, p.Stop
	case 2:
		ep = iproto.StatWrap(iproto.SF(h), func(*iproto.Request, time.Duration) {})
	}
	srv := newServer(r, r.IntN(2) == 0, ep, rc, func(c *server.Config) { c.RCMap = m })
	var codes []uint32
	if i/2%8 == 0 {
		for c := uint32(0); c < 0x400; c++ {
			codes = append(codes, c)
		}
	}
	for k := 0; k < 200; k++ {
		codes = append(codes, someCode(r))
	}
	for from := range m {
		codes = append(codes, uint32(from))
	}
	what := fmt.Sprintf("%s: codes of %d bytes, %d replacements, end point %d", cs, rcl, len(m), kind)
	// through a peer without the library, and through a client
	c := dialRaw(srv.Network, srv.Address, rcl)
	defer c.Close()
	go func() {
		var fs []frame
		for k, code := range codes {
			fs = append(fs, frame{msg: 7, id: uint32(k), body: put32(nil, code)})
		}
		c.send(false, fs...)
	}()
	internal := 0
	for range codes {
		var f frame
		var err error
		if !finishes(func() { f, err = c.read() }) {
			e.hung(cs, "answer", "%s: no answer", what)
			return
		}
		if err != nil || int(f.id) >= len(codes) {
			e.Viol(cs, "answer", "%s: %v, id %x", what, err, f.id)
			return
		}
		code := codes[f.id]
		if code&7 == 3 {
			internal++
		}
		if want := wireCode(outward(code, m), rcl); f.code != want || rcl == 4 && f.code&7 == 3 {
			e.Viol(cs, "wire", "%s: end point has answered 0x%x, peer sees 0x%x instead of 0x%x", what, code, f.code, want)
			return
		}
		if !bytes.Equal(f.body, put32(nil, code)) {
			e.Viol(cs, "body", "%s: body %x of code 0x%x", what, f.body, code)
		}
	}
	cl := newClient(srv.Network, srv.Address, rc, 1+r.IntN(2), nil)
	for k, code := range codes {
		q := newRec(uint32(k), 7, put32(nil, code))
		cl.Send(&q.Request)
		if !closed(q.done) {
			e.hung(cs, "answer", "%s: no answer through a client", what)
			return
		}
		want := wireCode(outward(code, m), rcl)
		if k == 0 && uint32(q.code) == uint32(iproto.RcIOError) {
			continue
		}
		if uint32(q.code) != want {
			e.Viol(cs, "client", "%s: end point has answered 0x%x, client gives 0x%x instead of 0x%x", what, code, uint32(q.code), want)
			return
		}
		if k > 120 && i/2%8 != 0 {
			break
		}
	}
	// failures raised at the server
	for k, code := range []uint32{0xff03, 0xfe03, 0xff03} {
		c.send(false, frame{msg: 7, id: uint32(k), body: []byte{0, 0, 0, 0, byte(k + 1)}})
		var f frame
		var err error
		if !finishes(func() { f, err = c.read() }) {
			e.hung(cs, "answer", "%s: no answer to a request which has failed", what)
			return
		}
		if want := wireCode(outward(code, m), rcl); err != nil || f.code != want || len(f.body) != 0 {
			e.Viol(cs, "wire", "%s: request was failed with 0x%x at the server, peer sees 0x%x %x (%v) instead of 0x%x", what, code, f.code, f.body, err, want)
		}
	}
	cl.Stop()
	srv.Stop()
	stop()
	e.Eval(len(codes))
	e.Count("codes", len(codes))
	e.Count("internal codes", internal)
	e.Distinct("%d %v %d", rcl, m, kind)
	e.Sample("%s: %d codes, %d internal", what, len(codes), internal)
}

// c09own: failures raised by a client itself
func c09own(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	f := newFake(r, r.IntN(2) == 0, rc)
	mode := r.IntN(5)
	got := newGate()
	f.onReq = func(c *raw, q frame) {
		got.open()
		if len(q.body) == 1 {
			c.send(true, frame{msg: q.msg, id: q.id, body: []byte("fine")})
			return
		}
		switch mode {
		case 3:
			c.Close()
		case 4: // no room for a code
			if rc == nt.RC0byte {
				c.send(true, frame{msg: q.msg, id: q.id})
				return
			}
			c.send(true, frame{msg: q.msg, id: q.id, body: make([]byte, r.IntN(rcLen(rc))), short: true})
		}
	}
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, 1, func(c *client.ServerConfig) {
		if mode == 0 {
			c.Timeout = 2 * time.Millisecond
		}
	})
	defer c.Stop()
	h := newHang()
	for {
		q := newRec(1, 5, []byte{1})
		c.Send(&q.Request)
		if !closed(q.done) || h.over() {
			e.hung(cs, "connect", "client does not connect")
			return
		}
		if q.code == 0 {
			break
		}
	}
	got = newGate()
	q := newRec(9, 5, []byte{1, 2})
	c.Send(&q.Request)
	want := []iproto.RetCode{0xfd03, 0xff03, 0xfe03, 0xfe03, 0x0302}[mode] // as documented by the constants of codes
	name := []string{"timeout", "cancelled", "I/O error", "connection closed", "short answer"}[mode]
	switch mode {
	case 1, 2:
		if r.IntN(2) == 0 {
			closed(got.ch)
		}
		if mode == 1 {
			q.Cancel()
		} else {
			q.IOError()
		}
	case 4:
		if rc == nt.RC0byte {
			want = iproto.RcOK
		}
	}
	if !closed(q.done) {
		e.hung(cs, "answer", "request (%s) is not answered", name)
		return
	}
	if q.code != want {
		e.Viol(cs, "own", "%s: %s: code is 0x%x instead of 0x%x", cs, name, uint32(q.code), uint32(want))
	}
	if mode == 4 {
		// the stream is still in step
		x := newRec(2, 5, []byte{1})
		c.Send(&x.Request)
		if !closed(x.done) || x.code != 0 || string(x.body) != "fine" {
			e.Viol(cs, "sync", "%s: after an answer without a code the next call is answered with %s %q", cs, codeName(x.code), x.body)
		}
	}
	c.Stop()
	x := newRec(3, 5, []byte{1, 2})
	until(func() bool { return f.nconns() == 0 })
	c.Send(&x.Request)
	if !closed(x.done) || x.code != 0xff03 && x.code != 0xfe03 && (mode != 0 || x.code != 0xfd03) {
		e.Viol(cs, "own", "%s: request to a stopped client is answered with %s", cs, codeName(x.code))
	}
	e.Eval(1)
	e.Count("own: "+name, 1)
	e.Distinct("%s %d", name, rc)
	e.Sample("%s: %s gives code 0x%x", cs, name, uint32(q.code))
}

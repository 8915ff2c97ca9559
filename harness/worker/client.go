package main

import (
	"fmt"
	"math/rand/v2"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
)

func init() {
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
	props["C28"] = c28
}

// replier answers calls with tokens in a random order, several at once
type replier struct {
	l    *ledger
	m    sync.Mutex
	r    *rand.Rand
	held []heldCall
	keep int           // how many to keep at most, until release
	lag  time.Duration // of each answer at most
	wg   sync.WaitGroup
	name string // answer of the probe
	sent func(tok uint64)
}

type heldCall struct {
	c   *raw
	f   frame
	tok uint64
}

func newReplier(l *ledger, r *rand.Rand) *replier {
	return &replier{l: l, r: rand.New(rand.NewPCG(r.Uint64(), 5)), name: "probe"}
}

func (p *replier) give(hs []heldCall) {
	by := map[*raw][]frame{}
	for _, h := range hs {
		by[h.c] = append(by[h.c], tokFrame(h.f, h.tok))
	}
	for c, fs := range by {
		if c.send(true, fs...) == nil {
			for _, h := range hs {
				if h.c == c {
					p.l.answered(h.tok)
				}
			}
		}
	}
}

func (p *replier) onReq(c *raw, f frame) {
	tok, ok := p.l.saw(f)
	if !ok {
		return
	}
	if tok == probeTok {
		c.send(true, frame{msg: f.msg, id: f.id, body: []byte(p.name)})
		return
	}
	h := heldCall{c, f, tok}
	p.m.Lock()
	lag := time.Duration(0)
	if p.lag > 0 && p.r.IntN(2) == 0 {
		lag = time.Duration(p.r.Int64N(int64(p.lag)))
	}
	if p.keep > 0 {
		p.held = append(p.held, h)
		if len(p.held) < p.keep {
			p.m.Unlock()
			return
		}
		p.r.Shuffle(len(p.held), func(i, j int) { p.held[i], p.held[j] = p.held[j], p.held[i] })
		n := 1 + p.r.IntN(len(p.held))
		out := append([]heldCall(nil), p.held[:n]...)
		p.held = append(p.held[:0], p.held[n:]...)
		p.m.Unlock()
		p.give(out)
		return
	}
	p.m.Unlock()
	if lag == 0 {
		p.give([]heldCall{h})
		return
	}
	p.wg.Add(1)
	time.AfterFunc(lag, func() {
		defer p.wg.Done()
		p.give([]heldCall{h})
	})
}

// release answers everything held
func (p *replier) release() {
	p.m.Lock()
	out := p.held
	p.held = nil
	p.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	p.m.Unlock()
	p.give(out)
}

func (p *replier) count() int {
	p.m.Lock()
	defer p.m.Unlock()
	return len(p.held)
}

// C03

func c03(e *Env) {
	n := e.N(2200, 26400)
	e.Cases(n, 3, func(i int, r *rand.Rand) {
		c03case(e, fmt.Sprintf("case %d", i), r, i)
	})
}

func c03case(e *Env, cs string, r *rand.Rand, i int) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	ping := r.IntN(3) == 0
	// frequent small packets of pings keep the kernel from probing a closed window of a loaded
	// TCP connection over loopback: answers stay in the send queue of the kernel for ever
	f := newFake(r, r.IntN(2) == 0 && !ping, rc)
	p := newReplier(l, r)
	f.onReq = p.onReq
	conns := pick(r, 1, 1, 2, 3, 6)
	callers := pick(r, 1, 2, 8, 16)
	per := pick(r, 1, 10, 60, 200)
	class := pick(r, 0, 0, 1, 2, 2, 3)
	waves := false
	switch {
	case i < e.shards: // many rows of identifiers in flight at once, answered in any order
		conns, callers, per, class = 1+r.IntN(2), 8, 600, pick(r, 0, 3)
		p.keep = 1 << 30
		waves = true
	case r.IntN(24) == 0:
		callers, per, class = 2, 4, 4
	case r.IntN(4) == 0:
		p.keep = 1 << 30
		waves = true
	case r.IntN(3) == 0:
		p.lag = 2 * time.Millisecond
	}
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, conns, func(c *client.ServerConfig) {
		if ping {
			c.PingInterval = time.Millisecond
		}
		if r.IntN(3) == 0 {
			c.WriteTimeout = time.Minute
			c.ReadTimeout = time.Minute
		}
	})
	defer c.Stop()
	if !probe(e, cs, c) {
		return
	}
	cancels := r.IntN(3) == 0
	sync1 := !waves && r.IntN(3) == 0 // one after another
	calls := make([][]*tcall, callers)
	var sent atomic.Int64
	var wg sync.WaitGroup
	what := fmt.Sprintf("%s: %d callers of %d calls (sizes %d) over %d connections, codes of %d bytes, all held: %v, cancels: %v, pings: %v", cs, callers, per, class, conns, rcl, waves, cancels, ping)
	for k := range calls {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 61))
			for j := 0; j < per; j++ {
				q := newCall(r, class, uint32(r.IntN(3)))
				calls[k] = append(calls[k], q)
				q.sent = time.Now()
				c.Send(&q.Request)
				sent.Add(1)
				if cancels && r.IntN(10) == 0 {
					if r.IntN(2) == 0 {
						q.killed.Store(uint32(iproto.RcCanceled))
						q.Cancel()
					} else {
						q.killed.Store(uint32(iproto.RcTimeout))
						q.Expire()
					}
				}
				if sync1 && !closed(q.done) {
					e.hung(cs, "answer", "%s: %v is not answered; server has seen it %d times", what, q, l.look(q.tok).n)
					return
				}
				if r.IntN(64) == 0 {
					jitter(r)
				}
			}
		}()
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: sending does not return", what)
		return
	}
	if e.violated() {
		return
	}
	if waves {
		// everything what is alive has to come to the server, though nothing is answered
		alive := 0
		for _, qs := range calls {
			for _, q := range qs {
				if q.killed.Load() == 0 {
					alive++
				}
			}
		}
		if !until(func() bool { return p.count() >= alive }) {
			e.hung(cs, "pass", "%s: only %d calls of %d have come to the server", what, p.count(), alive)
			return
		}
		for p.count() > 0 && r.IntN(3) > 0 {
			p.m.Lock()
			p.r.Shuffle(len(p.held), func(i, j int) { p.held[i], p.held[j] = p.held[j], p.held[i] })
			n := len(p.held) / 2
			out := append([]heldCall(nil), p.held[n:]...)
			p.held = p.held[:n]
			p.m.Unlock()
			p.give(out)
			// new ones in between
			for j := r.IntN(40); j > 0; j-- {
				q := newCall(r, class, uint32(r.IntN(3)))
				calls[0] = append(calls[0], q)
				q.sent = time.Now()
				c.Send(&q.Request)
			}
			jitter(r)
		}
		p.m.Lock()
		p.keep = 0
		p.m.Unlock()
		p.release()
	}
	good, dead := 0, 0
	for _, qs := range calls {
		for _, q := range qs {
			if waves {
				// those which came to the server between
				p.release()
			}
			if !closed(q.done) {
				e.hung(cs, "answer", "%s: %v is not answered; server has seen it %d times, answered: %v", what, q, l.look(q.tok).n, l.look(q.tok).sent)
				return
			}
			// nothing breaks here, so that nothing but cancellation may fail
			if q.judge(e, cs, what, rcl, nil) {
				good++
			} else {
				dead++
			}
		}
	}
	p.wg.Wait()
	e.Eval(1)
	e.Count("genuine answers", good)
	e.Count("cancelled", dead)
	e.Count("pings", int(f.pings.Load()))
	e.Distinct("%d %d %d %d %v %v %d", conns, callers, per, class, waves, cancels, rcl)
	e.Sample("%s: %d genuine answers, %d cancelled, %d pings", what, good, dead, f.pings.Load())
}

// C04

const (
	cutFIN = iota
	cutRST
	cutHalf
	cutSilence
	nCuts
)

var cutNames = []string{"close", "reset", "half-close", "silence"}

func c04(e *Env) {
	// every position of the answers of three calls, every kind of a cut and every width of codes
	small := 3 * nCuts * 96
	reqs := 3 * 80
	chaos := e.N(96, 3000)
	randoms := e.N(320, 16000)
	keeps := e.N(204, 2040)
	e.Cases(small+reqs+chaos+randoms+keeps, 12, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		switch {
		case i < small:
			c04cut(e, cs, r, []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[i%3], i/3%nCuts, i/3/nCuts, 3, 3)
		case i < small+reqs:
			j := i - small
			c04requests(e, cs, r, []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[j%3], j/3)
		case i < small+reqs+chaos:
			c04chaos(e, cs, r)
		case i >= small+reqs+chaos+randoms:
			switch r.IntN(9) {
			case 7, 8:
				c04lame(e, cs, r)
			case 5, 6:
				handshake(e, cs, r, false)
			case 0, 1:
				c04keep(e, cs, r)
			case 2:
				c04mute(e, cs, r)
			default:
				c04refused(e, cs, r)
			}
		default:
			n := 1 + r.IntN(40)
			class := pick(r, 0, 1, 2)
			c04cut(e, cs, r, rcOf(r), r.IntN(nCuts), -1, n, class)
		}
	})
}

// c04cut: the first connection gives only some bytes of its answers
func c04cut(e *Env, cs string, r *rand.Rand, rc nt.RCType, how, pos, n, class int) {
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, how == cutRST || r.IntN(2) == 0, rc)
	p := newReplier(l, r)
	f.onReq = p.onReq
	var connN atomic.Int32
	second := newGate()
	silent := newGate()
	var given atomic.Int32 // how many answers of the first connection are given completely
	var order []uint64
	total := -1
	f.onConn = func(c *raw) bool {
		if connN.Add(1) > 1 {
			second.wait()
			return true
		}
		q, err := c.read()
		if err != nil || q.msg != 0xFF00 {
			return false
		}
		stream := refFrame(nil, frame{msg: 0xFF00, id: q.id}, true, rcl)
		ends := []int{}
		if pos >= 0 && pos < len(stream) {
			c.Conn.Write(stream[:pos])
		} else {
			// the ping is answered, so that calls come
			c.Conn.Write(stream)
			skip := len(stream)
			var fs []heldCall
			for len(fs) < n {
				q, err := c.read()
				if err != nil {
					return false
				}
				if tok, ok := l.saw(q); ok && tok != probeTok {
					fs = append(fs, heldCall{c, q, tok})
				}
			}
			rand.New(rand.NewPCG(uint64(pos), 3)).Shuffle(n, func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			for _, h := range fs {
				stream = refFrame(stream, tokFrame(h.f, h.tok), true, rcl)
				ends = append(ends, len(stream))
				order = append(order, h.tok)
			}
			total = len(stream)
			cut := pos
			if cut < 0 {
				cut = skip + r.IntN(total-skip+1)
			}
			if cut > total {
				cut = total
			}
			k := 0
			for k < len(ends) && ends[k] <= cut {
				k++
			}
			given.Store(int32(k))
			rest := stream[skip:cut]
			for len(rest) > 0 { // in pieces
				m := len(rest)
				if class == 3 && r.IntN(2) == 0 {
					m = 1 + r.IntN(m)
				}
				if _, err := c.Conn.Write(rest[:m]); err != nil {
					return false
				}
				rest = rest[m:]
			}
		}
		switch how {
		case cutRST:
			c.reset()
		case cutHalf:
			c.closeWrite()
			for {
				q, err := c.read()
				if err != nil {
					break
				}
				_ = q
			}
		case cutSilence:
			silent.wait()
		}
		return false
	}
	f.start()
	defer f.stop()
	defer silent.open()
	defer second.open()
	patient := r.IntN(3) == 0
	t0 := time.Now()
	c := newClient(f.network, f.addr, rc, 1, func(c *client.ServerConfig) {
		if how == cutSilence {
			c.ReadTimeout = pick2(patient, 400*time.Millisecond, 60*time.Millisecond)
		}
	})
	defer c.Stop()
	qs := make([]*tcall, n)
	byTok := map[uint64]*tcall{}
	for k := range qs {
		q := newCall(r, class, uint32(k%2))
		qs[k] = q
		byTok[q.tok] = q
		q.sent = time.Now()
		c.Send(&q.Request)
	}
	what := fmt.Sprintf("%s: %s at byte %d of answers to %d calls, codes of %d bytes", cs, cutNames[how], pos, n, rcl)
	good := 0
	if pos >= 12 || pos < 0 {
		// all have been taken by the first connection: they do not need the second one
		for _, q := range qs {
			if !closed(q.done) {
				e.hung(cs, "answer", "%s: %v is not answered", what, q)
				return
			}
		}
		second.open()
	} else {
		second.open()
		silent2 := how == cutSilence
		for _, q := range qs {
			if !closed(q.done) {
				e.hung(cs, "answer", "%s: %v is not answered (silence: %v)", what, q, silent2)
				return
			}
		}
	}
	for _, q := range qs {
		if q.judge(e, cs, what, rcl, func(code iproto.RetCode) bool { return code == iproto.RcIOError }) {
			good++
		}
	}
	if how != cutRST && (how != cutSilence || patient && calm(t0)) && (pos >= 12 || pos < 0) {
		for k, tok := range order[:given.Load()] {
			if q := byTok[tok]; q != nil && !q.genuine(rcl) {
				e.Viol(cs, "lost", "%s: answer number %d has arrived completely before, but %v is answered with %s", what, k, q, codeName(q.code))
			}
		}
	}
	if order != nil {
		for k, tok := range order[given.Load():] {
			if q := byTok[tok]; q != nil && q.genuine(rcl) {
				e.Viol(cs, "partial", "%s: answer number %d has not arrived completely, but %v is answered with it", what, k, q)
			}
		}
	}
	if !probe(e, cs, c) {
		return
	}
	q := newCall(r, 0, 7)
	c.Send(&q.Request)
	if !closed(q.done) {
		e.hung(cs, "recover", "%s: call after recovery is not answered", what)
		return
	}
	q.judge(e, cs, what+", after recovery", rcl, func(code iproto.RetCode) bool { return how == cutSilence && !(patient && calm(t0)) })
	e.Eval(1)
	e.Count("cuts: "+cutNames[how], 1)
	e.Count("answered before a cut", good)
	e.Count("failed by a cut", n-good)
	e.Distinct("cut %d %d %d %d %d", how, pos, total, good, rcl)
	e.Sample("%s: %d genuine, %d failed", what, good, n-good)
}

// c04requests: the first connection is broken after some bytes of requests are read
func c04requests(e *Env, cs string, r *rand.Rand, rc nt.RCType, pos int) {
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, true, rc)
	p := newReplier(l, r)
	f.onReq = p.onReq
	var connN atomic.Int32
	hard := r.IntN(2) == 0
	n := 4
	cutDone := newGate()
	f.onConn = func(c *raw) bool {
		if connN.Add(1) > 1 {
			return true
		}
		defer cutDone.open()
		q, err := c.read()
		if err != nil {
			return false
		}
		c.send(true, frame{msg: 0xFF00, id: q.id})
		b := make([]byte, 1)
		for k := 0; k < pos; k++ {
			if m, _ := c.br.Read(b); m == 0 {
				break
			}
		}
		if hard {
			c.reset()
		}
		return false
	}
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, 1, nil)
	defer c.Stop()
	var qs []*tcall
	for k := 0; k < n; k++ {
		q := newCall(r, 3, uint32(k))
		qs = append(qs, q)
		q.sent = time.Now()
		c.Send(&q.Request)
	}
	for j := 0; !cutDone.is() && j < 100; j++ { // more of them, to reach the position
		q := newCall(r, 3, uint32(j))
		qs = append(qs, q)
		c.Send(&q.Request)
		time.Sleep(100 * time.Microsecond)
	}
	what := fmt.Sprintf("%s: connection is broken (reset %v) after %d bytes of requests", cs, hard, pos)
	good := 0
	for _, q := range qs {
		if !closed(q.done) {
			e.hung(cs, "answer", "%s: %v is not answered", what, q)
			return
		}
		if q.judge(e, cs, what, rcl, func(code iproto.RetCode) bool { return code == iproto.RcIOError }) {
			good++
		}
	}
	if !probe(e, cs, c) {
		return
	}
	e.Eval(1)
	e.Count("requests cut", 1)
	e.Distinct("requests %d %v %d", pos, hard, good)
	e.Sample("%s: %d genuine, %d failed", what, good, len(qs)-good)
}

// c04chaos: connections are broken and the server comes and goes under load
func c04chaos(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, r.IntN(3) > 0, rc)
	p := newReplier(l, r)
	if r.IntN(2) == 0 {
		p.lag = 3 * time.Millisecond
	}
	f.onReq = p.onReq
	conns := 1 + r.IntN(4)
	f.start()
	c := newClient(f.network, f.addr, rc, conns, func(c *client.ServerConfig) {
		if r.IntN(2) == 0 {
			c.PingInterval = 2 * time.Millisecond
		}
	})
	defer c.Stop()
	callers := 1 + r.IntN(6)
	var stop atomic.Bool
	var wg sync.WaitGroup
	var m sync.Mutex
	var all []*tcall
	class := pick(r, 0, 1, 2)
	what := fmt.Sprintf("%s: %d callers over %d connections", cs, callers, conns)
	for k := 0; k < callers; k++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 67))
			for !stop.Load() && !e.violated() {
				var qs []*tcall
				for j := 1 + r.IntN(8); j > 0; j-- {
					q := newCall(r, class, uint32(j))
					qs = append(qs, q)
					q.sent = time.Now()
					c.Send(&q.Request)
				}
				for _, q := range qs {
					if !closed(q.done) {
						e.hung(cs, "answer", "%s: %v is not answered (seen %d times by the server)", what, q, l.look(q.tok).n)
						return
					}
				}
				m.Lock()
				all = append(all, qs...)
				m.Unlock()
				if qs[0].code == iproto.RcIOError {
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	events := 3 + r.IntN(6)
	var log []string
	for k := 0; k < events && !e.violated(); k++ {
		time.Sleep(time.Duration(r.IntN(40)) * time.Millisecond)
		switch r.IntN(4) {
		case 0:
			log = append(log, "close")
			f.dropAll(false)
		case 1:
			log = append(log, "reset")
			f.dropAll(true)
		case 2:
			log = append(log, "half-close")
			f.m.Lock()
			for c := range f.conns {
				c.closeWrite()
			}
			f.m.Unlock()
		case 3:
			log = append(log, "restart")
			f.l.Close()
			f.dropAll(r.IntN(2) == 0)
			time.Sleep(time.Duration(r.IntN(30)) * time.Millisecond)
			if !f.reopen() {
				panic("HARNESS: could not listen again")
			}
		}
	}
	stop.Store(true)
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: callers do not return", what)
		return
	}
	if e.violated() {
		return
	}
	good, bad := 0, 0
	for _, q := range all {
		if q.judge(e, cs, what, rcl, func(code iproto.RetCode) bool { return code == iproto.RcIOError }) {
			good++
		} else {
			bad++
		}
	}
	if !probe(e, cs, c) {
		return
	}
	if !until(func() bool { return f.nconns() == conns }) {
		e.hung(cs, "recover", "%s after %v: %d connections instead of %d", what, log, f.nconns(), conns)
		return
	}
	p.wg.Wait()
	f.stop()
	e.Eval(1)
	e.Count("chaos: genuine", good)
	e.Count("chaos: failed", bad)
	e.Count("chaos: faults", events)
	e.Distinct("chaos %v %d", log, conns)
	e.Sample("%s, faults %v: %d genuine, %d failed", what, log, good, bad)
}

// C05

// fullServe answers everything before it closes a connection, as a decent server does
func fullServe(f *fake, p *replier, lag time.Duration) {
	f.onConn = func(c *raw) bool {
		var wg sync.WaitGroup
		for {
			q, err := c.read()
			if err != nil {
				break
			}
			if q.msg == 0xFF00 {
				c.send(true, frame{msg: 0xFF00, id: q.id})
				continue
			}
			c.asked.Add(1)
			p.m.Lock()
			d := time.Duration(0)
			if lag > 0 {
				d = time.Duration(p.r.Int64N(int64(lag)))
			}
			p.m.Unlock()
			if d == 0 || p.r == nil {
				p.onReq(c, q)
				continue
			}
			wg.Add(1)
			time.AfterFunc(d, func() {
				defer wg.Done()
				p.onReq(c, q)
			})
		}
		wg.Wait()
		f.linger(c)
		return false
	}
}

func c05(e *Env) {
	n := e.N(960, 11520)
	e.Cases(n, 10, func(i int, r *rand.Rand) {
		if i%9 == 4 {
			handshake(e, fmt.Sprintf("case %d", i), r, true)
			return
		}
		if i%41 == 17 {
			c05stuck(e, fmt.Sprintf("case %d", i), r)
			return
		}
		if i%37 == 11 {
			c05busy(e, fmt.Sprintf("case %d", i), r)
			return
		}
		if i%20 == 9 {
			c05resize(e, fmt.Sprintf("case %d", i), r)
			return
		}
		if i%8 == 5 {
			c05unreachable(e, fmt.Sprintf("case %d", i), r)
			return
		}
		c05case(e, fmt.Sprintf("case %d", i), r)
	})
	e.leftover("go-iproto/net/client/connection.(*Connection)", "all clients are stopped")
	e.leftover("go-iproto/net/client.(*Server).Loop(", "all clients are stopped")
	if !e.violated() && e.shard == 1%e.shards && e.only < 0 {
		c05defaults(e)
	}
	if !e.violated() {
		c05fds(e)
	}
}

// leftover looks for goroutines which should have finished with their connections
func (e *Env) leftover(part, when string) {
	if e.violated() || e.only >= 0 {
		return
	}
	n, text := 0, ""
	if !until(func() bool { n, text = libGoroutines(part); return n == 0 }) {
		e.hung("at the end", "leftover", "%s, but %d goroutines of connections go on:\n%s", when, n, text)
	}
}

// c05fds counts descriptors of a client which is stopped, resized or loses its connections, while nothing else
// (the collector of garbage) could close them
func c05fds(e *Env) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	before := -1
	for k := 0; k < 14 && !e.violated(); k++ {
		cs := fmt.Sprintf("descriptors %d", k)
		r := e.rng(1000000 + k)
		rc := rcOf(r)
		l := newLedger(e, cs)
		f := newFake(r, r.IntN(2) == 0, rc)
		fullServe(f, newReplier(l, r), 0)
		f.start()
		c := newClient(f.network, f.addr, rc, 1+r.IntN(5), nil)
		if !probe(e, cs, c) {
			return
		}
		var did []string
		for n := r.IntN(4); n > 0; n-- {
			switch r.IntN(3) {
			case 0:
				need := 1 + r.IntN(5)
				c.SetConnections(need)
				did = append(did, fmt.Sprintf("resize to %d", need))
			case 1:
				f.dropAll(r.IntN(2) == 0)
				did = append(did, "connections lost")
			case 2:
				for j := 0; j < 50; j++ {
					c.Send(&newCall(r, 0, 1).Request)
				}
				did = append(did, "calls")
			}
			time.Sleep(time.Duration(r.IntN(5000)) * time.Microsecond)
		}
		c.Stop()
		if !until(func() bool { return f.nconns() == 0 }) {
			e.hung(cs, "close", "%s: after %v %d connections are open after the stop", cs, did, f.nconns())
			return
		}
		f.stop()
		if before < 0 {
			time.Sleep(100 * time.Millisecond)
			before = fds()
		}
		if !until(func() bool { return fds() <= before }) {
			e.Viol(cs, "descriptors", "%s: after %v and a stop there are %d descriptors open instead of %d", cs, did, fds(), before)
			return
		}
		e.Eval(1)
		e.Count("stops after which descriptors were counted", 1)
	}
}

// c05unreachable stops or resizes a client which has not connected, or can not
func c05unreachable(e *Env, cs string, r *rand.Rand) {
	l := newLedger(e, cs)
	kind := r.IntN(4)
	network, addr := freeAddr(r, r.IntN(2) == 0)
	var f *fake
	rc := rcOf(r)
	what := fmt.Sprintf("%s: client of an address where %s", cs, []string{"nobody listens", "nobody speaks", "everyone is disconnected", "somebody comes later"}[kind])
	switch kind {
	case 1: // accepts and says nothing
		f = newFake(r, network == "tcp", rc)
		g := newGate()
		f.onConn = func(c *raw) bool { g.wait(); return false }
		defer func() { g.open(); f.stop() }()
	case 2: // accepts and closes
		f = newFake(r, network == "tcp", rc)
		f.onConn = func(c *raw) bool { return false }
		defer f.stop()
	}
	if f != nil {
		network, addr = f.network, f.addr
		f.start()
	}
	conns := 1 + r.IntN(4)
	c := newClient(network, addr, rc, conns, func(c *client.ServerConfig) {
		c.DialTimeout = time.Duration(1+r.IntN(30)) * time.Millisecond
		c.ReadTimeout = time.Duration(1+r.IntN(30)) * time.Millisecond
	})
	var all []*tcall
	send := func(n int) bool {
		for ; n > 0; n-- {
			q := newCall(r, 0, uint32(n))
			all = append(all, q)
			if !finishes(func() { c.Send(&q.Request) }) {
				e.hung(cs, "send", "%s: sending does not return", what)
				return false
			}
		}
		return true
	}
	need := conns
	var resized []int
	for k := 1 + r.IntN(4); k > 0; k-- {
		if !send(r.IntN(8)) {
			return
		}
		if r.IntN(2) == 0 {
			need = 1 + r.IntN(5)
			resized = append(resized, need)
			if !finishes(func() { c.SetConnections(need) }) {
				e.hung(cs, "resize", "%s: SetConnections does not return", what)
				return
			}
		}
		time.Sleep(time.Duration(r.IntN(pick(r, 1, 3000, 30000, 100000))+1) * time.Microsecond)
	}
	rcl := rcLen(rc)
	if kind == 3 {
		f = newFakeAt(network, addr, rc)
		if f == nil {
			return // taken by somebody else
		}
		fullServe(f, newReplier(l, r), time.Millisecond)
		f.start()
		defer f.stop()
		if !until(func() bool { return f.nconns() == need }) {
			e.hung(cs, "settle", "%s: after changes to %v there are %d connections", what, resized, f.nconns())
			return
		}
		if !send(3) {
			return
		}
	}
	if !finishes(c.Stop) {
		e.hung(cs, "stop", "%s: Stop does not return", what)
		return
	}
	if !send(r.IntN(4)) {
		return
	}
	if r.IntN(2) == 0 {
		time.Sleep(time.Duration(r.IntN(60000)) * time.Microsecond)
	}
	if !send(1 + r.IntN(3)) {
		return
	}
	good := 0
	for _, q := range all {
		if !closed(q.done) {
			e.hung(cs, "answer", "%s: %v (of %d) is not answered after the stop (changed to %v)", what, q, len(all), resized)
			return
		}
		if q.judge(e, cs, what, rcl, func(code iproto.RetCode) bool {
			return code == iproto.RcShutdown || code == iproto.RcIOError
		}) {
			good++
			if kind != 3 {
				e.Viol(cs, "foreign", "%s: %v is answered by nobody", what, q)
			}
		}
	}
	if f != nil {
		if !until(func() bool { return f.nconns() == 0 || kind == 1 }) {
			e.hung(cs, "close", "%s: %d connections are open after the stop", what, f.nconns())
			return
		}
	}
	e.Eval(1)
	e.Count("failed by a stop without a server", len(all)-good)
	e.Distinct("unreachable %d %v %d %d", kind, resized, conns, len(all))
	e.Sample("%s, changed to %v: %d requests failed, %d answered", what, resized, len(all)-good, good)
}

// c05resize: while some established connections remain, nothing fails because of others
func c05resize(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, r.IntN(2) == 0, rc)
	lag := pick(r, 0, time.Millisecond, 20*time.Millisecond)
	fullServe(f, newReplier(l, r), lag)
	f.stay = r.IntN(2) == 0
	need := 1 + r.IntN(6)
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, need, nil)
	defer c.Stop()
	if !probe(e, cs, c) {
		return
	}
	callers := 1 + r.IntN(6)
	burst := pick(r, 4, 30, 150, 1500)
	class := pick(r, 0, 1)
	var wg sync.WaitGroup
	var stop atomic.Bool
	var total atomic.Int64
	sizes := fmt.Sprint(need)
	for k := 0; k < callers; k++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 73))
			for !stop.Load() && !e.violated() {
				qs := make([]*tcall, 1+r.IntN(burst))
				for j := range qs {
					qs[j] = newCall(r, class, uint32(j))
					c.Send(&qs[j].Request)
				}
				for _, q := range qs {
					if !closed(q.done) {
						e.hung(cs, "answer", "%s: %v is not answered (seen %d times by the server)", cs, q, l.look(q.tok).n)
						return
					}
					q.judge(e, cs, cs+": sizes change", rcl, nil)
				}
				total.Add(int64(len(qs)))
				time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
			}
		}()
	}
	// each connection has been used, so that client knows that it is established
	settled := func() bool {
		f.m.Lock()
		defer f.m.Unlock()
		for c := range f.conns {
			if c.asked.Load() == 0 {
				return false
			}
		}
		return len(f.conns) == need
	}
	for k := 1 + r.IntN(5); k >= 0 && !e.violated(); k-- {
		if !until(func() bool { return settled() || e.violated() }) {
			e.hung(cs, "settle", "%s: sizes %s: there are %d connections, and some of them are not used", cs, sizes, f.nconns())
			break
		}
		if k > 0 {
			need = 1 + r.IntN(6)
			sizes += fmt.Sprint(" ", need)
			c.SetConnections(need)
		}
	}
	stop.Store(true)
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: callers do not return", cs)
		return
	}
	e.Eval(1)
	e.Count("genuine while sizes change", int(total.Load()))
	e.Distinct("resize %s %d %v", sizes, callers, lag)
}

func c05case(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	l := newLedger(e, cs)
	f := newFake(r, r.IntN(2) == 0, rc)
	p := newReplier(l, r)
	lag := pick(r, 0, time.Millisecond, 10*time.Millisecond)
	fullServe(f, p, lag)
	f.stay = r.IntN(2) == 0
	conns := 1 + r.IntN(5)
	f.start()
	defer f.stop()
	c := newClient(f.network, f.addr, rc, conns, func(c *client.ServerConfig) {
		if r.IntN(3) == 0 {
			c.PingInterval = time.Millisecond
		}
	})
	if r.IntN(8) > 0 {
		if !probe(e, cs, c) {
			return
		}
	}
	callers := 1 + r.IntN(6)
	var stop, stopCalled atomic.Bool
	var wg sync.WaitGroup
	var m sync.Mutex
	var all []*tcall
	class := pick(r, 0, 1, 2)
	burst := pick(r, 4, 30, 150)
	what := fmt.Sprintf("%s: %d callers, %d connections at first, answers lag up to %v", cs, callers, conns, lag)
	for k := 0; k < callers; k++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 71))
			for n := 0; !stop.Load() && !e.violated() && n < 4000; {
				var qs []*tcall
				for j := 1 + r.IntN(burst); j > 0; j-- {
					q := newCall(r, class, uint32(j))
					qs = append(qs, q)
					q.sent = time.Now()
					c.Send(&q.Request)
					n++
				}
				m.Lock()
				all = append(all, qs...)
				m.Unlock()
				for _, q := range qs {
					if !closed(q.done) {
						e.hung(cs, "answer", "%s: %v is not answered (seen %d times by the server, stopped: %v)", what, q, l.look(q.tok).n, stopCalled.Load())
						return
					}
				}
			}
		}()
	}
	var log []int
	need := conns
	for k := r.IntN(5); k > 0 && !e.violated(); k-- {
		time.Sleep(time.Duration(r.IntN(8000)) * time.Microsecond)
		need = 1 + r.IntN(6)
		log = append(log, need)
		if !finishes(func() { c.SetConnections(need) }) {
			e.hung(cs, "resize", "%s: SetConnections does not return", what)
			return
		}
		if r.IntN(2) == 0 {
			if !until(func() bool { return f.nconns() == need }) {
				e.hung(cs, "settle", "%s: after changes to %v there are %d connections", what, log, f.nconns())
				return
			}
		}
	}
	if r.IntN(2) == 0 || len(log) > 0 {
		if !until(func() bool { return f.nconns() == need }) {
			e.hung(cs, "settle", "%s: after changes to %v there are %d connections", what, log, f.nconns())
			return
		}
		// and it stays so
		stable := func() bool {
			n := f.totalConns()
			for k := 0; k < 10; k++ {
				if f.nconns() != need || f.totalConns() != n {
					return false
				}
				time.Sleep(25 * time.Millisecond)
			}
			return true
		}
		if r.IntN(2) == 0 && !until(stable) {
			e.hung(cs, "settle", "%s: after changes to %v count of connections does not settle: now %d, made so far %d", what, log, f.nconns(), f.totalConns())
			return
		}
	}
	time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
	stopCalled.Store(true)
	if !finishes(c.Stop) {
		e.hung(cs, "stop", "%s: Stop does not return", what)
		return
	}
	late := r.IntN(3)
	for k := 0; k < late; k++ {
		q := newCall(r, 0, 1)
		if !finishes(func() { c.Send(&q.Request) }) {
			e.hung(cs, "send", "%s: sending to a stopped client does not return", what)
			return
		}
		m.Lock()
		all = append(all, q)
		m.Unlock()
	}
	stop.Store(true)
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: callers do not return", what)
		return
	}
	if e.violated() {
		return
	}
	if !until(func() bool { return f.nconns() == 0 }) {
		e.hung(cs, "close", "%s: %d connections are open after the stop", what, f.nconns())
		return
	}
	q := newCall(r, 0, 1)
	c.Send(&q.Request)
	all = append(all, q)
	if r.IntN(2) == 0 {
		// nothing of this does any harm
		again := func() {
			for k := r.IntN(6); k > 0; k-- {
				c.SetConnections(1 + r.IntN(3))
				c.Stop()
				c.AnyConnected()
			}
		}
		if !finishes(again) {
			e.hung(cs, "again", "%s: changing the count of connections of a stopped client, or stopping it again, does not return", what)
			return
		}
	}
	// what was being dialled during the stop may still come and go
	quiet := func() bool {
		n := f.totalConns()
		for k := 0; k < 10; k++ { // longer than a tick of reconnection
			if f.nconns() != 0 || f.totalConns() != n {
				return false
			}
			time.Sleep(25 * time.Millisecond)
		}
		return true
	}
	if r.IntN(4) == 0 && !until(quiet) {
		e.hung(cs, "close", "%s: a stopped client connects again", what)
		return
	}
	good, bad := 0, 0
	for _, q := range all {
		if !closed(q.done) {
			e.hung(cs, "answer", "%s: %v is not answered after the stop (seen %d times by the server)", what, q, l.look(q.tok).n)
			return
		}
		ok := q.judge(e, cs, what, rcl, func(code iproto.RetCode) bool {
			return code == iproto.RcShutdown || code == iproto.RcIOError
		})
		if ok {
			good++
			continue
		}
		bad++
		if x := l.look(q.tok); x.sent {
			e.Viol(cs, "lost", "%s: %v was on the wire and the server has answered it before closing, but it is answered with %s", what, q, codeName(q.code))
		}
	}
	e.Eval(1)
	e.Count("genuine", good)
	e.Count("failed by a stop", bad)
	e.Count("changes of count", len(log))
	e.Distinct("%v %d %d %d", log, conns, callers, bad)
	e.Sample("%s, then %v: %d genuine, %d failed", what, log, good, bad)
}

// C28

func c28(e *Env) {
	n := e.N(2880, 34560)
	e.Cases(n, 6, func(i int, r *rand.Rand) {
		c28case(e, fmt.Sprintf("case %d", i), r)
	})
}

func c28case(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	k := 1 + r.IntN(5)
	tcp := r.IntN(2) == 0
	var fs []*fake
	names := map[string]int{}
	for j := 0; j < k; j++ {
		f := newFake(r, tcp, rc)
		id := fmt.Sprint("server ", j)
		f.onReq = func(c *raw, q frame) {
			c.send(true, frame{msg: q.msg, id: q.id, code: 0, body: append([]byte(id+" "), q.body...)})
		}
		f.start()
		defer f.stop()
		names[f.addr] = j
		fs = append(fs, f)
	}
	conns := 1 + r.IntN(3)
	cfg := &client.ServerConfig{Connections: conns, RetCodeType: rc, PingInterval: -1, Timeout: time.Hour}
	if r.IntN(2) == 0 {
		cfg.Network = fs[0].network
	}
	was := *cfg
	a := &client.Auto{Config: cfg}
	rounds := 1 + r.IntN(2)
	for round := 0; round < rounds; round++ {
		g := 2 + r.IntN(16)
		per := 1 + r.IntN(6)
		start := newGate()
		var wg sync.WaitGroup
		got := make([]map[string]*client.Server, g)
		for j := 0; j < g; j++ {
			wg.Add(1)
			seed := r.Uint64()
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 73))
				got[j] = map[string]*client.Server{}
				start.wait()
				jitter(r)
				for x := 0; x < per; x++ {
					to := r.IntN(k)
					addr := fs[to].addr
					s := a.Get(addr)
					if s == nil || !s.Runned() {
						e.Viol(cs, "running", "%s: client for an address is not running", cs)
						return
					}
					if o := got[j][addr]; o != nil && o != s {
						e.Viol(cs, "same", "%s: another client for the same address", cs)
						return
					}
					got[j][addr] = s
					if s.DefaultTimeout() != time.Hour {
						e.Viol(cs, "config", "%s: client does not have the common configuration: timeout %v", cs, s.DefaultTimeout())
					}
					q := newRec(uint32(x), 5, []byte(addr))
					for try := 0; ; try++ {
						s.Send(&q.Request)
						if !closed(q.done) {
							e.hung(cs, "answer", "request %d is not answered", try)
							return
						}
						if q.code == 0 {
							break
						}
						e.Viol(cs, "answer", "%s: request to a running server is answered with %s", cs, codeName(q.code))
						return
					}
					if want := fmt.Sprintf("server %d %s", to, addr); string(q.body) != want {
						e.Viol(cs, "address", "%s: answer is %q instead of %q", cs, q.body, want)
					}
				}
			}()
		}
		start.open()
		if !finishes(wg.Wait) {
			e.hung(cs, "get", "asking for clients does not return")
			return
		}
		if e.violated() {
			return
		}
		one := map[string]*client.Server{}
		for _, m := range got {
			for addr, s := range m {
				if o := one[addr]; o != nil && o != s {
					e.Viol(cs, "same", "%s: two clients for the same address", cs)
				}
				one[addr] = s
			}
		}
		for addr := range one {
			f := fs[names[addr]]
			if !until(func() bool { return f.nconns() == conns }) {
				e.hung(cs, "connections", "address has %d connections instead of %d of one client", f.nconns(), conns)
				return
			}
			if t := f.totalConns(); t != conns*(round+1) && round == 0 {
				e.Viol(cs, "connections", "%s: %d connections were made instead of %d", cs, t, conns)
			}
		}
		if !finishes(a.Stop) {
			e.hung(cs, "stop", "Stop does not return")
			return
		}
		for j, f := range fs {
			if !until(func() bool { return f.nconns() == 0 }) {
				e.hung(cs, "stop", "server %d has %d connections after the stop", j, f.nconns())
				return
			}
		}
		for _, s := range one {
			q := newRec(1, 5, nil)
			s.Send(&q.Request)
			if !closed(q.done) || q.code == 0 {
				e.Viol(cs, "stop", "%s: client is working after the stop", cs)
			}
		}
		e.Count("clients", len(one))
		e.Count("goroutines", g)
	}
	if r.IntN(2) == 0 && !tcp && !e.violated() {
		// addresses are looked up while it is being stopped; names differ, the server is the same
		n := 10 + r.IntN(40)
		alias := func(i int) string {
			return strings.Repeat("./", i) + fs[0].addr
		}
		if len(alias(n)) > 100 {
			n = (100 - len(fs[0].addr)) / 2
		}
		for i := 0; i < n/2; i++ {
			a.Get(alias(i))
		}
		var wg sync.WaitGroup
		start := newGate()
		from := n / 2
		for j := 0; j < 2; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.wait()
				for i := from; i < n; i++ {
					a.Get(alias(i))
				}
			}()
		}
		start.open()
		for j := 1 + r.IntN(3); j > 0; j-- {
			a.Stop()
		}
		wg.Wait()
		a.Stop()
		e.Count("lookups while it was being stopped", 2*(n-from))
		quiet := func() bool {
			for j := 0; j < 20; j++ {
				if fs[0].nconns() > 0 {
					return false
				}
				time.Sleep(2 * time.Millisecond)
			}
			return true
		}
		if !until(quiet) {
			e.hung(cs, "forgotten", "%s: %d connections are open after the last stop, addresses were looked up during stops before it", cs, fs[0].nconns())
			return
		}
	}
	if *cfg != was {
		e.Viol(cs, "config", "%s: common configuration was changed: %+v", cs, *cfg)
	}
	e.Eval(1)
	e.Distinct("%d %d %d %v", k, conns, rounds, tcp)
	e.Sample("%s: %d addresses, %d connections each", cs, k, conns)
}

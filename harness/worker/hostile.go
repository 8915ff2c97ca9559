package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

func init() { props["C26"] = c26 }

// C26: one side speaks garbage. What was really sent is parsed by the harness itself,
// so that each thing the other side does is compared with a frame which was in the stream.

const hostileMax = 1 << 20 // no frame of a stream claims more

// clampFrames makes lengths of frames of a stream sane from offset at (start of a frame or of a part of a header),
// and gives the frames and the offset of the first incomplete one
func clampFrames(b []byte, at int) (fs []frame, rest int) {
	for {
		if len(b)-at < 12 {
			return fs, at
		}
		n := int(binary.LittleEndian.Uint32(b[at+4:]))
		if n > hostileMax {
			n &= 0x3ff
			binary.LittleEndian.PutUint32(b[at+4:], uint32(n))
		}
		if len(b)-at-12 < n {
			return fs, at
		}
		fs = append(fs, frame{msg: binary.LittleEndian.Uint32(b[at:]), id: binary.LittleEndian.Uint32(b[at+8:]), body: b[at+12 : at+12+n]})
		at += 12 + n
	}
}

func sumOf(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// what an echoing end point answers
func echoOf(msg uint32, body []byte) (code uint32, res []byte) {
	h := mix(sumOf(body) ^ uint64(msg)<<32)
	res = binary.LittleEndian.AppendUint64(nil, h)
	n := len(body)
	if n > 3000 {
		n = 3000
	}
	return uint32(h) &^ 0x0f, append(res, body[:n]...)
}

func c26(e *Env) {
	e.Cases(e.N(1600, 30000), 8, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		if i/8%2 == 0 {
			c26server(e, cs, r)
		} else {
			c26client(e, cs, r)
		}
	})
	if e.mine(0) {
		c26claims(e) // memory is counted: nothing else runs
	}
}

// sanitized frames are sent only whole or mutated in these ways
func hostileStream(r *rand.Rand, id *uint32) (stream []byte, kinds int) {
	n := r.IntN(40)
	if r.IntN(4) == 0 {
		n = r.IntN(600)
	}
	good := func() frame {
		f := frame{msg: uint32(r.IntN(1 << 16)), body: randBody(r, pick(r, 0, r.IntN(10), r.IntN(200), r.IntN(3000)))}
		if f.msg == 0xFF00 {
			f.msg++
		}
		*id++
		f.id = *id
		switch r.IntN(16) {
		case 0:
			f.id = pick(r, uint32(0), 0xFFFFFFFF, 1, r.Uint32())
		case 1:
			f.msg = r.Uint32()
		case 2: // once more
			*id--
			f.id = *id
		}
		return f
	}
	for j := 0; j < n; j++ {
		k := r.IntN(20)
		if k >= 14 {
			k = 0
		}
		kinds |= 1 << k
		switch k {
		default:
			stream = refFrame(stream, good(), false, 0)
		case 1:
			stream = append(stream, pad(r.Uint64(), r.IntN(60))...)
		case 2: // a few changed bytes
			b := refFrame(nil, good(), false, 0)
			for x := 1 + r.IntN(3); x > 0; x-- {
				b[r.IntN(min(len(b), 16))] ^= byte(1 << r.IntN(8))
			}
			stream = append(stream, b...)
		case 3: // cut
			b := refFrame(nil, good(), false, 0)
			stream = append(stream, b[:r.IntN(len(b))]...)
		case 4: // ping, maybe with a body
			f := frame{msg: 0xFF00, id: pick(r, uint32(0xFFFFFFFF), 0, *id, r.Uint32())}
			if r.IntN(3) == 0 {
				f.body = randBody(r, r.IntN(40))
			}
			stream = refFrame(stream, f, false, 0)
		case 5: // the same frame several times
			b := refFrame(nil, good(), false, 0)
			for x := 2 + r.IntN(6); x > 0; x-- {
				stream = append(stream, b...)
			}
		case 6:
			stream = append(stream, make([]byte, r.IntN(40))...)
		case 7: // length which is a bit wrong
			f := good()
			b := refFrame(nil, f, false, 0)
			binary.LittleEndian.PutUint32(b[4:], uint32(max(0, len(f.body)+r.IntN(9)-4)))
			stream = append(stream, b...)
		case 8:
			stream = append(stream, randBody(r, r.IntN(9000))...)
		}
	}
	return
}

func c26server(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	type key struct{ msg, id, code uint32 }
	var m sync.Mutex
	expected := map[uint64]int{} // requests which may come to the end point
	reqKey := func(msg uint32, body []byte) uint64 {
		return mix(sumOf(body)+uint64(msg)*0x9e3779b97f4a7c15) ^ uint64(len(body))
	}
	var seen atomic.Int64
	late := r.IntN(3) == 0
	loops := pick(r, 1, 1, 3)
	handle := func(q *iproto.Request) {
		k := reqKey(uint32(q.Msg), q.Body)
		m.Lock()
		expected[k]--
		bad := expected[k] < 0
		m.Unlock()
		seen.Add(1)
		if bad {
			e.Viol(cs, "unsent", "%s: end point got a request of type %x with %d bytes %.40x which is not in what peers have sent so often", cs, uint32(q.Msg), len(q.Body), q.Body)
		}
		code, res := echoOf(uint32(q.Msg), q.Body)
		q.RespondBytes(iproto.RetCode(code), res)
	}
	seed := r.Uint64()
	s := newPoint(func(p *point) {
		for l := 0; l < loops; l++ {
			go func() {
				r := rand.New(rand.NewPCG(seed, uint64(l)))
				for {
					select {
					case q := <-p.ReceiveChan():
						if !q.SetInFly(nil) {
							continue
						}
						if late && r.IntN(4) == 0 {
							go func() {
								time.Sleep(time.Duration(mix(seed)%300) * time.Microsecond)
								handle(q)
							}()
						} else {
							handle(q)
						}
					case <-p.ExitChan():
						return
					}
				}
			}()
		}
	})
	iproto.Run(s)
	defer s.Stop()
	srv := newServer(r, r.IntN(2) == 0, s, rc, func(c *server.Config) {
		if r.IntN(3) == 0 {
			c.ReadTimeout, c.WriteTimeout = time.Minute, time.Minute
		}
	})
	stopped := false
	defer func() {
		if !stopped {
			srv.Stop()
		}
	}()
	peers := 1 + r.IntN(6)
	what := fmt.Sprintf("%s: server, codes of %d bytes, %d hostile peers", cs, rcl, peers)

	// the healthy one
	quit := newGate()
	var healthy atomic.Int64
	var wg sync.WaitGroup
	viaLib := r.IntN(2) == 0
	wg.Add(1)
	go func() {
		defer wg.Done()
		r := rand.New(rand.NewPCG(seed, 1000))
		var c *client.Server
		var pc *raw
		if viaLib {
			c = newClient(srv.Network, srv.Address, rc, 1, nil)
			defer c.Stop()
		} else {
			pc = dialRaw(srv.Network, srv.Address, rcl)
			defer pc.Close()
		}
		failed := 0
		h := newHang()
		for n := uint32(0); n < 4 || !quit.is() && n < 3000; {
			msg, body := uint32(r.IntN(1<<16))&^0x8000, randBody(r, pick(r, 0, r.IntN(20), r.IntN(2000)))
			m.Lock()
			expected[reqKey(msg, body)]++
			m.Unlock()
			code, want := echoOf(msg, body)
			if viaLib {
				q := newRec(n, iproto.RequestType(msg), body)
				c.Send(&q.Request)
				if !closed(q.done) {
					e.hung(cs, "healthy", "%s: a healthy client is not answered", what)
					return
				}
				if len(q.body) == 0 && n == 0 && q.code&7 == iproto.RcInternal { // still connecting
					if failed++; h.over() {
						e.hung(cs, "healthy", "%s: a healthy client does not connect", what)
						return
					}
					time.Sleep(time.Millisecond)
					continue
				}
				if uint32(q.code) != wireCode(code, rcl) || string(q.body) != string(want) {
					e.Viol(cs, "healthy", "%s: a healthy client is answered with %s %.40x instead of 0x%x %.40x", what, codeName(q.code), q.body, code, want)
					return
				}
			} else {
				var f frame
				var err error
				if !finishes(func() {
					if err = pc.send(false, frame{msg: msg, id: n, body: body}); err == nil {
						f, err = pc.read()
					}
				}) {
					e.hung(cs, "healthy", "%s: a healthy peer is not answered", what)
					return
				}
				if err != nil || f.id != n || f.msg != msg || f.code != wireCode(code, rcl) || string(f.body) != string(want) {
					e.Viol(cs, "healthy", "%s: a healthy peer is answered with %v %d %x instead of %d %x", what, err, f.msg, f.id, msg, n)
					return
				}
			}
			n++
			healthy.Add(1)
		}
	}()

	var answers, kindsAll atomic.Int64
	var hw sync.WaitGroup
	staying := make(chan *raw, peers)
	shape := ""
	closeSelf := r.IntN(2) == 0 // or else the server is stopped while they are there
	for k := 0; k < peers; k++ {
		var id uint32
		stream, kinds := hostileStream(r, &id)
		fs, _ := clampFrames(stream, 0)
		dups := map[uint32]bool{}
		anyDup := false
		allowed := map[key]map[uint64]int{}
		m.Lock()
		reqs := 0
		for _, f := range fs {
			code, res := uint32(0), []byte(nil)
			if f.msg != 0xFF00 {
				reqs++
				expected[reqKey(f.msg, f.body)]++
				code, res = echoOf(f.msg, f.body)
				code = wireCode(outward(code, nil), rcl)
				anyDup = anyDup || dups[f.id]
				dups[f.id] = true
			}
			x := key{f.msg, f.id, code}
			if allowed[x] == nil {
				allowed[x] = map[uint64]int{}
			}
			allowed[x][sumOf(res)]++
		}
		m.Unlock()
		kindsAll.Or(int64(kinds))
		end := r.IntN(5)
		shape += fmt.Sprint(end, kinds, len(fs) > 0)
		pseed := r.Uint64()
		chunk := pick(r, 1<<20, 1<<20, 5000, 100, 13)
		cutAt := len(stream)
		if r.IntN(4) == 0 && cutAt > 0 {
			cutAt = r.IntN(cutAt)
		}
		total := len(fs)
		clean := end == 0 && cutAt == len(stream) && !anyDup && closeSelf
		hw.Add(1)
		c := dialRaw(srv.Network, srv.Address, rcl)
		go func() {
			defer hw.Done()
			r := rand.New(rand.NewPCG(pseed, 3))
			var rw sync.WaitGroup
			rw.Add(1)
			got := 0
			var rerr error
			go func() {
				defer rw.Done()
				for {
					f, err := c.read()
					if err != nil {
						rerr = err
						return
					}
					got++
					x := allowed[key{f.msg, f.id, f.code}]
					h := sumOf(f.body)
					if x == nil || x[h] == 0 {
						e.Viol(cs, "answer", "%s: hostile peer got an answer (type %x, id %x, code %x, %d bytes %.40x) which is not of any frame it sent, or too often", what, f.msg, f.id, f.code, len(f.body), f.body)
						return
					}
					x[h]--
				}
			}()
			rest := stream[:cutAt]
			for len(rest) > 0 {
				n := min(len(rest), 1+r.IntN(chunk))
				if len(rest) > 100000 {
					n = max(n, min(len(rest), 1000))
				}
				if _, err := c.Conn.Write(rest[:n]); err != nil {
					break
				}
				rest = rest[n:]
				if r.IntN(100) == 0 {
					jitter(r)
				}
			}
			switch end {
			case 0: // everything whole is answered, then the end
				c.closeWrite()
				if !finishes(rw.Wait) {
					e.hung(cs, "half", "%s: a half-closed hostile peer waits for its answers: %d of %d came", what, got, total)
					return
				}
				if clean && got != total {
					e.Viol(cs, "lost", "%s: hostile peer which half-closed got %d answers to its %d whole frames, then %v", what, got, total, rerr)
				}
				c.Close()
			case 1:
				c.Close()
				rw.Wait()
			case 2:
				c.reset()
				rw.Wait()
			case 3:
				jitter(r)
				c.Close()
				rw.Wait()
			case 4:
				staying <- c
				rw.Wait()
			}
			answers.Add(int64(got))
		}()
		if r.IntN(3) == 0 {
			jitter(r)
		}
	}
	// those which stay are closed later by the server or by themselves
	fin := make(chan bool)
	go func() { hw.Wait(); close(fin) }()
	go func() {
		if closeSelf {
			time.Sleep(time.Millisecond)
			for {
				select {
				case c := <-staying:
					c.Close()
				case <-fin:
					return
				}
			}
		}
	}()
	if closeSelf && !closed(fin) {
		e.hung(cs, "peers", "%s: hostile peers do not finish", what)
		return
	}
	if r.IntN(2) == 0 {
		time.Sleep(time.Duration(r.IntN(1000)) * time.Microsecond)
	}
	quit.open()
	if !finishes(wg.Wait) {
		e.hung(cs, "healthy", "%s: the healthy peer does not finish", what)
		return
	}
	if e.violated() {
		return
	}
	// a new one works
	p := dialRaw(srv.Network, srv.Address, rcl)
	body := randBody(r, 30)
	m.Lock()
	expected[reqKey(7, body)]++
	m.Unlock()
	code, want := echoOf(7, body)
	var f frame
	var err error
	p.send(false, frame{msg: 7, id: 99, body: body})
	if !finishes(func() { f, err = p.read() }) {
		e.hung(cs, "new", "%s: a new connection is not answered after all", what)
		return
	}
	if err != nil || f.id != 99 || f.code != wireCode(code, rcl) || string(f.body) != string(want) {
		e.Viol(cs, "new", "%s: a new connection is answered with %v %v", what, err, f)
	}
	p.Close()
	if !finishes(func() { srv.Stop() }) {
		e.hung(cs, "stop", "%s: server does not stop", what)
		return
	}
	stopped = true
	if !closed(fin) {
		e.hung(cs, "stop", "%s: hostile peers are still connected though the server was stopped", what)
		return
	}
	e.Eval(1)
	e.Count("server: requests passed to the end point", int(seen.Load()))
	e.Count("server: answers to hostile peers matched", int(answers.Load()))
	e.Count("server: healthy calls", int(healthy.Load()))
	e.Count("server: hostile peers", peers)
	e.Distinct("server %d %v %v %v %s", rcl, late, viaLib, loops, shape)
	e.Sample("%s: %d requests, %d answers to hostile peers, %d healthy calls", what, seen.Load(), answers.Load(), healthy.Load())
}

// hostile server: what it has sent on a connection
type spoken struct {
	m    sync.Mutex
	b    []byte
	at   int
	by   map[uint32][]said // frames by id
	toks map[uint64]uint32 // calls which came here, with ids they have on the wire
	n    int
	dead bool
}

type said struct {
	code  uint32
	short bool
	body  string
}

// say sends bytes of which frames are known
func (s *spoken) say(c *raw, b []byte, rcl int, last bool) error {
	s.m.Lock()
	defer s.m.Unlock()
	from := len(s.b)
	s.b = append(s.b, b...)
	fs, at := clampFrames(s.b, s.at)
	if part := len(s.b) - at; part > 0 && part < 12 && !last { // or else its length could not be changed any more
		var more []frame
		s.b = append(s.b, make([]byte, 12-part)...)
		more, at = clampFrames(s.b, at)
		fs = append(fs, more...)
	}
	s.at = at
	for _, f := range fs {
		x := said{body: string(f.body)}
		if f.msg != 0xFF00 {
			if len(f.body) < rcl {
				x.short = true
				x.code = uint32(iproto.RcProtocolError)
			} else {
				switch rcl {
				case 4:
					x.code = binary.LittleEndian.Uint32(f.body)
				case 1:
					x.code = uint32(f.body[0])
				}
				x.body = x.body[rcl:]
			}
		}
		s.by[f.id] = append(s.by[f.id], x)
		s.n++
	}
	_, err := c.Conn.Write(s.b[from:])
	return err
}

func c26client(e *Env, cs string, r *rand.Rand) {
	rc := rcOf(r)
	rcl := rcLen(rc)
	f := newFake(r, r.IntN(2) == 0, rc)
	var m sync.Mutex
	spoke := map[*raw]*spoken{}
	where := map[uint64]*spoken{}
	var genuine atomic.Bool
	l := newLedger(e, cs)
	fr := rand.New(rand.NewPCG(r.Uint64(), 17)) // under m
	get := func(c *raw) *spoken {
		m.Lock()
		defer m.Unlock()
		s := spoke[c]
		if s == nil {
			s = &spoken{by: map[uint32][]said{}, toks: map[uint64]uint32{}}
			spoke[c] = s
		}
		return s
	}
	var badHands atomic.Int64
	handEvil := r.IntN(3) == 0
	f.onConn = func(c *raw) bool {
		s := get(c)
		c.tap = func(b []byte) error { return s.say(c, b, rcl, false) }
		if genuine.Load() || !handEvil {
			return true
		}
		m.Lock()
		k := fr.IntN(9)
		g := pad(fr.Uint64(), fr.IntN(30))
		m.Unlock()
		if k > 5 {
			return true
		}
		badHands.Add(1)
		c.read()
		switch k {
		case 0:
			c.Conn.Write(refFrame(nil, frame{msg: 0xFF00, id: 0}, true, rcl))
		case 1:
			c.Conn.Write(refFrame(nil, frame{msg: 0xFF01, id: 0xFFFFFFFF}, true, rcl))
		case 2:
			c.Conn.Write(g)
		case 3:
			c.Conn.Write(refFrame(nil, frame{msg: 0xFF00, id: 0xFFFFFFFF}, true, rcl)[:len(g)%12])
		case 4:
			c.reset()
		}
		time.Sleep(time.Duration(len(g)) * 10 * time.Microsecond)
		return false
	}
	kindsMask := 0
	evil := pick(r, 2, 4, 10, 40) // one of so many is answered in a bad way
	dropAt := pick(r, 1<<30, 3, 20, 100)
	f.onReq = func(c *raw, q frame) {
		tok, ok := l.saw(q)
		if !ok {
			return
		}
		if tok == probeTok {
			c.send(true, frame{msg: q.msg, id: q.id, body: []byte("probe")})
			return
		}
		s := get(c)
		m.Lock()
		where[tok] = s
		r := rand.New(rand.NewPCG(fr.Uint64(), 3))
		m.Unlock()
		s.m.Lock()
		s.toks[tok] = q.id
		nth := len(s.toks)
		s.m.Unlock()
		if genuine.Load() {
			c.send(true, tokFrame(q, tok))
			return
		}
		right := refFrame(nil, tokFrame(q, tok), true, rcl)
		if nth > dropAt && r.IntN(8) == 0 {
			c.Close()
			return
		}
		if r.IntN(evil) > 0 {
			s.say(c, right, rcl, false)
			return
		}
		blob := func(id uint32) []byte {
			return refFrame(nil, frame{msg: q.msg, id: id, code: r.Uint32() &^ 0x0f, body: randBody(r, pick(r, 0, 8, r.IntN(100), r.IntN(9000)))}, true, rcl)
		}
		var out []byte
		for n := 1 + r.IntN(4); n > 0; n-- {
			k := r.IntN(15)
			if (k == 9 || k == 10) && r.IntN(4) > 0 {
				k = 0
			}
			m.Lock()
			kindsMask |= 1 << k
			m.Unlock()
			switch k {
			case 0:
				out = append(out, right...)
			case 1: // twice, with another body
				out = append(append(out, right...), blob(q.id)...)
			case 2: // unknown or future
				out = append(out, blob(pick(r, q.id+1, q.id+2, q.id+uint32(r.IntN(600)), q.id-1, q.id-uint32(r.IntN(600)), r.Uint32(), 256, 255))...)
			case 3:
				out = append(out, blob(0)...)
			case 4:
				out = append(out, blob(0xFFFFFFFF)...)
			case 5: // ping with an id of a request
				out = refFrame(out, frame{msg: 0xFF00, id: pick(r, q.id, q.id+1, 0, 0xFFFFFFFF), body: randBody(r, r.IntN(30))}, true, rcl)
			case 6: // wrong type
				out = refFrame(out, frame{msg: q.msg ^ uint32(1+r.IntN(1<<16)), id: q.id, code: uint32(r.IntN(16)) << 8, body: randBody(r, r.IntN(50))}, true, rcl)
			case 7: // shorter than a code
				if rcl > 0 {
					out = refFrame(out, frame{msg: q.msg, id: q.id, body: randBody(r, r.IntN(rcl)), short: true}, true, rcl)
				}
			case 8: // garbage
				out = append(out, pad(r.Uint64(), 12+r.IntN(100))...)
			case 9: // cut
				s.say(c, append(out, right[:r.IntN(len(right)+1)]...), rcl, true)
				c.Close()
				return
			case 10:
				s.say(c, out, rcl, true)
				c.reset()
				return
			case 11: // nothing
			case 12: // a thousand of unknown ones
				for i := 0; i < 100+r.IntN(500); i++ {
					out = refFrame(out, frame{msg: 1, id: q.id + 1000 + uint32(i)*uint32(1+r.IntN(5))}, true, rcl)
				}
			case 13: // one which another connection has, maybe
				m.Lock()
				for _, o := range where {
					if o != s {
						out = append(out, blob(uint32(1+r.IntN(64)))...)
						break
					}
				}
				m.Unlock()
			case 14: // same wrong one again and again
				b := blob(q.id)
				for i := 0; i < 3; i++ {
					out = append(out, b...)
				}
			}
		}
		s.say(c, out, rcl, false)
	}
	f.start()
	defer f.stop()
	conns := pick(r, 1, 1, 2, 4)
	c := newClient(f.network, f.addr, rc, conns, func(c *client.ServerConfig) {
		if r.IntN(4) == 0 {
			c.PingInterval = time.Millisecond
		}
	})
	defer c.Stop()
	callers, per := pick(r, 1, 4, 8), pick(r, 3, 20, 100)
	what := fmt.Sprintf("%s: client of %d connections, codes of %d bytes, %d callers of %d calls, one of %d abused", cs, conns, rcl, callers, per, evil)
	calls := make([][]*tcall, callers)
	var wg sync.WaitGroup
	var quit = newGate()
	class := pick(r, 0, 1, 2)
	for k := range calls {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 61))
			for j := 0; j < per; j++ {
				q := newCall(r, class, uint32(j))
				calls[k] = append(calls[k], q)
				c.Send(&q.Request)
				if r.IntN(20) == 0 {
					time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
				}
				if r.IntN(6) == 0 && !quit.is() {
					select {
					case <-q.done:
					case <-time.After(time.Duration(r.IntN(3)) * time.Millisecond):
					}
				}
			}
		}()
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: sending does not return", what)
		return
	}
	time.Sleep(time.Duration(r.IntN(4)) * time.Millisecond)
	genuine.Store(true)
	// connections which served badly are dropped, until everything sent to them is answered
	h := newHang()
	left := func() int {
		n := 0
		for _, qs := range calls {
			for _, q := range qs {
				if !q.answered() {
					n++
				}
			}
		}
		return n
	}
	for left() > 0 {
		f.dropAll(r.IntN(2) == 0)
		time.Sleep(time.Millisecond)
		if h.over() {
			e.hung(cs, "answer", "%s: %d calls are not answered though all connections with bad servers are closed", what, left())
			return
		}
	}
	f.dropAll(false)
	// uttered tells whether an answer was sent at all
	uttered := func(q *rec) bool {
		m.Lock()
		defer m.Unlock()
		for _, s := range spoke {
			s.m.Lock()
			for _, xs := range s.by {
				for _, x := range xs {
					if x.code == uint32(q.code) && x.body == string(q.body) {
						s.m.Unlock()
						return true
					}
				}
			}
			s.m.Unlock()
		}
		return false
	}
	own, other, failed := 0, 0, 0
	for _, qs := range calls {
		for _, q := range qs {
			if n := q.answers(); n != 1 {
				e.Viol(cs, "not-once", "%s: %v is answered %d times", what, q, n)
				return
			}
			m.Lock()
			s := where[q.tok]
			m.Unlock()
			match := false
			if s != nil {
				s.m.Lock()
				id := s.toks[q.tok]
				for _, x := range s.by[id] {
					if x.code == uint32(q.code) && x.body == string(q.body) {
						match = true
					}
				}
				s.m.Unlock()
			}
			switch {
			case match && q.genuine(rcl):
				own++
			case match:
				other++
			case len(q.body) == 0 && (q.code == iproto.RcIOError || q.code == iproto.RcShutdown):
				failed++
			default:
				if s == nil {
					// the server closed before it read the call: was answered blindly, if at all
					if uttered(q.rec) {
						other++
						continue
					}
				}
				e.Viol(cs, "foreign", "%s: %v (came to the server: %d) is answered with %s and %d bytes %.40x, which was never sent as an answer to its id", what, q, l.look(q.tok).n, codeName(q.code), len(q.body), q.body)
				return
			}
		}
	}
	h = newHang()
	// now everything is right, as soon as nothing is left of what the bad ones have sent ahead
	for {
		q := newRec(1, 1, binary.LittleEndian.AppendUint64(nil, probeTok))
		c.Send(&q.Request)
		if !closed(q.done) {
			e.hung(cs, "after", "%s: request after all is not answered", what)
			return
		}
		if q.code == 0 && string(q.body) == "probe" {
			break
		}
		if len(q.body) > 0 && !uttered(q) || h.over() {
			e.Viol(cs, "after", "%s: request after all is answered with %s %.40x", what, codeName(q.code), q.body)
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	for j := 0; j < 10; j++ {
		for {
			q := newCall(r, 1, 5)
			c.Send(&q.Request)
			if !closed(q.done) {
				e.hung(cs, "after", "%s: call after all is not answered", what)
				return
			}
			if q.genuine(rcl) {
				break
			}
			// a connection which was dropped just now
			if (len(q.body) > 0 || q.code != iproto.RcIOError && q.code != iproto.RcShutdown) && !uttered(q.rec) || h.over() {
				e.Viol(cs, "after", "%s: call after all is answered with %s %.40x", what, codeName(q.code), q.body)
				return
			}
			time.Sleep(time.Millisecond)
		}
	}
	for _, qs := range calls {
		for _, q := range qs {
			if n := q.answers(); n != 1 {
				e.Viol(cs, "not-once", "%s: %v is answered %d times", what, q, n)
				return
			}
		}
	}
	if !finishes(c.Stop) {
		e.hung(cs, "stop", "%s: client does not stop", what)
		return
	}
	n := 0
	m.Lock()
	for _, s := range spoke {
		s.m.Lock()
		n += s.n
		s.m.Unlock()
	}
	m.Unlock()
	e.Eval(1)
	e.Count("client: hostile frames", n)
	e.Count("client: own answers", own)
	e.Count("client: other answers sent to the same id", other)
	e.Count("client: failed", failed)
	e.Count("client: bad greetings", int(badHands.Load()))
	m.Lock()
	e.Distinct("client %d %d %d %d %x %v %d %d %d", rcl, conns, callers, per, kindsMask, handEvil, evil, dropAt, own*8/(own+other+failed+1))
	m.Unlock()
	e.Sample("%s: %d own answers, %d others, %d failed, %d hostile frames, %d bad greetings", what, own, other, failed, n, badHands.Load())
}

var _ = nt.RC4byte

package main

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

func init() { props["C30"] = c30 }

// C30: everything is used by many goroutines at once under the race detector, which is the oracle here.
// Goroutines of a case share nothing of the harness which would order their calls of the library,
// besides of what a user could not do without (waiting for an answer).

type raceJob struct {
	name string
	f    func(r *rand.Rand) (ops int, ok bool)
}

// together runs functions at once, each with its own random numbers, and waits for them
func together(r *rand.Rand, n int, f func(k int, r *rand.Rand)) bool {
	var wg sync.WaitGroup
	go4 := make(chan struct{})
	for k := 0; k < n; k++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 7))
			<-go4
			if r.IntN(2) == 0 {
				jitter(r)
			}
			f(k, r)
		}()
	}
	close(go4)
	return finishes(wg.Wait)
}

// quietPoint answers what it takes from several goroutines, with nothing shared
func quietPoint(loops int, seed uint64, timeout time.Duration, park bool) *point {
	p := &point{loop: func(p *point) {
		quit := make(chan struct{})
		for l := 1; l < loops; l++ {
			go func() { quietLoop(p, seed+uint64(l), park, quit) }()
		}
		quietLoop(p, seed, park, nil)
		close(quit)
		if p.Standalone() {
			p.ShutDownAll()
		}
	}}
	p.SimplePoint.Init(p)
	p.Timeout = timeout
	return p
}

type midMark struct {
	iproto.Bookmark
	n int
}

func (m *midMark) Respond(res *iproto.Response) { m.n += len(res.Body) }

func quietLoop(p *point, seed uint64, park bool, quit chan struct{}) {
	r := rand.New(rand.NewPCG(seed, 11))
	exit := p.ExitChan()
	if quit != nil {
		exit = nil
	}
	for {
		select {
		case <-exit:
			return
		case <-quit:
			return
		case q, ok := <-p.ReceiveChan():
			if !ok {
				return
			}
			switch r.IntN(8) {
			case 0:
				if cx := q.Context(); cx != nil {
					cx.Alive()
					q.Respond(iproto.RetCode(r.Uint32()&0xff00), uint32(len(q.Body)))
					cx.Done()
				}
				continue
			case 1:
				m := &midMark{}
				if !q.SetInFly(m) {
					continue
				}
			default:
				if !q.SetInFly(nil) {
					continue
				}
			}
			switch k := r.IntN(12); {
			case k == 0:
				q.ShutDown()
			case k == 1:
				q.IOError()
			case k == 2:
				go func() {
					time.Sleep(time.Duration(len(q.Body)) * time.Microsecond)
					q.RespondBytes(3<<8, q.Body)
				}()
			case k == 3 && park: // never answered: somebody else has to
			case k == 4:
				go q.RespondBytes(1<<8, nil)
				q.RespondBytes(2<<8, nil)
			default:
				q.RespondBytes(iproto.RcOK, q.Body)
			}
		}
	}
}

type quietDone struct {
	c chan struct{}
	n int
}

func (d *quietDone) Respond(res *iproto.Response) {
	d.n += int(res.Code) + len(res.Body)
	close(d.c)
}

// fire sends n requests and does things with them; returns when all are answered
func fire(s iproto.Service, r *rand.Rand, n int) bool {
	qs := make([]*iproto.Request, n)
	ds := make([]*quietDone, n)
	for i := range qs {
		d := &quietDone{c: make(chan struct{})}
		q := &iproto.Request{Msg: iproto.RequestType(r.IntN(100) + 1), Id: uint32(i), Body: make([]byte, r.IntN(60)), Responder: d}
		qs[i], ds[i] = q, d
		if r.IntN(6) == 0 {
			q.SetTimeout(time.Duration(1+r.IntN(2000)) * time.Microsecond)
		}
		if r.IntN(8) == 0 {
			q.ChainBookmark(&midMark{})
		}
		switch r.IntN(10) {
		case 0:
			go q.Cancel()
		case 1:
			go q.Expire()
		case 2:
			go func() { q.State(); q.Performed(); q.IsPending(); q.Cancel() }()
		}
		s.Send(q)
		if r.IntN(16) == 0 {
			jitter(r)
		}
	}
	for i, d := range ds {
		if !closed(d.c) {
			return false
		}
		qs[i].Performed()
	}
	return true
}

func raceJobs() []raceJob {
	return []raceJob{
		{"requests to an end point", func(r *rand.Rand) (int, bool) {
			park := r.IntN(2) == 0
			t := time.Duration(0)
			if r.IntN(2) == 0 || park {
				t = time.Millisecond
			}
			p := quietPoint(1+r.IntN(3), r.Uint64(), t, park)
			iproto.Run(p)
			ok := together(r, 2+r.IntN(6), func(k int, r *rand.Rand) {
				if !fire(p, r, 60) {
					panic("HARNESS: not answered")
				}
			})
			p.Stop()
			return 60, ok
		}},
		{"queue overflow and stop", func(r *rand.Rand) (int, bool) {
			hold := make(chan struct{})
			p := newPoint(func(p *point) {
				<-hold
				quietLoop(p, 5, false, nil)
				p.ShutDownAll()
			})
			iproto.Run(p)
			n := 3000 + r.IntN(5000)
			go func() { time.Sleep(2 * time.Millisecond); close(hold) }()
			stop := r.IntN(2) == 0
			ok := together(r, 5, func(k int, r *rand.Rand) {
				if k == 4 {
					if stop {
						time.Sleep(3 * time.Millisecond)
						p.Stop()
					}
					return
				}
				fire(p, r, n)
			})
			p.Stop()
			return n, ok
		}},
		{"queue emptied under load", func(r *rand.Rand) (int, bool) {
			hold := make(chan struct{})
			p := newPoint(func(p *point) {
				<-hold
				for q := range p.ReceiveChan() {
					if q.SetInFly(nil) {
						q.RespondBytes(0, nil)
					}
				}
			})
			iproto.Run(p)
			n := 17000 + r.IntN(6000)
			for i := 0; i < n; i++ {
				p.Send(&iproto.Request{Msg: 1, Responder: &midMark{}})
			}
			close(hold)
			more := 4000 + r.IntN(16000)
			ok := together(r, 4, func(k int, r *rand.Rand) {
				qs := make([]iproto.Request, more)
				for i := range qs {
					qs[i].Msg, qs[i].Responder = 1, &midMark{}
					p.Send(&qs[i])
					if k == 3 && i%7 == 0 {
						qs[i].Cancel()
					}
				}
				fire(p, r, 5)
			})
			p.Stop()
			return n + 4*more, ok
		}},
		{"contexts", func(r *rand.Rand) (int, bool) {
			p := quietPoint(2, r.Uint64(), 0, false)
			iproto.Run(p)
			root := &iproto.Context{}
			how := r.IntN(4)
			ok := together(r, 6, func(k int, r *rand.Rand) {
				if k == 0 {
					jitter(r)
					time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
					switch how {
					case 0:
						root.Cancel()
					case 1:
						root.Expire()
					case 2:
						go root.Cancel()
						root.Expire()
					}
					return
				}
				if k == 1 {
					for i := 0; i < 3; i++ {
						root.WaitAll()
						root.Alive()
						root.Timeout()
					}
					return
				}
				for i := 0; i < 20; i++ {
					switch r.IntN(6) {
					case 0:
						c := root.Go(func(c *iproto.Context) { useContext(c, p, 3) })
						c.Alive()
						c.Timeout()
					case 1:
						root.GoInt(func(c *iproto.Context, i interface{}) { useContext(c, p, i.(int)) }, 2)
					case 2:
						root.GoAsync(func(c *iproto.Context) { useContext(c, p, 2); c.Done() })
					case 3:
						root.GoIntAsync(func(c *iproto.Context, i interface{}) { useContext(c, p, i.(int)); c.Done() }, 1)
					default:
						c, _ := root.Child()
						if r.IntN(4) == 0 {
							go c.Cancel()
						}
						useContext(c, p, 3)
						c.Done()
					}
				}
			})
			root.Cancel()
			ok = ok && finishes(root.WaitAll)
			p.Stop()
			return 100, ok
		}},
		{"multi-requests", func(r *rand.Rand) (int, bool) {
			p := quietPoint(3, r.Uint64(), time.Duration(r.IntN(2))*time.Millisecond, false)
			iproto.Run(p)
			cx := &iproto.Context{}
			ok := together(r, 5, func(k int, r *rand.Rand) {
				if k == 0 {
					time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
					switch r.IntN(3) {
					case 0:
						cx.Cancel()
					case 1:
						cx.Expire()
					}
					return
				}
				for i := 0; i < 8; i++ {
					c, _ := cx.Child()
					m := c.NewMulti()
					n := r.IntN(24)
					if r.IntN(3) == 0 {
						m.SetTimeout(time.Duration(1+r.IntN(1000)) * time.Microsecond)
					} else {
						m.TimeoutFrom(p)
					}
					for j := 0; j < n; j++ {
						q := m.Request(7, uint32(j))
						switch r.IntN(8) {
						case 0:
							go q.Cancel()
						case 1:
							q.SetTimeout(time.Microsecond * 100)
						}
						if q.State() == iproto.RsNew {
							p.Send(q)
						}
					}
					if r.IntN(6) == 0 {
						go m.Cancel()
					}
					if r.IntN(6) == 0 {
						go m.Expire()
					}
					if r.IntN(2) == 0 {
						s := 0
						for res := range m.Each() {
							s += int(res.Id) + len(res.Body)
						}
					} else {
						s := 0
						for _, res := range m.Results().Sort() {
							s += int(res.Id) + len(res.Body)
						}
					}
					c.Done()
				}
			})
			p.Stop()
			return 32, ok
		}},
		{"timers", func(r *rand.Rand) (int, bool) {
			ok := together(r, 8, func(k int, r *rand.Rand) {
				n := 300
				if r.IntN(20) == 0 {
					n = 2000
				}
				ts := make([]raceTimer, n)
				for i := range ts {
					ts[i].t.After(time.Duration(r.IntN(1500))*time.Microsecond, &ts[i])
					switch r.IntN(5) {
					case 0:
						ts[r.IntN(i+1)].t.Stop()
					case 1:
						go ts[i].t.Stop()
					}
				}
				time.Sleep(2 * time.Millisecond)
			})
			return 2400, ok
		}},
		{"pools", func(r *rand.Rand) (int, bool) {
			p := iproto.BF{N: 1 + r.IntN(4), Timeout: time.Duration(r.IntN(3)) * time.Millisecond}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
				switch len(q.Body) % 7 {
				case 0:
					panic("on purpose")
				case 1:
					cx.Go(func(c *iproto.Context) { c.Alive() })
					cx.WaitAll()
				case 2:
					time.Sleep(50 * time.Microsecond)
				case 3:
					return 5 << 8, q.Body
				case 4:
					m := cx.NewMulti()
					for i := 0; i < 3; i++ {
						m.Send(iproto.SF(func(q *iproto.Request) { go q.RespondBytes(0, nil) }), raceData(i))
					}
					m.Results()
				case 5:
					return 0, raceData(len(q.Body))
				}
				return 0, q.Body
			})
			stop := r.IntN(2) == 0
			ok := together(r, 5, func(k int, r *rand.Rand) {
				if k == 0 {
					if stop {
						time.Sleep(time.Duration(r.IntN(1000)) * time.Microsecond)
						p.Stop()
					}
					return
				}
				fire(p, r, 80)
				for i := 0; i < 10; i++ {
					iproto.Call(p, raceData(i))
				}
			})
			p.Stop()
			return 360, ok
		}},
		{"balancers", func(r *rand.Rand) (int, bool) {
			b := &iproto.BalancerPoint{}
			b.Init()
			for i := r.IntN(3); i >= 0; i-- {
				b.AddChild(quietPoint(1, r.Uint64(), 0, false))
			}
			iproto.Run(b)
			ok := together(r, 6, func(k int, r *rand.Rand) {
				switch k {
				case 0:
					time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
					if r.IntN(2) == 0 {
						b.Stop()
					}
				case 1:
					for i := 0; i < 3; i++ {
						if r.IntN(3) == 0 {
							in := &iproto.BalancerPoint{}
							in.Init()
							in.AddChild(quietPoint(1, r.Uint64(), 0, false))
							b.AddChild(in)
							in.AddChild(quietPoint(1, r.Uint64(), 0, false))
						} else {
							b.AddChild(quietPoint(1, r.Uint64(), 0, false))
						}
						jitter(r)
					}
				default:
					fire(b, r, 60)
				}
			})
			b.Stop()
			return 240, ok
		}},
		{"observers", func(r *rand.Rand) (int, bool) {
			p := quietPoint(2, r.Uint64(), 0, false)
			iproto.Run(p)
			var total [8]int64
			ok := together(r, 4, func(k int, r *rand.Rand) {
				s := iproto.StatWrap(iproto.StatWrap(p, func(q *iproto.Request, d time.Duration) { atomic.AddInt64(&total[k], int64(d)) }),
					func(q *iproto.Request, d time.Duration) { atomic.AddInt64(&total[k+4], int64(q.Id)) })
				fire(s, r, 60)
				for i := 0; i < 20; i++ {
					d := &quietDone{c: make(chan struct{})}
					q := &iproto.Request{Msg: 1, Id: uint32(i), Responder: d}
					x := &resender{p: p, left: 1 + r.IntN(3)}
					if q.ChainBookmark(x) {
						s.Send(q)
					}
					if !closed(d.c) {
						panic("HARNESS: resent is not answered")
					}
				}
			})
			p.Stop()
			return 320, ok
		}},
		{"client and server", func(r *rand.Rand) (int, bool) { return raceNet(r) }},
		{"client and server", func(r *rand.Rand) (int, bool) { return raceNet(r) }},
		{"client and server", func(r *rand.Rand) (int, bool) { return raceNet(r) }},
		{"many requests of one connection", func(r *rand.Rand) (int, bool) { return raceRows(r) }},
		{"automatic clients", func(r *rand.Rand) (int, bool) {
			p := quietPoint(2, r.Uint64(), 0, false)
			iproto.Run(p)
			ss := []*server.Server{}
			for i := 0; i < 2; i++ {
				ss = append(ss, newServer(r, true, p, nt.RC4byte, nil))
			}
			a := &client.Auto{Config: &client.ServerConfig{Network: "tcp", Connections: 1, PingInterval: -1}}
			stop := r.IntN(2) == 0
			ok := together(r, 5, func(k int, r *rand.Rand) {
				if k == 0 {
					if stop {
						time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
						a.Stop()
					}
					return
				}
				for i := 0; i < 6; i++ {
					c := a.Get(ss[r.IntN(2)].Address)
					c.Name()
					c.AnyConnected()
					fire(c, r, 8)
				}
			})
			a.Stop()
			for _, s := range ss {
				s.Stop()
			}
			p.Stop()
			return 200, ok
		}},
	}
}

type raceData uint32

func (raceData) IMsg() iproto.RequestType { return 77 }

type raceTimer struct {
	t iproto.Timer
	n int
}

func (t *raceTimer) Expire()              { t.n++ }
func (t *raceTimer) Timer() *iproto.Timer { return &t.t }

type resender struct {
	iproto.Bookmark
	p    iproto.Service
	left int
}

func (x *resender) Respond(res *iproto.Response) {
	if x.left--; x.left > 0 {
		q := x.Request
		q.ResetToNew()
		x.p.Send(q)
	}
}

func useContext(c *iproto.Context, p iproto.Service, n int) {
	for i := 0; i < n; i++ {
		q, res := c.NewRequest(9, uint64(i))
		if q.State() == iproto.RsNew {
			p.Send(q)
		}
		if i%2 == 0 {
			x := <-res
			_ = len(x.Body) + int(x.Code)
		}
		if i == 1 {
			go c.Cancel()
		}
		c.Alive()
	}
	c.Go(func(d *iproto.Context) { d.Alive() })
	c.WaitAll()
}

func raceNet(r *rand.Rand) (int, bool) {
	rc := rcOf(r)
	p := quietPoint(1+r.IntN(3), r.Uint64(), time.Duration(r.IntN(2))*5*time.Millisecond, false)
	iproto.Run(p)
	srv := newServer(r, r.IntN(2) == 0, p, rc, func(c *server.Config) {
		if r.IntN(3) == 0 {
			c.ReadTimeout, c.WriteTimeout = time.Minute, time.Minute
		}
		if r.IntN(3) == 0 {
			c.RCMap = map[iproto.RetCode]iproto.RetCode{iproto.RcShutdown: 0x4402}
		}
	})
	c := newClient(srv.Network, srv.Address, rc, 1+r.IntN(3), func(c *client.ServerConfig) {
		switch r.IntN(3) {
		case 0:
			c.PingInterval = time.Millisecond
		case 1:
			c.ReadTimeout, c.WriteTimeout = time.Minute, time.Minute
		}
		if r.IntN(2) == 0 {
			c.Timeout = time.Duration(1+r.IntN(30)) * time.Millisecond
		}
	})
	for i := 0; i < 200 && !c.AnyConnected(); i++ {
		time.Sleep(time.Millisecond)
	}
	mode := r.IntN(5)
	ok := together(r, 7, func(k int, r *rand.Rand) {
		switch k {
		case 0:
			time.Sleep(time.Duration(r.IntN(4000)) * time.Microsecond)
			switch mode {
			case 0:
				c.Stop()
			case 1:
				srv.Stop()
			case 2:
				for i := 0; i < 3; i++ {
					c.SetConnections(1 + r.IntN(4))
					c.AnyConnected()
				}
			case 3:
				go c.Stop()
				srv.Stop()
			}
		case 1: // a raw peer
			if mode == 1 || mode == 3 {
				return
			}
			x := dialRaw(srv.Network, srv.Address, rcLen(rc))
			for i := 0; i < 30; i++ {
				x.send(false, frame{msg: 3, id: uint32(i), body: []byte("abcdef")}, frame{msg: 0xFF00, id: uint32(i)})
			}
			switch r.IntN(3) {
			case 0:
				x.closeWrite()
				for {
					if _, err := x.read(); err != nil {
						break
					}
				}
			case 1:
				x.reset()
			}
			x.Close()
		case 2:
			for i := 0; i < 5; i++ {
				cx := &iproto.Context{}
				if i == 3 {
					time.AfterFunc(time.Millisecond, cx.Cancel)
				}
				useContext(cx, c, 3)
				c.AnyConnected()
				cx.Done()
			}
		default:
			fire(c, r, 60)
		}
	})
	c.Stop()
	if mode != 1 && mode != 3 {
		srv.Stop()
	}
	p.Stop()
	return 250, ok
}

// raceRows: so many requests of one connection that its tables grow and shrink all the time, answered in any order
func raceRows(r *rand.Rand) (int, bool) {
	rc := rcOf(r)
	f := newFake(r, r.IntN(2) == 0, rc)
	depth := pick(r, 50, 400, 1500)
	seed := r.Uint64()
	ahead := r.IntN(3) // 2: ids which are being given to requests are answered too
	f.onConn = func(c *raw) bool {
		in := make(chan frame, 8000)
		go func() {
			r := rand.New(rand.NewPCG(seed, 13))
			var held []frame
			for open := true; open || len(held) > 0; {
				var q frame
				if open && len(held) < depth {
					wait := time.NewTimer(time.Millisecond)
					select {
					case q, open = <-in:
						if open {
							held = append(held, q)
						}
						wait.Stop()
						continue
					case <-wait.C:
					}
				}
				var out []frame
				for n := min(len(held), 1+r.IntN(40)); n > 0; n-- {
					k := r.IntN(len(held))
					q := held[k]
					held[k] = held[len(held)-1]
					held = held[:len(held)-1]
					out = append(out, frame{msg: q.msg, id: q.id, body: q.body})
					if ahead == 2 {
						out = append(out, frame{msg: q.msg, id: q.id + uint32(r.IntN(2*depth))})
					}
				}
				if len(out) > 0 && c.send(true, out...) != nil {
					break
				}
			}
			c.Close()
		}()
		defer close(in)
		for {
			q, err := c.read()
			if err != nil {
				return false
			}
			in <- q
		}
	}
	f.stay = true
	f.start()
	c := newClient(f.network, f.addr, rc, 1, nil)
	for i := 0; i < 200 && !c.AnyConnected(); i++ {
		time.Sleep(time.Millisecond)
	}
	lose := r.IntN(4) == 0
	ok := together(r, 4, func(k int, r *rand.Rand) {
		if k == 3 {
			if lose {
				time.Sleep(time.Duration(r.IntN(20000)) * time.Microsecond)
				f.dropAll(r.IntN(2) == 0)
			}
			return
		}
		ds := make([]*quietDone, 1200)
		for i := range ds {
			ds[i] = &quietDone{c: make(chan struct{})}
			c.Send(&iproto.Request{Msg: iproto.RequestType(k + 1), Id: uint32(i), Body: make([]byte, 1+i%40), Responder: ds[i]})
		}
		for _, d := range ds {
			if !closed(d.c) {
				return
			}
		}
	})
	c.Stop()
	f.stop()
	return 3600, ok
}

func c30(e *Env) {
	jobs := raceJobs()
	e.Cases(e.N(1200, 24000), 2, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		j := jobs[i/e.shards%len(jobs)]
		n, ok := j.f(r)
		if !ok {
			e.hung(cs, j.name, "%s do not come to an end", j.name)
			return
		}
		e.Eval(1)
		e.Count("operations on "+j.name, n)
		e.Distinct("%s %d", j.name, i/len(jobs)/e.shards)
		e.Sample("%s: %s", cs, j.name)
	})
}

package main

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
}

type att struct {
	code iproto.RetCode
	body []byte
}

// tracked is a request together with everything anybody tried to do with it. Everything is noted before it is tried.
type tracked struct {
	*rec
	m       sync.Mutex
	hand    []att // answers of handlers in order
	runs    atomic.Int32
	cancel  atomic.Bool
	expire  atomic.Bool
	shut    atomic.Bool
	ioerr   atomic.Bool
	panics  atomic.Bool
	timeout time.Duration
	act     int
	racing  bool
	seed    uint64
}

func (t *tracked) attempt(r *rand.Rand) att {
	a := att{pick(r, iproto.RcOK, iproto.RcOK, iproto.RcTemporary, iproto.RcFatal, iproto.RetCode(0x1202)), nil}
	t.m.Lock()
	a.body = binary.LittleEndian.AppendUint32(nil, t.Id)
	a.body = append(a.body, byte(len(t.hand)))
	a.body = append(a.body, make([]byte, r.IntN(40))...)
	t.hand = append(t.hand, a)
	t.m.Unlock()
	return a
}

// tree is a service together with what is known of it
type tree struct {
	iproto.Service
	name   string
	stops  []func()
	bf     bool
	active atomic.Int64
	// restops may be called after stop as well
}

const (
	actPlain = iota
	actTwice
	actRace
	actPanic
	actPanicAfter
	actCancel
	actExpire
	actHold
	actForget // handed over to a goroutine which answers later
	nActs
)

// perform does what a handler of t does. respond answers through the request.
func (t *tracked) perform(tr *tree, q *iproto.Request, bf bool) (iproto.RetCode, interface{}) {
	tr.active.Add(1)
	defer tr.active.Add(-1)
	r := rand.New(rand.NewPCG(t.seed, 31))
	t.runs.Add(1)
	last := func() (iproto.RetCode, interface{}) {
		a := t.attempt(r)
		if bf {
			return a.code, iproto.Body(a.body)
		}
		if r.IntN(2) == 0 {
			q.Respond(a.code, iproto.Body(a.body))
		} else {
			q.RespondBytes(a.code, a.body)
		}
		return 0, nil
	}
	jitter(r)
	switch t.act {
	case actTwice:
		a := t.attempt(r)
		q.RespondBytes(a.code, a.body)
		b := t.attempt(r)
		q.Respond(b.code, iproto.Body(b.body))
	case actRace:
		t.racing = true
		var wg sync.WaitGroup
		for k := 0; k < 2; k++ {
			a := t.attempt(r)
			wg.Add(1)
			go func() {
				defer wg.Done()
				q.RespondBytes(a.code, a.body)
			}()
		}
		wg.Wait()
	case actPanic, actPanicAfter:
		if bf {
			if t.act == actPanicAfter {
				a := t.attempt(r)
				q.RespondBytes(a.code, a.body)
			}
			t.panics.Store(true)
			panic("handler fails")
		}
	case actCancel:
		t.cancel.Store(true)
		q.Cancel()
	case actExpire:
		t.expire.Store(true)
		q.Expire()
	case actHold:
		time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
	case actForget:
		if !bf {
			a := t.attempt(r)
			tr.active.Add(1)
			seed := r.Uint64()
			go func() {
				defer tr.active.Add(-1)
				jitter(rand.New(rand.NewPCG(seed, 37)))
				q.RespondBytes(a.code, a.body)
			}()
			return 0, nil
		}
	}
	return last()
}

// makeTree builds a service; find gives a request by its body
func makeTree(e *Env, r *rand.Rand, find func(b []byte) *tracked, kind int) *tree {
	tr := &tree{}
	sf := iproto.SF(func(q *iproto.Request) {
		t := find(q.Body)
		tr.active.Add(1)
		go func() {
			defer tr.active.Add(-1)
			t.perform(tr, q, false)
		}()
	})
	stopper := func(f func()) { tr.stops = append(tr.stops, f) }
	bf := func() *iproto.ParallelService {
		s := iproto.BF{N: pick(r, 0, 1, 2, 5, 32)}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
			return find(q.Body).perform(tr, q, true)
		})
		stopper(s.Stop)
		return s
	}
	taker := func(mode int) *point {
		return newPoint(func(p *point) {
			for {
				select {
				case <-p.ExitChan():
					if p.Standalone() {
						p.ShutDownAll()
					}
					return
				case q := <-p.ReceiveChan():
					switch mode {
					case 0: // takes it in this goroutine
						if q.SetInFly(nil) {
							find(q.Body).perform(tr, q, false)
						}
					case 1: // takes it in another one
						tr.active.Add(1)
						go func() {
							defer tr.active.Add(-1)
							if q.SetInFly(nil) {
								find(q.Body).perform(tr, q, false)
							}
						}()
					case 2: // takes it with a context
						if cx := q.Context(); cx != nil {
							tr.active.Add(1)
							go func() {
								defer tr.active.Add(-1)
								t := find(q.Body)
								t.perform(tr, q, false)
								if t.act != actForget {
									cx.Done()
								}
							}()
						}
					}
				}
			}
		})
	}
	wrap := func(s iproto.Service) iproto.Service {
		if r.IntN(3) == 0 {
			s = iproto.StatWrap(s, func(*iproto.Request, time.Duration) {})
			tr.name += "+stat"
		}
		if r.IntN(4) == 0 {
			in := s
			s = iproto.Route(func(q *iproto.Request) { in.Send(q) })
			tr.name += "+route"
		}
		return s
	}
	switch kind {
	case 0:
		tr.name = "function"
		tr.Service = sf
	case 1:
		tr.name = "pool"
		tr.bf = true
		tr.Service = bf()
	case 2, 3, 4:
		tr.name = fmt.Sprintf("point%d", kind-2)
		p := taker(kind - 2)
		iproto.Run(p)
		stopper(p.Stop)
		tr.Service = p
	case 5, 6:
		b := &iproto.BalancerPoint{}
		b.Init()
		n := 1 + r.IntN(4)
		for k := 0; k < n; k++ {
			if kind == 6 && k == 0 {
				in := &iproto.BalancerPoint{}
				in.Init()
				for j := r.IntN(3); j >= 0; j-- {
					in.AddChild(taker(r.IntN(3)))
				}
				b.AddChild(in)
			} else {
				b.AddChild(taker(r.IntN(3)))
			}
		}
		iproto.Run(b)
		tr.name = fmt.Sprintf("balancer of %d", n)
		stopper(b.Stop)
		tr.Service = b
	case 7:
		tr.name = "network"
		var ep iproto.Service = sf
		if r.IntN(2) == 0 {
			// through the network a panic looks like any other internal error: not used here
			ep = iproto.BF{N: 16}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
				return find(q.Body).perform(tr, q, true)
			})
			defer func() { stopper(ep.(*iproto.ParallelService).Stop) }()
		}
		srv := newServer(r, r.IntN(2) == 0, ep, nt.RC4byte, nil)
		c := newClient(srv.Network, srv.Address, nt.RC4byte, 1+r.IntN(3), nil)
		// connected before anything is sent, so that nothing fails by itself
		ready(e, tr.name, c, 77)
		stopper(c.Stop)
		stopper(srv.Stop)
		tr.Service = c
	}
	tr.Service = wrap(tr.Service)
	return tr
}

func c01(e *Env) {
	n := e.N(16000, 160000)
	e.Cases(n, 2, func(i int, r *rand.Rand) {
		if i%9 == 5 {
			c01helpers(e, fmt.Sprintf("case %d", i), r)
			return
		}
		c01case(e, fmt.Sprintf("case %d", i), r, pick(r, 0, 1, 1, 1, 2, 3, 4, 5, 6, 6, 7))
	})
}

func c01case(e *Env, cs string, r *rand.Rand, kind int) {
	n := pick(r, 1, 3, 10, 40, 40, 200)
	ts := make([]*tracked, n)
	probe := &tracked{rec: newRec(0xFFFFFFFF, 77, nil), act: actPlain}
	for k := range ts {
		b := binary.LittleEndian.AppendUint32(nil, uint32(k))
		b = append(b, make([]byte, r.IntN(30))...)
		t := &tracked{rec: newRec(uint32(k), iproto.RequestType(1+r.IntN(1000)), b), seed: r.Uint64()}
		t.act = r.IntN(nActs)
		if r.IntN(2) == 0 {
			t.act = actPlain
		}
		if kind == 7 && (t.act == actPanic || t.act == actPanicAfter || t.act == actExpire || t.act == actCancel) {
			t.act = actTwice
		}
		ts[k] = t
	}
	find := func(b []byte) *tracked {
		if k := binary.LittleEndian.Uint32(b); int(k) < n {
			return ts[k]
		}
		return probe
	}
	tr := makeTree(e, r, find, kind)
	if e.violated() {
		return
	}
	stopped := atomic.Bool{}
	var wg sync.WaitGroup
	// senders
	ns := 1 + r.IntN(4)
	for s := 0; s < ns; s++ {
		wg.Add(1)
		seed := r.Uint64()
		go func(s int) {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 41))
			for k := s; k < n; k += ns {
				t := ts[k]
				t.sent = time.Now()
				if r.IntN(6) == 0 {
					t.timeout = pick(r, 300*time.Microsecond, time.Millisecond, 5*time.Millisecond, time.Hour)
					t.SetTimeout(t.timeout)
				}
				tr.Send(&t.Request)
				if r.IntN(10) == 0 {
					jitter(r)
				}
			}
		}(s)
	}
	// strangers
	na := r.IntN(4)
	for a := 0; a < na; a++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 43))
			for k := r.IntN(n + 1); k > 0; k-- {
				t := ts[r.IntN(n)]
				switch r.IntN(5) {
				case 0:
					t.cancel.Store(true)
					t.Cancel()
				case 1:
					t.expire.Store(true)
					t.Expire()
				case 2:
					t.shut.Store(true)
					t.ShutDown()
				case 3:
					t.ioerr.Store(true)
					t.IOError()
				default:
					jitter(r)
				}
			}
		}()
	}
	wasStopped := r.IntN(3) == 0
	if wasStopped {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 47))
			for k := r.IntN(4); k >= 0; k-- {
				jitter(r)
			}
			stopped.Store(true)
			if len(tr.stops) > 0 {
				tr.stops[0]()
			}
		}()
	}
	what := fmt.Sprintf("%s: %s, %d requests from %d senders, %d strangers, stopped %v", cs, tr.name, n, ns, na, wasStopped)
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: sending, cancelling or stopping does not return", what)
		return
	}
	for k, t := range ts {
		if !closed(t.done) {
			e.hung(cs, "answer", "%s: request %d (state %d, handler %d run %d times, answers given: %d) is never answered", what, k, t.State(), t.act, t.runs.Load(), len(t.hand))
			return
		}
	}
	if wasStopped && kind != 0 {
		// answered also after it
		t := newRec(5, 5, []byte{255, 255, 255, 255})
		if r.IntN(2) == 0 {
			tr.stops[0]()
		}
		tr.Send(&t.Request)
		if !closed(t.done) {
			e.hung(cs, "after-stop", "%s: request sent after the stop is never answered", what)
			return
		}
	}
	if !until(func() bool { return tr.active.Load() == 0 }) {
		e.hung(cs, "handler", "%s: handlers do not return", what)
		return
	}
	// nothing changes an answer
	for _, t := range ts {
		switch r.IntN(5) {
		case 0:
			t.Cancel()
		case 1:
			t.Expire()
		case 2:
			t.RespondBytes(iproto.RcOK, []byte("late"))
		case 3:
			t.IOError()
		}
	}
	for _, f := range tr.stops {
		f()
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	codes := make(map[iproto.RetCode]int)
	for k, t := range ts {
		codes[t.code]++
		t.judge(e, cs, fmt.Sprintf("%s: request %d (handler %d)", what, k, t.act), wasStopped && stopped.Load(), kind == 7)
	}
	e.Eval(1)
	e.Count("requests", n)
	for c, k := range codes {
		e.Count("answers: "+codeName(c), k)
	}
	e.Distinct("%s %d %v %v", tr.name, n, wasStopped, codes)
	e.Sample("%s: %v", what, codes)
}

func (t *tracked) judge(e *Env, cs, what string, stopped, net bool) {
	if n := t.answers(); n != 1 {
		e.Viol(cs, "not-once", "%s was answered %d times", what, n)
	}
	if !t.idOK {
		e.Viol(cs, "id", "%s: answer has another id or type", what)
	}
	if t.runs.Load() > 1 {
		e.Viol(cs, "handled-twice", "%s was handled %d times", what, t.runs.Load())
	}
	t.m.Lock()
	defer t.m.Unlock()
	for k, a := range t.hand {
		if t.code == a.code && string(t.body) == string(a.body) {
			if k > 0 && t.act != actRace {
				e.Viol(cs, "not-first", "%s got answer number %d of its handler", what, k)
			}
			return
		}
	}
	ok := false
	switch t.code {
	case iproto.RcCanceled: // and shutdown
		ok = t.cancel.Load() || t.shut.Load() || stopped
	case iproto.RcTimeout:
		ok = t.expire.Load() || t.timeout > 0 && t.at.Sub(t.sent) >= t.timeout-early
	case iproto.RcIOError:
		ok = t.ioerr.Load() || stopped && net
	case iproto.RcInternalError:
		ok = t.panics.Load()
	}
	if !ok || len(t.body) != 0 {
		e.Viol(cs, "foreign", "%s is answered with %s %x after %v; handler gave %v; cancelled %v, expired %v, shut down %v, I/O error %v, panic %v, timeout %v, stopped %v", what,
			codeName(t.code), t.body, t.at.Sub(t.sent), t.hand, t.cancel.Load(), t.expire.Load(), t.shut.Load(), t.ioerr.Load(), t.panics.Load(), t.timeout, stopped)
	}
}

// C02

func c02(e *Env) {
	n := e.N(8640, 69120)
	e.Cases(n, 2, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		switch {
		case i < e.shards || i%400 == 200:
			c02queue(e, cs, r, 20000)
		case i%25 == 7:
			c02wire(e, cs, r)
		case i%3 == 0:
			c02queue(e, cs, r, pick(r, 1, 2, 5, 30, 100))
		case i%3 == 1:
			c02running(e, cs, r)
		default:
			c02race(e, cs, r)
		}
	})
}

// c02queue kills requests while they wait in a queue
func c02queue(e *Env, cs string, r *rand.Rand, n int) {
	g := newGate()
	var started atomic.Int32
	runs := make([]atomic.Int32, n)
	var extra atomic.Int32
	handle := func(q *iproto.Request) {
		started.Add(1)
		g.wait()
		if int(q.Id) < n {
			runs[q.Id].Add(1)
		} else {
			extra.Add(1)
		}
	}
	var s iproto.EndPoint
	workers := 1 + r.IntN(3)
	pool := r.IntN(3) > 0
	if pool {
		s = iproto.BF{N: workers}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
			handle(q)
			return iproto.RcOK, q.Body
		})
	} else {
		workers = 1
		useCx := r.IntN(2) == 0
		s = newPoint(func(p *point) {
			for {
				select {
				case <-p.ExitChan():
					p.ShutDownAll()
					return
				case q := <-p.ReceiveChan():
					if useCx {
						if cx := q.Context(); cx != nil {
							handle(q)
							q.RespondBytes(iproto.RcOK, nil)
							cx.Done()
						}
					} else if q.SetInFly(nil) {
						handle(q)
						q.RespondBytes(iproto.RcOK, nil)
					}
				}
			}
		})
		iproto.Run(s)
	}
	for k := 0; k < workers; k++ {
		b := newRec(uint32(n+k), 1, nil)
		s.Send(&b.Request)
	}
	if !until(func() bool { return int(started.Load()) == workers }) {
		e.hung(cs, "workers", "%d workers of %d have started", started.Load(), workers)
		return
	}
	cx := &iproto.Context{}
	qs := make([]*rec, n)
	viaCx := make(map[uint32]bool)
	var cxq []cxReq
	dead := make([]iproto.RetCode, n)
	share := pick(r, 10, 50, 90)
	kill := func(k int) {
		q := qs[k]
		if q == nil {
			return
		}
		dead[k] = iproto.RcCanceled
		switch r.IntN(4) {
		case 0:
			q.Cancel()
		case 1:
			dead[k] = iproto.RcTimeout
			q.Expire()
		case 2:
			dead[k] = iproto.RcIOError
			q.IOError()
		case 3:
			q.ShutDown()
		}
	}
	for k := 0; k < n; k++ {
		if r.IntN(100) < 5 {
			q, ch := cx.NewRequest(7, iproto.Body{})
			q.Id = uint32(k)
			viaCx[uint32(k)] = true
			cxq = append(cxq, cxReq{ch, q})
			s.Send(q)
			continue
		}
		q := newRec(uint32(k), 7, nil)
		qs[k] = q
		if r.IntN(20) == 0 {
			kill(k) // dead before it is sent
		}
		s.Send(&q.Request)
		if dead[k] == 0 && r.IntN(100) < share/2 {
			kill(k)
		}
	}
	for k := range qs {
		if qs[k] != nil && dead[k] == 0 && r.IntN(100) < share/2 {
			kill(k)
		}
	}
	cancelCx := r.IntN(2) == 0
	if cancelCx {
		cx.Cancel()
	}
	nd := 0
	for k, q := range qs {
		if dead[k] != 0 {
			nd++
			if !q.answered() || q.code != dead[k] {
				e.Viol(cs, "kill", "%s: request %d in a queue was not answered with %s at once", cs, k, codeName(dead[k]))
				return
			}
		}
	}
	g.open()
	for k, q := range qs {
		if q != nil && !closed(q.done) {
			e.hung(cs, "answer", "request %d of %d (dead %v) is not answered", k, n, dead[k] != 0)
			return
		}
	}
	for _, q := range cxq {
		if _, ok := recv(q.ch); !ok {
			e.hung(cs, "answer", "request of a context (cancelled %v) is not answered", cancelCx)
			return
		}
	}
	// the last one pushes everything else through
	last := newRec(uint32(n+9), 1, nil)
	s.Send(&last.Request)
	if !closed(last.done) {
		e.hung(cs, "answer", "the last request is not answered")
		return
	}
	for k := range runs {
		want := int32(1)
		if dead[k] != 0 || viaCx[uint32(k)] && cancelCx {
			want = 0
		}
		if got := runs[k].Load(); got != want {
			e.Viol(cs, "handled", "%s: request %d of %d (answered with %s while it waited in the queue of %d workers, pool %v) was handled %d times", cs, k, n, codeName(dead[k]), workers, pool, got)
			break
		}
	}
	s.Stop()
	e.Eval(1)
	e.Count("requests dead in a queue", nd)
	e.Count("requests handled", n-nd)
	e.Distinct("queue %d %d %v %v", n, nd, pool, cancelCx)
	e.Sample("%s: %d requests of %d died in the queue of %d workers", cs, nd, n, workers)
}

// c02running cancels and expires requests which are being handled
func c02running(e *Env, cs string, r *rand.Rand) {
	type run struct {
		*rec
		cx    *iproto.Context
		in    *gate
		out   *gate
		runs  atomic.Int32
		steps string
	}
	n := 1 + r.IntN(12)
	rs := make([]*run, n)
	handler := func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
		if int(q.Id) == n {
			// sent after the stop, custom point may happen to take it before it looks at exit
			return iproto.RcShutdown, iproto.Body{}
		}
		x := rs[q.Id]
		x.cx = cx
		x.runs.Add(1)
		x.in.open()
		x.out.wait()
		return iproto.RetCode(0x100 + q.Id<<3), iproto.Body(fmt.Sprint("answer ", q.Id))
	}
	var s iproto.EndPoint
	if r.IntN(2) == 0 {
		s = iproto.BF{N: n}.New(handler)
	} else {
		s = newPoint(func(p *point) {
			for {
				select {
				case <-p.ExitChan():
					p.ShutDownAll()
					return
				case q := <-p.ReceiveChan():
					if cx := q.Context(); cx != nil {
						go func() {
							q.Respond(handler(&cx.Context, q))
							cx.Done()
						}()
					}
				}
			}
		})
		iproto.Run(s)
	}
	for k := range rs {
		rs[k] = &run{rec: newRec(uint32(k), 3, nil), in: newGate(), out: newGate()}
		s.Send(&rs[k].Request)
	}
	for k, x := range rs {
		if !closed(x.in.ch) {
			e.hung(cs, "start", "request %d of %d in a pool of %d is not handled", k, n, n)
			return
		}
	}
	for _, k := range r.Perm(n) {
		x := rs[k]
		var child *iproto.Context
		var sub *rec
		var subCh <-chan *iproto.Response
		_ = sub
		if r.IntN(2) == 0 {
			child, _ = x.cx.Child()
			var q *iproto.Request
			q, subCh = x.cx.NewRequest(1, iproto.Body{1})
			_ = q
		}
		want, wantBody := iproto.RetCode(0x100+uint32(k)<<3), fmt.Sprint("answer ", k)
		bad := func(f string, a ...interface{}) {
			e.Viol(cs, "running", "%s: request %d after %s: %s", cs, k, x.steps, fmt.Sprintf(f, a...))
		}
		steps := r.IntN(4)
		dead, timeout := false, false
		for j := 0; j < steps && !x.answered(); j++ {
			switch r.IntN(3) {
			case 0:
				x.steps += " cancel"
				x.Cancel()
				if !x.answered() || x.code != iproto.RcCanceled {
					bad("caller is not answered at once")
					return
				}
				if !timeout {
					if x.cx.Alive() || x.cx.Timeout() {
						bad("context of its handler: alive %v, timeout %v", x.cx.Alive(), x.cx.Timeout())
					}
				}
				want, wantBody = iproto.RcCanceled, ""
				dead = true
			case 1:
				x.steps += " expire"
				x.Expire()
				if x.answered() {
					bad("caller is answered with %s while the handler is running", codeName(x.code))
					return
				}
				if x.cx.Alive() || !x.cx.Timeout() {
					bad("context of its handler: alive %v, timeout %v", x.cx.Alive(), x.cx.Timeout())
				}
				dead, timeout = true, true
			case 2:
				x.steps += " io-error"
				x.IOError()
				if !x.answered() || x.code != iproto.RcIOError {
					bad("caller is not answered at once")
					return
				}
				want, wantBody = iproto.RcIOError, ""
			}
		}
		if dead && child != nil {
			if child.Alive() {
				bad("child of the handler's context is alive")
			}
			if res, ok := recv(subCh); !ok || res.Code != iproto.RcCanceled {
				bad("request made by the handler is not cancelled")
			}
		} else if child != nil {
			x.cx.Cancel()
			recv(subCh)
		}
		x.steps += " answer"
		x.out.open()
		if !closed(x.done) {
			e.hung(cs, "answer", "request %d is not answered after%s", k, x.steps)
			return
		}
		if x.code != want || string(x.body) != wantBody {
			bad("is answered with %s %q instead of %s %q", codeName(x.code), x.body, codeName(want), wantBody)
		}
	}
	s.Stop()
	last := newRec(uint32(n), 1, nil)
	s.Send(&last.Request)
	if !closed(last.done) {
		e.hung(cs, "answer", "request sent after the stop is not answered")
		return
	}
	for k, x := range rs {
		x.Cancel()
		x.Expire()
		if x.answers() != 1 || x.runs.Load() != 1 {
			e.Viol(cs, "not-once", "%s: request %d after%s: handled %d times, answered %d times", cs, k, x.steps, x.runs.Load(), x.answers())
		}
		e.Distinct("running%s", x.steps)
		e.Count("histories of running requests", 1)
	}
	e.Eval(1)
	e.Sample("%s: request 0 went through%s", cs, rs[0].steps)
}

// c02race lets cancelling and taking race
func c02race(e *Env, cs string, r *rand.Rand) {
	n := 30 + r.IntN(100)
	type run struct {
		*rec
		ret  *gate // cancel has returned
		kind int
		runs atomic.Int32
		took bool
	}
	rs := make([]*run, n)
	for k := range rs {
		rs[k] = &run{rec: newRec(uint32(k), 3, nil), ret: newGate(), kind: r.IntN(2)}
	}
	takers := 1 + r.IntN(4)
	takeN := make([]atomic.Int32, n)
	var started atomic.Int64
	judge := func(cx *iproto.Context, x *run) {
		x.ret.wait()
		// whatever was first, cancel has happened by now
		if cx != nil && cx.Alive() {
			e.Viol(cs, "race", "%s: request %d was cancelled (expired: %v) while being taken, it is handled, but the context of its handler is alive", cs, x.Id, x.kind == 1)
		}
		if x.kind == 0 && !x.answered() {
			e.Viol(cs, "race", "%s: request %d was cancelled while it was being taken, but its caller is not answered", cs, x.Id)
		}
		if x.kind == 1 && x.answered() {
			e.Viol(cs, "race", "%s: request %d has expired while it was being taken, it is handled, but its caller is answered with %s already", cs, x.Id, codeName(x.code))
		}
	}
	var s iproto.EndPoint
	mode := r.IntN(3)
	switch mode {
	case 0:
		s = iproto.BF{N: n}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
			x := rs[q.Id]
			x.runs.Add(1)
			judge(cx, x)
			return iproto.RcOK, iproto.Body("fine")
		})
	default:
		s = newPoint(func(p *point) {
			for {
				select {
				case <-p.ExitChan():
					p.ShutDownAll()
					return
				case q := <-p.ReceiveChan():
					// many want it, one gets it
					for k := 0; k < takers; k++ {
						started.Add(1)
						go func() {
							defer started.Add(-1)
							x := rs[q.Id]
							if mode == 1 {
								if cx := q.Context(); cx != nil {
									x.runs.Add(1)
									judge(&cx.Context, x)
									q.RespondBytes(iproto.RcOK, []byte("fine"))
									cx.Done()
								}
							} else if q.SetInFly(nil) {
								x.runs.Add(1)
								x.ret.wait()
								if x.answered() {
									takeN[q.Id].Add(1)
								}
								q.RespondBytes(iproto.RcOK, []byte("fine"))
							}
						}()
					}
				}
			}
		})
		iproto.Run(s)
	}
	var wg sync.WaitGroup
	for _, x := range rs {
		wg.Add(1)
		seed := r.Uint64()
		start := make(chan bool)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 53))
			<-start
			for k := r.IntN(3); k > 0; k-- {
				jitter(r)
			}
			if x.kind == 0 {
				x.Cancel()
			} else {
				x.Expire()
			}
			x.ret.open()
		}()
		if r.IntN(2) == 0 {
			close(start)
			s.Send(&x.Request)
		} else {
			s.Send(&x.Request)
			close(start)
		}
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "cancel", "cancelling does not return")
		return
	}
	ran, dead := 0, 0
	for k, x := range rs {
		if !closed(x.done) {
			e.hung(cs, "answer", "request %d (handled %d times, cancelled by %d) is not answered", k, x.runs.Load(), x.kind)
			return
		}
	}
	s.Stop()
	until(func() bool { return started.Load() == 0 })
	for k, x := range rs {
		n := x.runs.Load()
		if n > 1 {
			e.Viol(cs, "handled-twice", "%s: request %d was handled %d times", cs, k, n)
		}
		if n == 0 {
			dead++
			if x.code != pick2(x.kind == 0, iproto.RcCanceled, iproto.RcTimeout) {
				e.Viol(cs, "code", "%s: request %d was not handled but is answered with %s", cs, k, codeName(x.code))
			}
		} else {
			ran++
		}
		if x.answers() != 1 {
			e.Viol(cs, "not-once", "%s: request %d was answered %d times", cs, k, x.answers())
		}
	}
	e.Eval(1)
	e.Count("cancelled before it was taken", dead)
	e.Count("cancelled after it was taken", ran)
	e.Distinct("race %d %d %d %d", mode, n, ran, dead)
	e.Sample("%s: %d requests cancelled or expired while being taken (mode %d, %d takers): %d were taken", cs, n, mode, takers, ran)
}

func pick2[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

package main

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() { props["C19"] = c19 }

type qrec struct {
	iproto.Request
	n     int32 // answers
	taken int32 // deliveries out of the queue
	code  iproto.RetCode
	dead  int32 // an answer came before it was taken
}

type qresp struct{ q *qrec }

func (p qresp) Respond(res *iproto.Response) {
	if atomic.AddInt32(&p.q.n, 1) == 1 {
		p.q.code = res.Code
	}
}

func c19(e *Env) {
	n := e.N(144, 1728)
	e.Cases(n, 1, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		if i%3 == 2 {
			for k := 0; k < 5; k++ {
				c19last(e, cs, r)
			}
			return
		}
		total := pick(r, 200, 3000, 17000, 18500, 20000, 40000)
		if i%4 == 0 {
			total = 17000 + r.IntN(25000)
		}
		c19case(e, cs, r, total, pick(r, 1, 2, 4, 8), pick(r, "stalled", "slow", "bursts", "quick"), r.IntN(2) == 0)
	})
}

// c19last sends the last requests of an overflow while it is being emptied
func c19last(e *Env, cs string, r *rand.Rand) {
	room := 16 * 1024 // of the channel, if it is not changed
	over := pick(r, 1, 2, 3, 10, 100)
	left := pick(r, 0, 1, 2, 3, 5)
	what := fmt.Sprintf("%s: overflow of %d, %d more senders while it is being emptied", cs, over, left)
	g := newGate()
	var taken atomic.Int64
	end := make(chan struct{})
	hold := r.IntN(2) == 0
	dying := r.IntN(2) == 0
	p := newPoint(func(p *point) {
		g.wait()
		for {
			select {
			case q := <-p.ReceiveChan():
				if q.SetInFly(nil) {
					taken.Add(1)
					q.RespondBytes(iproto.RcOK, nil)
				}
			case <-p.ExitChan():
				close(end)
				p.ShutDownAll()
				return
			}
		}
	})
	iproto.Run(p)
	const after = 5
	all := make([]*qrec, room+over+left+after)
	for k := range all {
		q := &qrec{}
		q.Id = uint32(k)
		q.Responder = qresp{q}
		all[k] = q
	}
	for _, q := range all[:room+over] {
		p.Send(&q.Request)
	}
	var wg sync.WaitGroup
	pause := make([]time.Duration, left)
	for k := range pause {
		pause[k] = time.Duration(r.IntN(4000)) * time.Microsecond
	}
	for k, q := range all[room+over : room+over+left] {
		if hold {
			// another user of the request delays its coming into the queue
			q.Lock()
			if dying {
				go q.Cancel() // dies while it comes into the queue
				time.Sleep(time.Duration(r.IntN(100)) * time.Microsecond)
			}
			time.AfterFunc(pause[k], q.Unlock)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !hold {
				time.Sleep(pause[k])
			}
			p.Send(&q.Request)
		}()
	}
	g.open()
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: senders are blocked", what)
		return
	}
	for _, q := range all[room+over+left:] {
		p.Send(&q.Request)
	}
	for k, q := range all {
		if !until(func() bool { return atomic.LoadInt32(&q.n) > 0 }) {
			e.hung(cs, "lost", "%s: request %d of %d is not delivered (%d taken, %d in channel)", what, k, len(all), taken.Load(), len(p.ReceiveChan()))
			return
		}
	}
	p.Stop()
	if !closed(end) {
		e.hung(cs, "stop", "%s: consumer is not told to exit", what)
		return
	}
	live := 0
	for _, q := range all {
		if q.code == iproto.RcOK {
			live++
		}
		if n := atomic.LoadInt32(&q.n); n != 1 {
			e.Viol(cs, "answers", "%s: request is answered %d times", what, n)
		}
	}
	if taken.Load() != int64(live) || live < room+over {
		e.Viol(cs, "lost", "%s: %d of %d were taken, %d answered by the consumer", what, taken.Load(), len(all), live)
	}
	e.Count("died on the way into the queue", len(all)-live)
	e.Eval(1)
	e.Count("delivered", len(all))
	e.Count("late in an overflow", left)
	e.Distinct("last %d %d %v %d", over, left, hold, len(all)-live)
}

func c19case(e *Env, cs string, r *rand.Rand, total, senders int, mode string, cancels bool) {
	what := fmt.Sprintf("%s: %d requests of %d senders, consumer is %s, cancels %v", cs, total, senders, mode, cancels)
	go1 := newGate()
	var taken [][]uint32 // order of taking per sender
	taken = make([][]uint32, senders)
	per := total / senders
	all := make([][]*qrec, senders)
	for s := range all {
		all[s] = make([]*qrec, per)
		for k := range all[s] {
			q := &qrec{}
			q.Id = uint32(s<<24 | k)
			q.Responder = qresp{q}
			all[s][k] = q
		}
	}
	var ntaken atomic.Int64
	var maxq atomic.Int64
	seedc := r.Uint64()
	end := make(chan struct{})
	p := newPoint(func(p *point) {
		r := rand.New(rand.NewPCG(seedc, 3))
		if mode == "stalled" {
			go1.wait()
		}
		for k := 0; ; k++ {
			select {
			case q := <-p.ReceiveChan():
				s, n := q.Id>>24, q.Id&0xffffff
				rec := all[s][n]
				if q != &rec.Request {
					panic("HARNESS: unknown request")
				}
				atomic.AddInt32(&rec.taken, 1)
				if q.SetInFly(nil) {
					taken[s] = append(taken[s], n)
					q.RespondBytes(iproto.RcOK, nil)
				}
				ntaken.Add(1)
				if l := int64(len(p.ReceiveChan())); l > maxq.Load() {
					maxq.Store(l)
				}
			case <-p.ExitChan():
				close(end)
				p.ShutDownAll()
				return
			}
			switch mode {
			case "slow":
				if k%700 == 0 {
					time.Sleep(time.Duration(r.IntN(1000)) * time.Microsecond)
				}
			case "bursts":
				if k%5000 == 0 {
					time.Sleep(time.Duration(r.IntN(40)) * time.Millisecond)
				}
			}
		}
	})
	iproto.Run(p)
	var wg sync.WaitGroup
	var sentN atomic.Int64
	for s := 0; s < senders; s++ {
		wg.Add(1)
		seed := r.Uint64()
		go func(s int) {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 5))
			for k, q := range all[s] {
				p.Send(&q.Request)
				sentN.Add(1)
				if cancels && r.IntN(20) == 0 {
					// some of those sent already die
					x := all[s][k-r.IntN(min(k+1, 3000))]
					x.Cancel()
				}
				if r.IntN(3000) == 0 {
					time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
				}
			}
		}(s)
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "send", "%s: senders are blocked after %d requests", what, sentN.Load())
		return
	}
	if mode == "stalled" && cancels {
		for k := 0; k < total/10; k++ {
			all[r.IntN(senders)][r.IntN(per)].Cancel()
		}
	}
	// those cancelled before anything was taken must never be taken
	stalledDead := 0
	if mode == "stalled" {
		for _, a := range all {
			for _, q := range a {
				if atomic.LoadInt32(&q.n) > 0 {
					q.dead = 1
					stalledDead++
				}
			}
		}
	}
	go1.open()
	for s, a := range all {
		for k, q := range a {
			if !until(func() bool { return atomic.LoadInt32(&q.n) > 0 }) {
				e.hung(cs, "lost", "%s: request %d of sender %d is neither delivered nor answered (%d taken, %d in channel)", what, k, s, ntaken.Load(), len(p.ReceiveChan()))
				return
			}
		}
	}
	p.Stop()
	if !closed(end) {
		e.hung(cs, "stop", "%s: consumer is not told to exit", what)
		return
	}
	live, dead := 0, 0
	for s, a := range all {
		for i := 1; i < len(taken[s]); i++ {
			if taken[s][i] <= taken[s][i-1] {
				e.Viol(cs, "order", "%s: sender %d sent %d before %d, but they were taken in another order", what, s, min(taken[s][i], taken[s][i-1]), max(taken[s][i], taken[s][i-1]))
				return
			}
		}
		for k, q := range a {
			if n := atomic.LoadInt32(&q.n); n != 1 {
				e.Viol(cs, "answers", "%s: request %d of sender %d is answered %d times", what, k, s, n)
			}
			if n := atomic.LoadInt32(&q.taken); n > 1 {
				e.Viol(cs, "twice", "%s: request %d of sender %d came out of the queue %d times", what, k, s, n)
			} else if n == 0 && q.code == iproto.RcOK {
				e.Viol(cs, "answers", "%s: request %d of sender %d is answered by nobody", what, k, s)
			}
			switch {
			case q.code == iproto.RcOK && q.dead == 1:
				e.Viol(cs, "dead-taken", "%s: request %d of sender %d was cancelled in the queue, but taken", what, k, s)
			case q.code == iproto.RcOK:
				live++
			case q.code == iproto.RcCanceled && cancels:
				dead++
			default:
				e.Viol(cs, "lost", "%s: request %d of sender %d is answered with %s instead of being delivered", what, k, s, codeName(q.code))
			}
		}
	}
	e.Eval(1)
	e.Count("delivered", live)
	e.Count("died while queued", dead)
	if total > 16384 && mode == "stalled" {
		e.Count("cases with overflow certain", 1)
	}
	e.Distinct("%d %d %s %v %d", total, senders, mode, cancels, dead)
	e.Sample("%s; %d delivered, %d died in the queue", what, live, dead)
}

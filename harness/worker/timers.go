package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() { props["C18"] = c18 }

// clocks of the library and of the harness may be read in any order
const early = 600 * time.Microsecond

type alarm struct {
	t     iproto.Timer
	n     int32
	first time.Time
	m     sync.Mutex

	armed   time.Time
	due     time.Time     // not earlier than this
	stopped bool          // Stop returned before it was due
	stop    time.Duration // when to stop it after arming, negative: never
	d       time.Duration
	nth     int32 // how many times it should have fired so far
}

func (a *alarm) Timer() *iproto.Timer { return &a.t }
func (a *alarm) Expire() {
	now := time.Now()
	a.m.Lock()
	a.first = now
	a.m.Unlock()
	atomic.AddInt32(&a.n, 1)
}

func (a *alarm) arm() {
	a.armed = time.Now()
	a.due = a.armed.Add(a.d)
	a.t.After(a.d, a)
}

func (a *alarm) halt() {
	a.t.Stop()
	a.stopped = time.Now().Before(a.due.Add(-early))
}

// farAway is a duration of an hour at least, up to what means "never"
func farAway(r *rand.Rand) time.Duration {
	switch r.IntN(8) {
	case 0:
		return pick(r, time.Duration(math.MaxInt64), 1<<62, 3*1<<61, math.MaxInt64-time.Duration(r.Int64N(1<<60)))
	case 1:
		return time.Hour << r.IntN(22)
	}
	return time.Hour + time.Duration(r.IntN(100000))*time.Second/2
}

func c18(e *Env) {
	n := e.N(320, 3840)
	// heaps of timers are shared by the process: cases go one by one, so that no timer of another one
	// could wake a loop which has missed its own
	e.Cases(n, 1, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		if i/e.shards == 1 {
			c18memory(e, cs, r)
			return
		}
		if i < e.shards || i%97 == 50 { // once per worker grow the list of heaps under load
			c18case(e, cs, r, 6000, 4)
			return
		}
		c18case(e, cs, r, pick(r, 1, 2, 3, 5, 8, 20, 60, 300, 2000), pick(r, 1, 1, 2, 4, 8))
	})
}

func c18case(e *Env, cs string, r *rand.Rand, n, gor int) {
	longShare := pick(r, 0, 10, 50, 90)
	maxMs := pick(r, 1, 5, 20, 40)
	sorted := r.IntN(4)
	var as []*alarm
	for k := 0; k < n; k++ {
		a := &alarm{stop: -1}
		switch {
		case r.IntN(100) < longShare:
			a.d = farAway(r)
		case r.IntN(8) == 0:
			a.d = time.Duration(r.IntN(300)) * time.Microsecond
		default:
			a.d = time.Duration(r.IntN(maxMs*1000)) * time.Microsecond
		}
		if a.d < 1000*time.Hour && r.IntN(4) == 0 {
			a.d = a.d.Round(time.Millisecond) // many equal ones
		}
		if a.d <= 0 {
			a.d = time.Microsecond
		}
		if r.IntN(3) == 0 {
			a.stop = time.Duration(r.IntN(maxMs*1200)) * time.Microsecond
			if r.IntN(3) == 0 {
				a.stop = 0
			}
		}
		as = append(as, a)
	}
	switch sorted {
	case 1:
		sortAlarms(as, func(a, b *alarm) bool { return a.d < b.d })
	case 2:
		sortAlarms(as, func(a, b *alarm) bool { return a.d > b.d })
	}
	rounds := 1
	if n <= 60 {
		rounds = 2 + r.IntN(3)
	}
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		for g := 0; g < gor; g++ {
			wg.Add(1)
			seed := r.Uint64()
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 7))
				var mine []*alarm
				for k := g; k < n; k += gor {
					a := as[k]
					a.arm()
					if a.stop == 0 {
						a.halt()
					} else {
						mine = append(mine, a)
					}
					if r.IntN(50) == 0 {
						time.Sleep(time.Duration(r.IntN(500)) * time.Microsecond)
					}
				}
				sortAlarms(mine, func(a, b *alarm) bool { return a.armed.Add(a.stop).Before(b.armed.Add(b.stop)) })
				for _, a := range mine {
					if a.stop > 0 {
						time.Sleep(time.Until(a.armed.Add(a.stop)))
						a.halt()
					}
				}
			}(g)
		}
		wg.Wait()
		// nobody touches timers any more: everything due has to fire by itself
		live := 0
		for _, a := range as {
			if a.stop < 0 && a.d < time.Hour {
				a.nth++
				live++
			}
		}
		for k, a := range as {
			if a.stop < 0 && a.d < time.Hour && !until(func() bool { return atomic.LoadInt32(&a.n) >= a.nth }) {
				e.hung(cs, "timer", "timer %d of %d, armed for %v, has not fired %v after it was due (%d long ones, order %d, %d goroutines)", k, n, a.d, time.Since(a.due), longShare, sorted, gor)
				return
			}
		}
		time.Sleep(2 * time.Millisecond)
		stopped := 0
		for k, a := range as {
			got := atomic.LoadInt32(&a.n)
			a.m.Lock()
			at := a.first
			a.m.Unlock()
			switch {
			case a.stop < 0 && a.d < time.Hour:
				if got != a.nth {
					e.Viol(cs, "not-once", "%s: timer %d armed for %v %d times fired %d times", cs, k, a.d, a.nth, got)
				}
				if at.Before(a.due.Add(-early)) {
					e.Viol(cs, "early", "%s: timer %d armed for %v fired %v before its time", cs, k, a.d, a.due.Sub(at))
				}
				e.Count("fired", 1)
			case a.stop >= 0 && a.stopped || a.d >= time.Hour:
				stopped++
				if got != a.nth {
					e.Viol(cs, "fired-after-stop", "%s: timer %d armed for %v and stopped in time (%v after arming), or not due, fired", cs, k, a.d, a.stop)
				}
				e.Count("stopped or not due", 1)
			default:
				// stopped too late: it fired or not, but not twice
				if got > a.nth+1 {
					e.Viol(cs, "not-once", "%s: timer %d armed for %v once fired %d times", cs, k, a.d, got-a.nth)
				}
				if got > a.nth && at.Before(a.due.Add(-early)) {
					e.Viol(cs, "early", "%s: timer %d armed for %v fired %v before its time", cs, k, a.d, a.due.Sub(at))
				}
				a.nth = got
				e.Count("stopped late", 1)
			}
		}
		e.Distinct("%d %d %d %d %d live %d stopped %d", n, gor, longShare, maxMs, sorted, live, stopped)
		// long ones are removed in any order before the next round
		for _, k := range r.Perm(n) {
			if as[k].d >= time.Hour {
				as[k].t.Stop()
			}
		}
	}
	e.Eval(rounds)
	e.Sample("%s: %d timers from %d goroutines, %d%% of them for hours, others up to %d ms, order %d, %d rounds", cs, n, gor, longShare, maxMs, sorted, rounds)
}

func sortAlarms(as []*alarm, less func(a, b *alarm) bool) {
	for i := 1; i < len(as); i++ { // binary insertion is enough
		lo, hi := 0, i
		for lo < hi {
			m := (lo + hi) / 2
			if less(as[i], as[m]) {
				hi = m
			} else {
				lo = m + 1
			}
		}
		x := as[i]
		copy(as[lo+1:i+1], as[lo:i])
		as[lo] = x
	}
}

// c18memory: what is over is forgotten, however many timers there were
func c18memory(e *Env, cs string, r *rand.Rand) {
	fired := new(int32)
	const batch = 500
	round := func(n int, soon bool) {
		for n > 0 {
			as := make([]alarm, batch)
			for k := range as {
				as[k].d = farAway(r)
				if soon && k%2 == 0 {
					as[k].d = time.Duration(1+r.IntN(1000)) * time.Microsecond
				}
				as[k].t.After(as[k].d, &as[k])
			}
			for _, k := range r.Perm(batch) {
				if as[k].d >= time.Hour {
					as[k].t.Stop()
				}
			}
			if soon && !until(func() bool {
				for k := 0; k < batch; k += 2 {
					if atomic.LoadInt32(&as[k].n) == 0 {
						return false
					}
				}
				return true
			}) {
				e.hung(cs, "timer", "some of %d timers armed for a millisecond have not fired", batch)
				return
			}
			if soon {
				atomic.AddInt32(fired, batch/2)
			}
			n -= batch
		}
	}
	heap := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	round(20000, false)
	round(10000, true)
	before := heap()
	const n = 100000
	round(n, false)
	round(n/4, true)
	grown := heap() - before
	if grown > n*16 {
		e.Viol(cs, "memory", "%s: %d bytes of memory are still held after %d timers which were stopped or fired (%d)", cs, grown, n+n/4, *fired)
	}
	e.Eval(1)
	e.Count("armed and stopped", n)
	e.Count("fired", int(*fired))
	e.Sample("%s: memory grew by %d bytes after %d timers", cs, grown, n+n/4)
}

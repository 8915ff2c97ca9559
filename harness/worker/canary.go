package main

import (
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// The canary decides whether something hangs without trusting a clock alone: a wait is hopeless only
// after the same process has completed many rounds of everything the waiting could depend on
// (scheduling of fresh goroutines, timers of the runtime, round trips over loopback sockets),
// and a generous time has passed as well. On an overloaded machine rounds slow down together with the waiting.
var canaryRounds atomic.Int64

const (
	hangRounds = 800
	hangTime   = 20 * time.Second
)

func startCanary() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 1)
				for {
					if _, err := c.Read(b); err != nil {
						return
					}
					c.Write(b)
				}
			}()
		}
	}()
	canaryStart.Store(mono(time.Now()))
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		panic(err)
	}
	go func() {
		b := make([]byte, 1)
		for {
			var wg sync.WaitGroup
			for i := 0; i < 32; i++ {
				wg.Add(1)
				go func() {
					runtime.Gosched()
					wg.Done()
				}()
			}
			wg.Wait()
			done := make(chan bool)
			time.AfterFunc(10*time.Millisecond, func() { close(done) })
			<-done
			if _, err := c.Write(b); err != nil {
				panic(err)
			}
			if _, err := c.Read(b); err != nil {
				panic(err)
			}
			canaryRounds.Add(1)
			now := mono(time.Now())
			if now-canaryStart.Swap(now) > int64(calmLimit) {
				canarySlow.Store(now)
			}
		}
	}()
	// its descriptors and goroutines are there before anything is counted
	for canaryRounds.Load() == 0 {
		time.Sleep(time.Millisecond)
	}
}

// calm tells whether the process has been running without noticeable delays since t.
// What depends on a configured timeout not passing is checked in calm times only.
func calm(t time.Time) bool {
	return canarySlow.Load() < mono(t) && mono(time.Now())-canaryStart.Load() < int64(calmLimit)
}

// mono is not affected by steps of the clock of the system
func mono(t time.Time) int64 { return int64(t.Sub(started)) + 1 }

var started = time.Now()

const calmLimit = 70 * time.Millisecond

var canaryStart, canarySlow atomic.Int64

// hang tells when waiting is hopeless
type hang struct {
	start  time.Time
	rounds int64
	factor int
}

func newHang() *hang { return &hang{time.Now(), canaryRounds.Load(), 1} }

func (h *hang) over() bool {
	return canaryRounds.Load()-h.rounds > int64(h.factor)*hangRounds && time.Since(h.start) > time.Duration(h.factor)*hangTime
}

// until waits for a condition; false means it hangs
func until(cond func() bool) bool {
	d := 50 * time.Microsecond
	h := newHang()
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if i < 20 {
			runtime.Gosched()
			continue
		}
		time.Sleep(d)
		if d < 10*time.Millisecond {
			d += d / 4
		} else if h.over() {
			return cond()
		}
	}
}

// closed waits for a channel to be closed or to give a value
func closed[T any](ch <-chan T) bool {
	h := newHang()
	select {
	case <-ch:
		return true
	default:
	}
	t := time.NewTicker(50 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-ch:
			return true
		case <-t.C:
			if h.over() {
				select {
				case <-ch:
					return true
				default:
					return false
				}
			}
		}
	}
}

// recv receives a value from a channel; false means it hangs (or is closed)
func recv[T any](ch <-chan T) (v T, ok bool) {
	h := newHang()
	t := time.NewTicker(50 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case v, ok = <-ch:
			return
		case <-t.C:
			if h.over() {
				select {
				case v, ok = <-ch:
				default:
				}
				return
			}
		}
	}
}

// finishes runs f and waits for it; false means it hangs
func finishes(f func()) bool {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	return closed(ch)
}

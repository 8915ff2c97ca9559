//go:build vstep

package main

import (
	"time"
)

// stepClock sets the clock of the system (as time.Now of this process sees it) forth and back for ever.
// What measures durations by it, is deceived. Monotonic readings go on as they did.
func stepClock(e *Env) {
	r := e.rng(1 << 31)
	go func() {
		for {
			time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
			time.VerifStep(r.Int64N(400000) - 200000)
			e.Count("steps of the clock", 1)
		}
	}()
}

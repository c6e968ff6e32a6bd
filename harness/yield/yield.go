// Package yield perturbs the schedule: calls to Point are inserted between the
// statements of the packages under test (see cmd/yieldize).
package yield

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

// rate is how many of 1024 points yield.
var rate atomic.Uint32

// Points counts the points passed while yielding was on.
var Points atomic.Uint64

// Set turns yielding on, at n of 1024 points, or off with 0.
func Set(n uint32) { rate.Store(n) }

// Point may let other goroutines run.
func Point() {
	n := rate.Load()
	if n == 0 {
		return
	}
	Points.Add(1)
	r := rand.Uint32()
	if r&1023 >= n {
		return
	}
	switch {
	case r>>10&63 == 0:
		time.Sleep(time.Duration(r>>20&15) * time.Microsecond)
	default:
		for i := r >> 20 & 3; ; i-- {
			runtime.Gosched()
			if i == 0 {
				break
			}
		}
	}
}

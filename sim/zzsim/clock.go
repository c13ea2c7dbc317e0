package zzsim

import (
	"time"
	"unsafe"
)

var (
	simTime   int64 // advances by sleeping
	clockOff  int64 // injected skew
	clockJump bool
)

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

//go:norace
func clock() int64 {
	Stats.ClockReads++
	if clockJump && auxRng.P(0.3) {
		Stats.ClockJumps++
		// forwards only: the differences which time.Now gives are those of a
		// monotonic clock, whose jumps are the pauses of a process
		clockOff += int64(auxRng.N(3600)) * int64(time.Second)
	}
	return simTime + int64(now)*1000 + clockOff
}

// Now replaces time.Now.
func Now() time.Time { return epoch.Add(time.Duration(clock())) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	if !on {
		simTime += int64(d)
		return
	}
	t := cur
	t.state = stSleeping
	t.wakeAt = simTime + int64(now)*1000 + int64(d)
	t.blockN++
	if t.daemon {
		raceRelease(unsafe.Pointer(&joinAddr))
	}
	to := forced(t, SiteBlock)
	if to == nil && frozenAny() {
		thaw()
		to = forced(t, SiteBlock)
	}
	if to == nil && clientsDone() {
		endPhase() // the sleeper goes on in the next phase
		park(t)
		return
	}
	if to == nil {
		abort("deadlock", describe())
	}
	if to == t {
		t.state = stReady
		return
	}
	handoff(t, to, SiteBlock)
	park(t)
}

// Timer supports AfterFunc only.
type Timer struct {
	C       <-chan time.Time
	stopped bool
	fired   bool
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	Go(func() {
		Sleep(d)
		if !t.stopped {
			t.fired = true
			f()
		}
	})
	return t
}

func (t *Timer) Stop() bool {
	was := !t.fired && !t.stopped
	t.stopped = true
	return was
}

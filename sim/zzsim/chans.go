package zzsim

import "unsafe"

// Channels stay real, but no task ever waits inside one: an operation that
// cannot go on at once parks its task in the simulator until some other
// channel operation has succeeded. The instrumenter gives unbuffered channels
// one slot, so a send can return before the receiver has run.

var chanTok byte

// ChanBlock parks the current task until a channel operation succeeds.
//
//go:norace
func ChanBlock() {
	if !on {
		pause("a channel operation waits outside a concurrent phase")
		return
	}
	block(unsafe.Pointer(&chanTok), "channel")
}

// ChanWake wakes the tasks parked in ChanBlock.
//
//go:norace
func ChanWake() {
	if on {
		unblock(unsafe.Pointer(&chanTok))
	}
}

// Send replaces c <- v.
func Send[C ~chan T | ~chan<- T, T any](c C, v T) {
	for {
		select {
		case c <- v:
			ChanWake()
			return
		default:
		}
		ChanBlock()
	}
}

// Recv replaces <-c.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 replaces v, ok := <-c.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	for {
		select {
		case v, ok := <-c:
			ChanWake()
			return v, ok
		default:
		}
		ChanBlock()
	}
}

// Close replaces close(c).
func Close[C ~chan T | ~chan<- T, T any](c C) {
	close(c)
	ChanWake()
}

// pause: waiting where no tasks are simulated is waiting for ever.
//
//go:norace
func pause(what string) { abort("deadlock", what) }

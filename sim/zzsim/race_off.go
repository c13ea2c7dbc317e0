//go:build !race

package zzsim

import "unsafe"

const RaceEnabled = false

func raceDisable()                  {}
func raceEnable()                   {}
func raceAcquire(p unsafe.Pointer)  {}
func raceRelease(p unsafe.Pointer)  {}
func raceReleaseX(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

func MarkRaces()       {}
func NewRaces() int    { return 0 }
func RaceText() string { return "" }

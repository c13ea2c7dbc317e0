//go:build race

package zzsim

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"
)

const RaceEnabled = true

func raceDisable()                  { runtime.RaceDisable() }
func raceEnable()                   { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)  { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)  { runtime.RaceReleaseMerge(p) }
func raceReleaseX(p unsafe.Pointer) { runtime.RaceRelease(p) }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

var raceMark int
var raceOff int64

func raceFile() string {
	p := os.Getenv("ZZ_RACELOG")
	if p == "" {
		return ""
	}
	return fmt.Sprintf("%s.%d", p, os.Getpid())
}

// MarkRaces notes how many races have been reported so far.
func MarkRaces() {
	raceMark = RaceErrors()
	if st, err := os.Stat(raceFile()); err == nil {
		raceOff = st.Size()
	}
}

// NewRaces is the number of races reported since the mark.
func NewRaces() int { return RaceErrors() - raceMark }

// RaceText condenses the report of the first race since the mark that involves
// quamina's own code, and is empty if there is none.
func RaceText() string {
	b, err := os.ReadFile(raceFile())
	if err != nil || int64(len(b)) < raceOff {
		return "(no text)"
	}
	for _, rep := range strings.Split(string(b[raceOff:]), "WARNING: DATA RACE") {
		if s, own := condense(rep); own {
			return s
		}
	}
	return ""
}

func condense(rep string) (string, bool) {
	var out []string
	own := false
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Goroutine") || len(out) > 24:
			return strings.Join(out, " "), own
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Atomic"), strings.HasPrefix(t, "Previous"):
			f := strings.Fields(t)
			w := f[0]
			if w == "Previous" {
				w = "previous " + f[1]
			}
			out = append(out, "["+w+"]")
		case strings.HasPrefix(t, "quamina.net/"):
			if strings.Contains(t, "zzmain") || strings.Contains(t, "zzsim") {
				continue
			}
			own = true
			out = append(out, strings.TrimPrefix(t, "quamina.net/go/quamina/v2"))
		}
	}
	return strings.Join(out, " "), own
}

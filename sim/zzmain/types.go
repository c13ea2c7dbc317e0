// Command zzmain drives the simulated quamina: it generates client programs,
// runs them under the simulator, and judges the recorded histories.
package main

import (
	quamina "quamina.net/go/quamina/v2"
	"quamina.net/go/quamina/v2/internal/zzsim"
)

// Val is one candidate value of a pattern field.
type Val struct {
	K string   `json:"k"`           // str num lit ab pre sh wc ic re
	S string   `json:"s,omitempty"` // text
	L []string `json:"l,omitempty"` // anything-but list
	G string   `json:"g,omitempty"` // equivalent Go regexp
}

type PField struct {
	Path string `json:"path"`
	Ex   int    `json:"ex,omitempty"` // 1 exists:true, 2 exists:false
	Vals []Val  `json:"vals,omitempty"`
}

type Pattern struct {
	Fields []PField `json:"fields"`
	Text   string   `json:"text"`
	Bad    bool     `json:"bad,omitempty"` // not a valid pattern: AddPattern must fail
}

type EField struct {
	Path  string     `json:"path"`
	K     string     `json:"k"` // str num lit
	S     string     `json:"s"`
	Trail [][2]int32 `json:"trail,omitempty"`
}

type Event struct {
	Fields []EField `json:"fields"`
	Text   string   `json:"text"`
	Bad    int      `json:"bad,omitempty"` // 1: damaged somehow; 2: cut off before its end
}

// Group is one independent instance and its copies.
type Group struct {
	Deletion bool    `json:"deletion,omitempty"`
	Flat     bool    `json:"flat,omitempty"`  // user-supplied flattener
	Store    bool    `json:"store,omitempty"` // simulated pattern storage (needs the bridge)
	Ratio    float64 `json:"ratio,omitempty"` // rebuild policy override (needs the bridge)
	MinAct   int64   `json:"minact,omitempty"`
	MediaOpt bool    `json:"mediaopt,omitempty"` // pass the media type explicitly
}

type Op struct {
	ID     int    `json:"id"`
	Kind   string `json:"kind"` // add del match stats copy mode
	G      int    `json:"g"`
	H      int    `json:"h,omitempty"` // which of the task's copies
	X      string `json:"x,omitempty"`
	P      int    `json:"p,omitempty"`
	E      int    `json:"e,omitempty"`
	Mode   int    `json:"mode,omitempty"`
	N      int    `json:"n,omitempty"`      // repeat count for match
	Scrib  int    `json:"scrib,omitempty"`  // 1: scribble over the result, 2: over the event buffer, 4: reuse one buffer, 8: pad the event with spaces to a common length
	Fault  string `json:"fault,omitempty"`  // flat-err flat-part flat-panic, store-<call>-<before|after>, iter-mid
	Freeze uint64 `json:"freeze,omitempty"` // stop this task for good after so many steps of the operation
	FaultN int    `json:"faultn,omitempty"` // let so many chances to fail pass first
	Probe  bool   `json:"-"`
	Held   bool   `json:"held,omitempty"` // the stop may happen inside the library's locks
}

type Program struct {
	Scen         string         `json:"scen"`
	Seed         uint64         `json:"seed"`
	Groups       []Group        `json:"groups"`
	Tasks        int            `json:"tasks"`
	Setup        []Op           `json:"setup"`
	Conc         [][]Op         `json:"conc"`
	Final        []Op           `json:"final"`
	Patterns     []Pattern      `json:"patterns"`
	Events       []Event        `json:"events"`
	XKind        int            `json:"xkind,omitempty"`
	MapMode      int            `json:"mapmode,omitempty"`
	Jump         bool           `json:"jump,omitempty"`
	Evict        bool           `json:"evict,omitempty"`
	Probe        bool           `json:"probe,omitempty"` // match every event on every copy when all is quiet
	Fresh        bool           `json:"fresh,omitempty"` // compare with a fresh instance holding the live set
	Twin         bool           `json:"twin,omitempty"`  // compare statistics with a solo replay of the adds
	PurgeEvent   int            `json:"purge_event,omitempty"`
	PurgeFirst   int            `json:"purge_first,omitempty"` // patterns used by the purge rounds
	PurgeLast    int            `json:"purge_last,omitempty"`
	PurgeRounds  int            `json:"purge_rounds,omitempty"`
	PurgeAll     bool           `json:"purge_all,omitempty"`
	PurgeTraffic int            `json:"purge_traffic,omitempty"`
	Sentinel     bool           `json:"sentinel,omitempty"` // a pattern on a path that never occurs is live throughout
	Fan          bool           `json:"fan,omitempty"`
	Big          bool           `json:"big,omitempty"`
	Purge        bool           `json:"purge,omitempty"` // purge liveness check
	Strat        zzsim.Strategy `json:"strat"`
}

// Rec is what an operation did.
type Rec struct {
	Op        *Op
	Task      int
	Phase     int // 0 setup, 1 concurrent, 2 final
	Inv       uint64
	Resp      uint64
	Done      bool
	Err       string
	Panic     string
	Stack     string
	Res       []string    // results of a match, as X ids, in order
	Raw       []quamina.X // the returned slice itself
	Sent      string
	Copy      []quamina.X // its contents when returned (after our own scribbling)
	Stats     map[string]float64
	Steps     uint64
	BufBad    bool // event bytes were modified
	FaultHit  bool
	FaultSeen int
	Mode      int
	Handle    int
	Misuse    string
}

// Violation of one or more properties.
type Violation struct {
	Props  []string `json:"props"`
	Kind   string   `json:"kind"`
	Op     int      `json:"op"`
	Detail string   `json:"detail"`
}

// Sig identifies a violation for minimisation.
func (v *Violation) has(p string) bool {
	for _, q := range v.Props {
		if q == p {
			return true
		}
	}
	return false
}

// RunResult is what one run yields.
type RunResult struct {
	Violations []Violation
	Steps      uint64
	Counters   zzsim.Counters
	Decisions  []zzsim.Decision
	SchedHash  uint64
	HistHash   uint64
	SimNanos   int64
	Ops        map[string]int
	Faults     map[string]int
	Probes     map[string]int
}

// Replay is the replay file.
type Replay struct {
	Property  string           `json:"property"`
	Binary    string           `json:"binary"` // plain or race
	Violation Violation        `json:"violation"`
	Program   *Program         `json:"program"`
	Decisions []zzsim.Decision `json:"schedule"`
	Note      string           `json:"note,omitempty"`
	Trace     []string         `json:"trace,omitempty"`
}

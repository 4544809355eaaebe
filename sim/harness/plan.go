package main

import (
	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
)

// Op is one operation of a simulated caller.
type Op struct {
	K string `json:"k"`
	I int    `json:"i,omitempty"` // archive instance
	F int    `json:"f,omitempty"` // file index (taken modulo the number of files)
	H int    `json:"h,omitempty"` // handle slot of the task
	N int    `json:"n,omitempty"` // size, count, percentage, version
	M int    `json:"m,omitempty"` // chunk size, method
	S string `json:"s,omitempty"` // path
}

// InstSpec is one archive as some caller sees it.
type InstSpec struct {
	Arch    ArchSpec `json:"arch"`
	Pw      string   `json:"pw,omitempty"`
	Via     string   `json:"via"`               // mem or fs
	Vols    []int    `json:"vols,omitempty"`    // volume sizes
	Split   bool     `json:"split,omitempty"`   // .001 naming
	Latency int64    `json:"latency,omitempty"` // of every storage read, simulated ns
	Base    string   `json:"base,omitempty"`    // file name prefix
}

// CustFault makes the harness's own decompressors fail.
type CustFault struct {
	Inst int    `json:"inst"`
	K    int    `json:"k"`    // method number, -1 any
	Kind string `json:"kind"` // ctor read close
	At   int    `json:"at"`   // skip this many events first
	N    int    `json:"n"`    // fire this often
}

// Plan is one simulated run. Together with the code under test it determines
// the execution completely.
type Plan struct {
	Prop     string         `json:"prop"`
	Seed     uint64         `json:"seed"`
	Index    int            `json:"index"`
	Family   string         `json:"family"`
	NumCPU   int            `json:"numcpu"`
	PoolHit  int            `json:"poolhit"`
	Strategy int            `json:"strategy"`
	Mean     int64          `json:"mean,omitempty"`
	SyncPm   int            `json:"syncpm,omitempty"`
	Depth    int            `json:"depth,omitempty"`
	Horizon  int64          `json:"horizon,omitempty"`
	Race     bool           `json:"race,omitempty"` // to be run in the race build
	Insts    []InstSpec     `json:"insts"`
	Faults   []Fault        `json:"faults,omitempty"`
	Cust     []CustFault    `json:"cust,omitempty"`
	Methods  int            `json:"methods,omitempty"` // custom methods registered up front
	Mem      int            `json:"mem,omitempty"`     // watch the memory in use
	Drain    bool           `json:"drain,omitempty"`   // custom decoders read on when closed
	CMode    []int          `json:"cmode,omitempty"`   // how each custom decoder reads its input
	CSize    int            `json:"csize,omitempty"`
	Forward  bool           `json:"forward,omitempty"` // histories are forward-only: check single decode
	Pre      []Op           `json:"pre,omitempty"`
	Tasks    [][]Op         `json:"tasks"`
	Post     []Op           `json:"post,omitempty"`
	UseTrace bool           `json:"usetrace,omitempty"`
	Trace    []vsim.Preempt `json:"trace,omitempty"`
	OpLimit  int64          `json:"oplimit,omitempty"`
	Warmup   []int          `json:"warmup,omitempty"` // plan indices run before in the same process
	Tier     string         `json:"tier,omitempty"`
	BaseSeed uint64         `json:"baseseed,omitempty"`
}

// Violation is one observed breach.
type Violation struct {
	Class  string   `json:"class"`
	Props  []string `json:"props,omitempty"` // nil: every property
	Detail string   `json:"detail"`
	Task   int      `json:"task"`
	Op     int      `json:"op"`
	Stage  string   `json:"stage"`
	Clock  int64    `json:"clock"`
}

func (v *Violation) concerns(prop string) bool {
	if v.Props == nil {
		return true
	}
	for _, p := range v.Props {
		if p == prop {
			return true
		}
	}

	return false
}

// Outcome is what one run produced.
type Outcome struct {
	Viol     []Violation      `json:"viol,omitempty"`
	Trace    []vsim.Preempt   `json:"trace,omitempty"`
	Hash     uint64           `json:"hash"`    // schedule hash
	LogHash  uint64           `json:"loghash"` // hash of all results seen by the callers
	Points   int64            `json:"points"`
	Switches int64            `json:"switches"`
	SimTime  int64            `json:"simtime"`
	Overflow bool             `json:"overflow,omitempty"`
	Fired    map[string]int   `json:"fired,omitempty"`
	Probes   map[string]int64 `json:"probes,omitempty"`
	Ops      int              `json:"ops"`
	Log      []string         `json:"-"`
}

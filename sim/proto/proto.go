// Package proto is what the controller and its workers exchange.
package proto

import "time"

// Job is an order for a worker process.
type Job struct {
	Property string
	Seed     uint64
	From     int
	Stride   int
	Count    int     // at most that many runs (0: no limit)
	Seconds  float64 // at most that long
	Out      string
	Progress string
	RaceLog  string
	Sites    string
	Scratch  string
	Deep     bool

	Mode    string // "" search, "replay", "minimise", "hashes"
	Record  map[string][]uint32
	Kind    string // violation to preserve when minimising
	Indices []int  // "batch": run these, the last one must fail
}

// Found is a violation with everything needed to repeat it.
type Found struct {
	Index   int                 `json:"index"`
	Seed    uint64              `json:"seed"`
	Kind    string              `json:"kind"`
	Msg     string              `json:"msg"`
	Shape   string              `json:"workload,omitempty"`
	Record  map[string][]uint32 `json:"choices"`
	Trace   []string            `json:"trace,omitempty"`
	Hash    uint64              `json:"hash"`
	Shrinks int                 `json:"shrink_attempts,omitempty"`
	Done    []int               `json:"-"`
}

// Result is what a worker reports.
type Result struct {
	Runs       int
	Work       int
	Nontrivial int
	Steps      int64
	Switches   int64
	Preempts   int64
	SimTime    time.Duration
	Ignored    int // race reports about the harness itself
	Wall       time.Duration
	Probes     map[string]int
	Hashes     []uint64
	Samples    []string
	First      []string // first run digests ("hashes" mode)
	Found      *Found
	Error      string
}

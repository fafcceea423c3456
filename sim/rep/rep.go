// Package rep holds what the driver and the simulation processes exchange:
// batch statistics, violations and replay files.
package rep

import (
	"encoding/json"
	"os"
)

// Violation is what went wrong.
type Violation struct {
	Class  string `json:"class"`
	Task   int    `json:"task"`
	Op     int    `json:"op"`
	Step   uint64 `json:"step"`
	Detail string `json:"detail"`
}

// Same reports whether two violations are the same kind of thing.
func (v *Violation) Same(o *Violation) bool { return v != nil && o != nil && v.Class == o.Class }

// File is a replay file: the scenarios one process executes, the last of which
// violates the property.
type File struct {
	Property  string            `json:"property"`
	Engine    string            `json:"engine"` // mem, net, tool
	Race      bool              `json:"race,omitempty"`
	Seed      uint64            `json:"seed"`
	Batch     int               `json:"batch"`
	Index     int               `json:"index"`
	Violation *Violation        `json:"violation"`
	Minimised bool              `json:"minimised"`
	Trace     []string          `json:"trace,omitempty"` // for the reader; not used when replaying
	Scenarios []json.RawMessage `json:"scenarios"`
}

// Batch is what a simulation process reports about a batch of runs.
type Batch struct {
	Runs      int            `json:"runs"`
	Discarded int            `json:"discarded"`
	Steps     uint64         `json:"steps"`
	SimNanos  int64          `json:"sim_nanos,omitempty"`
	Counts    map[string]int `json:"counts"`
	Max       map[string]int `json:"max,omitempty"`
	Hashes    []uint64       `json:"hashes"` // one per run, of the interleaving / event history
	Trivial   int            `json:"trivial"`
	Sites     []int32        `json:"sites,omitempty"` // where tasks were preempted
	Digest    string         `json:"digest"`
	Oracle    int            `json:"oracle_calls,omitempty"`
	Samples   []string       `json:"samples,omitempty"`
	Other     map[string]int `json:"other,omitempty"` // deviations that are another property's business
	Violation *Violation     `json:"violation,omitempty"`
	Index     int            `json:"index,omitempty"`
	File      *File          `json:"file,omitempty"`
	Error     string         `json:"error,omitempty"`
}

func Load(path string) (*File, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f File
	return &f, json.Unmarshal(b, &f)
}

func (f *File) Save(path string) error {
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

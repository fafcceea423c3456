// Package netsim is the network simulator: nodes that use the real library,
// connected by simulated links, under a discrete-event clock. Everything that
// happens is written in the scenario; nothing else is random.
package netsim

import (
	"container/heap"
	"encoding/json"
	"fmt"
	"strings"

	"verifsim/obs"
	"verifsim/rep"
	"verifsim/rnd"
	"verifsim/simrt"
)

// Outcome of a run.
type Outcome struct {
	Violations []rep.Violation
	Hash       uint64
	Steps      uint64
	SimNanos   int64
	Counts     map[string]int
	Nontrivial bool
	Log        string
	Trace      []string
}

type event struct {
	at  int64
	seq int
	do  func()
}

type queue []*event

func (q queue) Len() int { return len(q) }
func (q queue) Less(i, j int) bool {
	return q[i].at < q[j].at || (q[i].at == q[j].at && q[i].seq < q[j].seq)
}
func (q queue) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *queue) Push(x any)   { *q = append(*q, x.(*event)) }
func (q *queue) Pop() any {
	o := *q
	e := o[len(o)-1]
	*q = o[:len(o)-1]
	return e
}

// sim is one simulated world.
type sim struct {
	now    int64
	seq    int
	q      queue
	events int
	capped bool
	out    Outcome
	hash   uint64
	log    strings.Builder
}

const ms = int64(1e6)

func newSim() *sim {
	return &sim{out: Outcome{Counts: map[string]int{}}}
}

func (s *sim) after(d int64, f func()) {
	s.seq++
	heap.Push(&s.q, &event{s.now + d, s.seq, f})
}

// step executes the next event; false if there is none.
func (s *sim) step() bool {
	if s.events >= 60000 { // not an outcome: what follows is not judged
		s.capped = true
		return false
	}
	if len(s.q) == 0 || len(s.out.Violations) > 0 {
		return false
	}
	e := heap.Pop(&s.q).(*event)
	simrt.Advance(e.at - s.now)
	s.now = e.at
	s.events++
	if s.events%97 == 0 { // the clock the library would see, if it looked
		simrt.Advance(3600e9)
	}
	e.do()
	return true
}

func (s *sim) count(k string) { s.out.Counts[k]++ }

func (s *sim) note(format string, a ...any) {
	t := fmt.Sprintf(format, a...)
	s.hash = s.hash*1099511628211 ^ rnd.Str(t)
	if len(s.out.Trace) < 400 {
		s.out.Trace = append(s.out.Trace, fmt.Sprintf("%8.3fms %s", float64(s.now)/1e6, t))
	}
}

func (s *sim) fail(class, format string, a ...any) {
	if s.capped {
		s.out.Counts["runs_cut_by_event_limit"] = 1
		return
	}
	if len(s.out.Violations) < 3 {
		s.out.Violations = append(s.out.Violations, rep.Violation{Class: class, Step: uint64(s.events), Detail: fmt.Sprintf("at %.3fms: ", float64(s.now)/1e6) + fmt.Sprintf(format, a...)})
	}
}

// call runs library code under a step allowance; a panic is a violation.
func (s *sim) call(what string, n int, f func()) bool {
	simrt.Begin(1<<16 + 800*uint64(n))
	defer simrt.Begin(1 << 40)
	p := obs.Guard(func() string { f(); return "" })
	if p == "" {
		return true
	}
	if p == "panic:step limit" {
		s.fail("steps", "%s does not end", what)
	} else {
		s.fail("panic", "%s: %s", what, p)
	}
	return false
}

// run executes a world as one task of the scheduler, whose step counter bounds
// what the library does.
func (s *sim) run(body func()) Outcome {
	r := simrt.Run(simrt.Policy{Kind: "replay"}, nil, []func(){func() {
		simrt.Begin(1 << 40)
		body()
	}})
	s.out.Steps = r.Steps
	s.out.SimNanos = s.now
	s.out.Hash = s.hash
	s.out.Log = fmt.Sprintf("%x %d %d", s.hash, s.events, s.now)
	return s.out
}

func clip(s string) string {
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func clone[T any](x *T) *T {
	var c T
	b, err := json.Marshal(x)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		panic(err)
	}
	return &c
}

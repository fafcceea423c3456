package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/instr"
	"verifsim/obs"
	"verifsim/rep"
	"verifsim/rnd"
	"verifsim/scen"
	"verifsim/simrt"
)

var (
	oracleCalls int
	answers     = map[string]string{}
)

// ask puts one question to a pristine process.
func ask(q obs.Req) string {
	k := q.Key()
	if a, ok := answers[k]; ok {
		return a
	}
	oracleCalls++
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, *oracle, k)
	if len(k) > 60000 {
		cmd = exec.CommandContext(ctx, *oracle, "-")
		cmd.Stdin = strings.NewReader(k)
	}
	var se strings.Builder
	cmd.Stderr = &se
	out, err := cmd.Output()
	a := ""
	switch {
	case ctx.Err() != nil:
		a = "hang"
	case err != nil:
		// the process died although panics are caught: the call is fatal even alone
		if strings.Contains(se.String(), "fatal error:") || strings.Contains(se.String(), "goroutine ") {
			a = "hang"
		} else {
			die(fmt.Errorf("oracle: %v: %s", err, se.String()))
		}
	case len(out) == 0 || out[0] != 'A':
		die(fmt.Errorf("oracle said %q", out))
	default:
		a = string(out[1:])
	}
	answers[k] = a
	return a
}

type mem struct {
	prop   string
	corpus *scen.Corpus
	races  int
	logged int
	last   *scen.Outcome
}

func newMem(prop string) *mem {
	m := &mem{prop: prop}
	if prop == "C16" {
		debug.SetGCPercent(-1) // only when a run says so
	}
	scen.Warm()
	return m
}

func (m *mem) start(r *rnd.R) {
	n, docs := 10, 0
	switch m.prop {
	case "C01":
		n, docs = 8, 3
	case "C02", "C03":
		n, docs = 12, 4
	case "C04":
		n = 12
	case "C05":
		n = 20
	case "C06", "C07":
		n = 5
	case "C08":
		n, docs = 0, 16
	case "C16":
		n, docs = 10, 3
	}
	m.corpus = scen.NewCorpus(r, n, docs)
}

func (m *mem) gen(r *rnd.R) any { return scen.Generate(m.prop, r, m.corpus, *thorough) }

func (m *mem) load(b json.RawMessage) (any, error) {
	var s scen.Scenario
	return &s, json.Unmarshal(b, &s)
}

func (m *mem) exec(x any) (*result, error) {
	s := x.(*scen.Scenario)
	out, err := s.Exec(ask)
	if err != nil {
		return nil, err
	}
	m.last = &out
	res := &result{discarded: out.Discarded, violations: out.Violations, hash: out.Run.Hash, steps: out.Run.Steps, counts: out.Counts, log: out.Log}
	if out.Discarded != "" {
		return res, nil
	}
	if n := raceErrors(); n > m.races {
		m.races = n
		res.violations = append(res.violations, rep.Violation{Class: "race", Detail: m.raceLog()})
	}
	c := *s
	c.Policy = simrt.Policy{}
	b, _ := json.Marshal(c)
	res.hash ^= rnd.Str(string(b)) * 0x9e3779b97f4a7c15
	pre := 0
	for _, w := range out.Run.Switches {
		if w.Site >= 0 && w.Step > 0 {
			res.sites = append(res.sites, w.Site)
			pre++
		}
	}
	res.counts["preemptions_inside_library"] += pre
	res.nontrivial = pre > 0
	for _, k := range []string{"mode_change", "parse_aborted_by_memory_fault", "decode_aborted_by_memory_fault", "decode_failed",
		"overwrite_input", "collection", "collection_inside_a_call", "refill_input", "unmap_input", "overwrite_result", "overwrite_encoding", "copy_destination"} {
		if out.Counts[k] > 0 {
			res.nontrivial = true
		}
	}
	for i := range s.Bufs {
		if p := s.Bufs[i].Place; p != "" && p != "heap" {
			res.counts["input_"+strings.ReplaceAll(p, "-", "_")]++
			res.nontrivial = true
		}
	}
	return res, nil
}

// raceLog is what the detector wrote since last time, without addresses.
func (m *mem) raceLog() string {
	path := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			path = fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	b, err := os.ReadFile(path)
	if err != nil || len(b) <= m.logged {
		return "data race (no report)"
	}
	text := string(b[m.logged:])
	m.logged = len(b)
	var out []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.Contains(l, " at 0x") && strings.Contains(l, " by "):
			i := strings.Index(l, " at 0x")
			out = append(out, l[:i])
		case strings.HasPrefix(l, "/") && len(out) > 0 && !strings.Contains(out[len(out)-1], " @ "):
			i := strings.LastIndex(l, " +0x")
			if i < 0 {
				i = len(l)
			}
			if strings.Contains(l, "/inst/") {
				l, i = l[strings.Index(l, "/inst/")+6:i], 0
				out[len(out)-1] += " @ " + l
			}
		case strings.HasPrefix(l, "Goroutine "):
			if len(out) >= 2 {
				return "data race: " + strings.Join(out[:2], " / ")
			}
		}
	}
	return "data race: " + strings.Join(out, " / ")
}

func (m *mem) pin(x any, res *result) any {
	s := *x.(*scen.Scenario)
	s.Policy = simrt.Policy{Kind: "replay", Seed: s.Policy.Seed, Switches: m.last.Run.Switches}
	return &s
}

func siteTable() []instr.Site {
	var t []instr.Site
	if b, err := os.ReadFile(*sites); err == nil {
		json.Unmarshal(b, &t)
	}
	return t
}

func (m *mem) trace(x any, res *result) []string {
	t := siteTable()
	var out []string
	for i, w := range m.last.Run.Switches {
		if i >= 60 {
			out = append(out, fmt.Sprintf("... %d more switches", len(m.last.Run.Switches)-i))
			break
		}
		where := ""
		switch {
		case w.Step == 0:
			out = append(out, fmt.Sprintf("task %d starts", w.Task))
			continue
		case w.Site == simrt.SiteEnd:
			where = "its end"
		case w.Site == simrt.SiteBlock:
			where = "a lock"
		case w.Site == simrt.SiteOp:
			where = "an operation boundary"
		case int(w.Site) < len(t):
			where = fmt.Sprintf("%s:%d in %s", t[w.Site].File, t[w.Site].Line, t[w.Site].Func)
		}
		out = append(out, fmt.Sprintf("step %d: task %d stops before %s; task %d goes on", w.Step, w.From, where, w.Task))
	}
	return out
}

func (m *mem) shrinks(x any, yield func(any) bool) bool {
	s := x.(*scen.Scenario)
	// with fewer operations the old switches hit other places: try them, then others
	resched := func(c *scen.Scenario) bool {
		if !yield(c) {
			return false
		}
		live := 0
		for _, t := range c.Tasks {
			if len(t) > 0 {
				live++
			}
		}
		if live < 2 {
			return true
		}
		r := rnd.New(c.Policy.Seed, uint64(len(c.Policy.Switches)))
		for k := 0; k < 6; k++ {
			d := *c
			d.Policy = scen.NewPolicy(r)
			d.Policy.Seed = c.Policy.Seed + uint64(k)
			if !yield(&d) {
				return false
			}
		}
		return true
	}
	for i := range s.Tasks {
		if len(s.Tasks[i]) == 0 {
			continue
		}
		if !resched(s.With(func(c *scen.Scenario) { c.Tasks[i] = nil })) {
			return false
		}
	}
	for i := range s.Tasks {
		for n := len(s.Tasks[i]) / 2; n >= 1; n /= 2 {
			for j := 0; j+n <= len(s.Tasks[i]); j += n {
				if n == len(s.Tasks[i]) {
					continue
				}
				if !resched(s.With(func(c *scen.Scenario) { c.Tasks[i] = append(c.Tasks[i][:j:j], c.Tasks[i][j+n:]...) })) {
					return false
				}
			}
		}
	}
	// unneeded switches
	for n := len(s.Policy.Switches) / 2; n >= 1; n /= 2 {
		for j := 1; j+n <= len(s.Policy.Switches); j += n {
			if !yield(s.With(func(c *scen.Scenario) {
				c.Policy.Switches = append(c.Policy.Switches[:j:j], c.Policy.Switches[j+n:]...)
			})) {
				return false
			}
		}
	}
	if s.Tick > 0 && !yield(s.With(func(c *scen.Scenario) { c.Tick = 0 })) {
		return false
	}
	for i := range s.Collect {
		if !yield(s.With(func(c *scen.Scenario) { c.Collect = append(c.Collect[:i:i], c.Collect[i+1:]...) })) {
			return false
		}
	}
	used := s.Used()
	for i := range s.Bufs {
		if !used[i] {
			if len(s.Bufs[i].Data) > 0 && !yield(s.With(func(c *scen.Scenario) { c.Bufs[i] = scen.Buf{} })) {
				return false
			}
			continue
		}
		if s.Bufs[i].Spare > 0 && !yield(s.With(func(c *scen.Scenario) { c.Bufs[i].Spare = 0 })) {
			return false
		}
		for n := len(s.Bufs[i].Data) / 2; n >= 1; n /= 2 {
			for j := 0; j+n <= len(s.Bufs[i].Data); j += n {
				if !yield(s.With(func(c *scen.Scenario) {
					d := c.Bufs[i].Data
					c.Bufs[i].Data = append(append([]byte(nil), d[:j]...), d[j+n:]...)
					c.Bufs[i].AbortAt = min(c.Bufs[i].AbortAt, len(d)-n)
				})) {
					return false
				}
			}
		}
	}
	return true
}

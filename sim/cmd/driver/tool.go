package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifsim/rep"
	"verifsim/rnd"
	"verifsim/toolsim"
)

// What each property judges.
var toolClasses = map[string][]string{
	"C11": {"content", "mode", "other-file", "litter"},
	"C12": {"status", "needless", "silent", "hang"},
	"C15": {"history"},
}

func toolVerdict(prop string, o *toolsim.Outcome) *rep.Violation {
	for _, c := range toolClasses[prop] {
		if d := o.Class[c]; d != "" {
			return &rep.Violation{Class: c, Detail: d, Step: uint64(len(o.Calls))}
		}
	}
	return nil
}

// buildTools compiles the tools of the current tree against a standard library
// whose file system calls pass through the fault plan.
func buildTools(dir string) (map[string]string, error) {
	root, err := goroot()
	if err != nil {
		return nil, err
	}
	p := root + "/src/syscall/syscall_linux.go"
	src, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	if src, err = toolsim.Patch(src); err != nil {
		return nil, err
	}
	if err := os.WriteFile(dir+"/syscall_linux.go", src, 0o644); err != nil {
		return nil, err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{p: dir + "/syscall_linux.go"}})
	if err := os.WriteFile(dir+"/overlay.json", ov, 0o644); err != nil {
		return nil, err
	}
	bin := map[string]string{"probe": filepath.Join(dir, "probe")}
	if err := os.Mkdir(dir+"/src-probe", 0o755); err != nil {
		return nil, err
	}
	for name, text := range map[string]string{"go.mod": "module probe\n\ngo 1.22\n", "main.go": probeSrc} {
		if err := os.WriteFile(dir+"/src-probe/"+name, []byte(text), 0o644); err != nil {
			return nil, err
		}
	}
	if err := goBuild(dir+"/src-probe", "-overlay="+dir+"/overlay.json", "-o", bin["probe"], "."); err != nil {
		return nil, err
	}
	for _, t := range []string{"removecomments", "snake2camel"} {
		// The tools are modules of their own; a copy keeps the build from
		// touching the tree.
		from, to := filepath.Join(repo, "tools", t), filepath.Join(dir, "src-"+t)
		if err := os.CopyFS(to, os.DirFS(from)); err != nil {
			return nil, err
		}
		bin[t] = filepath.Join(dir, t)
		if err := goBuild(to, "-overlay="+dir+"/overlay.json", "-o", bin[t], "."); err != nil {
			return nil, err
		}
		if err := os.Chmod(bin[t], 0o755); err != nil {
			return nil, err
		}
	}
	return bin, nil
}

// probeSrc is a program that shows whether the fault plan gets through.
const probeSrc = `package main

import "os"

func main() {
	if _, err := os.ReadFile(os.Args[1]); err != nil {
		os.Exit(1)
	}
}
`

type toolJob struct {
	runs, trivial int
	calls         int
	hashes        []uint64
	counts        map[string]int
	other         map[string]int
	digest        uint64
	sample        string
	bad           *toolsim.Scn
	v             *rep.Violation
	trace         []string
	err           error
}

// scenario executes one scenario: once without faults, then under fault plans.
func toolScenario(m *toolsim.Sim, prop string, seed uint64, index, plans int, id string) *toolJob {
	j := &toolJob{counts: map[string]int{}, other: map[string]int{}}
	r := rnd.New(seed, rnd.Str("tools"), uint64(index))
	s := toolsim.Gen(r)
	var clean []toolsim.Call
	for k := 0; k <= plans; k++ {
		c := *s
		if k > 0 {
			if prop == "C15" {
				c = *toolsim.History(r, s, clean)
			} else {
				c = *toolsim.Vary(r, s, clean)
			}
		}
		o := m.Run(&c, id)
		if o.Err != nil {
			j.err = o.Err
			return j
		}
		if k == 0 {
			clean = o.Calls
			if c.Layout != "plain" {
				j.counts["layout_"+c.Layout]++
			}
		}
		j.runs++
		j.calls += len(o.Calls)
		j.digest = j.digest*1099511628211 + o.Hash
		if c.Env.TmpApart {
			j.counts["temporary_directory_on_another_file_system"]++
		}
		if c.Env.Std != "" {
			j.counts[strings.ReplaceAll(c.Env.Std, "-", "_")]++
		}
		if c.Env.Umask != 0o22 {
			j.counts[fmt.Sprintf("umask_%03o", c.Env.Umask)]++
		}
		if c.Peer != nil {
			j.counts["two_processes_at_once"]++
		}
		if len(c.Steps) > 0 {
			j.counts["histories"]++
			j.counts["runs_in_histories"] += 1 + len(c.Steps)
			j.counts["undisturbed_runs_judged"] += o.Undisturbed
			for _, st := range c.Steps {
				if st.Change != nil {
					j.counts["file_changed_between_runs"]++
					if st.Change.Time != "" {
						j.counts["time_stamp_"+st.Change.Time]++
					}
				}
			}
		}
		if c.Again && len(o.Class) == 0 {
			j.counts["run_again_on_what_was_left"]++
		}
		for f, n := range o.Fired {
			if f == "capped" {
				n = 1
			}
			j.counts["fault_"+strings.ReplaceAll(f, "-", "_")] += n
		}
		for i, c := range o.Calls {
			if c.Fault != "-" && c.Fault != "capped" && i < 600 {
				j.counts["faulted_call_"+c.Kind]++
			}
		}
		switch {
		case o.Exit == 0:
			j.counts["runs_exit_zero"]++
		case o.Exit > 0:
			j.counts["runs_exit_nonzero"]++
		default:
			j.counts["runs_killed"]++
		}
		if len(o.Fired) == 0 && c.Layout == "plain" {
			j.trivial++
		} else {
			j.hashes = append(j.hashes, o.Hash)
		}
		if k == 1 {
			j.sample = fmt.Sprintf("%s %s mode %04o, %d bytes, %d other files; plan: %v; outcome: exit %d, file %s", c.Tool, c.Layout, c.File.Mode, len(c.File.Content), len(c.Others), c.Plan, o.Exit, o.Content)
		}
		if v := toolVerdict(prop, o); v != nil {
			j.bad, j.v, j.trace = &c, v, o.Trace()
			return j
		}
		for c := range o.Class {
			j.other[c]++
		}
	}
	return j
}

func toolMain(prop, tier string, seed uint64, replayFile string) {
	if err := os.Chmod(scratch, 0o755); err != nil {
		fail("%v", err)
	}
	bin, err := buildTools(scratch)
	if err != nil {
		fail("%v", err)
	}
	buildTime := time.Since(started)
	m := &toolsim.Sim{Bin: bin, Scratch: scratch, Unpriv: os.Geteuid() == 0}
	if replayFile != "" {
		toolReplay(m, prop, replayFile)
	}
	// Does the seam work? A plan that fails the first call must be seen to.
	probe := &toolsim.Scn{Tool: "probe", Layout: "plain", File: toolsim.File{Name: "f", Content: []byte("x\n"), Mode: 0o644}}
	clean := m.Run(probe, "probe")
	if clean.Err != nil {
		fail("%v", clean.Err)
	}
	probe.Plan = []toolsim.Flt{{Op: "e", At: 0, Err: int(syscall.EIO)}}
	failed := m.Run(probe, "probe")
	if failed.Err != nil {
		fail("%v", failed.Err)
	}
	if len(clean.Calls) == 0 || clean.Exit != 0 || failed.Exit != 1 || failed.Fired["errno"] != 1 {
		fail("the fault plan does not get through to the file system calls of a program: %v exit %d, %v exit %d", clean.Calls, clean.Exit, failed.Calls, failed.Exit)
	}
	scns, plans, limit := 1500, 24, 5*time.Minute
	if prop == "C15" {
		plans = 12
	}
	if tier == "thorough" {
		scns, plans, limit = 60000, 60, 60*time.Minute
	}
	if s := os.Getenv("VSIM_BATCHES"); s != "" {
		fmt.Sscan(s, &scns)
	}
	workers := runtime.NumCPU()
	fmt.Sscan(os.Getenv("VSIM_WORKERS"), &workers)
	jobs := make([]*toolJob, scns)
	var next, stop atomic.Int64
	stop.Store(int64(scns))
	end := time.Now().Add(limit)
	var truncated atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := next.Add(1) - 1
				if i >= stop.Load() {
					return
				}
				if time.Now().After(end) {
					truncated.Store(true)
					return
				}
				j := toolScenario(m, prop, seed, int(i), plans, fmt.Sprint(i))
				jobs[i] = j
				if j.err != nil || j.v != nil {
					for {
						s := stop.Load()
						if s <= i+1 || stop.CompareAndSwap(s, i+1) {
							break
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	simTime := time.Since(started) - buildTime
	tot := &toolJob{counts: map[string]int{}, other: map[string]int{}}
	hashes := map[uint64]bool{}
	samples := []string{}
	bad := -1
	for i, j := range jobs {
		if j == nil {
			continue
		}
		if bad < 0 && (j.err != nil || j.v != nil) {
			bad = i
		}
		tot.runs += j.runs
		tot.calls += j.calls
		for k, n := range j.counts {
			tot.counts[k] += n
		}
		for k, n := range j.other {
			tot.other[k] += n
		}
		for _, h := range j.hashes {
			hashes[h] = true
		}
		if len(samples) < 5 && j.sample != "" {
			samples = append(samples, j.sample)
		}
	}
	again, differ := 0, 0
	if bad < 0 {
		for i := 0; i < scns; i += max(1, scns/24) {
			if jobs[i] == nil {
				continue
			}
			again++
			if toolScenario(m, prop, seed, i, plans, "again").digest != jobs[i].digest {
				differ++
			}
		}
		if differ > 0 {
			fmt.Printf("WARNING: %d of %d repeated scenarios went differently\n", differ, again)
		}
	}
	cov := map[string]any{
		"evaluations":                        tot.runs,
		"distinct_nontrivial":                len(hashes),
		"rule":                               "A run is one execution of a tool on a file layout under a fault plan. Non-trivial: at least one planned fault took effect, or the layout is not just a plain file. Distinct: by tool, file content, layout, the sequence of file system calls with their results and faults, exit status and final state.",
		"samples":                            samples,
		"scenarios":                          scns,
		"fault_plans_per_scenario":           plans,
		"runs_per_hour":                      int(float64(tot.runs) / simTime.Seconds() * 3600),
		"seeds_per_hour":                     int(float64(tot.runs) / simTime.Seconds() * 3600),
		"simulated_time":                     fmt.Sprintf("%d file system calls (the tools read no clock)", tot.calls),
		"operations_and_faults":              tot.counts,
		"deviations_left_to_other_checks":    tot.other,
		"scenarios_repeated_for_determinism": again,
		"scenarios_that_differed":            differ,
		"real_components":                    []string{"tools/removecomments and tools/snake2camel, whole programs of the current source", "Go runtime, os, regexp, fmt", "kernel file system below the fault plan (scratch directory, unprivileged user)"},
		"stub_components":                    []string{"syscall.Syscall and Syscall6 (fault plan, kills, short and interrupted transfers)", "fsync (marks the data as flushed; what a power failure keeps of unflushed data is the plan's choice)", "the order in which two processes make their calls"},
		"truncated_by_time":                  truncated.Load(),
		"build_s":                            buildTime.Seconds(),
	}
	assume := []string{"a kill stops the process between or inside system calls; a power failure keeps all directory changes made before it and, per file, the flushed data plus a planned length of what was not flushed",
		"the tools reach the file system only through the Go standard library"}
	fmt.Printf("%d runs of %d scenarios, %d distinct non-trivial, %d file system calls, build %.1fs, runs %.1fs\n", tot.runs, scns, len(hashes), tot.calls, buildTime.Seconds(), simTime.Seconds())
	keys := []string{}
	for k := range tot.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-40s %d\n", k, tot.counts[k])
	}
	for k, v := range tot.other {
		fmt.Printf("  other property's business: %s %d\n", k, v)
	}
	if bad >= 0 && jobs[bad].err != nil {
		evidence(prop, tier, seed, cov, assume, 0)
		fail("scenario %d: %v", bad, jobs[bad].err)
	}
	if bad >= 0 {
		evidence(prop, tier, seed, cov, assume, 1)
		j := jobs[bad]
		f := toolShrink(m, prop, j)
		f.Property, f.Engine, f.Seed, f.Batch = prop, "tool", seed, bad
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d-%d.json", prop, seed, bad))
		os.MkdirAll(filepath.Dir(path), 0o755)
		if err := f.Save(path); err != nil {
			fail("%v", err)
		}
		toolShow(f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		exit(1)
	}
	evidence(prop, tier, seed, cov, assume, 0)
	if tot.runs == 0 {
		fail("nothing was explored")
	}
	fmt.Printf("OK property=%s\n", prop)
	exit(0)
}

// toolShrink looks for a smaller scenario with the same kind of violation.
func toolShrink(m *toolsim.Sim, prop string, j *toolJob) *rep.File {
	best, v, trace := j.bad, j.v, j.trace
	end := time.Now().Add(20 * time.Second)
	try := func(c toolsim.Scn) bool {
		if time.Now().After(end) {
			return false
		}
		o := m.Run(&c, "shrink")
		if o.Err != nil {
			return false
		}
		if w := toolVerdict(prop, o); w.Same(v) {
			best, v, trace = &c, w, o.Trace()
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(best.Plan); i++ {
			c := *best
			c.Plan = append(append([]toolsim.Flt{}, best.Plan[:i]...), best.Plan[i+1:]...)
			if try(c) {
				changed = true
				i--
			}
		}
		for i := 0; i < len(best.Others); i++ {
			c := *best
			c.Others = append(append([]toolsim.File{}, best.Others[:i]...), best.Others[i+1:]...)
			if try(c) {
				changed = true
				i--
			}
		}
		if best.Peer != nil {
			c := *best
			c.Peer = nil
			changed = try(c) || changed
		}
		if best.Peer != nil && best.Peer.Plan != nil {
			c, p := *best, *best.Peer
			p.Plan, c.Peer = nil, &p
			changed = try(c) || changed
		}
		for i := 0; best.Peer != nil && i < len(best.Peer.Turns); i++ {
			for _, n := range []int{0, 1, best.Peer.Turns[i] - 1} {
				if n < 0 || n >= best.Peer.Turns[i] {
					continue
				}
				c, p := *best, *best.Peer
				p.Turns = append([]int{}, p.Turns...)
				p.Turns[i], c.Peer = n, &p
				if try(c) {
					changed = true
					break
				}
			}
		}
		if best.Again {
			c := *best
			c.Again, c.Then, c.Next = false, nil, ""
			changed = try(c) || changed
		}
		if best.Then != nil {
			c := *best
			c.Then = nil
			changed = try(c) || changed
		}
		for i := 0; i < len(best.Steps)-1; i++ {
			c := *best
			c.Steps = append(append([]toolsim.Step{}, best.Steps[:i]...), best.Steps[i+1:]...)
			if try(c) {
				changed = true
				i--
			}
		}
		for i := range best.Steps {
			if len(best.Steps[i].Plan) > 0 {
				c := *best
				c.Steps = append([]toolsim.Step{}, best.Steps...)
				c.Steps[i].Plan = c.Steps[i].Plan[1:]
				changed = try(c) || changed
			}
			if best.Steps[i].Change != nil {
				c := *best
				c.Steps = append([]toolsim.Step{}, best.Steps...)
				c.Steps[i].Change = nil
				changed = try(c) || changed
			}
			if ch := best.Steps[i].Change; ch != nil {
				for n := (len(ch.Content) + 1) / 2; n > 0; n /= 2 {
					for k := 0; k+n <= len(best.Steps[i].Change.Content); {
						d := *best.Steps[i].Change
						d.Content = append(append([]byte{}, d.Content[:k]...), d.Content[k+n:]...)
						c := *best
						c.Steps = append([]toolsim.Step{}, best.Steps...)
						c.Steps[i].Change = &d
						if try(c) {
							changed = true
						} else {
							k += n
						}
					}
				}
				if ch = best.Steps[i].Change; ch.Rename || ch.Time != "" || ch.Mode != 0 {
					d := *ch
					d.Rename, d.Time, d.Mode = false, "", 0
					c := *best
					c.Steps = append([]toolsim.Step{}, best.Steps...)
					c.Steps[i].Change = &d
					changed = try(c) || changed
				}
			}
		}
		if best.Second != nil {
			c := *best
			c.Second = nil
			changed = try(c) || changed
		}
		for _, f := range []func(e *toolsim.Env){func(e *toolsim.Env) { e.Umask = 0o22 }, func(e *toolsim.Env) { e.TmpApart = false }, func(e *toolsim.Env) { e.Std = "" }} {
			c := *best
			if f(&c.Env); c.Env != best.Env && try(c) {
				changed = true
			}
		}
		if best.Layout != "plain" {
			c := *best
			c.Layout = "plain"
			changed = try(c) || changed
		}
		if best.File.Name != "machine.go" && len(best.Others) == 0 {
			c := *best
			c.File.Name = "machine.go"
			changed = try(c) || changed
		}
		if best.File.Mode != 0o644 {
			c := *best
			c.File.Mode = 0o644
			changed = try(c) || changed
		}
		for n := (len(best.File.Content) + 1) / 2; n > 0; n /= 2 {
			for i := 0; i+n <= len(best.File.Content); {
				c := *best
				c.File.Content = append(append([]byte{}, best.File.Content[:i]...), best.File.Content[i+n:]...)
				if try(c) {
					changed = true
				} else {
					i += n
				}
			}
		}
		for i := range best.Plan {
			for _, a := range []int{0, 1, best.Plan[i].Arg / 2, best.Plan[i].Arg - 1} {
				if a < 0 || a >= best.Plan[i].Arg {
					continue
				}
				c := *best
				c.Plan = append([]toolsim.Flt{}, best.Plan...)
				c.Plan[i].Arg = a
				if try(c) {
					changed = true
					break
				}
			}
		}
		if time.Now().After(end) {
			break
		}
	}
	// Does it happen again, exactly?
	o := m.Run(best, "confirm")
	if w := toolVerdict(prop, o); !w.Same(v) || w.Detail != v.Detail {
		fmt.Println("note: the violation did not show again in the same way")
	}
	sc, _ := json.Marshal(best)
	return &rep.File{Violation: v, Minimised: true, Trace: trace, Scenarios: []json.RawMessage{sc}}
}

func toolShow(f *rep.File) {
	var s toolsim.Scn
	json.Unmarshal(f.Scenarios[0], &s)
	fmt.Printf("violation (%s):\n  %s\n", f.Violation.Class, f.Violation.Detail)
	c := fmt.Sprintf("%q", s.File.Content)
	if len(c) > 300 {
		c = c[:300] + "..."
	}
	fmt.Printf("  tool %s, layout %s, file %q mode %04o content %s, %d other files\n", s.Tool, s.Layout, s.File.Name, s.File.Mode, c, len(s.Others))
	for _, p := range s.Plan {
		fmt.Println("  fault: " + p.String())
	}
	fmt.Printf("  umask %03o", s.Env.Umask)
	if s.Env.TmpApart {
		fmt.Printf(", directory for temporary files on another file system")
	}
	if s.Env.Std != "" {
		fmt.Printf(", %s", s.Env.Std)
	}
	fmt.Println()
	if s.Peer != nil {
		f := "the same file"
		if s.Peer.File != nil {
			f = fmt.Sprintf("the file %q", s.Peer.File.Name)
		}
		fmt.Printf("  at the same time %s works on %s; calls made in turn: %v\n", s.Peer.Tool, f, s.Peer.Turns)
		for _, p := range s.Peer.Plan {
			fmt.Println("  fault in it: " + p.String())
		}
	}
	if s.Again {
		if s.Next != "" {
			fmt.Println("  then " + s.Next + " is run")
		} else {
			fmt.Println("  then the tool is run again")
		}
		for _, p := range s.Then {
			fmt.Println("  fault then: " + p.String())
		}
	}
	for i, st := range s.Steps {
		on := "it"
		if st.Second {
			on = fmt.Sprintf("%q", s.Second.Name)
		}
		if ch := st.Change; ch != nil {
			c := fmt.Sprintf("%q", ch.Content)
			if len(c) > 200 {
				c = c[:200] + "..."
			}
			fmt.Printf("  then someone changes %s: content %s (whole: %v, by renaming: %v, time stamp: %q, mode %04o)\n", on, c, ch.Exact, ch.Rename, ch.Time, ch.Mode)
		}
		fmt.Printf("  run %d: %s on %s\n", i+2, st.Tool, on)
		for _, p := range st.Plan {
			fmt.Println("  fault in it: " + p.String())
		}
	}
	for i, t := range f.Trace {
		if i < 40 || i == len(f.Trace)-1 {
			fmt.Println("  " + t)
		}
	}
}

func toolReplay(m *toolsim.Sim, prop, file string) {
	f, err := rep.Load(file)
	if err != nil {
		fail("%v", err)
	}
	var s toolsim.Scn
	if len(f.Scenarios) != 1 || json.Unmarshal(f.Scenarios[0], &s) != nil {
		fail("%s is no replay file of a tool", file)
	}
	o := m.Run(&s, "replay")
	if o.Err != nil {
		fail("%v", o.Err)
	}
	v := toolVerdict(prop, o)
	if v == nil {
		fmt.Printf("OK property=%s: the replay shows no violation\n", prop)
		exit(0)
	}
	f.Violation, f.Trace = v, o.Trace()
	toolShow(f)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	exit(1)
}

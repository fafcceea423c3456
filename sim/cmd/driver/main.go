// Command driver is the check of one property: it builds the simulation
// processes from the source tree, has them execute a seeded set of simulated
// runs, minimises what fails and writes the evidence.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/rep"
)

var (
	repo    = env("VSIM_REPO", "/repo")
	verif   = env("VSIM_VERIF", "/verif")
	simDir  = verif + "/sim"
	started = time.Now()
	scratch string
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// fail is the error exit: the check could not decide.
func fail(format string, a ...any) {
	fmt.Printf("ERROR: "+format+"\n", a...)
	exit(2)
}

func exit(code int) {
	if scratch != "" && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(scratch)
	}
	os.Exit(code)
}

type plan struct {
	race          bool
	batches, runs int // quick
	tbatch, truns int // thorough
	raceEvery     int // every how many batches one runs under the race detector (1: all)
	real, stub    []string
	rule          string
	assume        []string
}

func main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fail("usage: driver PROPERTY [--replay FILE]")
	}
	prop := args[0]
	replayFile := ""
	for i := 1; i+1 < len(args); i++ {
		if args[i] == "--replay" {
			replayFile = args[i+1]
		}
	}
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		fail("VERIF_SEED: %v", err)
	}
	tier := env("VERIF_TIER", "quick")
	if tier != "quick" && tier != "thorough" {
		fail("VERIF_TIER is %q", tier)
	}
	if scratch, err = os.MkdirTemp("", "vsim-"); err != nil {
		fail("%v", err)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() { <-sig; exit(2) }()
	fmt.Printf("property %s tier %s seed %d\n", prop, tier, seed)
	switch {
	case toolClasses[prop] != nil:
		toolMain(prop, tier, seed, replayFile)
	case plans[prop] != nil:
		simMain(prop, plans[prop], tier, seed, replayFile)
	default:
		fail("unknown property %s", prop)
	}
}

type job struct {
	batch int
	race  bool
	res   *rep.Batch
	err   string
	crash *rep.Violation
	upto  int
}

func (b *bins) bin(race bool) string {
	if race {
		return b.wrace
	}
	return b.worker
}

// work executes one batch in its own process.
func (b *bins) work(prop string, j *job, seed uint64, runs int, thorough bool, limit time.Duration) {
	dir, err := os.MkdirTemp(scratch, "job-")
	if err != nil {
		j.err = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(b.bin(j.race), "-mode", "run", "-prop", prop, "-seed", fmt.Sprint(seed), "-batch", fmt.Sprint(j.batch), "-runs", fmt.Sprint(runs),
		"-oracle", b.oracle, "-sites", b.sites, "-progress", dir+"/progress", "-thorough="+fmt.Sprint(thorough))
	cmd.Env = append(goEnv(), "GORACE=log_path="+dir+"/race atexit_sleep_ms=0 exitcode=0", "GOMAXPROCS=1", "GODEBUG=clobberfree=1,gcstoptheworld=2", "GOGC=200")
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		j.err = err.Error()
		return
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	hang := !t.Stop()
	p, _ := os.ReadFile(dir + "/progress")
	if l := strings.Fields(string(p)); len(l) > 0 {
		j.upto, _ = strconv.Atoi(l[len(l)-1])
	}
	switch {
	case hang:
		j.crash = &rep.Violation{Class: "crash", Detail: "the process hangs"}
	case err != nil && strings.Contains(se.String(), "harness error"):
		j.err = se.String()
	case err != nil:
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			j.err = "the simulation process was killed from outside (memory?)"
			return
		}
		s := se.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		j.crash = &rep.Violation{Class: "crash", Detail: "the process dies: " + s}
	default:
		j.res = &rep.Batch{}
		if err := json.Unmarshal([]byte(so.String()), j.res); err != nil {
			j.err = "unreadable report: " + err.Error()
		}
	}
}

func simMain(prop string, p *plan, tier string, seed uint64, replayFile string) {
	b, err := build(scratch, p.race)
	if err != nil {
		fail("%v", err)
	}
	if b.instr.Opaque != "" {
		fmt.Printf("note: the source is not under the scheduler's control (%s); calls run as atomic steps\n", b.instr.Opaque)
	}
	buildTime := time.Since(started)
	if replayFile != "" {
		replayMain(prop, b, replayFile)
	}
	thorough := tier == "thorough"
	batches, runs := p.batches, p.runs
	limit := 6 * time.Minute
	if thorough {
		batches, runs = p.tbatch, p.truns
		limit = 60 * time.Minute
	}
	if s := os.Getenv("VSIM_BATCHES"); s != "" {
		batches, _ = strconv.Atoi(s)
	}
	end := time.Now().Add(limit)
	jobs := make([]*job, batches)
	var mu sync.Mutex
	next, stop := 0, batches
	truncated := false
	var wg sync.WaitGroup
	workers, _ := strconv.Atoi(env("VSIM_WORKERS", "8"))
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if i >= stop {
					mu.Unlock()
					return
				}
				if time.Now().After(end) {
					truncated, stop = true, i
					mu.Unlock()
					return
				}
				next++
				j := &job{batch: i, race: p.race && i%p.raceEvery == 0}
				jobs[i] = j
				mu.Unlock()
				b.work(prop, j, seed, runs, thorough, 150*time.Second)
				if j.err != "" || j.crash != nil || (j.res != nil && j.res.Violation != nil) {
					mu.Lock()
					stop = min(stop, i+1)
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	simTime := time.Since(started) - buildTime
	tot := &rep.Batch{Counts: map[string]int{}, Max: map[string]int{}, Other: map[string]int{}}
	hashes := map[uint64]bool{}
	sites := map[int32]bool{}
	var bad *job
	nraces := 0
	for _, j := range jobs {
		if j == nil {
			continue
		}
		if bad == nil && (j.err != "" || j.crash != nil || (j.res != nil && j.res.Violation != nil)) {
			bad = j
		}
		r := j.res
		if r == nil {
			continue
		}
		tot.Runs += r.Runs
		tot.Discarded += r.Discarded
		tot.Steps += r.Steps
		tot.SimNanos += r.SimNanos
		tot.Oracle += r.Oracle
		tot.Trivial += r.Trivial
		if j.race {
			nraces += r.Runs
		}
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		for k, v := range r.Other {
			tot.Other[k] += v
		}
		for k, v := range r.Max {
			tot.Max[k] = max(tot.Max[k], v)
		}
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		for _, s := range r.Sites {
			sites[s] = true
		}
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
	}
	// the same batches again, in fresh processes: the same runs?
	again, differ := 0, 0
	if bad == nil {
		pick := []int{0, 1, batches / 2, batches - 1}
		seen := map[int]bool{}
		for _, i := range pick {
			if i < 0 || i >= len(jobs) || jobs[i] == nil || jobs[i].res == nil || seen[i] {
				continue
			}
			seen[i] = true
			wg.Add(1)
			go func() {
				defer wg.Done()
				j := &job{batch: i, race: jobs[i].race}
				b.work(prop, j, seed, runs, thorough, 150*time.Second)
				mu.Lock()
				again++
				if j.res == nil || j.res.Digest != jobs[i].res.Digest {
					differ++
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
		if differ > 0 {
			fmt.Printf("WARNING: %d of %d repeated batches went differently\n", differ, again)
		}
	}
	cov := map[string]any{
		"evaluations":                      tot.Runs,
		"distinct_nontrivial":              len(hashes),
		"rule":                             p.rule,
		"samples":                          tot.Samples,
		"batches_each_in_its_own_process":  batches,
		"runs_under_race_detector":         nraces,
		"runs_discarded":                   tot.Discarded,
		"runs_per_hour":                    int(float64(tot.Runs) / simTime.Seconds() * 3600),
		"seeds_per_hour":                   int(float64(tot.Runs) / simTime.Seconds() * 3600),
		"scheduler_steps":                  tot.Steps,
		"operations_and_faults":            tot.Counts,
		"maxima":                           tot.Max,
		"pristine_process_questions":       tot.Oracle,
		"distinct_preemption_points":       len(sites),
		"preemption_points_total":          len(b.instr.Sites),
		"deviations_left_to_other_checks":  tot.Other,
		"batches_repeated_for_determinism": again,
		"batches_that_differed":            differ,
		"real_components":                  p.real,
		"stub_components":                  p.stub,
		"truncated_by_time":                truncated,
		"build_s":                          buildTime.Seconds(),
	}
	if tot.SimNanos > 0 {
		cov["simulated_seconds"] = float64(tot.SimNanos) / 1e9
	} else {
		cov["simulated_time"] = fmt.Sprintf("%d scheduler steps (the code under test reads no clock)", tot.Steps)
	}
	if b.instr.Opaque != "" {
		cov["not_under_scheduler"] = b.instr.Opaque
	}
	fmt.Printf("%d runs (%d discarded), %d distinct non-trivial, %d steps, build %.1fs, runs %.1fs\n", tot.Runs, tot.Discarded, len(hashes), tot.Steps, buildTime.Seconds(), simTime.Seconds())
	keys := []string{}
	for k := range tot.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-40s %d\n", k, tot.Counts[k])
	}
	for k, v := range tot.Other {
		fmt.Printf("  other property's business: %s %d\n", k, v)
	}
	if bad != nil && bad.err != "" {
		evidence(prop, tier, seed, cov, p.assume, 0)
		fail("batch %d: %s", bad.batch, bad.err)
	}
	if bad != nil {
		cov["violation_batch"] = bad.batch
		evidence(prop, tier, seed, cov, p.assume, 1)
		// The first one that shows again in a fresh process is reported. What
		// depends on where the runtime puts things in memory may not.
		more := func() (l []*job) {
			for i := bad.batch + 1; i < bad.batch+25 && i < batches; i++ {
				if jobs[i] != nil && jobs[i].crash == nil && (jobs[i].res == nil || jobs[i].res.Violation == nil) {
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					j := jobs[i]
					if j == nil {
						j = &job{batch: i, race: p.race && i%p.raceEvery == 0}
						b.work(prop, j, seed, runs, thorough, 60*time.Second)
					}
					if j.res != nil && j.res.Violation != nil {
						mu.Lock()
						l = append(l, j)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			sort.Slice(l, func(i, k int) bool { return l[i].batch < l[k].batch })
			return
		}
		report(prop, b, bad, seed, runs, thorough, more)
	}
	evidence(prop, tier, seed, cov, p.assume, 0)
	if tot.Runs == 0 {
		fail("nothing was explored")
	}
	if tot.Discarded*5 > tot.Runs {
		fmt.Printf("WARNING: %d runs were discarded because a call alone does not end\n", tot.Discarded)
	}
	fmt.Printf("OK property=%s\n", prop)
	exit(0)
}

func report(prop string, b *bins, bad *job, seed uint64, runs int, thorough bool, more func() []*job) {
	f, s := minimise(prop, b, bad, seed, runs, thorough)
	if s.Error != "" && more != nil {
		for k, j := range more() {
			if k == 8 {
				break
			}
			if f2, s2 := minimise(prop, b, j, seed, runs, thorough); s2.Error == "" {
				f, s = f2, s2
				break
			}
		}
	}
	if s.Error != "" {
		fmt.Printf("note: %s\n", s.Error)
		if f.Violation.Class == "crash" {
			fail("a simulation process died (%s) but did not do so again", f.Violation.Detail)
		}
	}
	path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d-%d-%d.json", prop, seed, f.Batch, f.Index))
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := s.File.Save(path); err != nil {
		fail("%v", err)
	}
	show(s.File)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	exit(1)
}

// minimise looks for a smaller violation of the same kind.
func minimise(prop string, b *bins, bad *job, seed uint64, runs int, thorough bool) (*rep.File, *rep.Batch) {
	var f *rep.File
	if bad.crash != nil {
		cmd := exec.Command(b.bin(bad.race), "-mode", "regen", "-prop", prop, "-seed", fmt.Sprint(seed), "-batch", fmt.Sprint(bad.batch),
			"-runs", fmt.Sprint(bad.upto+1), "-thorough="+fmt.Sprint(thorough), "-oracle", b.oracle)
		out, err := cmd.Output()
		if err != nil {
			fail("regenerating the runs before a crash: %v", err)
		}
		f = &rep.File{}
		if err := json.Unmarshal(out, f); err != nil {
			fail("%v", err)
		}
		f.Violation = bad.crash
	} else {
		f = bad.res.File
	}
	in := scratch + "/fail.json"
	if err := f.Save(in); err != nil {
		fail("%v", err)
	}
	cmd := exec.Command(b.bin(f.Race), "-mode", "shrink", "-file", in, "-oracle", b.oracle, "-sites", b.sites)
	cmd.Env = append(goEnv(), "GORACE=log_path="+scratch+"/race atexit_sleep_ms=0 exitcode=0", "GOMAXPROCS=1", "GODEBUG=clobberfree=1,gcstoptheworld=2")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	var s rep.Batch
	if err == nil {
		err = json.Unmarshal(out, &s)
	}
	if err != nil {
		fmt.Printf("minimising failed: %v\n", err)
		s.File = f
	}
	return f, &s
}

func show(f *rep.File) {
	fmt.Printf("violation (%s) in batch %d run %d:\n  %s\n", f.Violation.Class, f.Batch, f.Index, strings.ReplaceAll(f.Violation.Detail, "\n", "\n  "))
	for i, s := range f.Scenarios {
		t := string(s)
		if len(t) > 1200 {
			t = t[:1200] + "..."
		}
		if i < 3 || i == len(f.Scenarios)-1 {
			fmt.Printf("  scenario %d: %s\n", i, t)
		}
	}
	for i, t := range f.Trace {
		if i < 25 {
			fmt.Println("  " + t)
		}
	}
}

func replayMain(prop string, b *bins, file string) {
	f, err := rep.Load(file)
	if err != nil {
		fail("%v", err)
	}
	if f.Race {
		if _, err := os.Stat(b.wrace); err != nil {
			fail("no race build for this property")
		}
	}
	cmd := exec.Command(b.bin(f.Race), "-mode", "replay", "-file", file, "-oracle", b.oracle, "-sites", b.sites)
	cmd.Env = append(goEnv(), "GORACE=log_path="+scratch+"/race atexit_sleep_ms=0 exitcode=0", "GOMAXPROCS=1", "GODEBUG=clobberfree=1,gcstoptheworld=2")
	var se strings.Builder
	cmd.Stderr = &se
	done := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	out, err := cmd.Output()
	done.Stop()
	var r rep.Batch
	switch {
	case err != nil && strings.Contains(se.String(), "harness error"):
		fail("%s", se.String())
	case err != nil:
		r.Violation = &rep.Violation{Class: "crash", Detail: se.String()}
		r.File = f
	default:
		if err := json.Unmarshal(out, &r); err != nil {
			fail("%v", err)
		}
	}
	if r.Violation == nil {
		fmt.Printf("OK property=%s: the replay shows no violation\n", prop)
		exit(0)
	}
	f.Violation, f.Trace = r.Violation, r.File.Trace
	show(f)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	exit(1)
}

func evidence(prop, tier string, seed uint64, cov map[string]any, assume []string, violations int) {
	e := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(started).Seconds(), "violations": violations}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		fail("%v", err)
	}
	os.MkdirAll(verif+"/evidence", 0o755)
	if err := os.WriteFile(verif+"/evidence/"+prop+".json", append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
}

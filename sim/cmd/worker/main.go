// Command worker executes simulated runs against the instrumented library. One
// process executes one batch (run), a replay file (replay), or minimises a
// replay file by executing candidates in fresh processes (shrink).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"time"

	"verifsim/rep"
	"verifsim/rnd"
	"verifsim/scen"
)

// result of one simulated run.
type result struct {
	discarded  string
	violations []rep.Violation
	hash       uint64
	steps      uint64
	simNanos   int64
	nontrivial bool
	counts     map[string]int
	log        string
	sites      []int32
}

// engine is one simulator.
type engine interface {
	start(r *rnd.R)                              // per batch
	gen(r *rnd.R) any                            // a scenario
	load(json.RawMessage) (any, error)           // a scenario from a replay file
	exec(sc any) (*result, error)                // one run
	pin(sc any, res *result) any                 // the same scenario with what happened fixed
	shrinks(sc any, yield func(c any) bool) bool // simpler candidates; stops when yield says so
	trace(sc any, res *result) []string          // for the reader
}

var (
	mode     = flag.String("mode", "run", "run, replay, regen, shrink")
	prop     = flag.String("prop", "", "property")
	seed     = flag.Uint64("seed", 1, "seed")
	batch    = flag.Int("batch", 0, "batch")
	runs     = flag.Int("runs", 100, "runs in the batch")
	from     = flag.Int("from", 0, "regen: first run")
	oracle   = flag.String("oracle", "", "pristine oracle binary")
	file     = flag.String("file", "", "replay file")
	sites    = flag.String("sites", "", "site table")
	progress = flag.String("progress", "", "file that receives the index of the current run")
	thorough = flag.Bool("thorough", false, "thorough tier")
	deadline = flag.Duration("deadline", 25*time.Second, "shrink: time limit")
)

// judged lists the deviations that break each property; anything else a run of
// its scenarios reveals is another property's business.
var judged = map[string]string{
	"C01": "outcome changed panic steps fault race crash dst",
	"C02": "buffer fault crash",
	"C03": "outcome changed panic steps stale merr dst crash",
	"C04": "outcome changed panic steps stale merr crash",
	"C05": "dichotomy panic steps fault stale crash",
	"C06": "outcome changed panic race crash",
	"C07": "outcome changed panic race crash",
	"C08": "outcome dst panic steps fault race crash",
	"C09": "value order lost panic steps crash",
	"C10": "diverged panic steps crash",
	"C14": "value lost panic steps crash",
	"C16": "outcome changed panic merr dst fault race crash",
	"C13": "retained goroutines stuck effort crash",
}

func isJudged(prop, class string) bool {
	for _, c := range strings.Fields(judged[prop]) {
		if c == class {
			return true
		}
	}
	return false
}

func newEngine(prop string) engine {
	switch prop {
	case "C09", "C10", "C14":
		return newNet(prop)
	case "C13":
		return newSoak()
	}
	return newMem(prop)
}

func main() {
	flag.Parse()
	runtime.GOMAXPROCS(1)
	var out any
	switch *mode {
	case "run":
		out = runBatch()
	case "regen":
		out = regen()
	case "replay":
		out = replay()
	case "shrink":
		out = shrink()
	default:
		die(fmt.Errorf("unknown mode %s", *mode))
	}
	b, err := json.Marshal(out)
	if err != nil {
		die(err)
	}
	os.Stdout.Write(b)
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "harness error:", err)
	os.Exit(3)
}

func runRand(i int) *rnd.R { return rnd.New(*seed, rnd.Str(*prop), uint64(*batch), uint64(i)+1) }

func runBatch() *rep.Batch {
	e := newEngine(*prop)
	e.start(rnd.New(*seed, rnd.Str(*prop), uint64(*batch)))
	b := &rep.Batch{Counts: map[string]int{}, Max: map[string]int{}, Other: map[string]int{}}
	var pf *os.File
	if *progress != "" {
		var err error
		if pf, err = os.Create(*progress); err != nil {
			die(err)
		}
	}
	scen.GiveUp = func() {
		b.Counts["batches_given_up_because_a_finalizer_waits"]++
		j, _ := json.Marshal(b)
		os.Stdout.Write(j)
		os.Exit(0)
	}
	digest := uint64(1)
	seen := map[int32]bool{}
	var done []any
	for i := 0; i < *runs; i++ {
		if pf != nil {
			fmt.Fprintf(pf, "%d\n", i)
		}
		sc := e.gen(runRand(i))
		done = append(done, sc)
		res, err := e.exec(sc)
		if err != nil {
			die(err)
		}
		if res.discarded != "" {
			b.Discarded++
			b.Counts["discarded_"+res.discarded]++
			continue
		}
		b.Runs++
		b.Steps += res.steps
		b.SimNanos += res.simNanos
		for k, v := range res.counts {
			if strings.HasPrefix(k, "max_") {
				b.Max[k] = max(b.Max[k], v)
			} else {
				b.Counts[k] += v
			}
		}
		b.Hashes = append(b.Hashes, res.hash)
		if !res.nontrivial {
			b.Trivial++
			b.Hashes = b.Hashes[:len(b.Hashes)-1]
		}
		for _, s := range res.sites {
			seen[s] = true
		}
		digest = digest*1099511628211 ^ rnd.Str(res.log)
		if i < 2 && len(b.Samples) < 2 && res.nontrivial {
			j, _ := json.Marshal(e.pin(sc, res))
			if len(j) > 1500 {
				j = append(j[:1500], "..."...)
			}
			b.Samples = append(b.Samples, fmt.Sprintf("seed %d batch %d run %d: %s", *seed, *batch, i, j))
		}
		for k := range res.violations {
			v := &res.violations[k]
			if !isJudged(*prop, v.Class) {
				b.Other[v.Class]++
				continue
			}
			if b.Violation == nil {
				b.Violation, b.Index = v, i
			}
		}
		if b.Violation != nil {
			f := newFile(i, b.Violation)
			for _, s := range done[:len(done)-1] {
				f.Scenarios = append(f.Scenarios, raw(s))
			}
			f.Scenarios = append(f.Scenarios, raw(e.pin(sc, res)))
			f.Trace = e.trace(sc, res)
			b.File = f
			break
		}
	}
	for s := range seen {
		b.Sites = append(b.Sites, s)
	}
	sort.Slice(b.Sites, func(i, j int) bool { return b.Sites[i] < b.Sites[j] })
	b.Digest = fmt.Sprintf("%016x", digest)
	b.Oracle = oracleCalls
	return b
}

func newFile(i int, v *rep.Violation) *rep.File {
	eng := "mem"
	if *prop == "C09" || *prop == "C10" || *prop == "C14" {
		eng = "net"
	}
	if *prop == "C13" {
		eng = "soak"
	}
	return &rep.File{Property: *prop, Engine: eng, Race: raceBuild, Seed: *seed, Batch: *batch, Index: i, Violation: v}
}

func raw(sc any) json.RawMessage {
	b, err := json.Marshal(sc)
	if err != nil {
		die(err)
	}
	return b
}

// regen writes the scenarios of runs from..runs-1 without executing them.
func regen() *rep.File {
	e := newEngine(*prop)
	e.start(rnd.New(*seed, rnd.Str(*prop), uint64(*batch)))
	f := newFile(*runs-1, nil)
	for i := *from; i < *runs; i++ {
		f.Scenarios = append(f.Scenarios, raw(e.gen(runRand(i))))
	}
	return f
}

// replay executes a replay file and reports what the last scenario did.
func replay() *rep.Batch {
	f, err := rep.Load(*file)
	if err != nil {
		die(err)
	}
	*prop, *seed, *batch = f.Property, f.Seed, f.Batch
	e := newEngine(*prop)
	e.start(rnd.New(*seed, rnd.Str(*prop), uint64(*batch)))
	b := &rep.Batch{Counts: map[string]int{}}
	for i, rs := range f.Scenarios {
		sc, err := e.load(rs)
		if err != nil {
			die(err)
		}
		res, err := e.exec(sc)
		if err != nil {
			die(err)
		}
		b.Runs++
		b.Digest = fmt.Sprintf("%016x", rnd.Str(res.log))
		if i < len(f.Scenarios)-1 {
			continue
		}
		for k := range res.violations {
			if v := &res.violations[k]; isJudged(*prop, v.Class) {
				if b.Violation == nil || (f.Violation != nil && v.Class == f.Violation.Class && b.Violation.Class != v.Class) {
					b.Violation = v
				}
			}
		}
		nf := *f
		nf.Scenarios = []json.RawMessage{raw(e.pin(sc, res))}
		nf.Violation, nf.Trace = b.Violation, e.trace(sc, res)
		b.File = &nf
	}
	return b
}

// child executes f in a fresh process.
func child(f *rep.File, dir string) *rep.Batch {
	path := dir + "/cand.json"
	b, _ := json.Marshal(f)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die(err)
	}
	cmd := exec.Command(os.Args[0], "-mode", "replay", "-file", path, "-oracle", *oracle, "-sites", *sites)
	cmd.Env = append(os.Environ(), "GORACE=log_path="+dir+"/race atexit_sleep_ms=0 exitcode=0")
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		die(err)
	}
	t := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	hang := !t.Stop()
	res := &rep.Batch{}
	switch {
	case hang:
		res.Violation = &rep.Violation{Class: "crash", Detail: "the process hangs"}
	case err != nil && strings.Contains(se.String(), "harness error"):
		res.Error = se.String()
	case err != nil:
		s := se.String()
		if i := strings.Index(s, "\n"); i > 0 {
			s = s[:i]
		}
		res.Violation = &rep.Violation{Class: "crash", Detail: "the process dies: " + s}
	default:
		if err := json.Unmarshal([]byte(so.String()), res); err != nil {
			res.Error = err.Error()
		}
	}
	return res
}

// shrink minimises the replay file given and returns the result.
func shrink() *rep.Batch {
	f, err := rep.Load(*file)
	if err != nil {
		die(err)
	}
	*prop = f.Property
	e := newEngine(*prop)
	end := time.Now().Add(*deadline)
	dir, err := os.MkdirTemp("", "vsim-shrink-")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(dir)
	tried := 0
	try := func(scs []json.RawMessage) *rep.Batch {
		c := *f
		c.Scenarios = scs
		tried++
		b := child(&c, dir)
		if b.Violation.Same(f.Violation) {
			return b
		}
		return nil
	}
	all := f.Scenarios
	last := all[len(all)-1:]
	var cur *rep.Batch
	// how much of the process's past is needed?
	pre := 0
	for k := 0; ; k = k*3 + 1 {
		if k > len(all)-1 {
			k = len(all) - 1
		}
		if cur = try(all[len(all)-1-k:]); cur != nil {
			pre = k
			break
		}
		if k == len(all)-1 {
			break
		}
	}
	out := &rep.Batch{Runs: tried}
	if cur == nil {
		out.Error = "the violation did not show again in a fresh process"
		out.File = f
		return out
	}
	past := append([]json.RawMessage(nil), all[len(all)-1-pre:len(all)-1]...)
	for chunk := (len(past) + 1) / 2; chunk > 0 && len(past) > 0 && time.Now().Before(end); {
		removed := false
		for i := 0; i+chunk <= len(past) && time.Now().Before(end); {
			rest := append(append([]json.RawMessage(nil), past[:i]...), past[i+chunk:]...)
			if b := try(append(append([]json.RawMessage(nil), rest...), last...)); b != nil {
				past, cur, removed = rest, b, true
			} else {
				i += chunk
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if !removed || chunk > len(past) {
			chunk = (chunk + 1) / 2
			if chunk == 1 && !removed && len(past) == 0 {
				break
			}
		}
	}
	now := last[0]
	if cur.File != nil {
		now = cur.File.Scenarios[0]
	}
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		sc, err := e.load(now)
		if err != nil {
			die(err)
		}
		e.shrinks(sc, func(c any) bool {
			if time.Now().After(end) {
				return false
			}
			b := try(append(append([]json.RawMessage(nil), past...), raw(c)))
			if b == nil {
				return true
			}
			cur = b
			if now = raw(c); b.File != nil {
				now = b.File.Scenarios[0]
			}
			progress = true
			return false
		})
	}
	nf := *f
	nf.Scenarios = append(append([]json.RawMessage(nil), past...), now)
	nf.Minimised = true
	nf.Violation = cur.Violation
	if cur.File != nil {
		nf.Trace = cur.File.Trace
	}
	// the final file must fail the same way, twice
	for k := 0; k < 2; k++ {
		b := try(nf.Scenarios)
		if b == nil {
			out.Error = "the minimised file does not fail reliably"
			out.File = f
			return out
		}
		nf.Violation = b.Violation
	}
	out.Runs, out.File, out.Violation = tried, &nf, nf.Violation
	return out
}

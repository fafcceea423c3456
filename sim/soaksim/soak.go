// Package soaksim makes long histories of calls and watches what the library
// keeps when nobody needs the results any more: memory, goroutines, locks, and
// work that grows with the number of calls made before.
package soaksim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	urn "github.com/leodido/go-urn"

	"verifsim/gen"
	"verifsim/obs"
	"verifsim/rep"
	"verifsim/rnd"
	"verifsim/simrt"
)

// Op is a call that is made over and over, each time with another number in its text.
type Op struct {
	K       string `json:"k"` // parse, dec, read, mode
	Mode    int    `json:"mode,omitempty"`
	How     string `json:"how,omitempty"`
	T       string `json:"t,omitempty"`
	Text    []byte `json:"text,omitempty"`
	At      int    `json:"at,omitempty"`      // where the number goes; -1: the text is always the same
	Abort   int    `json:"abort,omitempty"`   // the memory faults there (plus one)
	Cut     int    `json:"cut,omitempty"`     // the document ends there (plus one)
	Use     string `json:"use,omitempty"`     // what is asked of the result
	Odd     bool   `json:"odd,omitempty"`     // the mode is one the library does not know, another one each time
	Respell uint64 `json:"respell,omitempty"` // seed of how the document is spelled (0: as encoding/json does)
}

// Soak is a scenario.
type Soak struct {
	Seed  uint64 `json:"seed"`
	Calls int    `json:"calls"`          // per round, of all tasks together
	Tick  int64  `json:"tick,omitempty"` // nanoseconds that pass between calls
	Tasks [][]Op `json:"tasks"`
}

// Gen makes a scenario.
func Gen(r *rnd.R, thorough bool) *Soak {
	s := &Soak{Seed: r.U64(), Calls: 1500}
	if thorough && r.P(10) {
		s.Calls = 6000
	}
	nt := rnd.Pick(r, 1, 1, 2, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := r.In(1, 5); k > 0; k-- {
			ops = append(ops, genOp(r))
		}
		s.Tasks = append(s.Tasks, ops)
	}
	s.Tick = rnd.Pick[int64](r, 0, 0, 1e6, 1e9, 300e9)
	return s
}

func genOp(r *rnd.R) Op {
	mode := gen.Mode(r)
	text := gen.Valid(r, mode)
	if r.P(3) {
		text = gen.Text(r, mode)
	}
	if len(text) > 400 {
		text = text[:400]
	}
	o := Op{K: "parse", Mode: mode, Text: []byte(text), Use: rnd.Pick(r, "", "", "string", "norm", "json", "scimstr", "eqself", "all")}
	i := strings.IndexByte(text, ':')
	if j := strings.IndexByte(text[i+1:], ':'); i >= 0 && j >= 0 {
		i += 1 + j
	}
	o.At = len(text)
	if i+1 < len(text) && !r.P(5) {
		o.At = i + 1 + r.N(len(text)-i-1)
	}
	switch r.N(10) {
	case 0:
		o.At = -1
	case 1:
		o.At = r.N(len(text) + 1)
	}
	switch r.N(8) {
	case 0:
		o.K = "read"
		o.Use = rnd.Pick(r, obs.Queries...)
	case 1:
		o.K = "mode"
	case 2, 3:
		o.K, o.T = "dec", rnd.Pick(r, "urn", "urn8141", "scim")
		if !r.P(4) {
			o.T = map[int]string{gen.M2141: "urn", gen.M7643: "scim", gen.M8141: "urn8141"}[mode]
		}
		o.How = rnd.Pick(r, "direct", "unmarshal", "stream")
		if r.P(4) {
			o.Cut = 1 + r.N(len(text)+2)
		}
	default:
		o.How = rnd.Pick(r, "machine", "pkg", "reused", "sharedopt", "pkgdef", "machine", "pkg", "reused", "ownpanic", "many")
	}
	if (o.K == "parse" || o.K == "dec" && o.How == "direct") && r.P(5) && len(text) > 0 {
		o.Abort = 1 + r.N(len(text))
	}
	if (o.K == "parse" || o.K == "mode") && r.P(12) {
		o.Odd = true
	}
	if o.K == "dec" && r.P(3) {
		o.Respell = r.U64() | 1
	}
	return o
}

// Outcome of a run.
type Outcome struct {
	Violations []rep.Violation
	Hash       uint64
	Steps      uint64
	Counts     map[string]int
	Log        string
	Trace      []string
}

const page = 4096

const ownPanic = "the caller's option panics"

type task struct {
	id     int
	ops    []Op
	mach   urn.Machine
	dst    map[string]*obs.Dst
	shared *urn.URN
	mem    []byte // a page, followed by one that cannot be touched
	n      int
	other  map[string]int
}

var sharedOpts = map[int]urn.Option{}

func opt(m int) urn.Option { return urn.WithParsingMode(urn.ParsingMode(m)) }

// mode is the mode of the nth call.
func (o *Op) mode(n int) int {
	if o.Odd {
		return 1000 + n
	}
	return o.Mode
}

func (o *Op) text(n int) []byte {
	if o.At < 0 || o.At > len(o.Text) {
		return bytes.Clone(o.Text)
	}
	b := make([]byte, 0, len(o.Text)+9)
	b = append(b, o.Text[:o.At]...)
	b = fmt.Appendf(b, "%09d", n%1000000000)
	return append(b, o.Text[o.At:]...)
}

// place puts text where reading beyond byte k faults.
func (t *task) place(b []byte, k int) []byte {
	k = min(k, len(b), page)
	at := page - k
	copy(t.mem[at:page], b[:k])
	return unsafe.Slice((*byte)(unsafe.Pointer(&t.mem[at])), min(len(b), k+page))
}

func (t *task) do(o *Op) string {
	b := o.text(t.n)
	var u *urn.URN
	var err error
	switch o.K {
	case "mode":
		if t.mach != nil {
			t.mach.WithParsingMode(urn.ParsingMode(o.mode(t.n)))
		}
		return ""
	case "read":
		if t.shared == nil {
			t.shared, _ = urn.NewMachine(opt(o.mode(t.n))).Parse(b)
		}
		if t.shared == nil {
			return ""
		}
		v := t.shared
		return obs.Guard(func() string { return keep(obs.Query(v, o.Use)) })
	case "dec":
		q, _ := json.Marshal(string(b))
		if o.Respell != 0 {
			q = gen.OtherJSON(rnd.New(o.Respell), q)
		}
		if o.Cut > 0 {
			q = q[:min(o.Cut-1, len(q))]
		}
		if o.Abort > 0 {
			q = t.place(q, o.Abort-1)
		}
		d := t.dst[o.T]
		if d == nil || t.n%2 == 0 {
			d = &obs.Dst{T: o.T}
			t.dst[o.T] = d
		}
		_, p := d.Decode(q, o.How, t.n%5)
		if p != "" {
			return "panic:" + p
		}
		return ""
	}
	if o.Abort > 0 {
		b = t.place(b, o.Abort-1)
	}
	p := obs.Guard(func() string {
		switch o.How {
		case "pkg":
			u, _ = urn.Parse(b, opt(o.mode(t.n)))
		case "ownpanic": // an option of the caller's panics
			own := func(urn.Machine) { panic(ownPanic) }
			u, _ = urn.Parse(b, opt(o.mode(t.n)), own)
		case "many": // more options than usual
			m := opt(o.mode(t.n))
			u, err = urn.NewMachine(m, m, opt(gen.M8141), m, m, m).Parse(b)
		case "pkgdef":
			u, _ = urn.Parse(b)
		case "sharedopt":
			u, err = urn.NewMachine(sharedOpts[o.Mode]).Parse(b)
		case "reused":
			if t.mach == nil {
				t.mach = urn.NewMachine(opt(o.mode(t.n)))
			}
			u, err = t.mach.Parse(b)
			t.mach.Error()
		default:
			u, err = urn.NewMachine(opt(o.mode(t.n))).Parse(b)
		}
		if err != nil {
			_ = err.Error()
		}
		return ""
	})
	if p == "" && u != nil && o.Use != "" {
		return keep(obs.Query(u, o.Use))
	}
	return p
}

// keep drops answers but panics.
func keep(s string) string {
	if strings.HasPrefix(s, "panic:") {
		return s
	}
	return ""
}

func heap() uint64 {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// Rounds of a run: first some to get going, then those that are compared.
const (
	warm  = 2
	first = 4
	more  = 8
)

// Exec runs the scenario.
func (s *Soak) Exec() (out Outcome, err error) {
	out.Counts = map[string]int{}
	debug.SetPanicOnFault(true)
	for _, m := range []int{gen.M2141, gen.M7643, gen.M8141} {
		if sharedOpts[m] == nil {
			sharedOpts[m] = opt(m)
		}
	}
	var ts []*task
	for i, ops := range s.Tasks {
		if len(ops) == 0 {
			continue
		}
		m, err := syscall.Mmap(-1, 0, 3*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return out, err
		}
		defer syscall.Munmap(m)
		if err := syscall.Mprotect(m[page:], syscall.PROT_NONE); err != nil {
			return out, err
		}
		ts = append(ts, &task{id: i, ops: ops, mem: m, dst: map[string]*obs.Dst{}, other: map[string]int{}})
	}
	if len(ts) == 0 {
		return out, nil
	}
	fail := func(class, format string, a ...any) {
		out.Violations = append(out.Violations, rep.Violation{Class: class, Step: out.Steps, Detail: fmt.Sprintf(format, a...)})
	}
	stuck := ""
	hash := uint64(1)
	round := func(k int) uint64 {
		each := s.Calls / len(ts)
		var bodies []func()
		for _, t := range ts {
			bodies = append(bodies, func() {
				for i := 0; i < each; i++ {
					o := &t.ops[t.n%len(t.ops)]
					simrt.Advance(s.Tick)
					simrt.Y(simrt.SiteOp)
					simrt.Begin(1<<20 + 800*uint64(len(o.Text)))
					p := t.do(o)
					simrt.Begin(1 << 40)
					t.n++
					if p == "panic:step limit" {
						stuck = fmt.Sprintf("call %d of task %d (%s %q) does not end", t.n, t.id, o.K, o.Text)
						return
					}
					if p == "panic:"+ownPanic {
						t.other["aborted_by_own_option"]++
					} else if p != "" && !(o.Abort > 0 && p == "panic:memory fault") {
						t.other["panic"]++
					} else if p != "" {
						t.other["aborted_by_memory_fault"]++
					}
				}
			})
		}
		res := simrt.Run(simrt.Policy{Kind: "random", OneIn: 20, Seed: s.Seed + uint64(k)}, nil, bodies)
		hash = hash*1099511628211 ^ res.Hash ^ res.Steps
		out.Steps += res.Steps
		out.Counts["calls"] += each * len(ts)
		out.Counts["rounds"]++
		out.Trace = append(out.Trace, fmt.Sprintf("round %d: %d calls, %d steps", k, each*len(ts), res.Steps))
		return res.Steps
	}
	k := 0
	steps := make([]uint64, 0, 16)
	run := func(n int) bool {
		for ; n > 0 && stuck == ""; n-- {
			steps = append(steps, round(k))
			k++
		}
		return stuck == ""
	}
	limit := uint64(first * s.Calls * 6) // bytes: less than anything kept per call takes
	g0 := 0
	ok := run(warm)
	if ok {
		g0 = runtime.NumGoroutine()
		h0 := heap()
		ok = run(first)
		h1 := heap()
		grown := func(a, b uint64) uint64 {
			if b < a {
				return 0
			}
			return b - a
		}
		if a := grown(h0, h1); ok && a > limit {
			// A store of limited size may still be filling up: does it ever end?
			h, rate, said := h1, float64(a)/first, fmt.Sprintf("%d bytes more are in use after %d calls whose results nobody has", a, first*s.Calls)
			leak := true
			for n := more; n <= 4*more && ok && leak; n *= 2 {
				ok = run(n)
				now := heap()
				g := grown(h, now)
				h = now
				leak = g > limit && float64(g) > 0.3*rate*float64(n)
				said += fmt.Sprintf(", %d more after another %d", g, n*s.Calls)
			}
			if ok && leak {
				fail("retained", "%s", said)
			}
		}
		out.Counts["heaps_compared"]++
		if n := runtime.NumGoroutine(); ok && n > g0+20 {
			fail("goroutines", "%d goroutines more than before after %d calls that have ended", n-g0, (k-warm)*s.Calls)
		}
	}
	if stuck != "" {
		fail("stuck", "%s", stuck)
	} else if a, b := steps[warm], steps[len(steps)-1]; b > 2*a+5000 {
		// the same calls but for the numbers in them
		run(4)
		if c := steps[len(steps)-1]; stuck == "" && c > b {
			fail("effort", "the %d calls of round %d take %d steps, those of round %d %d, those of round %d %d", s.Calls, warm, a, len(steps)-5, b, len(steps)-1, c)
		}
	}
	for _, t := range ts {
		for n, v := range t.other {
			out.Counts[n] += v
		}
	}
	if len(ts) > 1 {
		out.Counts["concurrent_histories"]++
	}
	b, _ := json.Marshal(s)
	out.Hash = hash ^ rnd.Str(string(b))
	out.Log = fmt.Sprintf("%x %d %d", hash, out.Steps, len(out.Violations))
	return out, nil
}

// Shrinks tries smaller scenarios.
func (s *Soak) Shrinks(yield func(*Soak) bool) bool {
	with := func(f func(c *Soak)) bool {
		var c Soak
		b, _ := json.Marshal(s)
		json.Unmarshal(b, &c)
		f(&c)
		return yield(&c)
	}
	live := 0
	for i := range s.Tasks {
		if len(s.Tasks[i]) > 0 {
			live++
		}
	}
	for i := range s.Tasks {
		if live > 1 && len(s.Tasks[i]) > 0 && !with(func(c *Soak) { c.Tasks[i] = nil }) {
			return false
		}
		for j := range s.Tasks[i] {
			if len(s.Tasks[i]) > 1 && !with(func(c *Soak) { c.Tasks[i] = append(c.Tasks[i][:j], c.Tasks[i][j+1:]...) }) {
				return false
			}
			o := s.Tasks[i][j]
			if o.Use != "" && o.K != "read" && !with(func(c *Soak) { c.Tasks[i][j].Use = "" }) {
				return false
			}
			if o.Abort > 0 && !with(func(c *Soak) { c.Tasks[i][j].Abort = 0 }) {
				return false
			}
			if o.Cut > 0 && !with(func(c *Soak) { c.Tasks[i][j].Cut = 0 }) {
				return false
			}
			for n := len(o.Text) / 2; n >= 1; n /= 2 {
				for k := 0; k+n <= len(o.Text); k += n {
					if !with(func(c *Soak) {
						x := &c.Tasks[i][j]
						x.Text = append(append([]byte{}, o.Text[:k]...), o.Text[k+n:]...)
						if x.At >= k {
							x.At = max(k, x.At-n)
						}
						if x.Abort > len(x.Text) {
							x.Abort = len(x.Text)
						}
					}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// Package scen is the memory/thread simulator's scenario language: tasks made
// of library calls and of things that happen to the caller's memory, executed
// against the instrumented library under the simulated scheduler, and judged
// against what each call does alone in a pristine process.
package scen

import (
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	urn "github.com/leodido/go-urn"

	"verifsim/gen"
	"verifsim/obs"
	"verifsim/rep"
	"verifsim/rnd"
	"verifsim/simrt"
)

// Op is one step of a task. Refs are ids of other ops; an op whose reference is
// missing (removed while minimising) or unusable is skipped.
type Op struct {
	ID   int      `json:"id"`
	K    string   `json:"k"`
	B    int      `json:"b,omitempty"`    // buffer
	Mode int      `json:"mode,omitempty"` // parsing mode; NoMode: none given
	How  string   `json:"how,omitempty"`
	M    int      `json:"m,omitempty"` // machine (id of mnew)
	U    int      `json:"u,omitempty"` // value: op id, or -1-k for shared value k
	V    int      `json:"v,omitempty"`
	Q    string   `json:"q,omitempty"`
	D    int      `json:"d,omitempty"` // destination
	From int      `json:"from,omitempty"`
	N    int      `json:"n,omitempty"`
	Data []byte   `json:"data,omitempty"`
	Set  *obs.Set `json:"set,omitempty"` // copy: how its fields are set
	Doc  []byte   `json:"-"`
	Pre  []int    `json:"pre,omitempty"` // modes set before Mode by further options

	exp string // prepared expectation
	len int
}

const NoMode = -100

// Options of the caller's own making, among Op.Pre.
const (
	OwnSets     = -201 - iota // the mode is set by a function of the caller's
	OwnReenters               // it calls the library
	OwnParses                 // it uses the machine it is given
	OwnPanics                 // it panics
)

// wrapped is a machine of the caller's making that uses one of the library.
type wrapped struct {
	urn.Machine
	_ [3]int
}

const ownPanic = "the caller's option panics"

// own is an option of the caller's making.
func own(k int) urn.Option {
	return func(m urn.Machine) {
		switch k {
		case OwnReenters:
			if u, ok := urn.Parse([]byte("urn:own:%4A"), urn.WithParsingMode(urn.RFC8141Only)); !ok || u.String() != "urn:own:%4A" {
				panic("a parse inside an option goes wrong")
			}
		case OwnParses:
			m.WithParsingMode(urn.RFC2141Only)
			if u, err := m.Parse([]byte("urn:own:%4B")); err != nil || u.SS != "%4B" || m.Error() != nil {
				panic("a parse with the machine an option is given goes wrong")
			}
		case OwnPanics:
			panic(ownPanic)
		}
	}
}

// Modes that machines are set to: the four of the library and some it does not know.
var Modes = []int{0, 1, 2, 3, 4, -1, 99, -1 << 31, 1<<31 - 1}

// Init is the initial value of a destination: decoded from Doc (nil: zero).
type Init struct {
	T    string `json:"t"`
	Src  int    `json:"src"` // index into Shared docs, -1: zero value
	Task int    `json:"task"`
}

// Doc is a document decoded before the run into a value that destinations start as copies of.
type Doc struct {
	T    string   `json:"t"`
	Data []byte   `json:"data,omitempty"`
	Src  *obs.Src `json:"src,omitempty"` // made like this instead of decoded
}

// Scenario is one simulated run.
type Scenario struct {
	Prop   string       `json:"prop"`
	Bufs   []Buf        `json:"bufs,omitempty"`
	Shared []obs.Src    `json:"shared,omitempty"`
	Docs   []Doc        `json:"docs,omitempty"`
	Dsts   []Init       `json:"dsts,omitempty"`
	Tasks  [][]Op       `json:"tasks"`
	Policy simrt.Policy `json:"policy"`
	// Watch checks all input memory at every scheduling point.
	Watch bool `json:"watch,omitempty"`
	// Collect are the steps at which the garbage collector runs.
	Collect []uint64 `json:"collect,omitempty"`
	// Tick is how many milliseconds pass before every operation.
	Tick int64 `json:"tick,omitempty"`
}

// Violation is what went wrong.
type Violation = rep.Violation

// Outcome of a run.
type Outcome struct {
	Discarded  string
	Violations []Violation
	Run        simrt.Result
	Counts     map[string]int
	Log        string // everything observed, for the determinism check
}

// Oracle answers requests made in a pristine process.
type Oracle func(obs.Req) string

type val struct {
	isVal   bool
	u       *urn.URN
	err     error
	ok      bool
	form    string // parse, pkg, norm, dec
	d       *obs.Dst
	exp     string
	mutated bool
	bytes   []byte
	bexp    string
}

type task struct {
	id    int
	ops   []Op
	vals  map[int]*val
	mach  map[int]urn.Machine
	aged  map[int]bool // machine with an aborted parse: its error query is unspecified
	merr  map[int]string
	fails []Violation
	cnt   map[string]int
	dsts  map[int]*obs.Dst
	dexp  map[int]string
	log   strings.Builder
	kept  []kept
}

// kept is a part of a result that outlives the result.
type kept struct {
	op   int
	what string
	look func() string
	want string
}

func (t *task) fail(op *Op, class, format string, a ...any) {
	if len(t.fails) < 4 {
		t.fails = append(t.fails, Violation{Class: class, Task: t.id, Op: op.ID, Detail: fmt.Sprintf(format, a...), Step: simrt.Steps()})
	}
}

func clip(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

var (
	sharedOpts = map[int]urn.Option{}
)

// prepare computes every expectation before any task exists.
func (s *Scenario) prepare(ask Oracle) (string, error) {
	for i := range s.Tasks {
		modes := map[int]int{}
		uval := map[int]obs.Src{}
		content := map[int][]byte{}
		get := func(b int) []byte {
			if c, ok := content[b]; ok {
				return c
			}
			return s.Bufs[b].Data
		}
		src := func(id int) (obs.Src, bool) {
			if id < 0 {
				return s.Shared[-1-id], true
			}
			v, ok := uval[id]
			return v, ok
		}
		for j := range s.Tasks[i] {
			o := &s.Tasks[i][j]
			var req *obs.Req
			switch o.K {
			case "parse":
				m := o.Mode
				k := "parse"
				if o.How == "pkgdef" {
					k = "parsedefault"
				}
				req = &obs.Req{K: k, Mode: m, In: get(o.B)}
				uval[o.ID] = obs.Src{Kind: "parse", Mode: m, In: get(o.B)}
				if k == "parsedefault" {
					req.Mode = 0
					delete(uval, o.ID)
				}
				o.len = len(get(o.B))
			case "mnew":
				modes[o.ID] = o.Mode
			case "mmode":
				if _, ok := modes[o.M]; ok {
					modes[o.M] = o.Mode
				}
			case "mparse":
				if m, ok := modes[o.M]; ok {
					req = &obs.Req{K: "parse", Mode: m, In: get(o.B)}
					if m == NoMode {
						req = &obs.Req{K: "parsedefault", In: get(o.B)}
					} else {
						uval[o.ID] = obs.Src{Kind: "parse", Mode: m, In: get(o.B)}
					}
				}
				o.len = len(get(o.B))
			case "dec":
				req = &obs.Req{K: "dec", T: s.Dsts[o.D].T, In: get(o.B), How: o.How, Arg: o.N}
				o.len = len(get(o.B))
			case "query":
				if a, ok := src(o.U); ok {
					req = &obs.Req{K: "query", A: &a, Q: o.Q}
				}
			case "equal":
				a, ok1 := src(o.U)
				b, ok2 := src(o.V)
				if ok1 && ok2 {
					req = &obs.Req{K: "equal", A: &a, B: &b}
				}
			case "norm":
				if a, ok := src(o.U); ok && a.Set == nil && (a.Kind == "parse" || a.Kind == "norm") {
					if a.Kind == "norm" {
						a.Deep++
					}
					a.Kind = "norm"
					uval[o.ID] = a
					req = &obs.Req{K: "query", A: &a, Q: "all"}
				}
			case "copy":
				if a, ok := src(o.U); ok && a.Set == nil && o.Set != nil {
					set := *o.Set
					set.Warm, set.Copy = nil, true
					a.Set = &set
					uval[o.ID] = a
					req = &obs.Req{K: "query", A: &a, Q: "all"}
				}
			case "encode":
				if a, ok := src(o.U); ok {
					req = &obs.Req{K: "query", A: &a, Q: "jsonval" + o.Q}
				}
			case "dval":
				o.Doc, _ = json.Marshal(string(o.Data))
				if o.N%3 == 2 { // as another encoder spells it
					o.Doc = gen.OtherJSON(rnd.New(uint64(o.ID)), o.Doc)
				}
				req = &obs.Req{K: "dec", T: o.Q, In: o.Doc, How: o.How, Arg: o.N}
				o.len = len(o.Doc)
				switch o.Q {
				case "urn":
					uval[o.ID] = obs.Src{Kind: "dec", In: o.Data}
				case "urn8141":
					uval[o.ID] = obs.Src{Kind: "dec8141", In: o.Data}
				}
			case "renew":
				content[o.B] = o.Data
			case "refill":
				content[o.B] = o.Data[:min(len(o.Data), len(s.Bufs[o.B].Data)+s.Bufs[o.B].Spare)]
			}
			o.exp = ""
			if req != nil && s.needsOracle(o.K) {
				a := ask(*req)
				if a == "hang" {
					return "oracle hang", nil
				}
				o.exp = a
			}
		}
	}
	return "", nil
}

func (s *Scenario) needsOracle(k string) bool {
	switch s.Prop {
	case "C02", "C05":
		return false
	}
	return true
}

// Exec runs the scenario once.
func (s *Scenario) Exec(ask Oracle) (out Outcome, err error) {
	if why, err := s.prepare(ask); err != nil || why != "" {
		return Outcome{Discarded: why}, err
	}
	for i := range s.Bufs {
		if err := s.Bufs[i].setup(); err != nil {
			return out, err
		}
	}
	defer func() {
		for i := range s.Bufs {
			s.Bufs[i].release()
		}
	}()
	debug.SetPanicOnFault(true)
	s.options()
	shared := make([]*val, len(s.Shared))
	for i, src := range s.Shared {
		v := &val{form: "shared", u: src.Make()}
		if v.u != nil && s.needsOracle("query") {
			v.exp = ask(obs.Req{K: "query", A: &src, Q: "all"})
		}
		shared[i] = v
	}
	docs := make([]*obs.Dst, len(s.Docs))
	dexp := make([]string, len(s.Docs))
	for i, d := range s.Docs {
		docs[i] = &obs.Dst{T: d.T}
		if d.Src != nil {
			if u := d.Src.Make(); u != nil {
				docs[i].U, docs[i].E.URN = *u, u
				if v := u.SCIM(); v != nil {
					docs[i].S = *v
				}
			}
		} else if err, p := docs[i].Decode(append([]byte(nil), d.Data...), "unmarshal", 0); err != nil || p != "" {
			docs[i] = &obs.Dst{T: d.T}
		}
		dexp[i] = docs[i].Obs()
	}
	tasks := make([]*task, len(s.Tasks))
	for i := range s.Tasks {
		t := &task{id: i, ops: s.Tasks[i], vals: map[int]*val{}, mach: map[int]urn.Machine{}, aged: map[int]bool{},
			merr: map[int]string{}, cnt: map[string]int{}, dsts: map[int]*obs.Dst{}, dexp: map[int]string{}}
		for k, d := range s.Dsts {
			if d.Task != i {
				continue
			}
			x := &obs.Dst{T: d.T}
			if d.Src >= 0 && d.Src < len(docs) && docs[d.Src].T == d.T {
				*x = *docs[d.Src] // the caller copies a value
			}
			t.dsts[k], t.dexp[k] = x, x.Obs()
		}
		for k, v := range shared {
			if v.u != nil {
				t.vals[-1-k] = v
			}
		}
		tasks[i] = t
	}
	var wfail *Violation
	check := func() {
		if wfail != nil {
			return
		}
		for i := range s.Bufs {
			if at := s.Bufs[i].intact(); at >= 0 {
				b := &s.Bufs[i]
				wfail = &Violation{Class: "buffer", Task: simrt.Cur(), Step: simrt.Steps(),
					Detail: fmt.Sprintf("input byte %d of buffer %d (%q, capacity +%d) is %q instead of %q", at, i, clip(string(b.Data)), b.Spare, b.all[at], b.want[at])}
				return
			}
		}
	}
	var inv func()
	if s.Watch {
		inv = check
	}
	dust := &collector{at: s.Collect}
	if len(s.Collect) > 0 {
		inv = func() {
			if dust.due(simrt.Steps()) {
				collect()
			}
			if s.Watch {
				check()
			}
		}
	}
	done := make([]map[int]bool, len(tasks)) // only used by "wait", never in race mode
	for i := range done {
		done[i] = map[int]bool{}
	}
	bodies := make([]func(), len(tasks))
	for i, t := range tasks {
		bodies[i] = func() {
			for j := range t.ops {
				o := &t.ops[j]
				if s.Tick > 0 {
					simrt.Advance(s.Tick * 1e6)
				}
				simrt.Y(simrt.SiteOp)
				simrt.Begin(1 << 21)
				s.op(t, o, tasks, done)
				if s.waits() {
					done[i][o.ID] = true
				}
			}
		}
	}
	reads := simrt.ClockReads()
	out.Run = simrt.Run(s.Policy, inv, bodies)
	reads = simrt.ClockReads() - reads
	// after the run: nothing handed out may have changed
	end := Op{ID: -1, K: "end"}
	for _, t := range tasks {
		s.recheck(t, &end)
		for k := range s.Dsts {
			if t.dsts[k] != nil {
				s.dstCheck(t, &end, k)
			}
		}
	}
	for i, v := range shared {
		if v.u != nil && v.exp != "" {
			if got := obs.URN(v.u); got != v.exp {
				tasks[0].fail(&end, "changed", "shared value %d (%s): after the run\n got %s\nwant %s", i, show(s.Shared[i]), got, v.exp)
			}
		}
	}
	for i, d := range docs {
		if got := d.Obs(); got != dexp[i] {
			tasks[0].fail(&end, "dst", "value %d, which destinations were copied from, changed\n got %s\nwant %s", i, got, dexp[i])
		}
	}
	check()
	if wfail != nil {
		out.Violations = append(out.Violations, *wfail)
	}
	out.Counts = map[string]int{}
	var log strings.Builder
	if s.Tick > 0 {
		out.Counts["runs_in_which_time_passes_throughout"] = 1
	}
	if reads > 0 {
		out.Counts["clock_read_by_the_library"] = reads
	}
	if dust.n > 0 {
		out.Counts["collection_inside_a_call"] = dust.n
	}
	for _, t := range tasks {
		out.Violations = append(out.Violations, t.fails...)
		for k, v := range t.cnt {
			out.Counts[k] += v
		}
		log.WriteString(t.log.String())
	}
	fmt.Fprintf(&log, "%x %d", out.Run.Hash, out.Run.Steps)
	out.Log = log.String()
	return out, nil
}

func show(x any) string {
	b, _ := json.Marshal(x)
	return string(b)
}

func (s *Scenario) waits() bool {
	for _, t := range s.Tasks {
		for _, o := range t {
			if o.K == "wait" {
				return true
			}
		}
	}
	return false
}

// Budget is the step allowance of a call on n bytes.
func Budget(n int) uint64 { return 1<<18 + 400*uint64(n) }

func (t *task) value(id int) *val {
	v := t.vals[id]
	if v == nil || v.mutated {
		return nil
	}
	return v
}

// recheck observes all results of the task again.
func (s *Scenario) recheck(t *task, o *Op) {
	for j := range t.ops {
		id := t.ops[j].ID
		v := t.vals[id]
		if v == nil {
			continue
		}
		if v.bytes != nil && v.bexp != "" && string(v.bytes) != v.bexp {
			t.fail(o, "changed", "encoding returned by op %d changed\n got %s\nwant %s", id, v.bytes, v.bexp)
		}
		if v.mutated || v.exp == "" || !v.isVal {
			continue
		}
		t.cnt["recheck"]++
		if got := v.observe(); got != v.exp {
			t.fail(o, "changed", "result of op %d (%s) changed later\n got %s\nwant %s", id, t.ops[j].K, clip(got), clip(v.exp))
		}
	}
	for _, k := range t.kept {
		if got := obs.Guard(k.look); got != k.want {
			t.fail(o, "changed", "%s, kept from the result of op %d, changed later\n got %q\nwant %q", k.what, k.op, clip(got), clip(k.want))
		}
	}
	for j := range t.ops {
		id := t.ops[j].ID
		m := t.mach[id]
		if e, ok := t.merr[id]; ok && m != nil && !t.aged[id] {
			if got := obs.Err(m.Error()); got != e {
				t.fail(o, "merr", "error query of machine %d\n got %s\nwant %s", id, got, e)
			}
		}
	}
}

func (v *val) observe() string {
	switch v.form {
	case "pkg":
		if !v.ok {
			if v.u != nil {
				return "both"
			}
			return "false"
		}
		return obs.Result(v.u, nil)
	case "norm":
		return obs.URN(v.u)
	case "dec":
		return "ok " + v.d.Obs()
	}
	return obs.Result(v.u, v.err)
}

func (s *Scenario) dstCheck(t *task, o *Op, k int) {
	t.cnt["dstcheck"]++
	if got := t.dsts[k].Obs(); got != t.dexp[k] {
		t.fail(o, "dst", "destination %d (%s)\n got %s\nwant %s", k, t.dsts[k].T, clip(got), clip(t.dexp[k]))
	}
}

func (s *Scenario) op(t *task, o *Op, tasks []*task, done []map[int]bool) {
	switch o.K {
	case "mnew":
		p := obs.Guard(func() string {
			if o.Mode == NoMode {
				t.mach[o.ID] = urn.NewMachine()
			} else {
				t.mach[o.ID] = urn.NewMachine(options(o)...)
			}
			return ""
		})
		if p == "panic:"+ownPanic {
			t.cnt["aborted_by_own_option"]++
			delete(t.mach, o.ID)
			return
		}
		if p != "" {
			t.fail(o, "panic", "NewMachine: %s", p)
			return
		}
		t.merr[o.ID] = "<nil>"
		t.cnt["mnew"]++
	case "mmode":
		if m := t.mach[o.M]; m != nil {
			if p := obs.Guard(func() string {
				switch o.How {
				case "option":
					urn.WithParsingMode(urn.ParsingMode(o.Mode))(m)
				case "wrapped": // a machine inside one of the caller's
					urn.WithParsingMode(urn.ParsingMode(o.Mode))(&wrapped{Machine: m})
				default:
					m.WithParsingMode(urn.ParsingMode(o.Mode))
				}
				return ""
			}); p != "" {
				t.fail(o, "panic", "WithParsingMode(%d): %s", o.Mode, p)
			}
			t.cnt["mode_change"]++
		}
	case "parse", "mparse":
		s.parse(t, o)
	case "grow":
		s.grow(t, o)
	case "merr":
		if m := t.mach[o.M]; m != nil && !t.aged[o.M] {
			t.cnt["merr"]++
			if got := obs.Guard(func() string { return obs.Err(m.Error()) }); got != t.merr[o.M] {
				t.fail(o, "merr", "error query\n got %s\nwant %s", got, t.merr[o.M])
			}
		}
	case "query":
		v := t.value(o.U)
		if v == nil || v.u == nil || o.exp == "" || o.exp == "<none>" {
			return
		}
		t.cnt["query"]++
		if got := obs.Query(v.u, o.Q); got != o.exp {
			t.fail(o, "outcome", "query %s of value %d\n got %s\nwant %s", o.Q, o.U, clip(got), clip(o.exp))
		}
	case "equal":
		a, b := t.value(o.U), t.value(o.V)
		if a == nil || b == nil || a.u == nil || b.u == nil || o.exp == "" || o.exp == "<none>" {
			return
		}
		t.cnt["equal"]++
		if got := obs.Equal(a.u, b.u); got != o.exp {
			t.fail(o, "outcome", "comparison of values %d and %d\n got %s\nwant %s", o.U, o.V, got, o.exp)
		}
	case "norm":
		v := t.value(o.U)
		if v == nil || v.u == nil || o.exp == "" || o.exp == "<none>" {
			return
		}
		t.cnt["norm"]++
		n := &val{form: "norm", isVal: true, exp: o.exp}
		p := obs.Guard(func() string { n.u = v.u.Normalize(); return "" })
		if p == "" {
			p = n.observe()
		}
		if p != o.exp {
			t.fail(o, "outcome", "normal form of value %d\n got %s\nwant %s", o.U, clip(p), clip(o.exp))
			return
		}
		t.vals[o.ID] = n
	case "copy":
		v := t.value(o.U)
		// a copy shares the SCIM view, which is the caller's doing
		if v == nil || v.u == nil || o.exp == "" || o.exp == "<none>" || o.Set == nil || v.u.SCIM() != nil {
			return
		}
		t.cnt["copy_set"]++
		n := &val{form: "norm", isVal: true, exp: o.exp}
		set := *o.Set
		set.Copy = true
		p := obs.Guard(func() string { n.u = set.Apply(v.u); return "" })
		if p == "" {
			p = n.observe()
		}
		if p != o.exp {
			t.fail(o, "outcome", "copy of value %d with other fields (%s)\n got %s\nwant %s", o.U, show(o.Set), clip(p), clip(o.exp))
			return
		}
		t.vals[o.ID] = n
	case "encode":
		v := t.value(o.U)
		if v == nil || v.u == nil || o.exp == "" || o.exp == "<none>" {
			return
		}
		t.cnt["encode"]++
		n := &val{bexp: o.exp}
		got := obs.Guard(func() string {
			var b []byte
			var err error
			switch o.Q {
			case "8141":
				b, err = urn.URN8141{URN: v.u}.MarshalJSON()
			case "scim":
				if v.u.SCIM() == nil {
					return "<nil>"
				}
				b, err = v.u.SCIM().MarshalJSON()
			default:
				b, err = v.u.MarshalJSON()
			}
			if err != nil {
				return "error " + err.Error()
			}
			n.bytes = b
			return string(b)
		})
		if got != o.exp {
			t.fail(o, "outcome", "encoding of value %d\n got %s\nwant %s", o.U, clip(got), clip(o.exp))
			return
		}
		t.vals[o.ID] = n
	case "mutate":
		v := t.vals[o.U]
		if v == nil || o.U < 0 {
			return
		}
		if v.bytes != nil {
			t.cnt["overwrite_encoding"]++
			v.bexp = ""
			b := v.bytes[:cap(v.bytes)]
			for i := range b {
				b[i] = '#'
			}
			return
		}
		if v.d != nil && v.d.T == "scim" {
			t.cnt["overwrite_decoded"]++
			v.mutated = true
			v.d.S.Name, v.d.S.Other, v.d.S.Type = "overwritten", "x", 0
			return
		}
		if v.u == nil {
			return
		}
		t.cnt["overwrite_result"]++
		v.mutated = true
		switch o.N % 4 {
		case 0:
			v.u.ID, v.u.SS = "hijacked", "gone"
		case 1:
			v.u.SS = "other"
		case 2:
			*v.u = urn.URN{ID: "zero", SS: "zero"}
		case 3:
			v.u.ID = ""
		}
		if sc := v.u.SCIM(); sc != nil {
			sc.Name, sc.Other, sc.Type = "overwritten", "x", 0
		}
	case "recheck":
		s.recheck(t, o)
	case "dec":
		s.decode(t, o)
	case "dval": // a new variable, whose value is one like any other
		v := &val{isVal: true, form: "dec", exp: o.exp, d: &obs.Dst{T: o.Q}}
		simrt.Begin(Budget(len(o.Doc)))
		err, p := v.d.Decode(append([]byte(nil), o.Doc...), o.How, o.N)
		simrt.Begin(1 << 21)
		t.cnt["decode"]++
		switch {
		case p != "":
			t.fail(o, "panic", "decoding of %q panicked: %s", clip(string(o.Data)), p)
			return
		case err != nil:
			if strings.HasPrefix(o.exp, "ok ") {
				t.fail(o, "outcome", "decoding %q as %s failed: %v\nwant %s", clip(string(o.Data)), o.Q, err, clip(o.exp))
			}
			return
		}
		switch o.Q {
		case "urn":
			v.u = &v.d.U
		case "urn8141":
			v.u = v.d.E.URN
		}
		t.vals[o.ID] = v
		if got := v.observe(); o.exp != "" && got != o.exp {
			v.isVal = false
			t.fail(o, "outcome", "decoding %q as %s\n got %s\nwant %s", clip(string(o.Data)), o.Q, clip(got), clip(o.exp))
		}
	case "dcopy":
		a, b := t.dsts[o.From], t.dsts[o.D]
		if a == nil || b == nil || a.T != b.T {
			return
		}
		t.cnt["copy_destination"]++
		b.U, b.E, b.S = a.U, a.E, a.S
		t.dexp[o.D] = t.dexp[o.From]
	case "scribble":
		t.cnt["overwrite_input"]++
		s.Bufs[o.B].scribble(o.N)
	case "refill":
		t.cnt["refill_input"]++
		b := &s.Bufs[o.B]
		if b.mapping != nil && len(o.Data) > len(b.all) {
			o.Data = o.Data[:len(b.all)]
		}
		b.b = b.refill(o.Data)
	case "renew": // the input memory is given up, other memory takes its place
		b := &s.Bufs[o.B]
		if b.mapping != nil {
			return
		}
		t.cnt["renew_input"]++
		b.all, b.b = nil, nil
		if o.N == 1 {
			t.cnt["collection"]++
			collect()
		}
		b.all = append([]byte(nil), o.Data...)
		b.b, b.want = b.all, append([]byte(nil), o.Data...)
	case "idle":
		if o.How == "wall" {
			t.cnt["clock_set"]++
			simrt.SetWall(int64(o.N) * 1e6)
		} else {
			t.cnt["time_passes"]++
			simrt.Advance(int64(o.N) * 1e6)
		}
	case "gc":
		t.cnt["collection"]++
		collect()
	case "drop":
		switch {
		case o.M != 0 && t.mach[o.M] != nil:
			t.cnt["drop_machine"]++
			delete(t.mach, o.M)
			delete(t.merr, o.M)
		case o.U > 0 && t.vals[o.U] != nil:
			t.cnt["drop_result"]++
			delete(t.vals, o.U)
		}
	case "keep":
		if v := t.value(o.U); v != nil {
			t.cnt["keep_text"]++
			t.keep(o, v)
		}
	case "unmap":
		t.cnt["unmap_input"]++
		s.Bufs[o.B].unmap()
	case "wait":
		for i := range tasks {
			for _, x := range s.Tasks[i] {
				if x.ID == o.U {
					for !done[i][o.U] {
						simrt.Blocked()
					}
				}
			}
		}
	default:
		panic("harness: unknown op " + o.K)
	}
}

// keep holds on to the texts of a result.
func (t *task) keep(o *Op, v *val) {
	hold := func(what string, look func() string) { t.kept = append(t.kept, kept{o.U, what, look, look()}) }
	add := func(what, s string) { hold(what, func() string { return strings.Clone(s) }) }
	if p := obs.Guard(func() string {
		if v.err != nil {
			add("the error text", v.err.Error())
			err := v.err
			hold("the error", func() string { return obs.Err(err) })
		}
		if v.u == nil {
			return ""
		}
		add("the identifier", v.u.ID)
		add("the specific string", v.u.SS)
		add("the text", v.u.String())
		add("the r-component", v.u.RComponent())
		add("the q-component", v.u.QComponent())
		add("the f-component", v.u.FComponent())
		if x := v.u.SCIM(); x != nil {
			add("the SCIM name", x.Name)
			add("the rest of the SCIM name", x.Other)
			hold("the SCIM parts", func() string { return obs.SCIM(x) })
		}
		if x := v.u.Normalize(); x != nil {
			add("the text of the normal form", x.String())
			hold("the normal form", func() string { return obs.URN(x) })
		}
		return ""
	}); p != "" {
		t.fail(o, "panic", "looking at the result of op %d: %s", o.U, p)
	}
}

// GiveUp is called when a finalizer waits for a task, which a simulated run
// cannot wait for. It does not return.
var GiveUp = func() { panic("harness: a finalizer waits") }

// collector says when the garbage collector runs. The task that holds the token
// asks it; the race detector need not know.
type collector struct {
	at []uint64
	n  int
}

//go:norace
func (c *collector) due(step uint64) bool {
	if c.n == len(c.at) || step < c.at[c.n] {
		return false
	}
	c.n++
	return true
}

// collect runs the garbage collector and everything that depends on it:
// finalizers and cleanups, and the collection of what they have let go.
func collect() {
	was := simrt.Quiet(true)
	runtime.GC()
	done := make(chan bool, 2)
	sentinels(done)
	runtime.GC()
	for k := 0; k < 2; k++ {
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			GiveUp()
		}
	}

	simrt.Quiet(was)
}

//go:noinline
func sentinels(done chan bool) {
	type big struct{ _ [40]*int }
	a, b := new(big), new(big)
	runtime.SetFinalizer(a, func(*big) { done <- true })
	runtime.AddCleanup(b, func(c chan bool) { c <- true }, done)
}

func option(o *Op) urn.Option {
	if o.How == "sharedopt" || o.How == "pkgshared" {
		return sharedOpts[o.Mode]
	}
	return urn.WithParsingMode(urn.ParsingMode(o.Mode))
}

// options are all options of a call: the last one decides.
func options(o *Op) []urn.Option {
	var l []urn.Option
	last := option(o)
	for _, m := range o.Pre {
		switch m {
		case OwnSets:
			mode := urn.ParsingMode(o.Mode)
			last = func(m urn.Machine) { m.WithParsingMode(mode) }
		case OwnReenters, OwnParses, OwnPanics:
			l = append(l, own(m))
		default:
			l = append(l, option(&Op{Mode: m, How: o.How}))
		}
	}
	return append(l, last)
}

// options creates the option values that are shared: by all tasks of this and
// later runs. Those that nobody shares are made when they are needed.
func (s *Scenario) options() {
	for _, ops := range s.Tasks {
		for i := range ops {
			if o := &ops[i]; o.How == "sharedopt" || o.How == "pkgshared" {
				for _, m := range append([]int{o.Mode}, o.Pre...) {
					if m <= OwnSets && m >= OwnPanics {
						continue
					}
					if sharedOpts[m] == nil {
						sharedOpts[m] = urn.WithParsingMode(urn.ParsingMode(m))
					}
				}
			}
		}
	}
}

func (s *Scenario) parse(t *task, o *Op) {
	buf := &s.Bufs[o.B]
	var m urn.Machine
	if o.K == "mparse" {
		if m = t.mach[o.M]; m == nil {
			return
		}
	}
	v := &val{isVal: true, form: "parse"}
	panicked := ""
	in := buf.b
	text := in // for messages
	if buf.Place == "abort" {
		text = buf.Data
	}
	simrt.Begin(Budget(len(in)))
	func() {
		defer func() {
			if p := recover(); p != nil {
				panicked = obs.Panic(p)
				if a, ok := p.(interface{ Addr() uintptr }); ok {
					for i := range s.Bufs {
						if i != o.B && s.Bufs[i].gone && s.Bufs[i].holds(a.Addr()) {
							panicked = "stale"
						}
					}
				}
			}
		}()
		switch {
		case o.K == "mparse":
			v.u, v.err = m.Parse(in)
		case o.How == "pkg" || o.How == "pkgshared":
			v.form = "pkg"
			v.u, v.ok = urn.Parse(in, options(o)...)
		case o.How == "pkgdef":
			v.form = "pkg"
			v.u, v.ok = urn.Parse(in)
		default:
			v.u, v.err = urn.NewMachine(options(o)...).Parse(in)
		}
	}()
	used := simrt.Used()
	simrt.Begin(1 << 21)
	t.cnt["parse"]++
	if k := "max_steps_per_100_bytes"; len(in) >= 50 {
		if r := int(used * 100 / uint64(len(in))); r > t.cnt[k] {
			t.cnt[k] = r
		}
	}
	if panicked != "" {
		fmt.Fprintf(&t.log, "%d panic %s\n", o.ID, panicked)
		if panicked == ownPanic {
			t.cnt["aborted_by_own_option"]++
			return
		}
		if panicked == "memory fault" && buf.Place == "abort" {
			t.cnt["parse_aborted_by_memory_fault"]++
			if o.K == "mparse" {
				t.aged[o.M] = true
			}
			return
		}
		switch panicked {
		case "step limit":
			t.fail(o, "steps", "parse of %q (mode %d) did not end within %d steps", clip(string(buf.Data)), o.Mode, Budget(len(in)))
		case "stale":
			t.fail(o, "stale", "parse of %q (mode %d) touched the memory of an earlier input", clip(string(buf.Data)), o.Mode)
		case "memory fault":
			t.fail(o, "fault", "parse of %q (mode %d, %s) touched memory it must not touch", clip(string(buf.Data)), o.Mode, buf.Place)
		default:
			t.fail(o, "panic", "parse of %q (mode %d) panicked: %s", clip(string(buf.Data)), o.Mode, panicked)
		}
		if o.K == "mparse" {
			t.aged[o.M] = true
		}
		return
	}
	if v.err != nil || (v.form == "pkg" && !v.ok) {
		t.cnt["parse_failed"]++
	}
	if v.form == "pkg" {
		if v.ok != (v.u != nil) {
			t.fail(o, "dichotomy", "Parse(%q) mode %d: URN nil=%v but ok=%v", clip(string(text)), o.Mode, v.u == nil, v.ok)
			return
		}
	} else if (v.err != nil) == (v.u != nil) {
		t.fail(o, "dichotomy", "Machine.Parse(%q) mode %d: URN nil=%v, error %v", clip(string(text)), o.Mode, v.u == nil, v.err)
		if s.Prop == "C05" {
			return
		}
	}
	if o.K == "mparse" {
		t.aged[o.M] = false
		t.merr[o.M] = obs.Err(v.err)
	}
	if o.exp == "" {
		t.vals[o.ID] = v
		return
	}
	v.exp = o.exp
	if v.form == "pkg" {
		v.exp = obs.OK(o.exp)
	}
	t.vals[o.ID] = v
	if o.N == 1 { // do not look at the result now (lazy work must still be right later)
		return
	}
	got := v.observe()
	fmt.Fprintf(&t.log, "%d %s\n", o.ID, got)
	if got != v.exp {
		v.isVal = false
		t.fail(o, "outcome", "parse of %q (mode %d)\n got %s\nwant %s", clip(string(text)), o.Mode, clip(got), clip(v.exp))
	}
}

// grow checks that the effort to parse grows no faster than the text: the same
// text with a part of it repeated n and 32n times, counted in steps and in bytes
// allocated (copying is effort too).
func (s *Scenario) grow(t *task, o *Op) {
	const factor = 32
	text := func(n int) []byte {
		var b []byte
		b = append(b, o.Data...)
		for i := 0; i < n; i++ {
			b = append(b, o.Q...)
		}
		return b
	}
	either := true
	call := func(in []byte, budget uint64) (steps, bytes uint64, p string) {
		var m urn.Machine
		if o.How == "machine" {
			m = urn.NewMachine(option(o))
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		simrt.Begin(budget)
		p = obs.Guard(func() string {
			if m != nil {
				u, err := m.Parse(in)
				either = (u != nil) != (err != nil) && (m.Error() == nil) == (u != nil)
			} else {
				u, ok := urn.Parse(in, option(o))
				either = (u != nil) == ok
			}
			return ""
		})
		steps = simrt.Used()
		simrt.Begin(1 << 21)
		runtime.ReadMemStats(&b)
		return steps, b.TotalAlloc - a.TotalAlloc, p
	}
	small, big := text(o.N), text(o.N*factor)
	s1, b1, p := call(small, Budget(len(small)))
	if p != "" {
		t.fail(o, "panic", "parse of %q followed by %d times %q (mode %d) panicked: %s", o.Data, o.N, o.Q, o.Mode, p)
		return
	}
	limit := 4*factor*s1 + 20000
	s2, b2, p := call(big, limit)
	t.cnt["growth"]++
	switch {
	case p == "" && !either:
		t.fail(o, "dichotomy", "parse of %q followed by %d times %q (mode %d) gives both or neither of a URN and an error", o.Data, o.N*factor, o.Q, o.Mode)
	case p == "panic:step limit":
		t.fail(o, "steps", "parse of %q followed by %d times %q (mode %d) takes %d steps, but with %d times it is not done after %d", o.Data, o.N, o.Q, o.Mode, s1, o.N*factor, limit)
	case p != "":
		t.fail(o, "panic", "parse of %q followed by %d times %q (mode %d) panicked: %s", o.Data, o.N*factor, o.Q, o.Mode, p)
	case s.alone() && b2 > 8*factor*b1+(1<<20):
		t.fail(o, "steps", "parse of %q followed by %d times %q (mode %d) copies %d bytes, with %d times %d bytes", o.Data, o.N, o.Q, o.Mode, b1, o.N*factor, b2)
	}
	fmt.Fprintf(&t.log, "%d %d %d\n", o.ID, s1, s2)
}

// alone: nothing but the one task allocates.
func (s *Scenario) alone() bool { return len(s.Tasks) == 1 }

func (s *Scenario) decode(t *task, o *Op) {
	d := t.dsts[o.D]
	if d == nil {
		return
	}
	buf := &s.Bufs[o.B]
	how := o.How
	if buf.Place == "abort" {
		how = "direct"
	}
	simrt.Begin(Budget(len(buf.b)))
	err, p := d.Decode(buf.b, how, o.N)
	simrt.Begin(1 << 21)
	t.cnt["decode_"+how]++
	fmt.Fprintf(&t.log, "%d %v %s\n", o.ID, err != nil, p)
	switch {
	case p == "memory fault" && buf.Place == "abort":
		t.cnt["decode_aborted_by_memory_fault"]++
	case p == "step limit":
		t.fail(o, "steps", "decoding of %q did not end within %d steps", clip(string(buf.Data)), Budget(len(buf.b)))
		return
	case p == "memory fault":
		t.fail(o, "fault", "decoding of %q (%s) touched memory it must not touch", clip(string(buf.Data)), buf.Place)
		return
	case p != "":
		if o.exp != "" && o.exp != "panic:"+p {
			t.fail(o, "panic", "decoding of %q panicked: %s", clip(string(buf.Data)), p)
		}
		return
	case err != nil:
		t.cnt["decode_failed"]++
		if strings.HasPrefix(o.exp, "ok ") {
			t.fail(o, "outcome", "decoding %q as %s failed: %v\nwant %s", clip(string(buf.Data)), d.T, err, clip(o.exp))
		} else if how == "direct" && o.exp != "" && o.exp != "err "+obs.Err(err) {
			t.fail(o, "outcome", "decoding %q as %s\n got error %v\nwant %s", clip(string(buf.Data)), d.T, err, clip(o.exp))
		}
	default:
		t.cnt["decode_ok"]++
		if o.exp != "" {
			if !strings.HasPrefix(o.exp, "ok ") {
				t.fail(o, "outcome", "decoding %q as %s succeeded\nwant %s", clip(string(buf.Data)), d.T, clip(o.exp))
				return
			}
			t.dexp[o.D] = strings.TrimPrefix(o.exp, "ok ")
		} else {
			t.dexp[o.D] = d.Obs()
		}
	}
	if o.exp == "" {
		return
	}
	for k := range s.Dsts {
		if t.dsts[k] != nil && (o.M != 1 || k != o.D) {
			s.dstCheck(t, o, k)
		}
	}
}

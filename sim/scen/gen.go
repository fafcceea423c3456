package scen

import (
	"encoding/json"
	"fmt"

	urn "github.com/leodido/go-urn"

	"verifsim/gen"
	"verifsim/obs"
	"verifsim/rnd"
	"verifsim/simrt"
)

// Corpus is the set of texts a batch of runs works with (kept small so that
// the pristine process is asked each question once).
type Corpus struct {
	Texts []Text
	Docs  []Doc
}

type Text struct {
	S    []byte
	Mode int
}

func NewCorpus(r *rnd.R, n, docs int) *Corpus {
	c := &Corpus{}
	if r.P(16) { // many: more than what anything keeps
		n *= 12
		docs *= 3
	}
	for len(c.Texts) < n {
		m := gen.Mode(r)
		if len(c.Texts) > 0 && r.P(3) {
			t := c.text(r)
			c.Texts = append(c.Texts, Text{[]byte(gen.Variant(r, string(t.S))), t.Mode})
			continue
		}
		c.Texts = append(c.Texts, Text{[]byte(gen.Text(r, m)), m})
	}
	// always some that need normalising, and one of every kind
	for _, m := range []int{gen.M2141, gen.M8141, gen.M7643} {
		c.Texts = append(c.Texts, Text{[]byte(gen.Valid(r, m)), m})
	}
	c.Texts = append(c.Texts, Text{[]byte("urn:" + gen.ID(r, gen.M8141) + ":x%AB%" + gen.Alnum(r, 1) + "Fz" + gen.Tail(r)), gen.M2141})
	if r.P(3) {
		m := gen.Mode(r)
		s := gen.Long(r, m, gen.Size(r))
		c.Texts = append(c.Texts, Text{[]byte(s), m}, Text{[]byte(gen.Variant(r, s)), m})
	}
	for i := 0; i < docs; i++ {
		t := rnd.Pick(r, "urn", "urn8141", "scim")
		c.Docs = append(c.Docs, Doc{T: t, Data: []byte(gen.Doc(r, t))})
	}
	return c
}

func (c *Corpus) text(r *rnd.R) Text { return c.Texts[r.N(len(c.Texts))] }

// mode for a text: mostly the one it was made for.
func (t Text) mode(r *rnd.R) int {
	if r.P(4) {
		return anyMode(r)
	}
	return t.Mode
}

func policy(r *rnd.R) simrt.Policy {
	p := simrt.Policy{Seed: r.U64()}
	switch r.N(10) {
	case 0:
		p.Kind, p.OneIn = "ops", uint64(r.In(1, 3))
	case 1, 2, 3:
		p.Kind, p.Depth, p.Horizon = "pct", r.In(1, 6), uint64(rnd.Pick(r, 100, 400, 1500, 5000))
	case 4, 5, 6:
		p.Kind, p.SiteFrac, p.OneIn = "sites", uint64(rnd.Pick(r, 4, 16, 64)), uint64(r.In(1, 3))
	default:
		p.Kind, p.OneIn = "random", uint64(rnd.Pick(r, 2, 5, 20, 100))
	}
	return p
}

type b struct {
	*Scenario
	r  *rnd.R
	id int
}

func (x *b) next() int { x.id++; return x.id }

func (x *b) buf(data []byte, place string, spare int) int {
	x.Bufs = append(x.Bufs, Buf{Data: append([]byte(nil), data...), Place: place, Spare: spare})
	return len(x.Bufs) - 1
}

func (x *b) place() (string, int) {
	prot := "ro"
	switch x.Prop {
	case "C03": // memory that gets recycled or unmapped
		prot = "rw"
	case "C04", "C05":
		return "heap", rnd.Pick(x.r, 0, 8)
	}
	switch x.r.N(4) {
	case 0:
		return prot + "-end", 0
	case 1:
		return prot + "-start", 0
	}
	return "heap", rnd.Pick(x.r, 0, 0, 8, 64)
}

// anyMode is mostly a mode the library knows.
func anyMode(r *rnd.R) int {
	if r.P(8) {
		return Modes[r.N(len(Modes))]
	}
	return rnd.Pick(r, 0, 1, 2, 3, 1, 2, 3)
}

// pre are the modes of options given before the one that decides.
func pre(r *rnd.R) (l []int) {
	if r.P(8) {
		for k := r.In(1, 3); k > 0; k-- {
			l = append(l, anyMode(r))
		}
	}
	if r.P(12) {
		l = append(l, rnd.Pick(r, OwnSets, OwnReenters, OwnReenters, OwnParses, OwnPanics))
	}
	return
}

var hows = []string{"machine", "pkg", "sharedopt", "pkgshared", "pkgdef"}

// Generate makes the scenario of one run.
func Generate(prop string, r *rnd.R, c *Corpus, thorough bool) *Scenario {
	s := &Scenario{Prop: prop, Policy: policy(r)}
	x := &b{s, r, 0}
	switch prop {
	case "C01":
		x.isolation(c)
	case "C02":
		x.untouched(c)
	case "C03":
		x.recycled(c)
	case "C04":
		x.reuse(c)
	case "C05":
		x.total(c, thorough)
	case "C06":
		x.readers(c)
	case "C07":
		x.private(c)
	case "C08":
		x.decoding(c)
	case "C16":
		x.collected(c)
	}
	switch r.N(5) {
	case 0:
		x.clock()
	case 1:
		x.Tick = rnd.Pick[int64](r, 7, 1500, 20*60e3, 90*60e3, 30*3600e3)
	}
	return s
}

// clock lets time pass, or the wall clock be set, between operations.
func (x *b) clock() {
	r := x.r
	for k := r.In(1, 3); k > 0; k-- {
		t := r.N(len(x.Tasks))
		if len(x.Tasks[t]) == 0 {
			continue
		}
		o := Op{ID: x.next(), K: "idle", N: rnd.Pick[int](r, 5, 1200, 90e3, 20*60e3, 2*3600e3, 36*3600e3, 40*24*3600e3)}
		if r.P(4) {
			o.How = "wall"
			if r.P(2) {
				o.N = -o.N
			}
		}
		i := r.N(len(x.Tasks[t]) + 1)
		l := append([]Op(nil), x.Tasks[t][:i]...)
		x.Tasks[t] = append(append(l, o), x.Tasks[t][i:]...)
	}
}

func (x *b) isolation(c *Corpus) {
	r := x.r
	nt := r.In(2, 5)
	// a pool of shared inputs
	var texts []Text
	var bufs []int
	for i := r.In(1, 3); i > 0; i-- {
		t := c.text(r)
		texts = append(texts, t)
		bufs = append(bufs, x.buf(t.S, "heap", rnd.Pick(r, 0, 8)))
	}
	var docs []Doc
	var dbufs []int
	if len(c.Docs) > 0 {
		for i := r.N(3); i > 0; i-- {
			d := c.Docs[r.N(len(c.Docs))]
			docs = append(docs, d)
			dbufs = append(dbufs, x.buf(d.Data, "heap", 0))
		}
	}
	own := r.P(2)
	burst := -1 // the task that makes many calls while the others are in one
	if r.P(12) {
		burst = r.N(nt)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		m := 0
		k := r.In(1, 5)
		if t == burst {
			k = r.In(20, 150)
		}
		for ; k > 0; k-- {
			i := r.N(len(bufs))
			tx, bi := texts[i], bufs[i]
			if own && r.P(2) {
				tx = c.text(r)
				bi = x.buf(tx.S, "heap", 0)
			}
			switch {
			case len(dbufs) > 0 && r.P(4):
				j := r.N(len(dbufs))
				x.Dsts = append(x.Dsts, Init{T: docs[j].T, Src: -1, Task: t})
				ops = append(ops, Op{ID: x.next(), K: "dec", D: len(x.Dsts) - 1, B: dbufs[j], How: rnd.Pick(r, "direct", "unmarshal"), M: 1})
			case r.P(3):
				if m == 0 || r.P(3) {
					m = x.next()
					ops = append(ops, Op{ID: m, K: "mnew", Mode: tx.mode(r), How: rnd.Pick(r, "", "sharedopt"), Pre: pre(r)})
				} else if r.P(2) {
					ops = append(ops, Op{ID: x.next(), K: "mmode", M: m, Mode: tx.mode(r), How: rnd.Pick(r, "", "", "option", "wrapped")})
				}
				ops = append(ops, Op{ID: x.next(), K: "mparse", M: m, B: bi}, Op{ID: x.next(), K: "merr", M: m})
			default:
				ops = append(ops, Op{ID: x.next(), K: "parse", B: bi, Mode: tx.mode(r), How: hows[r.N(len(hows))], Pre: pre(r)})
			}
			if r.P(4) {
				ops = append(ops, Op{ID: x.next(), K: "recheck"})
			}
		}
		x.Tasks = append(x.Tasks, ops)
	}
}

func (x *b) untouched(c *Corpus) {
	r := x.r
	x.Watch = true
	nt := r.In(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := r.In(1, 4); k > 0; k-- {
			tx := c.text(r)
			pl, sp := x.place()
			if len(c.Docs) > 0 && r.P(4) {
				d := c.Docs[r.N(len(c.Docs))]
				bi := x.buf(d.Data, pl, sp)
				x.Dsts = append(x.Dsts, Init{T: d.T, Src: -1, Task: t})
				ops = append(ops, Op{ID: x.next(), K: "dec", D: len(x.Dsts) - 1, B: bi, How: rnd.Pick(r, "direct", "unmarshal", "stream"), N: r.N(5)})
				continue
			}
			bi := x.buf(tx.S, pl, sp)
			if r.P(8) && len(tx.S) > 0 {
				x.Bufs[bi].Place, x.Bufs[bi].AbortAt, x.Bufs[bi].Spare = "abort", r.N(len(tx.S)), 0
			}
			if r.P(3) {
				m := x.next()
				ops = append(ops, Op{ID: m, K: "mnew", Mode: tx.mode(r)}, Op{ID: x.next(), K: "mparse", M: m, B: bi})
				if r.P(2) {
					ops = append(ops, Op{ID: x.next(), K: "mparse", M: m, B: bi}, Op{ID: x.next(), K: "merr", M: m})
				}
			} else {
				id := x.next()
				ops = append(ops, Op{ID: id, K: "parse", B: bi, Mode: tx.mode(r), How: hows[r.N(len(hows))]})
			}
		}
		x.Tasks = append(x.Tasks, ops)
	}
}

func (x *b) recycled(c *Corpus) {
	r := x.r
	nt := r.In(1, 3)
	type pend struct{ op, buf int }
	var handed []pend
	for t := 0; t < nt; t++ {
		var ops []Op
		m := 0
		loop := -1 // a buffer this task reads one input after the other into
		for k := r.In(1, 4); k > 0; k-- {
			tx := c.text(r)
			var bi int
			own := false
			if len(c.Docs) > 0 && r.P(5) {
				d := c.Docs[r.N(len(c.Docs))]
				pl, sp := x.place()
				bi = x.buf(d.Data, pl, sp)
				x.Dsts = append(x.Dsts, Init{T: d.T, Src: -1, Task: t})
				ops = append(ops, Op{ID: x.next(), K: "dec", D: len(x.Dsts) - 1, B: bi, How: rnd.Pick(r, "direct", "unmarshal"), M: r.N(2)})
			} else {
				if loop >= 0 && r.P(2) {
					bi, own = loop, true
					ops = append(ops, Op{ID: x.next(), K: "refill", B: bi, Data: tx.S})
				} else if r.P(2) {
					bi, own = x.buf(tx.S, "heap", 256), true
					loop = bi
				} else {
					pl, sp := x.place()
					bi = x.buf(tx.S, pl, sp)
				}
				if r.P(2) {
					if m == 0 || r.P(4) {
						m = x.next()
						ops = append(ops, Op{ID: m, K: "mnew", Mode: tx.mode(r)})
					}
					ops = append(ops, Op{ID: x.next(), K: "mparse", M: m, B: bi, N: r.N(2)})
				} else {
					ops = append(ops, Op{ID: x.next(), K: "parse", B: bi, Mode: tx.mode(r), How: hows[r.N(len(hows))], N: r.N(2)})
				}
			}
			last := ops[len(ops)-1].ID
			switch {
			case own && r.P(3), !own && r.P(2):
				ops = append(ops, Op{ID: x.next(), K: "scribble", B: bi, N: r.N(4)})
				if own {
					// what is parsed next from it must be known
					tx = c.text(r)
					ops = append(ops, Op{ID: x.next(), K: "refill", B: bi, Data: tx.S})
				}
			case !own && r.P(2) && x.Bufs[bi].Place != "heap":
				ops = append(ops, Op{ID: x.next(), K: "unmap", B: bi})
			case !own:
				handed = append(handed, pend{last, bi})
			}
			if r.P(2) {
				ops = append(ops, Op{ID: x.next(), K: "recheck"})
			}
			if r.P(4) {
				ops = append(ops, Op{ID: x.next(), K: "query", U: last, Q: obs.Queries[r.N(len(obs.Queries))]})
			}
		}
		ops = append(ops, Op{ID: x.next(), K: "recheck"})
		x.Tasks = append(x.Tasks, ops)
	}
	if len(handed) > 0 { // somebody else recycles the memory while results are being read
		var ops []Op
		for _, h := range handed {
			k := "scribble"
			if x.Bufs[h.buf].Place != "heap" && r.P(2) {
				k = "unmap"
			}
			ops = append(ops, Op{ID: x.next(), K: "wait", U: h.op}, Op{ID: x.next(), K: k, B: h.buf, N: r.N(4)})
		}
		x.Tasks = append(x.Tasks, ops)
	}
}

func (x *b) reuse(c *Corpus) {
	r := x.r
	nt := r.In(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		var ms []int
		k := r.In(3, 24)
		long := t == 0 && r.P(25) // a machine that has done a lot
		if long {
			k = r.In(260, 400)
		}
		make := func(n int) {
			for ; n > 0; n-- {
				id := x.next()
				mode := anyMode(r)
				if r.P(8) {
					mode = NoMode
				}
				ops = append(ops, Op{ID: id, K: "mnew", Mode: mode, How: rnd.Pick(r, "", "sharedopt"), Pre: pre(r)})
				ms = append(ms, id)
			}
		}
		for ; k > 0; k-- {
			switch {
			case len(ms) == 0 || r.P(12) && !long:
				make(1)
			case r.P(150) && !long: // many machines
				make(r.In(10, 140))
			}
			m := ms[r.N(len(ms))]
			if len(ms) > 8 && r.P(2) { // the first ones have seen most
				m = ms[r.N(3)]
			}
			switch {
			case r.P(4) && !long, long && r.P(60):
				ops = append(ops, Op{ID: x.next(), K: "mmode", M: m, Mode: anyMode(r), How: rnd.Pick(r, "", "", "option", "wrapped")})
			case r.P(6):
				ops = append(ops, Op{ID: x.next(), K: "merr", M: m})
			case r.P(8):
				ops = append(ops, Op{ID: x.next(), K: "recheck"})
			default:
				tx := c.text(r)
				pl, sp := x.place()
				bi := x.buf(tx.S, pl, sp)
				if r.P(6) && len(tx.S) > 0 {
					x.Bufs[bi].Place, x.Bufs[bi].AbortAt, x.Bufs[bi].Spare = "abort", r.N(len(tx.S)), 0
				}
				ops = append(ops, Op{ID: x.next(), K: "mparse", M: m, B: bi})
				if r.P(2) {
					ops = append(ops, Op{ID: x.next(), K: "merr", M: m})
				}
			}
		}
		x.Tasks = append(x.Tasks, ops)
	}
}

func (x *b) growth(c *Corpus) Op {
	r := x.r
	o := Op{ID: x.next(), K: "grow", Mode: gen.Mode(r), How: rnd.Pick(r, "machine", "pkg"), N: rnd.Pick(r, 32, 100)}
	switch r.N(4) {
	case 0:
		o.Data = []byte(rnd.Pick(r, "urn:ab:x", "urn:ab:", "URN:a-b:", "", "urn:", "u"))
	case 1:
		o.Data = []byte(rnd.Pick(r, "urn:ietf:params:scim:api:a", "urn:ietf:params:scim:schemas:a:b"))
		o.Mode = gen.M7643
	case 2:
		o.Data = []byte(rnd.Pick(r, "urn:ab:x", "urn:ab:x?+a", "urn:ab:x?=b", "urn:ab:x#", "urn:ab:x?+a?=b", "urn:ab:x?+a#c"))
		o.Mode = gen.M8141
	default:
		o.Data = append([]byte(nil), c.text(r).S...)
	}
	switch r.N(3) {
	case 0:
		o.Q = rnd.Pick(r, "%AA", "%aF", "a", "A", "-", "/", "?", "?+a", "?=a", ":", "#x", ".", "%", "urn:", "\n", "0")
	case 1:
		o.Q = gen.Tail(r)
	default:
		o.Q = rnd.Pick(r, "%AA", "%BB", "z", "%2C:", "x") + rnd.Pick(r, "", "%CD", "q", "/", "-", "?a")
	}
	if len(o.Q) <= 3 && r.P(4) { // past 64 KiB
		o.N = 700
		if r.P(40) { // past 1 MiB
			o.N = 1 + (1<<20)/32/len(o.Q)
		}
	}
	return o
}

func (x *b) total(c *Corpus, thorough bool) {
	r := x.r
	nt := r.In(1, 3)
	if r.P(12) {
		var ops []Op
		for k := r.In(1, 4); k > 0; k-- {
			ops = append(ops, x.growth(c))
		}
		x.Tasks = append(x.Tasks, ops)
		return
	}
	modes := append([]int{1, 2, 3}, Modes...)
	for t := 0; t < nt; t++ {
		var ops []Op
		var ms []int
		for k := r.In(2, 10); k > 0; k-- {
			if len(ms) == 0 || r.P(6) {
				id := x.next()
				ops = append(ops, Op{ID: id, K: "mnew", Mode: rnd.Pick(r, append(modes, NoMode)...), Pre: pre(r)})
				ms = append(ms, id)
			}
			m := ms[r.N(len(ms))]
			if r.P(3) {
				ops = append(ops, Op{ID: x.next(), K: "mmode", M: m, Mode: rnd.Pick(r, modes...), How: rnd.Pick(r, "", "", "option", "wrapped")})
			}
			tx := c.text(r)
			data := tx.S
			if r.P(40) { // a long input
				n := rnd.Pick(r, 300, 3000, 20000)
				if thorough {
					n *= rnd.Pick(r, 1, 4)
				}
				for len(data) < n {
					if r.P(50) {
						data = append(append([]byte(nil), data...), gen.Text(r, tx.Mode)...)
					} else {
						data = append(append([]byte(nil), data...), gen.Tail(r)...)
					}
				}
			} else if r.P(2) {
				data = []byte(gen.Text(r, tx.Mode))
			} else if r.P(12) {
				data = data[:min(len(data), r.N(3))]
			} else if r.P(6) {
				data = make([]byte, r.N(40))
				for i := range data {
					data[i] = byte(r.N(256))
				}
			}
			pl, sp := x.place()
			bi := x.buf(data, pl, sp)
			if r.P(12) && len(data) > 0 {
				x.Bufs[bi].Place, x.Bufs[bi].AbortAt, x.Bufs[bi].Spare = "abort", r.N(len(data)), 0
			}
			if r.P(3) {
				ops = append(ops, Op{ID: x.next(), K: "parse", B: bi, Mode: rnd.Pick(r, modes...), How: rnd.Pick(r, "machine", "pkg", "pkg", "pkgdef", "sharedopt", "pkgshared"), Pre: pre(r)})
			} else {
				ops = append(ops, Op{ID: x.next(), K: "mparse", M: m, B: bi}, Op{ID: x.next(), K: "merr", M: m})
			}
		}
		x.Tasks = append(x.Tasks, ops)
	}
}

func (x *b) source(c *Corpus) obs.Src {
	r := x.r
	if r.P(10) {
		return obs.Src{Kind: "lit", ID: rnd.Pick(r, "oid", "", "Foo", "urn"), SS: rnd.Pick(r, "1.2.3.4", "A%2C", "", "\"q\" <&>")}
	}
	t := c.text(r)
	for i := 0; i < 8 && r.N(6) != 0; i++ {
		if len(t.S) > 8 {
			break
		}
		t = c.text(r)
	}
	k := "parse"
	switch {
	case t.Mode == gen.M2141 && r.P(6):
		k = "dec"
	case t.Mode == gen.M8141 && r.P(6):
		k = "dec8141"
	case r.P(8):
		k = "norm"
	}
	src := obs.Src{Kind: k, Mode: t.Mode, In: t.S}
	if r.P(6) {
		src.Set = x.set()
	}
	return src
}

// set: the caller sets exported fields.
func (x *b) set() *obs.Set {
	r := x.r
	set := &obs.Set{Copy: r.P(2), Which: r.In(1, 3)}
	if set.Which&1 != 0 {
		set.ID = rnd.Pick(r, "foo", "Foo", "oid", "", gen.ID(r, gen.M8141))
	}
	if set.Which&2 != 0 {
		set.SS = rnd.Pick(r, "a", "A%2C", "", gen.NSS(r, gen.M8141), gen.NSS(r, gen.M2141))
	}
	for k := r.N(3); k > 0; k-- {
		set.Warm = append(set.Warm, obs.Queries[r.N(len(obs.Queries))])
	}
	if r.P(2) {
		set.Warm = append(set.Warm, "string")
	}
	return set
}

func (x *b) readers(c *Corpus) {
	r := x.r
	ns := r.In(1, 3)
	for i := 0; i < ns; i++ {
		src := x.source(c)
		if i > 0 && r.P(2) { // the same name, or nearly, written otherwise
			if o := x.Shared[r.N(i)]; o.In != nil {
				src.In, src.Mode, src.Deep, src.Set = []byte(gen.Respell(r, string(o.In))), o.Mode, 0, nil
				if r.P(4) {
					src.In = []byte(gen.Variant(r, string(o.In)))
				}
				src.Kind = rnd.Pick(r, "parse", "parse", "parse", "norm")
			}
		}
		x.Shared = append(x.Shared, src)
	}
	nt := r.In(2, 5)
	focus := ""
	if r.P(3) { // everybody does the same
		focus = rnd.Pick(r, obs.Queries...)
	}
	burst := -1 // the task that asks a lot while the others are in a question
	if r.P(15) {
		burst = r.N(nt)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		k := r.In(1, 8)
		if t == burst {
			k = r.In(20, 280)
		}
		for ; k > 0; k-- {
			u := -1 - r.N(ns)
			if r.P(5) {
				ops = append(ops, Op{ID: x.next(), K: "equal", U: u, V: -1 - r.N(ns)})
				continue
			}
			q := obs.Queries[r.N(len(obs.Queries))]
			if focus != "" && !r.P(3) {
				q = focus
			}
			ops = append(ops, Op{ID: x.next(), K: "query", U: u, Q: q})
		}
		x.Tasks = append(x.Tasks, ops)
	}
}

var decodedAs = map[int]string{gen.M2141: "urn", gen.M7643: "scim", gen.M8141: "urn8141"}

func (x *b) private(c *Corpus) {
	r := x.r
	ns := r.In(1, 2)
	for i := 0; i < ns; i++ {
		s := x.source(c)
		s.Kind, s.Set = "parse", nil
		if s.In == nil {
			s.In, s.Mode = []byte("urn:ab:C%2Fd"), 1
		}
		x.Shared = append(x.Shared, s)
	}
	nt := r.In(1, 4)
	same := c.text(r)
	sb := x.buf(same.S, "heap", 0)
	for t := 0; t < nt; t++ {
		var ops []Op
		var vals []int
		m := 0
		k := r.In(3, 12)
		if r.P(25) { // a long history
			k = r.In(30, 200)
		}
		for ; k > 0; k-- {
			switch n := r.N(10); {
			case len(vals) == 0 || n < 3:
				tx, bi := same, sb
				if r.P(3) {
					tx = c.text(r)
					bi = x.buf(tx.S, "heap", 0)
				}
				switch r.N(4) {
				case 0, 1:
					if m == 0 {
						m = x.next()
						ops = append(ops, Op{ID: m, K: "mnew", Mode: tx.Mode})
					}
					ops = append(ops, Op{ID: x.next(), K: "mparse", M: m, B: bi})
				case 2:
					ops = append(ops, Op{ID: x.next(), K: "dval", Q: decodedAs[tx.Mode], Data: tx.S, How: rnd.Pick(r, "direct", "unmarshal", "stream"), N: r.N(5)})
				default:
					how := "pkgdef"
					if tx.Mode != gen.M2141 || r.P(2) {
						how = rnd.Pick(r, "machine", "pkg", "pkg", "sharedopt", "pkgshared")
					}
					ops = append(ops, Op{ID: x.next(), K: "parse", B: bi, Mode: tx.Mode, How: how})
				}
				vals = append(vals, x.id)
			case n < 5:
				ops = append(ops, Op{ID: x.next(), K: "norm", U: rnd.Pick(r, append(vals, -1-r.N(ns))...)})
				vals = append(vals, x.id)
			case n < 6:
				ops = append(ops, Op{ID: x.next(), K: "encode", U: rnd.Pick(r, append(vals, -1-r.N(ns))...), Q: rnd.Pick(r, "", "", "8141", "scim")})
				vals = append(vals, x.id)
			case n < 7 && r.P(3): // a copy by assignment, with other fields
				ops = append(ops, Op{ID: x.next(), K: "copy", U: rnd.Pick(r, append(vals, -1-r.N(ns))...), Set: x.set()})
				vals = append(vals, x.id)
			case n < 8:
				ops = append(ops, Op{ID: x.next(), K: "mutate", U: vals[r.N(len(vals))], N: r.N(4)})
			case n < 9:
				ops = append(ops, Op{ID: x.next(), K: "query", U: rnd.Pick(r, append(vals, -1-r.N(ns))...), Q: obs.Queries[r.N(len(obs.Queries))]})
			default:
				ops = append(ops, Op{ID: x.next(), K: "recheck"})
			}
		}
		ops = append(ops, Op{ID: x.next(), K: "recheck"})
		x.Tasks = append(x.Tasks, ops)
	}
}

func (x *b) decoding(c *Corpus) {
	r := x.r
	x.Docs = nil
	for _, t := range []string{"urn", "urn8141", "scim"} {
		for k := 0; k < 2; k++ {
			for tries := 0; tries < 20; tries++ {
				d := c.Docs[r.N(len(c.Docs))]
				if d.T == t {
					x.Docs = append(x.Docs, d)
					break
				}
			}
		}
	}
	for _, t := range []string{"urn", "urn", "urn8141", "scim"} {
		// values no document of their type gives: the destination may hold any
		if r.P(2) {
			s := x.source(c)
			if s.Kind == "parse" || s.Kind == "norm" || t == "urn" {
				x.Docs = append(x.Docs, Doc{T: t, Src: &s})
			}
		}
	}
	nt := r.In(1, 3)
	focus := rnd.Pick(r, "urn", "urn8141", "scim", "")
	for t := 0; t < nt; t++ {
		var mine []int
		for k := r.In(1, 3); k > 0; k-- {
			ty := focus
			if ty == "" || r.P(3) {
				ty = rnd.Pick(r, "urn", "urn8141", "scim")
			}
			src := -1
			if !r.P(4) {
				for tries := 0; tries < 8; tries++ {
					i := r.N(len(x.Docs) + 1)
					if i < len(x.Docs) && x.Docs[i].T == ty {
						src = i
						break
					}
				}
			}
			x.Dsts = append(x.Dsts, Init{T: ty, Src: src, Task: t})
			mine = append(mine, len(x.Dsts)-1)
		}
		var ops []Op
		k := r.In(1, 6)
		if r.P(30) { // a long history
			k = r.In(20, 120)
		}
		for ; k > 0; k-- {
			d := mine[r.N(len(mine))]
			if len(mine) > 1 && r.P(5) {
				ops = append(ops, Op{ID: x.next(), K: "dcopy", D: d, From: mine[r.N(len(mine))]})
				continue
			}
			doc := c.Docs[r.N(len(c.Docs))]
			for tries := 0; tries < 6 && doc.T != x.Dsts[d].T && !r.P(6); tries++ {
				doc = c.Docs[r.N(len(c.Docs))]
			}
			bi := x.buf(doc.Data, "heap", 0)
			how := rnd.Pick(r, "direct", "unmarshal", "stream", "streamerr")
			n := 0
			switch {
			case how == "direct" && r.P(3) && len(doc.Data) > 0:
				x.Bufs[bi].Place, x.Bufs[bi].AbortAt = "abort", r.N(len(doc.Data))
			case how == "stream" || how == "streamerr":
				n = r.N(6)
				if r.P(3) && len(doc.Data) > 0 { // the stream is cut
					x.Bufs[bi].Data = x.Bufs[bi].Data[:r.N(len(doc.Data))]
				}
			}
			ops = append(ops, Op{ID: x.next(), K: "dec", D: d, B: bi, How: how, N: n})
		}
		x.Tasks = append(x.Tasks, ops)
	}
}

// collected: what is dropped is collected while other things are held.
func (x *b) collected(c *Corpus) {
	r := x.r
	if r.P(2) { // while calls are under way
		at := uint64(0)
		span := rnd.Pick(r, 200, 1000, 4000)
		for k := r.In(1, 3); k > 0; k-- {
			at += uint64(r.In(1, span))
			x.Collect = append(x.Collect, at)
		}
	}
	// texts of the same length take each other's place in memory
	base := c.text(r)
	text := func() Text {
		if r.P(2) {
			return c.text(r)
		}
		t := base
		b := append([]byte(nil), t.S...)
		for k := r.N(3); k > 0 && len(b) > 8; k-- {
			i := 8 + r.N(len(b)-8)
			switch {
			case b[i] >= 'a' && b[i] <= 'z', b[i] >= 'A' && b[i] <= 'Z':
				b[i] = gen.Alnum(r, 1)[0]
			}
		}
		return Text{b, t.Mode}
	}
	for i := r.N(2); i > 0; i-- {
		x.Shared = append(x.Shared, x.source(c))
	}
	nt := rnd.Pick(r, 1, 1, 2, 3)
	flood := -1
	if r.P(10) {
		flood = r.N(nt)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		var vals, ms, bufs []int
		k := r.In(5, 25)
		if r.P(20) {
			k = r.In(40, 150)
		}
		take := func(l *[]int) int {
			i := r.N(len(*l))
			v := (*l)[i]
			*l = append((*l)[:i], (*l)[i+1:]...)
			return v
		}
		for ; k > 0; k-- {
			switch n := r.N(16); {
			case len(vals) == 0 || n < 5:
				tx := text()
				var bi int
				if len(bufs) > 0 && r.P(2) {
					bi = bufs[r.N(len(bufs))]
					gc := 0
					if r.P(3) {
						gc = 1
					}
					ops = append(ops, Op{ID: x.next(), K: "renew", B: bi, Data: tx.S, N: gc})
				} else {
					bi = x.buf(tx.S, "heap", 0)
					bufs = append(bufs, bi)
				}
				later := r.N(2)
				if r.P(2) {
					if len(ms) == 0 || r.P(2) {
						id := x.next()
						ops = append(ops, Op{ID: id, K: "mnew", Mode: tx.mode(r), How: rnd.Pick(r, "", "sharedopt")})
						ms = append(ms, id)
					}
					ops = append(ops, Op{ID: x.next(), K: "mparse", M: ms[r.N(len(ms))], B: bi, N: later})
				} else {
					ops = append(ops, Op{ID: x.next(), K: "parse", B: bi, Mode: tx.mode(r), How: hows[r.N(len(hows))], N: later})
				}
				vals = append(vals, x.id)
			case n < 7:
				ops = append(ops, Op{ID: x.next(), K: "norm", U: vals[r.N(len(vals))]})
				vals = append(vals, x.id)
			case n < 8:
				ops = append(ops, Op{ID: x.next(), K: "encode", U: vals[r.N(len(vals))]})
				vals = append(vals, x.id)
			case n < 9:
				ops = append(ops, Op{ID: x.next(), K: "keep", U: vals[r.N(len(vals))]})
			case n < 11:
				u := vals[r.N(len(vals))]
				if len(x.Shared) > 0 && r.P(4) {
					u = -1 - r.N(len(x.Shared))
				}
				if r.P(3) {
					ops = append(ops, Op{ID: x.next(), K: "equal", U: u, V: vals[r.N(len(vals))]})
				} else {
					ops = append(ops, Op{ID: x.next(), K: "query", U: u, Q: obs.Queries[r.N(len(obs.Queries))]})
				}
			case n < 13:
				ops = append(ops, Op{ID: x.next(), K: "drop", U: take(&vals)})
			case n < 14 && len(ms) > 0:
				ops = append(ops, Op{ID: x.next(), K: "drop", M: take(&ms)})
			case n < 15:
				ops = append(ops, Op{ID: x.next(), K: "recheck"})
			default:
				ops = append(ops, Op{ID: x.next(), K: "gc"})
			}
			if t == flood && r.P(6) {
				// so many calls that what was free is taken again
				flood = -1
				var some [][2]int
				for i := r.In(2, 4); i > 0; i-- {
					tx := text()
					some = append(some, [2]int{x.buf(tx.S, "heap", 0), tx.Mode})
				}
				ops = append(ops, Op{ID: x.next(), K: "gc"})
				for n := r.In(60, 300); n > 0; n-- {
					tx := some[r.N(len(some))]
					ops = append(ops, Op{ID: x.next(), K: "parse", B: tx[0], Mode: tx[1], How: "machine"})
				}
			}
			if len(c.Docs) > 0 && r.P(10) {
				d := c.Docs[r.N(len(c.Docs))]
				x.Dsts = append(x.Dsts, Init{T: d.T, Src: -1, Task: t})
				ops = append(ops, Op{ID: x.next(), K: "dec", D: len(x.Dsts) - 1, B: x.buf(d.Data, "heap", 0), How: rnd.Pick(r, "direct", "unmarshal", "stream"), N: r.N(5)})
			}
		}
		ops = append(ops, Op{ID: x.next(), K: "gc"}, Op{ID: x.next(), K: "recheck"})
		x.Tasks = append(x.Tasks, ops)
	}
}

// NewPolicy draws a scheduling policy.
func NewPolicy(r *rnd.R) simrt.Policy { return policy(r) }

// With is a changed copy.
func (s *Scenario) With(f func(*Scenario)) *Scenario {
	var c Scenario
	b, err := json.Marshal(s)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		panic(err)
	}
	f(&c)
	return &c
}

// Used says which buffers the operations refer to.
func (s *Scenario) Used() map[int]bool {
	u := map[int]bool{}
	for _, t := range s.Tasks {
		for _, o := range t {
			switch o.K {
			case "parse", "mparse", "dec", "scribble", "refill", "renew", "unmap":
				u[o.B] = true
			}
		}
	}
	return u
}

// Warm fills the type caches of the standard library, so that runs in one
// process do not differ by who fills them.
func Warm() {
	json.Marshal([]*urn.URN{nil})
	json.Marshal([]urn.URN{})
	json.Marshal([]urn.URN8141{})
	json.Marshal([]*urn.SCIM{nil})
	json.Marshal(map[string]any{"a": (*urn.URN)(nil), "b": []*urn.URN{nil}})
	_ = fmt.Sprint("x", 1, true, 1.5)
}

package netsim

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"

	urn "github.com/leodido/go-urn"

	"verifsim/gen"
	"verifsim/obs"
	"verifsim/rnd"
)

// Node collects names.
type Node struct {
	Mode    int    `json:"mode"`              // parsing mode; -1: alternates between RFC 2141 and RFC 8141
	Merge   string `json:"merge"`             // left, right, both: compares; key: text of the normal form
	Store   string `json:"store"`             // raw, norm
	Relay   string `json:"relay"`             // text, json, norm
	Respell uint64 `json:"respell,omitempty"` // seed of how its JSON is spelled (0: as encoded)
}

// Inject is a name entering the system at a node.
type Inject struct {
	Node int    `json:"node"`
	At   int64  `json:"at"`
	Name int    `json:"name"` // identity
	Text []byte `json:"text"` // spelling
	Bare []byte `json:"bare"` // the same spelling without components, for RFC 2141 nodes
}

// NetFault is something that happens to the network or to a node.
type NetFault struct {
	K    string `json:"k"` // partition, crash, loss, dup, slow
	At   int64  `json:"at"`
	For  int64  `json:"for"`
	A    int    `json:"a"`
	Prob int    `json:"prob,omitempty"` // one in
}

// Names is a scenario of C10.
type Names struct {
	Scim    bool       `json:"scim,omitempty"`
	Seed    uint64     `json:"seed"`
	Nodes   []Node     `json:"nodes"`
	Idents  []string   `json:"idents"` // canonical text of each identity
	Injects []Inject   `json:"injects"`
	Faults  []NetFault `json:"faults,omitempty"`
}

// GenNames makes a scenario.
func GenNames(r *rnd.R) *Names {
	s := &Names{Seed: r.U64(), Scim: r.P(5)}
	only8141 := !s.Scim && r.P(5) // names only RFC 8141 knows
	mixed := r.P(2)
	for i := r.In(2, 4); i > 0; i-- {
		n := Node{Merge: rnd.Pick(r, "left", "right", "both", "key"), Store: rnd.Pick(r, "raw", "norm"), Relay: rnd.Pick(r, "text", "json", "norm")}
		if n.Relay == "json" && r.P(2) {
			n.Respell = r.U64() | 1
		}
		n.Mode = rnd.Pick(r, gen.M2141, gen.M2141, gen.M8141, -1)
		switch {
		case s.Scim && mixed:
			n.Mode = rnd.Pick(r, gen.M2141, gen.M7643, gen.M7643, gen.M8141, -1)
		case s.Scim:
			n.Mode = gen.M7643
		case only8141:
			n.Mode = gen.M8141
		}
		s.Nodes = append(s.Nodes, n)
	}
	type ident struct {
		n    gen.Name
		scim string // everything after the prefix
	}
	var ids []ident
	have := map[string]bool{}
	add := func(i ident) {
		c := i.n.Canonical()
		if s.Scim {
			c = "urn:" + i.scim
		}
		if !have[c] {
			have[c] = true
			ids = append(ids, i)
			s.Idents = append(s.Idents, c)
		}
	}
	many := r.P(40) // large sets
	kinds := r.In(1, 4)
	if many {
		kinds = r.In(20, 60)
	}
	for k := kinds; k > 0; k-- {
		if s.Scim {
			x := gen.NewName(r)
			base := "ietf:params:scim:" + rnd.Pick(r, "api", "schemas", "param") + ":" + gen.Alnum(r, r.In(1, 4))
			y := base + ":" + x.NSS
			add(ident{scim: y})
			for j := r.N(3); j > 0; j-- {
				add(ident{scim: base + ":" + x.Near(r).NSS})
			}
			if r.P(3) {
				add(ident{scim: base})
			}
			continue
		}
		n := gen.NewName(r)
		if r.P(12) {
			n.NID = rnd.Pick(r, "ufo", "u-a", "uab", "urnx", "ur", "u2r", "urm", "usn")
		}
		if only8141 {
			n.NSS = gen.Name8141(r, n.NSS)
		}
		if r.P(10) && !many {
			size := gen.Size(r)
			if r.P(40) { // longer than what 16 bits count
				size = 1<<16 + r.N(600)
			}
			n.NSS += gen.NSSPart(r, size)
		}
		add(ident{n: n})
		for j := r.N(3); j > 0; j-- {
			add(ident{n: n.Near(r)})
		}
	}
	injects := r.In(2, 14)
	if many {
		injects = r.In(50, 150)
	}
	for k := injects; k > 0; k-- {
		i := r.N(len(ids))
		in := Inject{Node: r.N(len(s.Nodes)), At: int64(r.N(400)) * ms, Name: i}
		if s.Scim {
			p := gen.Prefix(r)
			in.Text = []byte(p + ":" + gen.HexCase(r, ids[i].scim))
			in.Bare = in.Text
		} else {
			p, id, ss := ids[i].n.Spelling(r)
			t := p + ":" + id + ":" + ss
			in.Bare = []byte(t)
			if r.P(2) {
				rc, qc, fc := gen.Components(r)
				if rc != "" {
					t += "?+" + rc
				}
				if qc != "" {
					t += "?=" + qc
				}
				if fc != "" {
					t += "#" + fc
				}
			}
			in.Text = []byte(t)
		}
		s.Injects = append(s.Injects, in)
	}
	for k := r.N(5); k > 0; k-- {
		s.Faults = append(s.Faults, NetFault{K: rnd.Pick(r, "partition", "crash", "loss", "dup", "slow"), At: int64(r.N(500)) * ms, For: int64(r.In(20, 400)) * ms, A: r.N(len(s.Nodes)), Prob: r.In(1, 4)})
	}
	return s
}

type entry struct {
	u    *urn.URN
	name int
}

type packet struct {
	from, to int
	form     string // text, json
	body     []byte
	name     int // the identity, known to the simulator only
	comps    bool
}

type node struct {
	Node
	id     int
	set    []entry
	keys   map[string]int // merge by key: text of normal form -> identity
	down   bool
	alt    int
	parses int
	mach   urn.Machine
	disk   map[int]packet // what survives a crash, by identity
}

type naming struct {
	*sim
	sc    *Names
	r     *rnd.R
	nodes []*node
	calm  bool // the faults have stopped
}

// Exec runs the scenario.
func (sc *Names) Exec(ask func(obs.Req) string) Outcome {
	w := &naming{sim: newSim(), sc: sc, r: rnd.New(sc.Seed)}
	return w.run(func() {
		for i, n := range sc.Nodes {
			w.nodes = append(w.nodes, &node{Node: n, id: i, keys: map[string]int{}, disk: map[int]packet{}})
		}
		var last int64
		for _, in := range sc.Injects {
			if in.Node >= len(w.nodes) || in.Name >= len(sc.Idents) {
				continue
			}
			last = max(last, in.At)
			w.after(in.At, func() { w.inject(in) })
		}
		for _, f := range sc.Faults {
			last = max(last, f.At+f.For)
			if f.K == "crash" && f.A < len(w.nodes) {
				w.after(f.At, func() { w.crash(f.A) })
				w.after(f.At+f.For, func() { w.restart(f.A) })
			}
		}
		for i := range w.nodes {
			w.gossip(i, last)
		}
		// when the faults have stopped, everybody tells everybody everything, twice
		w.after(last+500*ms, func() { w.calm = true })
		for round := int64(0); round < 2; round++ {
			w.after(last+(600+round*200)*ms, func() {
				for _, n := range w.nodes {
					for _, o := range w.nodes {
						if n != o {
							w.tell(n, o, len(n.items()))
						}
					}
				}
			})
		}
		for w.step() {
		}
		if len(w.out.Violations) > 0 {
			return
		}
		w.finish()
		w.out.Nontrivial = len(sc.Injects) > 1
	})
}

func (w *naming) mode(n *node) int {
	if n.Mode == -1 {
		n.alt++
		return []int{gen.M2141, gen.M8141}[n.alt%2]
	}
	return n.Mode
}

func (w *naming) inject(in Inject) {
	n := w.nodes[in.Node]
	if n.down {
		// the client tries again later
		w.after(50*ms, func() { w.inject(in) })
		return
	}
	m := w.mode(n)
	text := in.Text
	if m == gen.M2141 {
		text = in.Bare
	}
	w.count("name_injected")
	w.note("node %d is given name %d as %q", n.id, in.Name, text)
	if u := w.parse(n, m, text); u != nil {
		w.add(n, u, in.Name)
	}
}

func (w *naming) parse(n *node, mode int, text []byte) *urn.URN {
	var u *urn.URN
	var err error
	in := append([]byte(nil), text...)
	if !w.call("parsing", len(text), func() {
		n.parses++
		good := true
		switch k := n.parses % 4; {
		case k == 0:
			u, good = urn.Parse(in, urn.WithParsingMode(urn.ParsingMode(mode)))
		case k == 1 && mode == gen.M2141:
			u, good = urn.Parse(in)
		case k == 2:
			if n.mach == nil {
				n.mach = urn.NewMachine()
			}
			n.mach.WithParsingMode(urn.ParsingMode(mode))
			u, err = n.mach.Parse(in)
		default:
			u, err = urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(mode))).Parse(in)
		}
		if !good {
			err = errors.New("refused")
		}
	}) {
		return nil
	}
	if err != nil || u == nil {
		w.fail("diverged", "node %d (mode %d) does not accept the valid name %q: %v", n.id, mode, text, err)
		return nil
	}
	return u
}

// add merges a name into the node's set.
func (w *naming) add(n *node, u *urn.URN, name int) {
	w.call("merging", 200000, func() {
		if n.Merge == "key" {
			k := u.Normalize().String()
			if was, ok := n.keys[k]; ok {
				w.count("merged_by_key")
				if was != name {
					w.fail("diverged", "node %d: the different names %q and %q have the same normal form %q", n.id, w.sc.Idents[was], w.sc.Idents[name], k)
				}
				return
			}
			for k2, was := range n.keys {
				if was == name {
					w.fail("diverged", "node %d: the name %q has the normal forms %q and %q", n.id, w.sc.Idents[name], k2, k)
				}
			}
			n.keys[k] = name
		} else {
			hit := -1
			for i, e := range n.set {
				var eq bool
				switch n.Merge {
				case "left":
					eq = e.u.Equal(u)
				case "right":
					eq = u.Equal(e.u)
				default:
					eq = e.u.Equal(u)
					if back := u.Equal(e.u); back != eq {
						w.fail("diverged", "node %d: comparing %q with %q gives %v, the other way round %v", n.id, e.u.String(), u.String(), eq, back)
						return
					}
				}
				if !eq {
					continue
				}
				if e.name != name {
					w.fail("diverged", "node %d (merge %s, store %s): the different names %q and %q compare equal", n.id, n.Merge, n.Store, w.sc.Idents[e.name], w.sc.Idents[name])
					return
				}
				if hit >= 0 {
					w.fail("diverged", "node %d holds the name %q twice", n.id, w.sc.Idents[name])
					return
				}
				hit = i
			}
			if hit >= 0 {
				w.count("merged_by_comparison")
				return
			}
			for _, e := range n.set {
				if e.name == name {
					w.fail("diverged", "node %d (merge %s, store %s): the name %q is held as %q, and %q does not compare equal to it", n.id, n.Merge, n.Store, w.sc.Idents[name], e.u.String(), u.String())
					return
				}
			}
		}
		w.note("node %d adds name %d", n.id, name)
		if n.Store == "norm" {
			u = u.Normalize()
		}
		n.set = append(n.set, entry{u, name})
		n.disk[name] = w.pack(n, -1, u, name)
	})
}

// pack puts a stored name into a message.
func (w *naming) pack(n *node, to int, u *urn.URN, name int) packet {
	p := packet{from: n.id, to: to, name: name, form: n.Relay}
	p.comps = u.RComponent() != "" || u.QComponent() != "" || u.FComponent() != ""
	switch n.Relay {
	case "json":
		var b []byte
		var err error
		switch {
		case w.sc.Scim && u.SCIM() != nil:
			b, err = json.Marshal(u.SCIM())
		case n.Mode == gen.M8141:
			b, err = json.Marshal(urn.URN8141{URN: u})
		default:
			b, err = json.Marshal(u)
		}
		if err != nil {
			w.fail("diverged", "encoding %q: %v", u.String(), err)
		}
		if n.Respell != 0 {
			w.count("document_respelled")
			b = gen.OtherJSON(rnd.New(n.Respell, uint64(name)), b)
		}
		p.body = b
	case "norm":
		p.body, p.form, p.comps = []byte(u.Normalize().String()), "text", false
	default:
		p.body = []byte(u.String())
	}
	return p
}

func (n *node) items() []entry { return n.set }

// gossip: now and then a node tells another one some of what it has.
func (w *naming) gossip(i int, until int64) {
	w.after(int64(w.r.In(20, 120))*ms, func() {
		n := w.nodes[i]
		if !n.down && len(n.set) > 0 && len(w.nodes) > 1 {
			o := w.nodes[(i+1+w.r.N(len(w.nodes)-1))%len(w.nodes)]
			w.tell(n, o, 1+w.r.N(4))
		}
		if w.now < until {
			w.gossip(i, until)
		}
	})
}

func (w *naming) active(k string, node int) *NetFault {
	if w.calm {
		return nil
	}
	for i := range w.sc.Faults {
		f := &w.sc.Faults[i]
		if f.K == k && w.now >= f.At && w.now < f.At+f.For && (node < 0 || f.A == node) {
			return f
		}
	}
	return nil
}

func (w *naming) tell(n, o *node, k int) {
	l := n.items()
	for j := 0; j < k && len(l) > 0; j++ {
		e := l[j%len(l)]
		if k < len(l) {
			e = l[w.r.N(len(l))]
		}
		var p packet
		if !w.call("packing", 200000, func() { p = w.pack(n, o.id, e.u, e.name) }) {
			return
		}
		if p.comps && o.Mode != gen.M8141 {
			// a name with components is passed on to nodes that know none as its normal form
			w.call("normalising", 200000, func() { p.body, p.form, p.comps = []byte(e.u.Normalize().String()), "text", false })
		}
		w.send(p)
	}
}

func (w *naming) send(p packet) {
	w.count("packet_sent")
	cut := func() bool {
		f := w.active("partition", -1)
		return f != nil && (f.A == p.from) != (f.A == p.to)
	}
	if cut() {
		w.count("packet_lost_in_partition")
		return
	}
	if f := w.active("loss", -1); f != nil && w.r.P(f.Prob) {
		w.count("packet_lost")
		return
	}
	copies := 1
	if f := w.active("dup", -1); f != nil && w.r.P(f.Prob) {
		w.count("packet_duplicated")
		copies = 2
	}
	for ; copies > 0; copies-- {
		d := int64(w.r.In(1, 30)) * ms
		if w.active("slow", -1) != nil {
			w.count("packet_delayed")
			d += int64(w.r.N(300)) * ms
		}
		w.after(d, func() { w.receive(p) })
	}
}

func (w *naming) receive(p packet) {
	n := w.nodes[p.to]
	if n.down {
		w.count("packet_for_crashed_node")
		return
	}
	w.note("node %d receives name %d from %d as %s %q", p.to, p.name, p.from, p.form, p.body)
	if u := w.unpack(n, p); u != nil {
		w.add(n, u, p.name)
	}
}

// unpack turns a message back into a URN as the receiving node would.
func (w *naming) unpack(n *node, p packet) *urn.URN {
	if p.form != "json" {
		return w.parse(n, w.modeFor(n, p), p.body)
	}
	var u *urn.URN
	var err error
	ok := w.call("decoding", len(p.body), func() {
		switch {
		case n.Mode == gen.M7643:
			var v urn.SCIM
			if err = json.Unmarshal(p.body, &v); err == nil {
				u, err = urn.NewMachine(urn.WithParsingMode(urn.RFC7643Only)).Parse([]byte(v.String()))
			}
		case w.modeFor(n, p) == gen.M8141:
			var v urn.URN8141
			if err = json.Unmarshal(p.body, &v); err == nil {
				u = v.URN
			}
		default:
			var v urn.URN
			if err = json.Unmarshal(p.body, &v); err == nil {
				u = &v
			}
		}
	})
	if !ok {
		return nil
	}
	if err != nil || u == nil {
		w.fail("diverged", "node %d (mode %d) does not accept the document %q of a valid name: %v", n.id, n.Mode, p.body, err)
		return nil
	}
	return u
}

func (w *naming) modeFor(n *node, p packet) int {
	if p.comps && n.Mode == -1 {
		return gen.M8141
	}
	return w.mode(n)
}

func (w *naming) crash(i int) {
	n := w.nodes[i]
	if n.down {
		return
	}
	w.count("node_crash")
	w.note("node %d crashes", i)
	n.down = true
	n.set, n.keys = nil, map[string]int{}
}

// restart reads back what the node had written, in another order.
func (w *naming) restart(i int) {
	n := w.nodes[i]
	if !n.down {
		return
	}
	w.count("node_restart")
	n.down = false
	var names []int
	for k := range n.disk {
		names = append(names, k)
	}
	sort.Ints(names)
	for k := len(names) - 1; k > 0; k-- {
		j := w.r.N(k + 1)
		names[k], names[j] = names[j], names[k]
	}
	old := n.disk
	n.disk = map[int]packet{}
	w.note("node %d restarts with %d names", i, len(names))
	for _, k := range names {
		p := old[k]
		if u := w.unpack(n, p); u != nil {
			w.add(n, u, k)
		}
	}
}

// finish: everybody has the same set, each name once.
func (w *naming) finish() {
	want := map[int]bool{}
	for _, in := range w.sc.Injects {
		if in.Node < len(w.nodes) && in.Name < len(w.sc.Idents) {
			want[in.Name] = true
		}
	}
	for _, n := range w.nodes {
		have := map[int]int{}
		for _, e := range n.items() {
			have[e.name]++
		}
		for k := range w.sc.Idents {
			if want[k] && have[k] != 1 {
				w.fail("diverged", "node %d holds the name %q %d times", n.id, w.sc.Idents[k], have[k])
			}
		}
	}
	// every pair of entries, across nodes and from both sides
	w.call("comparing", 1<<22, func() {
		for _, a := range w.nodes {
			for _, b := range w.nodes {
				for _, x := range a.set {
					for _, y := range b.set {
						want := x.name == y.name
						if got := x.u.Equal(y.u); got != want {
							w.fail("diverged", "%q of node %d (store %s) and %q of node %d (store %s): comparison says %v", x.u.String(), a.id, a.Store, y.u.String(), b.id, b.Store, got)
							return
						}
						nx, ny := x.u.Normalize().String(), y.u.Normalize().String()
						if (nx == ny) != want {
							w.fail("diverged", "%q of node %d and %q of node %d have the normal forms %q and %q", x.u.String(), a.id, y.u.String(), b.id, nx, ny)
							return
						}
					}
				}
			}
		}
	})
	_ = fmt.Sprint
}

// Shrinks proposes simpler scenarios.
func (sc *Names) Shrinks(yield func(*Names) bool) bool {
	for i := range sc.Injects {
		c := clone(sc)
		c.Injects = append(c.Injects[:i:i], c.Injects[i+1:]...)
		if len(c.Injects) > 0 && !yield(c) {
			return false
		}
	}
	for i := range sc.Faults {
		c := clone(sc)
		c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...)
		if !yield(c) {
			return false
		}
	}
	if n := len(sc.Nodes); n > 1 {
		for i := range sc.Nodes {
			c := clone(sc)
			c.Nodes = append(c.Nodes[:i:i], c.Nodes[i+1:]...)
			fix := func(k int) int {
				if k > i {
					return k - 1
				}
				return k % len(c.Nodes)
			}
			for k := range c.Injects {
				c.Injects[k].Node = fix(c.Injects[k].Node)
			}
			for k := range c.Faults {
				c.Faults[k].A = fix(c.Faults[k].A)
			}
			if !yield(c) {
				return false
			}
		}
	}
	for i := range sc.Injects {
		if sc.Injects[i].At != 0 {
			c := clone(sc)
			c.Injects[i].At = 0
			if !yield(c) {
				return false
			}
		}
		if string(sc.Injects[i].Text) != string(sc.Injects[i].Bare) {
			c := clone(sc)
			c.Injects[i].Text = c.Injects[i].Bare
			if !yield(c) {
				return false
			}
		}
	}
	return true
}

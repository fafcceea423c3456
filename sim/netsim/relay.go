package netsim

import (
	"encoding/json"
	"fmt"
	"hash/crc32"
	"sort"
	"strings"

	urn "github.com/leodido/go-urn"

	"verifsim/gen"
	"verifsim/obs"
	"verifsim/rnd"
)

// Host passes names on. It parses with one machine whose mode it changes, or
// with new ones, out of one receive buffer that every frame is read into.
type Host struct {
	Machine string `json:"machine"` // new, reused, package
	Hold    string `json:"hold"`    // value, copy: what is kept until a name is passed on
}

// Hop is one step on the way of a name.
type Hop struct {
	Host    int    `json:"host"`
	Mode    int    `json:"mode"`              // the mode the host parses it in
	Form    string `json:"form"`              // how it is passed on: text, json, norm
	Wait    int64  `json:"wait,omitempty"`    // how long it is kept before
	Respell uint64 `json:"respell,omitempty"` // seed of how the JSON is spelled (0: as encoded)
}

// Letter is a name on its way, given by its parts.
type Letter struct {
	At     int64  `json:"at"`
	Prefix string `json:"prefix"`
	NID    string `json:"nid"`
	NSS    string `json:"nss"`
	R      string `json:"r,omitempty"`
	Q      string `json:"q,omitempty"`
	F      string `json:"f,omitempty"`
	Type   string `json:"type,omitempty"` // SCIM names: schemas, api, param
	Name   string `json:"name,omitempty"`
	Other  string `json:"other,omitempty"`
	Route  []Hop  `json:"route"`
}

// Relay is a scenario of C14.
type Relay struct {
	Seed    uint64     `json:"seed"`
	Hosts   []Host     `json:"hosts"`
	Letters []Letter   `json:"letters"`
	Faults  []NetFault `json:"faults,omitempty"`
}

// GenRelay makes a scenario.
func GenRelay(r *rnd.R) *Relay {
	s := &Relay{Seed: r.U64()}
	for i := r.In(1, 4); i > 0; i-- {
		s.Hosts = append(s.Hosts, Host{Machine: rnd.Pick(r, "new", "reused", "reused", "package"), Hold: rnd.Pick(r, "value", "copy")})
	}
	n := r.In(1, 12)
	if r.P(30) {
		n = r.In(40, 120)
	}
	for ; n > 0; n-- {
		l := Letter{At: int64(r.N(300)) * ms, Prefix: gen.Prefix(r)}
		modes := []int{gen.M2141, gen.M8141}
		switch r.N(6) {
		case 0, 1: // SCIM: any mode accepts it
			l.NID, l.Type, l.Name = "ietf:params:scim", rnd.Pick(r, "schemas", "api", "param"), gen.Alnum(r, r.In(1, 12))
			if r.P(2) {
				l.Other = gen.Tail(r)
				if r.P(3) {
					l.Other = rnd.Pick(r, ":", "::", "a:", ":-") + l.Other
				}
			}
			l.NSS = l.Type + ":" + l.Name
			if l.Other != "" {
				l.NSS += ":" + l.Other
			}
			modes = []int{gen.M7643, gen.M7643, gen.M2141, gen.M8141}
		case 2: // RFC 8141 only
			x := gen.NewName(r)
			l.NID, l.NSS = x.NID, gen.HexCase(r, gen.Name8141(r, x.NSS))
			modes = modes[1:]
		case 3: // RFC 2141 only
			l.NID, l.NSS = gen.ID(r, gen.M2141), gen.NSS(r, gen.M2141)
			modes = modes[:1]
		default:
			_, l.NID, l.NSS = gen.NewName(r).Spelling(r)
		}
		switch {
		case r.P(12):
			more := gen.HexCase(r, gen.NSSPart(r, gen.Size(r)))
			l.NSS += more
			if l.Other != "" {
				l.Other += more
			} else if l.Type != "" {
				l.NSS = l.Type + ":" + l.Name + ":" + more
				l.Other = more
			}
		case r.P(300):
			more := gen.HexCase(r, gen.NSSPart(r, 1<<16+r.N(600)))
			l.NSS += more
			if l.Type != "" {
				if l.Other == "" {
					l.NSS = l.Type + ":" + l.Name + ":" + more
				}
				l.Other += more
			}
		}
		if modes[len(modes)-1] == gen.M8141 && r.P(2) {
			l.R, l.Q, l.F = gen.Components(r)
		}
		if len(s.Letters) > 0 && r.P(3) { // much like an earlier one
			o := s.Letters[r.N(len(s.Letters))]
			l = o
			l.At, l.Route = int64(r.N(300))*ms, nil
			if l.Type != "" {
				modes = []int{gen.M7643, gen.M7643, gen.M2141, gen.M8141}
				switch r.N(5) {
				case 0:
					l.Other = ""
				case 1:
					l.Other = gen.Tail(r)
				case 2:
					l.Type = rnd.Pick(r, "schemas", "api", "param")
				case 3:
					l.Name += gen.Alnum(r, 1)
				}
				l.NSS = l.Type + ":" + l.Name
				if l.Other != "" {
					l.NSS += ":" + l.Other
				}
			} else {
				modes = nil
				for _, h := range o.Route {
					modes = append(modes, h.Mode)
				}
				switch r.N(4) {
				case 0:
					l.NSS += gen.Alnum(r, 1)
				case 1:
					l.NSS = gen.HexCase(r, foldHex(l.NSS))
				case 2:
					l.Prefix = gen.Prefix(r)
				}
			}
			switch m := modes[0]; {
			case l.R+l.Q+l.F != "" && r.P(2):
				l.R, l.Q, l.F = "", "", ""
			case l.R+l.Q+l.F != "":
				modes = []int{gen.M8141}
			case m == gen.M8141 && r.P(2):
				l.R, l.Q, l.F = gen.Components(r)
				modes = []int{gen.M8141}
			}
		}
		comps := l.R+l.Q+l.F != ""
		for k := r.In(1, 6); k > 0; k-- {
			h := Hop{Respell: uint64(r.N(2)) * (r.U64() | 1), Host: r.N(len(s.Hosts)), Mode: modes[r.N(len(modes))], Form: rnd.Pick(r, "text", "text", "text", "json", "json", "norm"), Wait: int64(r.N(60)) * ms}
			if comps {
				h.Mode = gen.M8141
			}
			if h.Form == "norm" {
				comps = false
			}
			l.Route = append(l.Route, h)
		}
		s.Letters = append(s.Letters, l)
	}
	for k := r.N(5); k > 0; k-- {
		s.Faults = append(s.Faults, NetFault{K: rnd.Pick(r, "damage", "damage", "crash", "loss", "dup", "slow"), At: int64(r.N(400)) * ms, For: int64(r.In(20, 400)) * ms, A: r.N(len(s.Hosts)), Prob: r.In(1, 4)})
	}
	return s
}

// parts of a name as they have to be found in a mode.
type parts struct {
	prefix, id, ss, r, q, f string
	scim                    bool
	typ, name, other        string
}

func foldHex(s string) string {
	b := []byte(s)
	for i := 0; i+2 < len(b); i++ {
		if b[i] == '%' {
			for _, k := range []int{i + 1, i + 2} {
				if 'A' <= b[k] && b[k] <= 'Z' {
					b[k] += 32
				}
			}
			i += 2
		}
	}
	return string(b)
}

func (p parts) text() string {
	t := p.prefix + ":" + p.id + ":" + p.ss
	if p.r != "" {
		t += "?+" + p.r
	}
	if p.q != "" {
		t += "?=" + p.q
	}
	if p.f != "" {
		t += "#" + p.f
	}
	return t
}

// in says how the parts are cut in a mode.
func (p parts) in(mode int) parts {
	whole := p.id + ":" + p.ss
	const scim = "ietf:params:scim"
	p.scim, p.typ, p.name, p.other = false, "", "", ""
	if mode == gen.M7643 && strings.HasPrefix(whole, scim+":") {
		p.id, p.ss, p.scim = scim, whole[len(scim)+1:], true
		a := strings.SplitN(p.ss, ":", 3)
		p.typ, p.name = a[0], a[1]
		if len(a) == 3 {
			p.other = a[2]
		}
		return p
	}
	i := strings.IndexByte(whole, ':')
	p.id, p.ss = whole[:i], whole[i+1:]
	return p
}

// normal is what is left of the parts in the normal form.
func (p parts) normal() parts {
	p.prefix, p.id, p.ss = "urn", strings.ToLower(p.id), foldHex(p.ss)
	p.r, p.q, p.f = "", "", ""
	return p
}

func (w *relaying) check(who string, u *urn.URN, mode int, p parts) bool {
	before := len(w.out.Violations)
	p = p.in(mode)
	bad := func(what, got, want string) {
		if got != want && len(w.out.Violations) == before {
			w.fail("value", "%s: the %s of %q (mode %d) is %q instead of %q", who, what, clip(p.text()), mode, clip(got), clip(want))
		}
	}
	w.call("observing", 20*len(p.text())+4000, func() {
		bad("identifier", u.ID, p.id)
		bad("specific string", u.SS, p.ss)
		bad("r-component", u.RComponent(), p.r)
		bad("q-component", u.QComponent(), p.q)
		bad("f-component", u.FComponent(), p.f)
		bad("text", u.String(), p.text())
		kind := map[int]urn.Kind{gen.M2141: urn.RFC2141, gen.M7643: urn.RFC7643, gen.M8141: urn.RFC8141}[mode]
		bad("kind", fmt.Sprint(u.RFC(), u.IsSCIM(), u.SCIM() != nil), fmt.Sprint(kind, p.scim, p.scim))
		if s := u.SCIM(); s != nil && p.scim {
			bad("SCIM type", s.Type.String(), p.typ)
			bad("SCIM name", s.Name, p.name)
			bad("SCIM remainder", s.Other, p.other)
		}
		n := u.Normalize()
		bad("normal form", n.String(), p.normal().text())
		bad("normal form of the normal form", n.Normalize().String(), p.normal().text())
		bad("equality with its normal form", fmt.Sprint(u.Equal(n), n.Equal(u)), "true true")
	})
	return len(w.out.Violations) == before
}

// parcel is a letter at or on its way to the host of a hop.
type parcel struct {
	letter, hop int
	form        string
	body        []byte
	sum         uint32
	p           parts // known to the simulator only
}

type heldName struct {
	u *urn.URN
	p parts
}

type host struct {
	Host
	id     int
	mach   urn.Machine
	parses int
	buf    []byte
	held   map[[2]int]*heldName
	disk   map[[2]int]parcel // durable: what was received and not yet passed on
	seen   map[[2]int]bool   // durable: what need not be taken again
	down   bool
}

type relaying struct {
	*sim
	sc    *Relay
	ask   func(obs.Req) string
	r     *rnd.R
	hosts []*host
	acked map[[2]int]bool
	done  []int
	calm  bool
}

// Exec runs the scenario.
func (sc *Relay) Exec(ask func(obs.Req) string) Outcome {
	w := &relaying{sim: newSim(), sc: sc, ask: ask, r: rnd.New(sc.Seed), acked: map[[2]int]bool{}, done: make([]int, len(sc.Letters))}
	return w.run(func() {
		for i, h := range sc.Hosts {
			w.hosts = append(w.hosts, &host{Host: h, id: i, held: map[[2]int]*heldName{}, disk: map[[2]int]parcel{}, seen: map[[2]int]bool{}})
		}
		var last int64
		for i, l := range sc.Letters {
			ok := len(l.Route) > 0
			for _, h := range l.Route {
				ok = ok && h.Host < len(w.hosts)
			}
			ok = ok && (l.R+l.Q+l.F == "" || l.Route[0].Mode == gen.M8141)
			if !ok {
				w.done[i] = -1
				continue
			}
			p := parts{prefix: l.Prefix, id: l.NID, ss: l.NSS, r: l.R, q: l.Q, f: l.F}
			last = max(last, l.At)
			w.after(l.At, func() { w.send(parcel{letter: i, form: "text", body: []byte(p.text()), p: p}, 1) })
		}
		for _, f := range sc.Faults {
			last = max(last, f.At+f.For)
			if f.K == "crash" && f.A < len(w.hosts) {
				w.after(f.At, func() { w.crash(f.A) })
				w.after(f.At+f.For, func() { w.restart(f.A) })
			}
		}
		w.after(last, func() { w.calm = true })
		for w.step() {
		}
		if len(w.out.Violations) > 0 || w.capped {
			return
		}
		for i, n := range w.done {
			if n != 1 && n != -1 {
				w.fail("lost", "name %d (%q) reached its destination %d times although the faults have stopped", i, clip(string(sc.Letters[i].NSS)), n)
			}
		}
		w.out.Nontrivial = len(sc.Letters) > 1 || len(sc.Faults) > 0
	})
}

func (w *relaying) active(k string, host int) *NetFault {
	if w.calm {
		return nil
	}
	for i := range w.sc.Faults {
		f := &w.sc.Faults[i]
		if f.K == k && w.now >= f.At && w.now < f.At+f.For && (host < 0 || f.A == host) {
			return f
		}
	}
	return nil
}

// send puts a parcel on the link and again until it is acknowledged.
func (w *relaying) send(c parcel, attempt int) {
	key := [2]int{c.letter, c.hop}
	if w.acked[key] {
		return
	}
	if attempt > 1 {
		w.count("sent_again")
	}
	c.sum = crc32.ChecksumIEEE(c.body)
	w.count("frame_sent")
	copies := 1
	if f := w.active("loss", -1); f != nil && w.r.P(f.Prob) {
		w.count("frame_lost")
		copies = 0
	} else if f := w.active("dup", -1); f != nil && w.r.P(f.Prob) {
		w.count("frame_duplicated")
		copies = 2
	}
	for ; copies > 0; copies-- {
		d := int64(w.r.In(1, 30)) * ms
		if w.active("slow", -1) != nil {
			w.count("frame_delayed")
			d += int64(w.r.N(300)) * ms
		}
		x := c
		x.body = append([]byte(nil), c.body...)
		if f := w.active("damage", -1); f != nil && w.r.P(f.Prob) && len(x.body) > 0 {
			w.count("frame_damaged")
			switch k := w.r.N(len(x.body)); w.r.N(4) {
			case 0:
				x.body = x.body[:k]
			case 1:
				x.body = append(x.body[:k], x.body[k+1:]...)
			case 2:
				x.body[k] ^= 32
			default:
				x.body[k] = byte(w.r.N(256))
			}
		}
		w.after(d, func() { w.receive(x) })
	}
	w.after(100*ms, func() { w.send(c, attempt+1) })
}

// parse as the host does it: out of its receive buffer.
func (w *relaying) parse(h *host, mode int, body []byte) (u *urn.URN, err error, ok bool) {
	if cap(h.buf) < len(body)+16 {
		h.buf = make([]byte, len(body)+512)
	}
	buf := h.buf[:cap(h.buf)]
	for i := range buf {
		buf[i] = "%Aa:?"[i%5]
	}
	in := buf[:copy(buf, body)]
	ok = w.call("parsing", len(body)+100, func() {
		switch h.Machine {
		case "reused":
			if h.mach == nil {
				h.mach = urn.NewMachine()
			}
			h.mach.WithParsingMode(urn.ParsingMode(mode))
			u, err = h.mach.Parse(in)
		case "package":
			good := false
			if h.parses++; mode == gen.M2141 && h.parses%2 == 0 {
				u, good = urn.Parse(in)
			} else {
				u, good = urn.Parse(in, urn.WithParsingMode(urn.ParsingMode(mode)))
			}
			if !good {
				err = fmt.Errorf("refused")
			}
		default:
			u, err = urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(mode))).Parse(in)
		}
	})
	return
}

// unpack turns a body into a URN in a mode.
func (w *relaying) unpack(h *host, mode int, form string, body []byte) (u *urn.URN, err error, ok bool) {
	if form != "json" {
		return w.parse(h, mode, body)
	}
	ok = w.call("decoding", len(body)+2000, func() {
		switch mode {
		case gen.M7643:
			var v urn.SCIM
			if err = json.Unmarshal(body, &v); err == nil {
				u, err = urn.NewMachine(urn.WithParsingMode(urn.RFC7643Only)).Parse([]byte(v.String()))
			}
		case gen.M8141:
			var v urn.URN8141
			if err = json.Unmarshal(body, &v); err == nil {
				u = v.URN
			}
		default:
			v := new(urn.URN)
			if err = json.Unmarshal(body, v); err == nil {
				u = v
			}
		}
	})
	return
}

func (w *relaying) receive(c parcel) {
	key := [2]int{c.letter, c.hop}
	hop := w.sc.Letters[c.letter].Route[c.hop]
	h := w.hosts[hop.Host]
	if h.down {
		w.count("frame_for_crashed_host")
		return
	}
	w.note("host %d receives name %d at hop %d as %s %q", h.id, c.letter, c.hop, c.form, c.body)
	if crc32.ChecksumIEEE(c.body) != c.sum {
		// A careless host looks at it nevertheless. Whatever it makes of it, it
		// makes of it anywhere else, and it hurts nobody else.
		w.damaged(h, hop.Mode, c)
		return
	}
	if h.seen[key] {
		w.count("frame_again")
		w.ackTo(key)
		return
	}
	p := c.p
	if c.form == "json" && hop.Mode == gen.M7643 {
		p.prefix = "urn"
	}
	u, err, ok := w.unpack(h, hop.Mode, c.form, c.body)
	if !ok {
		return
	}
	if err != nil || u == nil {
		w.fail("value", "host %d (machine %s) does not accept %q (mode %d, as %s): %v", h.id, h.Machine, clip(string(c.body)), hop.Mode, c.form, err)
		return
	}
	if !w.check(fmt.Sprintf("host %d (machine %s) receiving name %d at hop %d", h.id, h.Machine, c.letter, c.hop), u, hop.Mode, p) {
		return
	}
	h.seen[key] = true
	c.p = p
	w.keep(h, key, u, c)
	if w.r.N(8) > 0 || w.calm {
		w.ackTo(key)
	} else {
		w.count("ack_lost")
	}
}

func (w *relaying) ackTo(key [2]int) { w.after(ms, func() { w.acked[key] = true }) }

func (w *relaying) damaged(h *host, mode int, c parcel) {
	if c.form == "json" {
		return
	}
	asked := w.r.P(4)
	u, err, ok := w.parse(h, mode, c.body)
	if !ok {
		return
	}
	got := "refused"
	if err == nil && u != nil {
		w.call("observing", 20*len(c.body)+4000, func() { got = obs.URN(u) })
	}
	if !asked {
		return
	}
	want := "refused"
	if a := w.ask(obs.Req{K: "parse", Mode: mode, In: c.body}); strings.HasPrefix(a, "ok ") {
		want = a[3:]
	}
	if got != want {
		w.fail("value", "host %d (machine %s, mode %d) makes of the damaged %q\n %s\nanother process\n %s", h.id, h.Machine, mode, clip(string(c.body)), clip(got), clip(want))
	} else if got == "refused" {
		w.count("damaged_name_refused")
	} else {
		w.count("damaged_name_is_another_name")
	}
}

// keep holds a name until it is passed on.
func (w *relaying) keep(h *host, key [2]int, u *urn.URN, c parcel) {
	if h.Hold == "copy" {
		x := *u
		u = &x
	}
	h.held[key] = &heldName{u, c.p}
	hop := w.sc.Letters[c.letter].Route[c.hop]
	mode := hop.Mode
	w.call("storing", len(c.body)+4000, func() {
		d := parcel{letter: c.letter, hop: c.hop, form: "text", body: []byte(u.String()), p: c.p}
		h.disk[key] = d
	})
	w.after(hop.Wait, func() { w.pass(h, key, mode) })
}

// pass sends a held name to the next host.
func (w *relaying) pass(h *host, key [2]int, mode int) {
	n := h.held[key]
	if h.down || n == nil {
		return // it starts again when the host is back
	}
	l := w.sc.Letters[key[0]]
	hop := l.Route[key[1]]
	if !w.check(fmt.Sprintf("host %d passing name %d on after hop %d", h.id, key[0], key[1]), n.u, mode, n.p) {
		return
	}
	delete(h.held, key)
	delete(h.disk, key)
	if key[1] == len(l.Route)-1 {
		w.count("name_arrived")
		w.note("name %d arrived", key[0])
		w.done[key[0]]++
		return
	}
	c := parcel{letter: key[0], hop: key[1] + 1, form: hop.Form, p: n.p}
	next := l.Route[c.hop]
	json8141 := next.Mode == gen.M8141
	if hop.Form == "json" && (next.Mode == gen.M7643) != (mode == gen.M7643) {
		c.form = "text" // not a document the other side expects
	}
	if n.p.r+n.p.q+n.p.f != "" && next.Mode != gen.M8141 {
		c.form = "norm" // a host that knows no components gets the normal form
	}
	w.count("passed_on_as_" + c.form)
	w.call("packing", 8*len(n.p.text())+4000, func() {
		switch c.form {
		case "norm":
			c.body, c.form = []byte(n.u.Normalize().String()), "text"
			c.p = n.p.in(mode).normal()
		case "json":
			var err error
			switch {
			case mode == gen.M7643:
				c.body, err = json.Marshal(n.u.SCIM())
				c.p.prefix = "urn"
			case json8141:
				c.body, err = json.Marshal(urn.URN8141{URN: n.u})
			default:
				c.body, err = json.Marshal(n.u)
			}
			if err != nil {
				w.fail("value", "encoding %q: %v", clip(n.p.text()), err)
			}
			if hop.Respell != 0 {
				w.count("document_respelled")
				c.body = gen.OtherJSON(rnd.New(hop.Respell), c.body)
			}
		default:
			c.body = []byte(n.u.String())
		}
	})
	w.send(c, 1)
}

func (w *relaying) crash(i int) {
	h := w.hosts[i]
	if h.down {
		return
	}
	w.count("host_crash")
	w.note("host %d crashes", i)
	h.down = true
	h.held, h.mach, h.buf = map[[2]int]*heldName{}, nil, nil
}

func (w *relaying) restart(i int) {
	h := w.hosts[i]
	if !h.down {
		return
	}
	w.count("host_restart")
	w.note("host %d restarts with %d names", i, len(h.disk))
	h.down = false
	var keys [][2]int
	for k := range h.disk {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool {
		return keys[a][0] < keys[b][0] || keys[a][0] == keys[b][0] && keys[a][1] < keys[b][1]
	})
	for _, k := range keys {
		d := h.disk[k]
		mode := w.sc.Letters[k[0]].Route[k[1]].Mode
		u, err, ok := w.unpack(h, mode, d.form, d.body)
		if !ok {
			return
		}
		if err != nil || u == nil {
			w.fail("value", "host %d does not accept what it stored: %q (mode %d): %v", h.id, clip(string(d.body)), mode, err)
			return
		}
		if !w.check(fmt.Sprintf("host %d restarting with name %d at hop %d", h.id, k[0], k[1]), u, mode, d.p) {
			return
		}
		w.keep(h, k, u, d)
	}
}

// Shrinks proposes simpler scenarios.
func (sc *Relay) Shrinks(yield func(*Relay) bool) bool {
	for n := (len(sc.Letters) + 1) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(sc.Letters) && n < len(sc.Letters); i += n {
			c := clone(sc)
			c.Letters = append(c.Letters[:i:i], c.Letters[i+n:]...)
			if !yield(c) {
				return false
			}
		}
	}
	for i := range sc.Faults {
		c := clone(sc)
		c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...)
		if !yield(c) {
			return false
		}
	}
	for i := range sc.Letters {
		l := &sc.Letters[i]
		edit := func(f func(*Letter)) bool {
			c := clone(sc)
			f(&c.Letters[i])
			return yield(c)
		}
		for k := range l.Route {
			if len(l.Route) > 1 && !edit(func(x *Letter) { x.Route = append(x.Route[:k:k], x.Route[k+1:]...) }) {
				return false
			}
			if l.Route[k].Respell != 0 && !edit(func(x *Letter) { x.Route[k].Respell = 0 }) {
				return false
			}
			if l.Route[k].Wait > 0 && !edit(func(x *Letter) { x.Route[k].Wait = 0 }) {
				return false
			}
			if l.Route[k].Form != "text" && l.R+l.Q+l.F == "" && !edit(func(x *Letter) { x.Route[k].Form = "text" }) {
				return false
			}
		}
		for _, f := range []func(*Letter) *string{func(x *Letter) *string { return &x.R }, func(x *Letter) *string { return &x.Q }, func(x *Letter) *string { return &x.F }} {
			if *f(l) != "" && !edit(func(x *Letter) { *f(x) = "" }) {
				return false
			}
		}
		if l.Type == "" {
			for n := len(l.NSS) / 2; n >= 1; n /= 2 {
				for k := 0; k+n <= len(l.NSS); k += n {
					cut := l.NSS[:k] + l.NSS[k+n:]
					if cut == "" || cut[0] == '/' || strings.Contains(l.NSS[max(0, k-2):min(len(l.NSS), k+n)], "%") {
						continue
					}
					if !edit(func(x *Letter) { x.NSS = cut }) {
						return false
					}
				}
			}
		}
		if l.At > 0 && !edit(func(x *Letter) { x.At = 0 }) {
			return false
		}
	}
	for i := range sc.Hosts {
		if sc.Hosts[i].Machine != "new" {
			c := clone(sc)
			c.Hosts[i].Machine = "new"
			if !yield(c) {
				return false
			}
		}
	}
	return true
}

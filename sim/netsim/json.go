package netsim

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	urn "github.com/leodido/go-urn"

	"verifsim/gen"
	"verifsim/obs"
	"verifsim/rnd"
)

// Msg is one document: one or several values of one type in some shape.
type Msg struct {
	T       string   `json:"t"` // urn, urn8141, scim
	Shape   string   `json:"shape"`
	Texts   [][]byte `json:"texts"`
	Unset   uint64   `json:"unset,omitempty"`   // bit k: value k was never set, its text is not used
	Fresh   bool     `json:"fresh,omitempty"`   // the receiver decodes into a new variable
	Gap     int64    `json:"gap,omitempty"`     // when it is sent after the previous one
	Respell uint64   `json:"respell,omitempty"` // seed of how something on the way spells the document (0: as encoded)
}

// Fault is something that happens to a document on its way.
type Fault struct {
	Msg int    `json:"msg"`
	K   string `json:"k"`
	A   int    `json:"a,omitempty"`
	B   int    `json:"b,omitempty"`
}

// Stream is a scenario of C09.
type Stream struct {
	Framed  bool    `json:"framed,omitempty"`
	Escape  bool    `json:"escape,omitempty"`
	Indent  bool    `json:"indent,omitempty"`
	Reads   uint64  `json:"reads"` // seed of the read sizes and link delays
	MaxRead int     `json:"max_read,omitempty"`
	Msgs    []Msg   `json:"msgs"`
	Faults  []Fault `json:"faults,omitempty"`
}

var shapes = []string{"bare", "bare", "ptr", "field", "list", "map", "embed"}

func modeOf(t string) int {
	switch t {
	case "urn8141":
		return gen.M8141
	case "scim":
		return gen.M7643
	}
	return gen.M2141
}

// GenStream makes a scenario.
func GenStream(r *rnd.R) *Stream {
	s := &Stream{Framed: r.P(2), Escape: r.P(2), Indent: r.P(4), Reads: r.U64(), MaxRead: rnd.Pick(r, 0, 1, 2, 7, 64, 512)}
	focus := rnd.Pick(r, "", "", "urn", "urn8141", "scim")
	n := r.In(1, 10)
	if r.P(40) { // a long connection
		n = r.In(30, 150)
	}
	for i := n; i > 0; i-- {
		m := Msg{T: focus, Shape: shapes[r.N(len(shapes))], Fresh: r.P(2), Gap: int64(r.N(3)) * ms}
		if m.T == "" || r.P(6) {
			m.T = rnd.Pick(r, "urn", "urn8141", "scim")
		}
		n := 1
		if m.Shape == "list" || m.Shape == "map" {
			n = r.N(4)
		}
		for ; n > 0; n-- {
			t := gen.Valid(r, modeOf(m.T))
			switch {
			case r.P(12):
				t = gen.Long(r, modeOf(m.T), gen.Size(r))
			case r.P(400):
				t = gen.Long(r, modeOf(m.T), r.In(30000, 70000))
			}
			m.Texts = append(m.Texts, []byte(t))
		}
		if r.P(25) && len(m.Texts) > 0 {
			m.Unset = 1 << r.N(len(m.Texts))
		}
		s.Msgs = append(s.Msgs, m)
	}
	nf := 0
	if !r.P(4) {
		nf = r.In(1, 4)
	}
	if r.P(3) { // through something that spells JSON its own way
		for i := range s.Msgs {
			if r.P(2) {
				s.Msgs[i].Respell = r.U64() | 1
			}
		}
	}
	for ; nf > 0; nf-- {
		f := Fault{Msg: r.N(len(s.Msgs)), A: r.N(rnd.Pick(r, 80, 80, 600)), B: r.N(64)}
		if s.Framed {
			f.K = rnd.Pick(r, "drop", "dup", "delay", "ackdrop", "damage", "damage", "trunc")
		} else {
			f.K = rnd.Pick(r, "reset", "eof", "werr", "stall", "shortwrite", "empty")
		}
		s.Faults = append(s.Faults, f)
	}
	return s
}

// value is a typed value; exactly one of the fields is used.
type env[T any] struct {
	Seq  int          `json:"seq"`
	V    *T           `json:"v,omitempty"`
	F    inner[T]     `json:"f"`
	L    []T          `json:"l,omitempty"`
	M    map[string]T `json:"m,omitempty"`
	Name string       `json:"name"`
}

type inner[T any] struct {
	W []*T   `json:"w,omitempty"`
	S string `json:"s"`
}

// codec handles the three types alike.
type codec interface {
	make(text []byte) (v any, ok bool)
	zero() any
	obs(v any) string
	encode(seq int, shape string, vs []any) any
	fresh(shape string) any             // pointer to a destination
	values(shape string, dst any) []any // in order
	raw(shape string, b []byte) ([]json.RawMessage, []rawValue, error)
}

type cod[T any] struct {
	t   string
	mk  func(*urn.URN) T
	see func(*T) string
}

func (c cod[T]) make(text []byte) (any, bool) {
	u, err := urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(modeOf(c.t)))).Parse(bytes.Clone(text))
	if err != nil || u == nil {
		return nil, false
	}
	v := c.mk(u)
	return &v, true
}

func (c cod[T]) zero() any { return new(T) }

func (c cod[T]) obs(v any) string {
	p := v.(*T)
	if p == nil {
		return "<nil>"
	}
	return c.see(p)
}

func doc[T any](seq int, shape string, vs []*T) any {
	switch shape {
	case "bare":
		return *vs[0]
	case "ptr":
		return vs[0]
	case "field":
		return env[T]{Seq: seq, V: vs[0], Name: "field"}
	case "embed":
		return map[string]any{"seq": seq, "f": map[string]any{"w": vs, "s": "x&<>\u2028"}, "name": "embed"}
	case "list":
		l := []T{}
		for _, v := range vs {
			l = append(l, *v)
		}
		return env[T]{Seq: seq, L: l}
	}
	m := map[string]T{}
	for i, v := range vs {
		m[fmt.Sprintf("k%d", i)] = *v
	}
	return env[T]{Seq: seq, M: m}
}

func (c cod[T]) encode(seq int, shape string, vs []any) any {
	var l []*T
	for _, v := range vs {
		l = append(l, v.(*T))
	}
	return doc(seq, shape, l)
}

func dest[T any](shape string) any {
	switch shape {
	case "bare":
		return new(T)
	case "ptr":
		return new(*T)
	}
	return new(env[T])
}

func vals[T any](shape string, dst any) []*T {
	switch shape {
	case "bare":
		return []*T{dst.(*T)}
	case "ptr":
		return []*T{*dst.(**T)}
	}
	e := dst.(*env[T])
	switch shape {
	case "field":
		return []*T{e.V}
	case "embed":
		return e.F.W
	case "list":
		var l []*T
		for i := range e.L {
			l = append(l, &e.L[i])
		}
		return l
	}
	var l []*T
	for i := 0; ; i++ {
		v, ok := e.M[fmt.Sprintf("k%d", i)]
		if !ok {
			return l
		}
		l = append(l, &v)
	}
}

func (c cod[T]) fresh(shape string) any { return dest[T](shape) }

func (c cod[T]) values(shape string, dst any) []any {
	var l []any
	for _, v := range vals[T](shape, dst) {
		l = append(l, v)
	}
	return l
}

type rawValue struct {
	b       json.RawMessage
	pointer bool
}

// raw finds the values in the bytes without the library: those the shape has,
// and any other ones.
func (c cod[T]) raw(shape string, b []byte) ([]json.RawMessage, []rawValue, error) {
	d := dest[json.RawMessage](shape)
	if err := json.Unmarshal(b, d); err != nil {
		return nil, nil, err
	}
	var l []json.RawMessage
	for _, p := range vals[json.RawMessage](shape, d) {
		if p == nil {
			l = append(l, nil)
		} else {
			l = append(l, *p)
		}
	}
	var o []rawValue
	if e, ok := d.(*env[json.RawMessage]); ok {
		if e.V != nil {
			o = append(o, rawValue{*e.V, true})
		}
		for _, p := range e.F.W {
			if p != nil {
				o = append(o, rawValue{*p, true})
			}
		}
		for _, p := range e.L {
			o = append(o, rawValue{p, false})
		}
		keys := []string{}
		for k := range e.M {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o = append(o, rawValue{e.M[k], false})
		}
	}
	return l, o, nil
}

var codecs = map[string]codec{
	"urn":     cod[urn.URN]{"urn", func(u *urn.URN) urn.URN { return *u }, func(u *urn.URN) string { return obs.URN(u) }},
	"urn8141": cod[urn.URN8141]{"urn8141", func(u *urn.URN) urn.URN8141 { return urn.URN8141{URN: u} }, func(u *urn.URN8141) string { return obs.URN(u.URN) }},
	"scim":    cod[urn.SCIM]{"scim", func(u *urn.URN) urn.SCIM { return *u.SCIM() }, func(u *urn.SCIM) string { return obs.SCIM(u) }},
}

type held struct {
	msg  int
	v    any
	want string
	c    codec
}

type world struct {
	*sim
	sc   *Stream
	ask  func(obs.Req) string
	r    *rnd.R
	vals [][]any
	want [][]string // what arrives
	sent [][]string // what the sender has
	got  []int      // how often each document arrived
	okay []bool
	dst  map[string]any // reused destinations
	kept []held
	ok   []bool // the sender has the values
	bad  []bool // the document of values never set denotes nothing
}

var errReset = errors.New("connection reset")

// Exec runs the scenario.
func (sc *Stream) Exec(ask func(obs.Req) string) Outcome {
	w := &world{sim: newSim(), sc: sc, ask: ask, r: rnd.New(sc.Reads), dst: map[string]any{}}
	return w.run(func() {
		for i, m := range sc.Msgs {
			c := codecs[m.T]
			var vs []any
			var ws []string
			good := true
			for k, t := range m.Texts {
				w.call("making a value", len(t), func() {
					v, ok := c.zero(), true
					if m.Unset>>k&1 == 0 {
						v, ok = c.make(t)
					}
					if !ok {
						good = false
						return
					}
					vs = append(vs, v)
					ws = append(ws, c.obs(v))
				})
			}
			if len(vs) != len(m.Texts) || ((m.Shape == "bare" || m.Shape == "ptr" || m.Shape == "field") && len(vs) == 0) {
				good = false
			}
			if !good {
				w.count("message_not_makeable")
			}
			w.vals, w.want, w.ok = append(w.vals, vs), append(w.want, ws), append(w.ok, good)
			w.sent = append(w.sent, ws)
			w.bad = append(w.bad, false)
			if good && m.Unset != 0 { // the receiver gets what the text denotes, which may be nothing
				w.count("unset_value_encoded")
				var b bytes.Buffer
				err, ok := w.marshal(i, &b)
				if err != nil {
					w.fail("lost", "document %d, with a value never set: encoding failed: %v", i, err)
				}
				if !ok || err != nil {
					return
				}
				var unclear bool
				w.want[i], w.bad[i], unclear = w.expected(&sc.Msgs[i], b.Bytes())
				if unclear {
					w.ok[i] = false
				}
			}
		}
		w.got = make([]int, len(sc.Msgs))
		w.okay = make([]bool, len(sc.Msgs))
		if sc.Framed {
			w.framed()
		} else {
			w.stream()
		}
		if len(w.out.Violations) > 0 {
			return
		}
		// the sender's values are what they were, and so is everything received earlier
		for i, vs := range w.vals {
			if !w.ok[i] {
				continue
			}
			for k, v := range vs {
				w.call("observing", w.total(), func() {
					if got := codecs[sc.Msgs[i].T].obs(v); got != w.sent[i][k] {
						w.fail("value", "the sender's value %q changed\n got %s\nwant %s", sc.Msgs[i].Texts[k], got, w.sent[i][k])
					}
				})
			}
		}
		for _, h := range w.kept {
			w.call("observing", w.total(), func() {
				if got := h.c.obs(h.v); got != h.want {
					w.fail("value", "a value received in document %d changed later\n got %s\nwant %s", h.msg, clip(got), clip(h.want))
				}
			})
		}
		for i := range sc.Msgs {
			if w.ok[i] && !w.okay[i] {
				w.fail("lost", "document %d (%s %s %q) never arrived although the faults have stopped", i, sc.Msgs[i].T, sc.Msgs[i].Shape, sc.Msgs[i].Texts)
			}
		}
		for i, f := range sc.Faults {
			_ = i
			_ = f
			w.out.Nontrivial = true
		}
		if sc.MaxRead > 0 && sc.MaxRead < 64 || len(sc.Msgs) > 1 {
			w.out.Nontrivial = true
		}
	})
}

// expected is what decoding these bytes must give: for each value its
// observation, or an error.
func (w *world) expected(m *Msg, b []byte) (want []string, fails, unclear bool) {
	if repeatedKeys(b) {
		return nil, false, true // which of the values counts, and which may be bad, is encoding/json's business
	}
	raws, others, err := codecs[m.T].raw(m.Shape, b)
	if err != nil {
		return nil, true, false
	}
	pointers := m.Shape == "ptr" || m.Shape == "field" || m.Shape == "embed"
	one := func(r json.RawMessage, pointer bool) (string, bool) {
		if r == nil || (string(r) == "null" && pointer) {
			return "<nil>", true
		}
		a := w.ask(obs.Req{K: "dec", T: m.T, In: r, How: "unmarshal"})
		if len(a) < 3 || a[:3] != "ok " {
			return "", false
		}
		return a[3:], true
	}
	for _, r := range raws {
		o, ok := one(r, pointers)
		if !ok {
			return nil, true, false
		}
		want = append(want, o)
	}
	for _, r := range others { // values the damage has moved elsewhere
		if _, ok := one(r.b, r.pointer); !ok {
			return nil, true, false
		}
	}
	return want, false, false
}

// repeatedKeys reports whether an object in the bytes has the same key twice.
func repeatedKeys(b []byte) bool {
	d := json.NewDecoder(bytes.NewReader(b))
	type level struct {
		object, key bool
		seen        map[string]bool
	}
	var st []level
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		if n := len(st) - 1; n >= 0 && st[n].object {
			if k, ok := t.(string); ok && st[n].key {
				k = strings.ToLower(k)
				if st[n].seen[k] {
					return true
				}
				st[n].seen[k] = true
				st[n].key = false
				continue
			}
			st[n].key = true
		}
		switch t {
		case json.Delim('{'):
			st = append(st, level{true, true, map[string]bool{}})
		case json.Delim('['):
			st = append(st, level{})
		case json.Delim('}'), json.Delim(']'):
			st = st[:len(st)-1]
			if n := len(st) - 1; n >= 0 {
				st[n].key = true
			}
		}
	}
}

func (w *world) target(m *Msg) any {
	if m.Fresh {
		return codecs[m.T].fresh(m.Shape)
	}
	k := m.T + m.Shape
	if w.dst[k] == nil || (m.Shape != "bare") { // only a bare variable is overwritten as a whole
		w.dst[k] = codecs[m.T].fresh(m.Shape)
	}
	return w.dst[k]
}

// compare checks a decoded destination.
func (w *world) compare(i int, dst any, want []string) bool {
	m := &w.sc.Msgs[i]
	c := codecs[m.T]
	ok := false
	w.call("observing", w.bytes(m), func() {
		vs := c.values(m.Shape, dst)
		if len(vs) != len(want) {
			w.fail("value", "document %d: %d values arrived instead of %d", i, len(vs), len(want))
			return
		}
		for k, v := range vs {
			if got := c.obs(v); got != want[k] {
				t := ""
				if k < len(m.Texts) {
					t = string(m.Texts[k])
				}
				w.fail("value", "document %d (%s %s), value %d, sent as %q\n got %s\nwant %s", i, m.T, m.Shape, k, t, clip(got), clip(want[k]))
				return
			}
			// keep a copy of the variable as an application would
			switch p := v.(type) {
			case *urn.URN:
				if p != nil {
					x := *p
					w.kept = append(w.kept, held{i, &x, want[k], c})
				}
			case *urn.URN8141:
				if p != nil {
					x := *p
					w.kept = append(w.kept, held{i, &x, want[k], c})
				}
			case *urn.SCIM:
				if p != nil {
					x := *p
					w.kept = append(w.kept, held{i, &x, want[k], c})
				}
			}
		}
		ok = true
	})
	return ok
}

func (w *world) fault(i int, k string) *Fault {
	for j := range w.sc.Faults {
		if f := &w.sc.Faults[j]; f.Msg == i && f.K == k {
			return f
		}
	}
	return nil
}

func (w *world) marshal(i int, to io.Writer) (err error, ok bool) {
	m := &w.sc.Msgs[i]
	ok = w.call("encoding", w.bytes(m), func() {
		var b bytes.Buffer
		out := to
		if m.Respell != 0 {
			out = &b
		}
		e := json.NewEncoder(out)
		e.SetEscapeHTML(w.sc.Escape)
		if w.sc.Indent {
			e.SetIndent("", " ")
		}
		err = e.Encode(codecs[m.T].encode(i, m.Shape, w.vals[i]))
		if m.Respell != 0 && err == nil {
			w.count("document_respelled")
			_, err = to.Write(gen.OtherJSON(rnd.New(m.Respell), b.Bytes()))
		}
	})
	return
}

// framed: every document travels in a frame of its own, is acknowledged when it
// was decoded and sent again otherwise.
func (w *world) framed() {
	acked := make([]bool, len(w.sc.Msgs))
	var send func(i, attempt int)
	receive := func(i, attempt int, b []byte, damaged bool) {
		m := &w.sc.Msgs[i]
		want, fails, unclear := w.want[i], w.bad[i], false
		if damaged {
			want, fails, unclear = w.expected(m, b)
			if unclear {
				w.count("damaged_document_unclear")
				return
			}
		}
		dst := w.target(m)
		c := codecs[m.T]
		var before []string
		if m.Shape == "bare" {
			w.call("observing", w.total(), func() { before = append(before, c.obs(dst)) })
		}
		in := bytes.Clone(b)
		var err error
		if !w.call("decoding", 2000+len(b), func() {
			if w.r.P(2) {
				err = json.Unmarshal(in, dst)
			} else {
				err = json.NewDecoder(&pieces{w: w, b: in}).Decode(dst)
			}
		}) {
			return
		}
		for k := range in { // the frame's memory is used for the next one
			in[k] = 'z'
		}
		w.note("document %d attempt %d arrives (damaged %v): error %v", i, attempt, damaged, err != nil)
		switch {
		case err != nil && !fails:
			w.fail("lost", "document %d: decoding %q as %s failed: %v\nexpected %q", i, clip(string(b)), m.T, err, want)
		case err == nil && fails && !trailing(b):
			w.fail("value", "document %d: decoding the damaged %q as %s succeeded", i, clip(string(b)), m.T)
		case err != nil:
			if damaged {
				w.count("damaged_document_rejected")
			} else {
				w.count("unset_document_rejected")
				w.okay[i] = true
			}
			if m.Shape == "bare" {
				w.call("observing", w.total(), func() {
					if got := c.obs(dst); got != before[0] {
						w.fail("value", "document %d: a failed decoding of %q changed the destination\n got %s\nwant %s", i, clip(string(b)), clip(got), clip(before[0]))
					}
				})
			}
		case err == nil && !fails:
			if damaged {
				w.count("damaged_document_denotes_a_value")
			}
			if w.compare(i, dst, want) {
				w.got[i]++
				if !damaged {
					w.okay[i] = true
				}
				w.count("document_decoded")
			}
		}
		if w.okay[i] {
			if f := w.fault(i, "ackdrop"); f != nil && attempt <= f.A%3 {
				w.count("ack_dropped")
				return
			}
			w.after(int64(w.r.In(1, 5))*ms, func() { acked[i] = true })
		}
	}
	send = func(i, attempt int) {
		if acked[i] {
			return
		}
		var buf bytes.Buffer
		err, ok := w.marshal(i, &buf)
		if !ok {
			return
		}
		if err != nil {
			w.fail("lost", "document %d: encoding failed: %v", i, err)
			return
		}
		b := buf.Bytes()
		damaged := false
		drop := false
		copies := 1
		delay := int64(w.r.In(1, 5)) * ms
		if f := w.fault(i, "drop"); f != nil && attempt <= f.A%3 {
			w.count("frame_dropped")
			drop = true
		}
		if f := w.fault(i, "dup"); f != nil && attempt == 0 {
			w.count("frame_duplicated")
			copies = 2 + f.A%2
		}
		if f := w.fault(i, "delay"); f != nil && attempt == 0 {
			w.count("frame_delayed_past_others")
			delay += int64(f.A%40) * ms
		}
		for k, f := range w.sc.Faults {
			if f.Msg != i || attempt != 0 || len(b) == 0 {
				continue
			}
			switch f.K {
			case "damage":
				b = damage(b, f, rnd.New(w.sc.Reads, uint64(k)))
				w.count("frame_damaged")
				damaged = true
			case "trunc":
				b = b[:f.A%len(b)]
				w.count("frame_truncated")
				damaged = true
			}
		}
		w.note("document %d attempt %d: %d bytes, drop %v copies %d damaged %v", i, attempt, len(b), drop, copies, damaged)
		if !drop {
			for k := 0; k < copies; k++ {
				d := delay + int64(k)*int64(w.r.In(0, 20))*ms
				w.after(d, func() { receive(i, attempt, b, damaged) })
			}
		}
		if attempt < 12 {
			w.after(60*ms, func() { send(i, attempt+1) })
		}
	}
	at := int64(0)
	for i := range w.sc.Msgs {
		at += w.sc.Msgs[i].Gap
		if w.ok[i] {
			w.after(at, func() { send(i, 0) })
		}
	}
	for w.step() {
	}
}

// trailing reports whether the bytes hold more than one JSON value, of which a
// stream decoder takes only the first.
func trailing(b []byte) bool {
	d := json.NewDecoder(bytes.NewReader(b))
	var x any
	return d.Decode(&x) == nil && !json.Valid(b)
}

func damage(b []byte, f Fault, r *rnd.R) []byte {
	b = bytes.Clone(b)
	i := f.A % len(b)
	switch f.B % 6 {
	case 0, 1:
		b[i] ^= byte(1 << r.N(8))
	case 2:
		b = append(b[:i], b[i+1:]...)
	case 3:
		b = append(b[:i:i], append([]byte{byte(r.N(256))}, b[i:]...)...)
	case 4: // a character replaced by one that keeps the JSON well-formed
		if b[i] >= 'a' && b[i] <= 'z' || b[i] >= '0' && b[i] <= '9' {
			b[i] = "abcxyz0189ABZ-%:?#+=/~"[r.N(22)]
		} else {
			b[i] ^= byte(1 << r.N(8))
		}
	case 5: // a run overwritten
		for k := i; k < len(b) && k < i+1+r.N(6); k++ {
			b[k] = byte(r.N(256))
		}
	}
	return b
}

// pieces delivers a frame piecewise.
type pieces struct {
	w *world
	b []byte
}

func (p *pieces) Read(q []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := p.w.size(len(p.b))
	n = copy(q, p.b[:n])
	p.b = p.b[n:]
	return n, nil
}

func (w *world) size(n int) int {
	if w.sc.MaxRead > 0 && n > w.sc.MaxRead {
		n = w.sc.MaxRead
	}
	if n > 1 && w.r.P(2) {
		n = 1 + w.r.N(n)
	}
	return n
}

// conn is one connection of the stream variant: what the sender writes arrives
// in pieces, later, until the connection breaks.
type conn struct {
	w       *world
	sent    int    // bytes accepted from the sender
	buf     []byte // arrived, not yet read
	end     error  // what the reader gets after buf
	ending  error
	open    bool
	flight  int
	cutAt   int // break after this many bytes; -1: no
	cutWith error
	werrAt  int
	short   bool
	stall   int64
	empties int
	last    int64
}

var errWrite = errors.New("write failed")

func (c *conn) Write(b []byte) (int, error) {
	if !c.open {
		return 0, errWrite
	}
	n := len(b)
	var err error
	if c.werrAt >= 0 && n > c.werrAt {
		n, err = c.werrAt, errWrite
		if c.short {
			err = nil // a short write without an error, which io.Writer forbids but happens
			c.w.count("write_short")
		} else {
			c.w.count("write_failed")
		}
		c.open = false
	}
	data := bytes.Clone(b[:n])
	if c.cutAt >= 0 && len(data) > c.cutAt {
		data = data[:c.cutAt]
		c.open = false
		c.w.count("connection_cut")
		if c.end == nil {
			c.ending = c.cutWith
		}
	}
	c.deliver(data)
	if !c.open {
		c.close()
	}
	return n, err
}

func (c *conn) deliver(data []byte) {
	least := len(data) / 400
	for len(data) > 0 {
		n := min(len(data), max(c.w.size(len(data)), least))
		p := data[:n]
		data = data[n:]
		d := int64(c.w.r.N(3))*ms + c.stall
		c.stall = 0
		at := max(c.last, c.w.now+d) // a stream keeps its order
		c.last = at
		c.flight++
		c.w.after(at-c.w.now, func() {
			c.flight--
			c.buf = append(c.buf, p...)
		})
	}
}

func (c *conn) close() {
	c.open = false
	e := c.ending
	if e == nil {
		e = io.EOF
	}
	at := max(c.last, c.w.now)
	c.w.after(at-c.w.now, func() {
		if c.end == nil {
			c.end = e
		}
	})
}

// Read is where the simulated clock advances: a blocked reader lets the world go on.
func (c *conn) Read(q []byte) (int, error) {
	for len(c.buf) == 0 && c.end == nil {
		if !c.w.step() {
			return 0, errReset
		}
	}
	if c.empties > 0 {
		c.empties--
		c.w.count("empty_read")
		return 0, nil
	}
	if len(c.buf) == 0 {
		return 0, c.end
	}
	n := copy(q, c.buf[:c.w.size(len(c.buf))])
	c.buf = c.buf[n:]
	return n, nil
}

// stream: documents follow each other on a connection; when it breaks, the
// sender starts again on a new one with the first document not yet known to have arrived.
func (w *world) stream() {
	next := 0
	for attempt := 0; attempt < 12 && len(w.out.Violations) == 0; attempt++ {
		for next < len(w.sc.Msgs) && (!w.ok[next] || w.okay[next]) {
			next++
		}
		if next >= len(w.sc.Msgs) {
			return
		}
		c := &conn{w: w, open: true, cutAt: -1, werrAt: -1, last: w.now}
		first := next
		whole := map[int]bool{} // completely written before anything went wrong
		var order []int
		var send func(i int)
		send = func(i int) {
			for i < len(w.sc.Msgs) && !w.ok[i] {
				i++
			}
			if i >= len(w.sc.Msgs) || !c.open {
				c.close()
				return
			}
			cut := false
			if attempt == 0 || w.r.P(3) {
				for _, f := range w.sc.Faults {
					if f.Msg != i || attempt > 2 {
						continue
					}
					switch f.K {
					case "reset", "eof":
						c.cutAt, c.cutWith, cut = f.A, errReset, true
						if f.K == "eof" {
							c.cutWith = io.EOF
						}
					case "werr":
						c.werrAt, c.short, cut = f.A, false, true
					case "shortwrite":
						c.werrAt, c.short, cut = f.A, true, true
					case "stall":
						w.count("stall")
						c.stall = int64(1000+f.A*100) * ms
					case "empty":
						c.empties += 1 + f.A%3
					}
				}
			}
			err, ok := w.marshal(i, c)
			if !ok {
				return
			}
			w.note("document %d written on connection %d: %v", i, attempt, err)
			order = append(order, i)
			if err == nil && c.open {
				whole[i] = true
			} else if err != nil && c.open {
				w.fail("lost", "document %d: encoding failed: %v", i, err)
				return
			}
			_ = cut
			c.cutAt, c.werrAt = -1, -1
			if c.open {
				w.after(w.gap(i+1), func() { send(i + 1) })
			}
		}
		w.after(w.gap(first), func() { send(first) })
		dec := json.NewDecoder(c)
		for k := 0; ; k++ {
			// what comes next is known only when it has been written
			for k >= len(order) && c.end == nil {
				if !w.step() {
					break
				}
			}
			if k >= len(order) {
				break
			}
			i := order[k]
			m := &w.sc.Msgs[i]
			dst := w.target(m)
			var err error
			if !w.call("decoding", 8*w.total(), func() { err = dec.Decode(dst) }) {
				return
			}
			w.note("document %d decoded on connection %d: error %v", i, attempt, err != nil)
			if err != nil && whole[i] && w.bad[i] {
				w.count("unset_document_rejected")
				w.okay[i] = true
				continue
			}
			if err == nil && w.bad[i] {
				w.fail("value", "document %d (%s %s) with a value never set was decoded", i, m.T, m.Shape)
				return
			}
			if err != nil {
				if whole[i] {
					w.fail("lost", "document %d (%s %s %q) was transmitted whole but decoding it failed: %v", i, m.T, m.Shape, m.Texts, err)
				}
				w.count("partial_document_rejected")
				break
			}
			// a document whose last byte (the line end) is missing is complete all the same
			if !w.compare(i, dst, w.want[i]) {
				return
			}
			w.count("document_decoded")
			w.got[i]++
			w.okay[i] = true
		}
		c.close()
		for len(w.q) > 0 && w.step() {
		}
		w.after(int64(attempt+1)*100*ms, func() {})
		w.step()
	}
}

// bytes is the size of a document, for allowances.
func (w *world) bytes(m *Msg) int {
	n := 1000
	for _, t := range m.Texts {
		n += 8 * len(t)
	}
	return n
}

func (w *world) total() int {
	n := 4000
	for i := range w.sc.Msgs {
		n += w.bytes(&w.sc.Msgs[i])
	}
	return n
}

func (w *world) gap(i int) int64 {
	if i < len(w.sc.Msgs) {
		return w.sc.Msgs[i].Gap
	}
	return 0
}

// Shrinks proposes simpler scenarios.
func (sc *Stream) Shrinks(yield func(*Stream) bool) bool {
	for i := range sc.Msgs {
		if len(sc.Msgs) == 1 {
			break
		}
		c := clone(sc)
		c.Msgs = append(c.Msgs[:i:i], c.Msgs[i+1:]...)
		var fs []Fault
		for _, f := range c.Faults {
			if f.Msg == i {
				continue
			}
			if f.Msg > i {
				f.Msg--
			}
			fs = append(fs, f)
		}
		c.Faults = fs
		if !yield(c) {
			return false
		}
	}
	for i := range sc.Faults {
		c := clone(sc)
		c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...)
		if !yield(c) {
			return false
		}
	}
	mod := func(f func(*Stream) bool) bool {
		c := clone(sc)
		return !f(c) || yield(c)
	}
	if !mod(func(c *Stream) bool { b := c.MaxRead != 0; c.MaxRead = 0; return b }) ||
		!mod(func(c *Stream) bool { b := c.Indent; c.Indent = false; return b }) {
		return false
	}
	for i := range sc.Msgs {
		if !mod(func(c *Stream) bool {
			b := c.Msgs[i].Shape != "bare"
			c.Msgs[i].Shape = "bare"
			return b && len(c.Msgs[i].Texts) == 1
		}) ||
			!mod(func(c *Stream) bool { b := c.Msgs[i].Gap != 0; c.Msgs[i].Gap = 0; return b }) ||
			!mod(func(c *Stream) bool { b := c.Msgs[i].Respell != 0; c.Msgs[i].Respell = 0; return b }) ||
			!mod(func(c *Stream) bool { b := c.Msgs[i].Unset != 0; c.Msgs[i].Unset = 0; return b }) {
			return false
		}
		for k := range sc.Msgs[i].Texts {
			if !mod(func(c *Stream) bool {
				c.Msgs[i].Texts = append(c.Msgs[i].Texts[:k:k], c.Msgs[i].Texts[k+1:]...)
				return len(c.Msgs[i].Texts) > 0
			}) {
				return false
			}
			n := len(sc.Msgs[i].Texts[k])
			for w := n / 2; w >= 1; w /= 2 {
				for j := 0; j+w <= n; j += w {
					if !mod(func(c *Stream) bool {
						t := c.Msgs[i].Texts[k]
						c.Msgs[i].Texts[k] = append(append([]byte(nil), t[:j]...), t[j+w:]...)
						return true
					}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// Package obs turns what the library's public API shows of a value into text.
// It is compiled twice: against the instrumented copy (in the simulator) and
// against the plain source (in the pristine oracle process).
package obs

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	urn "github.com/leodido/go-urn"

	"verifsim/simrt"
)

// Guard runs f and turns a panic into text that does not depend on addresses.
func Guard(f func() string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = "panic:" + Panic(p)
		}
	}()
	return f()
}

// Panic describes a recovered panic value.
func Panic(p any) string {
	switch x := p.(type) {
	case simrt.StepLimit:
		return "step limit"
	case interface{ Addr() uintptr }:
		return "memory fault"
	case runtime.Error:
		return x.Error()
	case error:
		return "error " + x.Error()
	default:
		return fmt.Sprint(x)
	}
}

// Queries are the read operations on a URN.
var Queries = []string{"string", "id", "ss", "rfc", "isscim", "r", "q", "f", "scim", "scimstr", "scimjson", "norm", "normobs", "json", "jsonval", "jsonval8141", "jsonvalscim", "nested", "eqself", "eqnil"}

// Query asks one question.
func Query(u *urn.URN, q string) string {
	return Guard(func() string {
		switch q {
		case "string":
			return u.String()
		case "id":
			return u.ID
		case "ss":
			return u.SS
		case "rfc":
			return fmt.Sprint(int(u.RFC()))
		case "isscim":
			return fmt.Sprint(u.IsSCIM())
		case "r":
			return u.RComponent()
		case "q":
			return u.QComponent()
		case "f":
			return u.FComponent()
		case "scim":
			s := u.SCIM()
			if s == nil {
				return "<nil>"
			}
			return fmt.Sprintf("%d|%s|%s|%s", int(s.Type), s.Type.String(), s.Name, s.Other)
		case "scimstr":
			if s := u.SCIM(); s != nil {
				return s.String()
			}
			return "<nil>"
		case "scimjson":
			if s := u.SCIM(); s != nil {
				b, err := json.Marshal(s)
				return js(b, err)
			}
			return "<nil>"
		case "norm":
			return u.Normalize().String()
		case "normobs":
			n := u.Normalize()
			return fmt.Sprintf("%q %q %q", n.ID, n.SS, n.String())
		case "json":
			b, err := json.Marshal(u)
			return js(b, err)
		case "jsonval":
			b, err := u.MarshalJSON()
			return js(b, err)
		case "jsonval8141":
			b, err := urn.URN8141{URN: u}.MarshalJSON()
			return js(b, err)
		case "jsonvalscim":
			if s := u.SCIM(); s != nil {
				b, err := s.MarshalJSON()
				return js(b, err)
			}
			return "<nil>"
		case "nested":
			b, err := json.Marshal(map[string]any{"a": u, "b": []*urn.URN{u}, "c": urn.URN8141{URN: u}})
			return js(b, err)
		case "eqself":
			return fmt.Sprint(u.Equal(u))
		case "eqnil":
			return fmt.Sprint(u.Equal(nil))
		}
		return "?"
	})
}

func js(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

// Equal compares.
func Equal(a, b *urn.URN) string { return Guard(func() string { return fmt.Sprint(a.Equal(b)) }) }

// basic are the queries that make up a value's observation.
var basic = []string{"string", "id", "ss", "rfc", "isscim", "r", "q", "f", "scim", "norm", "normobs"}

// URN observes everything.
func URN(u *urn.URN) string {
	if u == nil {
		return "<nil>"
	}
	var sb strings.Builder
	for i, q := range basic {
		if i > 0 {
			sb.WriteByte('\n')
		}
		sb.WriteString(q)
		sb.WriteByte('=')
		sb.WriteString(Query(u, q))
	}
	return sb.String()
}

// SCIM observes a SCIM value.
func SCIM(s *urn.SCIM) string {
	return Guard(func() string { return fmt.Sprintf("%d|%s|%s|%s", int(s.Type), s.Name, s.Other, s.String()) })
}

// Err observes an error.
func Err(err error) string {
	return Guard(func() string {
		if err == nil {
			return "<nil>"
		}
		return err.Error()
	})
}

// Result observes both results of a parse.
func Result(u *urn.URN, err error) string {
	if err != nil {
		if u != nil {
			return "both " + Err(err)
		}
		return "err " + Err(err)
	}
	if u == nil {
		return "neither"
	}
	return "ok " + URN(u)
}

// OK reduces the observation of a parse to what the boolean form shows.
func OK(res string) string {
	if strings.HasPrefix(res, "err ") || res == "neither" {
		return "false"
	}
	return res
}

// Dst is a destination of JSON decoding.
type Dst struct {
	T string // "urn", "urn8141", "scim"
	U urn.URN
	E urn.URN8141
	S urn.SCIM
}

func (d *Dst) Obs() string {
	switch d.T {
	case "urn":
		return URN(&d.U)
	case "urn8141":
		return URN(d.E.URN)
	}
	return SCIM(&d.S)
}

func (d *Dst) ptr() any {
	switch d.T {
	case "urn":
		return &d.U
	case "urn8141":
		return &d.E
	}
	return &d.S
}

// Encode gives the JSON of the destination's value.
func (d *Dst) Encode() string {
	return Guard(func() string {
		var v any = d.U
		switch d.T {
		case "urn8141":
			v = d.E
		case "scim":
			v = d.S
		}
		b, err := json.Marshal(v)
		return js(b, err)
	})
}

var errStream = errors.New("simulated stream error")

// chunks delivers data in pieces and then ends as told.
type chunks struct {
	data []byte
	n    int
	err  error
	k    int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.err
	}
	c.k++
	n := c.n
	if n <= 0 {
		n = len(c.data)
	} else if c.k%3 == 0 {
		n = 1
	}
	n = copy(p, c.data[:min(n, len(c.data))])
	c.data = c.data[n:]
	return n, nil
}

// Decode decodes doc into d by the given way. A panic is returned as text.
func (d *Dst) Decode(doc []byte, how string, arg int) (err error, panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = Panic(p)
		}
	}()
	switch how {
	case "direct":
		switch d.T {
		case "urn":
			return d.U.UnmarshalJSON(doc), ""
		case "urn8141":
			return d.E.UnmarshalJSON(doc), ""
		}
		return d.S.UnmarshalJSON(doc), ""
	case "unmarshal":
		return json.Unmarshal(doc, d.ptr()), ""
	case "stream", "streamerr":
		// arg: chunk size; the stream ends after what it was given
		end := io.EOF
		if how == "streamerr" {
			end = errStream
		}
		return json.NewDecoder(&chunks{data: bytes.Clone(doc), n: arg, err: end}).Decode(d.ptr()), ""
	}
	panic("unknown way " + how)
}

// Src says how a URN is made.
type Src struct {
	Kind string `json:"kind"` // parse, dec, dec8141, lit, norm
	Mode int    `json:"mode,omitempty"`
	In   []byte `json:"in,omitempty"`
	ID   string `json:"id,omitempty"`
	SS   string `json:"ss,omitempty"`
	Deep int    `json:"deep,omitempty"` // norm: how many more times
	Set  *Set   `json:"set,omitempty"`
}

// Set says how the exported fields of a URN were set after it was made.
type Set struct {
	Warm  []string `json:"warm,omitempty"` // questions asked before: they have no effect
	Copy  bool     `json:"copy,omitempty"` // what is set is a copy
	Which int      `json:"which"`          // 1: ID, 2: SS
	ID    string   `json:"id,omitempty"`
	SS    string   `json:"ss,omitempty"`
}

// Pristine is true where values are made for the expected answers.
var Pristine bool

// Apply sets what is to be set.
func (x *Set) Apply(u *urn.URN) *urn.URN {
	if x == nil || u == nil {
		return u
	}
	if !Pristine {
		for _, q := range x.Warm {
			Query(u, q)
		}
		if x.Copy {
			c := *u
			u = &c
		}
	}
	if x.Which&1 != 0 {
		u.ID = x.ID
	}
	if x.Which&2 != 0 {
		u.SS = x.SS
	}
	return u
}

// Make makes it, nil if it cannot be made.
func (s Src) Make() *urn.URN {
	var u *urn.URN
	Guard(func() string {
		in := bytes.Clone(s.In)
		switch s.Kind {
		case "parse":
			u, _ = urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(s.Mode))).Parse(in)
		case "norm":
			if v, _ := urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(s.Mode))).Parse(in); v != nil {
				u = v.Normalize()
				for i := 0; i < s.Deep; i++ {
					u = u.Normalize()
				}
			}
		case "dec":
			var v urn.URN
			b, _ := json.Marshal(string(in))
			if json.Unmarshal(b, &v) == nil {
				u = &v
			}
		case "dec8141":
			var v urn.URN8141
			b, _ := json.Marshal(string(in))
			if json.Unmarshal(b, &v) == nil {
				u = v.URN
			}
		case "lit":
			u = &urn.URN{ID: s.ID, SS: s.SS}
		}
		u = s.Set.Apply(u)
		return ""
	})
	return u
}

// Req is one question to the pristine oracle: a single call in a new process.
type Req struct {
	K    string `json:"k"` // parse, query, equal, dec, enc
	Mode int    `json:"mode,omitempty"`
	In   []byte `json:"in,omitempty"`
	A    *Src   `json:"a,omitempty"`
	B    *Src   `json:"b,omitempty"`
	Q    string `json:"q,omitempty"`
	T    string `json:"t,omitempty"`
	How  string `json:"how,omitempty"`
	Arg  int    `json:"arg,omitempty"`
}

func (r Req) Key() string {
	b, _ := json.Marshal(r)
	return base64.StdEncoding.EncodeToString(b)
}

// Answer performs the call.
func (r Req) Answer() string {
	switch r.K {
	case "parse":
		return Guard(func() string {
			u, err := urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(r.Mode))).Parse(r.In)
			return Result(u, err)
		})
	case "parsedefault":
		return Guard(func() string {
			u, err := urn.NewMachine().Parse(r.In)
			return Result(u, err)
		})
	case "query":
		u := r.A.Make()
		if u == nil {
			return "<none>"
		}
		if r.Q == "all" {
			return URN(u)
		}
		return Query(u, r.Q)
	case "equal":
		a, b := r.A.Make(), r.B.Make()
		if a == nil || b == nil {
			return "<none>"
		}
		return Equal(a, b)
	case "dec":
		d := Dst{T: r.T}
		err, p := d.Decode(r.In, r.How, r.Arg)
		switch {
		case p != "":
			return "panic:" + p
		case err != nil:
			return "err " + Err(err)
		}
		return "ok " + d.Obs()
	}
	return "?"
}

package main

import (
	"encoding/json"

	"verifsim/netsim"
	"verifsim/rnd"
)

type net struct {
	prop string
	last *netsim.Outcome
}

func newNet(prop string) engine { return &net{prop: prop} }

func (n *net) start(r *rnd.R) {}

func (n *net) gen(r *rnd.R) any {
	if n.prop == "C09" {
		return netsim.GenStream(r)
	}
	if n.prop == "C14" {
		return netsim.GenRelay(r)
	}
	return netsim.GenNames(r)
}

func (n *net) load(b json.RawMessage) (any, error) {
	if n.prop == "C09" {
		var s netsim.Stream
		return &s, json.Unmarshal(b, &s)
	}
	if n.prop == "C14" {
		var s netsim.Relay
		return &s, json.Unmarshal(b, &s)
	}
	var s netsim.Names
	return &s, json.Unmarshal(b, &s)
}

func (n *net) exec(x any) (*result, error) {
	var o netsim.Outcome
	switch s := x.(type) {
	case *netsim.Stream:
		o = s.Exec(ask)
	case *netsim.Relay:
		o = s.Exec(ask)
	case *netsim.Names:
		o = s.Exec(ask)
	}
	n.last = &o
	return &result{violations: o.Violations, hash: o.Hash, steps: o.Steps, simNanos: o.SimNanos, nontrivial: o.Nontrivial, counts: o.Counts, log: o.Log}, nil
}

func (n *net) pin(x any, res *result) any { return x }

func (n *net) shrinks(x any, yield func(any) bool) bool {
	switch s := x.(type) {
	case *netsim.Stream:
		return s.Shrinks(func(c *netsim.Stream) bool { return yield(c) })
	case *netsim.Relay:
		return s.Shrinks(func(c *netsim.Relay) bool { return yield(c) })
	case *netsim.Names:
		return s.Shrinks(func(c *netsim.Names) bool { return yield(c) })
	}
	return true
}

func (n *net) trace(x any, res *result) []string { return n.last.Trace }

package main

import (
	"encoding/json"

	"verifsim/rnd"
	"verifsim/scen"
	"verifsim/soaksim"
)

type soak struct{ last soaksim.Outcome }

func newSoak() engine {
	scen.Warm()
	return &soak{}
}

func (n *soak) start(r *rnd.R)   {}
func (n *soak) gen(r *rnd.R) any { return soaksim.Gen(r, *thorough) }
func (n *soak) load(b json.RawMessage) (any, error) {
	var s soaksim.Soak
	return &s, json.Unmarshal(b, &s)
}

func (n *soak) exec(x any) (*result, error) {
	o, err := x.(*soaksim.Soak).Exec()
	if err != nil {
		return nil, err
	}
	n.last = o
	return &result{violations: o.Violations, hash: o.Hash, steps: o.Steps, nontrivial: true, counts: o.Counts, log: o.Log}, nil
}

func (n *soak) pin(x any, res *result) any { return x }

func (n *soak) shrinks(x any, yield func(any) bool) bool {
	return x.(*soaksim.Soak).Shrinks(func(c *soaksim.Soak) bool { return yield(c) })
}

func (n *soak) trace(x any, res *result) []string { return n.last.Trace }

package main

const memRule = "A run is one scenario (tasks of library calls plus what happens to caller memory) executed under one seeded schedule. Non-trivial: at least one preemption inside library code or at least one fault/memory event. Distinct: by scenario content and the sequence of (site, from-task, to-task) token hand-overs."

var memReal = []string{"go-urn (the current source, instrumented with scheduling points)", "Go runtime, encoding/json, fmt", "Go race detector (runs marked so)"}
var memStub = []string{"goroutine scheduler", "package sync inside go-urn", "sync.Pool inside the standard library (keeps nothing)", "caller memory (mmap with guard pages, write protection, faults)"}
var memAssume = []string{"interleavings are explored at statement granularity and assume sequentially consistent memory; effects below that are covered only through the race detector",
	"what a call returns when it is the only call ever made in a process is the reference for what it should return"}

var plans = map[string]*plan{
	"C01": {race: true, raceEvery: 2, batches: 512, runs: 120, tbatch: 1600, truns: 200, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
	"C02": {batches: 768, runs: 250, tbatch: 1600, truns: 400, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
	"C03": {batches: 512, runs: 150, tbatch: 1600, truns: 300, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
	"C04": {batches: 512, runs: 150, tbatch: 1600, truns: 300, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
	"C05": {batches: 480, runs: 250, tbatch: 1600, truns: 400, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
	"C06": {race: true, raceEvery: 2, batches: 192, runs: 120, tbatch: 1600, truns: 200, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
	"C07": {race: true, raceEvery: 2, batches: 256, runs: 120, tbatch: 1600, truns: 200, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
	"C16": {race: true, raceEvery: 4, batches: 128, runs: 100, tbatch: 1600, truns: 200, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
	"C08": {race: true, raceEvery: 2, batches: 256, runs: 120, tbatch: 1600, truns: 200, real: memReal, stub: memStub, rule: memRule, assume: memAssume},
}

const netRule = "A run is one simulated network: nodes or two ends of a stream, with seeded documents or names, delays and faults. Non-trivial: several documents/names or at least one fault. Distinct: by the sequence of simulated events (what was sent, lost, damaged, decoded, merged, and when)."

var netReal = []string{"go-urn (the current source)", "encoding/json (Encoder, Decoder, Marshal, Unmarshal)"}
var netStub = []string{"network (delay, loss, duplication, reordering, damage, cuts)", "clock (discrete events)", "peers (sender, receiver, collecting nodes)", "disk of a node (survives a crash)"}

func init() {
	plans["C09"] = &plan{raceEvery: 1, batches: 480, runs: 250, tbatch: 1200, truns: 600, real: netReal, stub: netStub, rule: netRule,
		assume: []string{"what a damaged document denotes is what a pristine process decodes from the same bytes; encoding/json itself is trusted"}}
	plans["C10"] = &plan{raceEvery: 1, batches: 64, runs: 800, tbatch: 1600, truns: 2000, real: netReal, stub: netStub, rule: netRule,
		assume: []string{"identity of names is known by construction: prefix and identifier case-insensitive, percent-encoded digits case-insensitive, everything else exact"}}
	plans["C14"] = &plan{raceEvery: 1, batches: 128, runs: 400, tbatch: 1600, truns: 1500, real: netReal, stub: netStub, rule: netRule,
		assume: []string{"the parts of a name are known by construction; how a SCIM name is cut depends on the mode it is parsed in", "what a damaged name denotes is what a pristine process makes of the same bytes"}}
	plans["C13"] = &plan{raceEvery: 1, batches: 288, runs: 16, tbatch: 1200, truns: 30, real: memReal[:2], stub: memStub,
		rule:   "A run is one long history: up to three tasks repeat their calls thousands of times, each time with another number in the text, in rounds; memory in use, goroutines and steps are compared between rounds. Distinct: by scenario and the sequence of hand-overs.",
		assume: []string{"what the garbage collector still finds reachable once all results are dropped is kept by the library (the simulator keeps nothing per call)", "a store that stops growing within a few thousand entries is a bounded cache, not a leak"}}
}

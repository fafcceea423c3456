// Package simrt is the deterministic scheduler of the memory/thread simulator.
//
// Tasks are real goroutines, but exactly one of them, the holder of the token,
// runs at any time; all others spin on Gosched until the token is theirs. The
// token can only change hands inside Y (inserted before every statement of the
// code under test), Blocked (simulated locks) and at the end of a task, and the
// scheduler's seeded generator (or a recorded list of switches) decides to whom.
//
// The hand-over is invisible to the Go race detector on purpose: every function
// that touches scheduler state is marked norace and uses neither atomics nor
// locks nor maps nor append, so the only happens-before edges the detector sees
// between tasks are those the code under test creates itself.
package simrt

import (
	"runtime"
	"runtime/debug"
	"sync"
)

const (
	MaxTasks    = 8
	MaxSwitches = 1 << 14
	MaxBlocked  = 1 << 20
	SiteEnd     = -1 // a task ended
	SiteBlock   = -2 // a simulated lock was busy
	SiteOp      = -3 // boundary between two operations of a task
)

// Switch says that at the given step the token goes to Task.
type Switch struct {
	Step uint64 `json:"step"`
	Task int32  `json:"task"`
	Site int32  `json:"site,omitempty"` // where the preempted task was (information only)
	From int32  `json:"from,omitempty"` // the preempted task (information only)
}

// Policy is how the generator picks switch points.
type Policy struct {
	Kind string `json:"kind"` // "random", "pct", "sites", "ops", "replay"
	// random, sites: switch with probability 1/OneIn at an eligible point
	OneIn uint64 `json:"one_in,omitempty"`
	// sites: one site in SiteFrac is eligible
	SiteFrac uint64 `json:"site_frac,omitempty"`
	// pct: number of priority changes, drawn over the first Horizon steps
	Depth   int    `json:"depth,omitempty"`
	Horizon uint64 `json:"horizon,omitempty"`
	Seed    uint64 `json:"seed"`
	// replay
	Switches []Switch `json:"switches,omitempty"`
}

// StepLimit is the panic value of a call that used up its step budget.
type StepLimit struct{}

const (
	pRandom = iota
	pPCT
	pSites
	pOps
	pReplay
)

var (
	active   bool
	cur      int32
	n        int32
	finished [MaxTasks]bool
	steps    uint64
	call     [MaxTasks]uint64
	budget   [MaxTasks]uint64
	last     [MaxTasks]int32

	kind     int
	oneIn    uint64
	siteFrac uint64
	pseed    uint64
	rng      uint64
	prio     [MaxTasks]int64
	lowest   int64
	change   [16]uint64
	nchange  int

	rec  [MaxSwitches]Switch
	nrec int
	rep  [MaxSwitches]Switch
	nrep int
	irep int

	hash  uint64
	inv   func()
	inInv bool

	blocked uint64

	poolRng uint64

	mono  int64 = 1e9
	wall  int64 = 1767225600e9 // the wall clock is this much ahead of the monotonic one: 2026
	reads int
)

//go:norace
func next() uint64 { // splitmix64
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

// PoolRand is the generator of the simulated sync.Pool.
//
//go:norace
func PoolRand() uint64 {
	poolRng += 0x9e3779b97f4a7c15
	return mix(poolRng)
}

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active && !inInv }

// Now reads the simulated clocks: the wall clock, which may be set, and the
// monotonic one, which only goes on. They go on from run to run.
//
//go:norace
func Now() (wallNs, monoNs int64) {
	reads++
	mono += 100
	return mono + wall, mono
}

// Advance lets time pass.
//
//go:norace
func Advance(d int64) {
	if mono < 1<<61 {
		mono += d
	}
}

// SetWall sets the wall clock forward or back.
//
//go:norace
func SetWall(d int64) {
	if w := wall + d; w > 1<<60 && w < 1<<61 {
		wall = w
	}
}

// ClockReads is how often the clock was read.
//
//go:norace
func ClockReads() int { return reads }

// Quiet keeps the token where it is, whoever passes a scheduling point, and says
// whether it was kept before.
//
//go:norace
func Quiet(b bool) bool {
	was := inInv
	inInv = b
	return was
}

// Send is a channel send that waits by giving the token away.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		Y(SiteBlock)
		if !Active() || cap(c) == 0 {
			c <- v
			return
		}
		for {
			select {
			case c <- v:
				Y(SiteBlock)
				return
			default:
				Blocked()
			}
		}
	}
}

// Recv is a channel receive that waits by giving the token away.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is Recv that also tells whether the value was sent.
func Recv2[T any](c <-chan T) (T, bool) {
	Y(SiteBlock)
	if !Active() || cap(c) == 0 {
		v, ok := <-c
		return v, ok
	}
	for {
		select {
		case v, ok := <-c:
			Y(SiteBlock)
			return v, ok
		default:
			Blocked()
		}
	}
}

// Cur is the task that holds the token.
//
//go:norace
func Cur() int { return int(cur) }

// Steps is the number of scheduling points passed in this run.
//
//go:norace
func Steps() uint64 { return steps }

// Begin starts the step budget of one call of the current task.
//
//go:norace
func Begin(b uint64) {
	if active {
		call[cur] = 0
		budget[cur] = b
	}
}

// Used is the number of steps the current task's call has taken.
//
//go:norace
func Used() uint64 {
	if active {
		return call[cur]
	}
	return 0
}

// Y is the scheduling point.
//
//go:norace
func Y(site int32) {
	if !active || inInv {
		return
	}
	point(site, false)
}

// Blocked gives the token away because the current task cannot proceed.
//
//go:norace
func Blocked() {
	if !active || inInv {
		runtime.Gosched()
		return
	}
	point(SiteBlock, true)
}

//go:norace
func point(site int32, must bool) {
	t := cur
	steps++
	if must {
		if blocked++; blocked > MaxBlocked {
			panic(StepLimit{}) // deadlock, or a lock never released
		}
	} else {
		call[t]++
	}
	last[t] = site
	if inv != nil {
		inInv = true
		inv()
		inInv = false
	}
	if call[t] > budget[t] {
		panic(StepLimit{})
	}
	to := t
	switch kind {
	case pReplay:
		for irep < nrep && rep[irep].Step < steps {
			irep++
		}
		if irep < nrep && rep[irep].Step == steps {
			if c := rep[irep].Task; c < n && !finished[c] {
				to = c
			}
		}
		if must && to == t {
			to = other(t, 1)
		}
	case pPCT:
		for i := 0; i < nchange; i++ {
			if change[i] == steps {
				lowest--
				prio[t] = lowest
			}
		}
		if must {
			lowest--
			prio[t] = lowest
		}
		to = highest()
	case pOps:
		if must || (site == SiteOp && next()%oneIn == 0) {
			to = other(t, next())
		}
	case pSites:
		if must || (site == SiteOp && next()%2 == 0) ||
			(mix(pseed^uint64(uint32(site)))%siteFrac == 0 && next()%oneIn == 0) {
			to = other(t, next())
		}
	default:
		if must || next()%oneIn == 0 {
			to = other(t, next())
		}
	}
	if to == t || (nrec >= MaxSwitches-MaxTasks && !must) {
		return
	}
	hand(t, to, site)
	for cur != t {
		runtime.Gosched()
	}
}

//go:norace
func hand(from, to, site int32) {
	if nrec < MaxSwitches {
		rec[nrec] = Switch{Step: steps, Task: to, Site: site, From: from}
		nrec++
	}
	hash = mix(hash ^ (uint64(uint32(site))<<24 | uint64(from)<<8 | uint64(to)))
	cur = to
}

// other picks a runnable task other than t, or t if there is none.
//
//go:norace
func other(t int32, r uint64) int32 {
	k := uint64(0)
	for i := int32(0); i < n; i++ {
		if i != t && !finished[i] {
			k++
		}
	}
	if k == 0 {
		return t
	}
	k = r % k
	for i := int32(0); i < n; i++ {
		if i != t && !finished[i] {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return t
}

//go:norace
func highest() int32 {
	b := int32(-1)
	for i := int32(0); i < n; i++ {
		if !finished[i] && (b < 0 || prio[i] > prio[b]) {
			b = i
		}
	}
	return b
}

//go:norace
func end(t int32) {
	steps++
	finished[t] = true
	last[t] = SiteEnd
	to := int32(-1)
	live := false
	for i := int32(0); i < n; i++ {
		if !finished[i] {
			live = true
		}
	}
	if !live {
		cur = -1
		return
	}
	switch kind {
	case pReplay:
		for irep < nrep && rep[irep].Step < steps {
			irep++
		}
		if irep < nrep && rep[irep].Step == steps && rep[irep].Task < n && !finished[rep[irep].Task] {
			to = rep[irep].Task
		} else {
			to = other(t, 0)
		}
	case pPCT:
		to = highest()
	default:
		to = other(t, next())
	}
	hand(t, to, SiteEnd)
}

//go:norace
func await(t int32) {
	for cur != t {
		runtime.Gosched()
	}
}

// Result describes a finished run.
type Result struct {
	Steps    uint64
	Switches []Switch
	Hash     uint64 // of the sequence of (site, from, to): the interleaving
}

// Run executes the bodies under the scheduler and returns when all have ended.
// invariant, if not nil, is called at every scheduling point.
func Run(p Policy, invariant func(), bodies []func()) Result {
	if len(bodies) == 0 || len(bodies) > MaxTasks {
		panic("simrt: bad number of tasks")
	}
	setup(p, invariant, len(bodies))
	var wg sync.WaitGroup
	for i := range bodies {
		wg.Add(1)
		t, body := int32(i), bodies[i]
		go func() {
			debug.SetPanicOnFault(true)
			await(t)
			body()
			end(t)
			wg.Done() // the only edge: task end -> return of Run
		}()
	}
	start()
	await(-1)
	wg.Wait()
	return collect()
}

//go:norace
func setup(p Policy, invariant func(), k int) {
	n = int32(k)
	steps, nrec, nrep, irep, hash, blocked = 0, 0, 0, 0, 0, 0
	inv, inInv = invariant, false
	rng, pseed, poolRng = p.Seed, p.Seed, p.Seed*0x2545f4914f6cdd1d+1
	oneIn, siteFrac = p.OneIn, p.SiteFrac
	if oneIn == 0 {
		oneIn = 1
	}
	if siteFrac == 0 {
		siteFrac = 1
	}
	for i := 0; i < MaxTasks; i++ {
		finished[i], call[i], budget[i], last[i] = false, 0, 1<<62, 0
	}
	nchange, lowest = 0, 0
	switch p.Kind {
	case "random":
		kind = pRandom
	case "sites":
		kind = pSites
	case "ops":
		kind = pOps
	case "pct":
		kind = pPCT
		for i := 0; i < k; i++ {
			prio[i] = int64(next() >> 1 % (1 << 40))
		}
		h := p.Horizon
		if h == 0 {
			h = 1000
		}
		for nchange < p.Depth && nchange < len(change) {
			change[nchange] = 1 + next()%h
			nchange++
		}
	case "replay":
		kind = pReplay
		for _, s := range p.Switches {
			if nrep < MaxSwitches {
				rep[nrep] = s
				nrep++
			}
		}
	default:
		panic("simrt: unknown policy " + p.Kind)
	}
}

//go:norace
func start() {
	first := int32(0)
	switch kind {
	case pReplay:
		if nrep > 0 && rep[0].Step == 0 && rep[0].Task < n {
			first = rep[0].Task
		}
	case pPCT:
		first = highest()
	default:
		first = int32(next() % uint64(n))
	}
	rec[0] = Switch{Step: 0, Task: first, From: -1}
	nrec = 1
	hash = mix(uint64(first) + 1)
	cur = first
	active = true
}

//go:norace
func collect() Result {
	active = false
	out := make([]Switch, nrec)
	for i := 0; i < nrec; i++ {
		out[i] = rec[i]
	}
	return Result{Steps: steps, Switches: out, Hash: hash}
}

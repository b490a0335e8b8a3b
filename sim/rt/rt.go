// Package rt is the run-time half of the instrumentation: a step counter and
// scheduler switch point before every statement of the code under test.
package rt

import (
	"runtime"
	"sync"
)

// Switch is one scheduling decision: when Client has executed Step of its own
// steps, control goes to Target.
type Switch struct {
	Client int    `json:"c"`
	Step   uint64 `json:"s"`
	Target int    `json:"t"`
	Site   uint32 `json:"p,omitempty"` // Step counts the visits of this site only
}

type trigger struct {
	site   uint32
	left   uint64
	target int
}

// BudgetExceeded is panicked when a run executes more steps than allowed.
type BudgetExceeded struct{ Steps uint64 }

func (b BudgetExceeded) Error() string { return "step budget exceeded" }

// Deadlock is panicked when every client waits for a lock.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock" }

const maxClients = 8

var (
	on      bool
	steps   uint64
	budget  uint64
	clockNs uint64 // simulated ns beyond the steps
	sched   bool
	owner   uint64 // goroutine id of the single client (no scheduler)

	trace     []uint32
	traceOn   bool
	n         int
	cur       int
	goids     [maxClients]uint64
	sems      [maxClients]uint32
	mainSem   uint32
	wg        sync.WaitGroup
	done      [maxClients]bool
	blocked   [maxClients]int
	local     [maxClients]uint64
	next      [maxClients]uint64 // local step of the next switch (0: none)
	plan      [maxClients][]Switch
	trigs     [maxClients][]trigger
	wanted    []bool // sites some trigger waits for
	switches  int
	lockWaits int
	SiteHits  []uint32
)

// AllocLimit is the number of bytes that may be allocated from Begin to End (0: any).
var AllocLimit uint64

var allocEnd uint64

// Allocated is the number of bytes allocated so far.
func Allocated() uint64 { return runtime.SimAllocBytes }

func allocOver() bool { return allocEnd > 0 && runtime.SimAllocBytes > allocEnd }

// Begin starts counting steps for the calling goroutine.
//
//go:norace
func Begin(maxSteps uint64) {
	steps, budget, on, sched = 0, maxSteps, true, false
	owner = runtime.SimGoid()
	traceOn = false
	allocEnd = 0
	if AllocLimit > 0 {
		allocEnd = runtime.SimAllocBytes + AllocLimit
	}
}

// End stops counting and returns the number of steps.
//
//go:norace
func End() uint64 { on = false; return steps }

// Over tells whether the budget of steps was exceeded.
//
//go:norace
func Over() bool { return on && (steps > budget || allocOver()) }

// OverAlloc tells whether the limit of allocated bytes was exceeded.
//
//go:norace
func OverAlloc() bool { return allocOver() }

//go:norace
func Steps() uint64 { return steps }

// StartTrace records the site of every step.
//
//go:norace
func StartTrace() { trace = trace[:0]; traceOn = true }

//go:norace
func StopTrace() []uint32 { traceOn = false; return append([]uint32(nil), trace...) }

// Y is called before every statement.
//
//go:norace
func Y(site uint32) {
	if !on {
		return
	}
	y(site)
}

//go:norace
//go:noinline
func y(site uint32) {
	g := runtime.SimGoid()
	if !sched {
		if g != owner {
			return
		}
		steps++
		if int(site) < len(SiteHits) {
			SiteHits[site]++
		}
		if traceOn {
			trace = append(trace, site)
		}
		if steps > budget || allocOver() {
			panic(BudgetExceeded{steps})
		}
		return
	}
	c := cur
	if goids[c] != g {
		return
	}
	steps++
	local[c]++
	if int(site) < len(SiteHits) {
		SiteHits[site]++
	}
	if steps > budget {
		panic(BudgetExceeded{steps})
	}
	if int(site) < len(wanted) && wanted[site] && site != 0 {
		fire := -1
		for i := range trigs[c] {
			t := &trigs[c][i]
			if t.site == site && t.left > 0 {
				t.left--
				if t.left == 0 && t.target != c {
					fire = t.target
				}
			}
		}
		if fire >= 0 {
			give(c, fire)
			return
		}
	}
	if next[c] != 0 && local[c] >= next[c] {
		p := plan[c]
		t := p[0].Target
		plan[c] = p[1:]
		setNext(c)
		if t != c {
			give(c, t)
		}
	}
}

//go:norace
func setNext(c int) {
	if len(plan[c]) > 0 {
		next[c] = plan[c][0].Step
		if next[c] == 0 {
			next[c] = 1
		}
	} else {
		next[c] = 0
	}
}

// give hands the baton from c to t (or the next client that is not done).
//
//go:norace
func give(c, t int) {
	for i := 0; i < n; i++ {
		k := (t + i) % n
		if !done[k] {
			if k == c {
				return
			}
			switches++
			cur = k
			runtime.SimSemrelease(&sems[k])
			runtime.SimSemacquire(&sems[c])
			return
		}
	}
}

// Client returns the index of the calling simulated client, or 0.
//
//go:norace
func Client() int {
	if !on || !sched {
		return 0
	}
	return cur
}

// LockWaits returns how often a client waited for a lock.
func LockWaits() int { return lockWaits }

// Point is a switch point outside instrumented code (I/O, engine calls).
//
//go:norace
func Point() {
	if on {
		y(0)
	}
}

//go:norace
func lockHook(try func() bool) bool {
	if !on || !sched {
		return false
	}
	c := cur
	if goids[c] != runtime.SimGoid() {
		return false
	}
	for {
		if try() {
			blocked[c] = 0
			return true
		}
		lockWaits++
		blocked[c]++
		steps++
		if steps > budget {
			panic(BudgetExceeded{steps})
		}
		all := true
		for i := 0; i < n; i++ {
			if !done[i] && blocked[i] < 3 {
				all = false
			}
		}
		if all {
			panic(Deadlock{})
		}
		give(c, (c+1)%n)
	}
}

// Run executes the clients under the schedule and returns when all are done.
//
//go:norace
func Run(clients []func(), switchPlan []Switch, maxSteps uint64, clock uint64) (stepsRun uint64, nsw int) {
	n = len(clients)
	cur = 0
	steps, budget = 0, maxSteps
	switches = 0
	traceOn = false
	for i := 0; i < n; i++ {
		done[i], blocked[i], local[i], sems[i], goids[i] = false, 0, 0, 0, 0
		plan[i] = nil
		trigs[i] = nil
	}
	wanted = nil
	for _, s := range switchPlan {
		if s.Client < n && s.Target < n {
			if s.Site > 0 {
				for int(s.Site) >= len(wanted) {
					wanted = append(wanted, false)
				}
				wanted[s.Site] = true
				k := s.Step
				if k == 0 {
					k = 1
				}
				trigs[s.Client] = append(trigs[s.Client], trigger{s.Site, k, s.Target})
				continue
			}
			plan[s.Client] = append(plan[s.Client], s)
		}
	}
	for i := 0; i < n; i++ {
		setNext(i)
	}
	mainSem = 0
	wg.Add(n)
	for i := 0; i < n; i++ {
		startClient(i, clients[i])
	}
	sched, on = true, true
	runtime.SimSemrelease(&sems[0])
	runtime.SimSemacquire(&mainSem)
	on, sched = false, false
	wg.Wait() // happens-before edges from every client to the caller only
	return steps, switches
}

//go:norace
func startClient(i int, f func()) {
	go client(i, f)
}

//go:norace
func client(i int, f func()) {
	runtime.SimSemacquire(&sems[i])
	goids[i] = runtime.SimGoid()
	f()
	wg.Done()
	finish(i)
}

//go:norace
func finish(c int) {
	done[c] = true
	for i := 1; i <= n; i++ {
		k := (c + i) % n
		if !done[k] {
			cur = k
			runtime.SimSemrelease(&sems[k])
			return
		}
	}
	runtime.SimSemrelease(&mainSem)
}

func init() { sync.SimLock = lockHook }

// Package rt is the simulator's runtime: the instrumented code under test calls
// Y before every statement, and a scheduler that owns every switch decides
// which task runs, for how many statements, and when simulated time passes.
//
// At most one task runs at any moment; every other one is parked on a channel
// inside a testing/synctest bubble.  A task that blocks natively (a channel
// operation, a sleep) is noticed because the bubble quiesces without it having
// parked.
//
// Functions reachable from tasks are //go:norace and touch only fixed-size
// storage: in race builds the detector must see the code under test, not the
// simulator.
package rt

import (
	"runtime"
	"time"
	"unsafe"
)

// gid gives the word at offset off of the running goroutine's descriptor.
func gid(off uintptr) uint64

// goidOff is where the runtime keeps the goroutine's number, found at start-up
// (0: not found, and the first word, its stack base, has to do).
var goidOff = findGoid()

func findGoid() uintptr {
	ok := map[uintptr]bool{}
	for o := uintptr(8); o < 400; o += 8 {
		ok[o] = true
	}
	for i := 0; i < 4; i++ {
		c := make(chan bool)
		go func() {
			var buf [64]byte
			var n uint64
			for _, b := range buf[len("goroutine "):runtime.Stack(buf[:], false)] {
				if b < '0' || b > '9' {
					break
				}
				n = n*10 + uint64(b-'0')
			}
			for o := range ok {
				if gid(o) != n {
					delete(ok, o)
				}
			}
			c <- true
		}()
		<-c
	}
	best := uintptr(0)
	for o := range ok {
		if best == 0 || o < best {
			best = o
		}
	}
	return best
}

const (
	MaxLive  = 1 << 14
	MaxSites = 1 << 16
)

// Task is one simulated thread of control.
type Task struct {
	ID      int
	root    int  // the caller on whose behalf it was started
	Client  bool // started by the harness (a caller), not by the code under test
	g       uint64
	wake    chan struct{}
	steps   uint64 // statements executed in total
	quantum uint64 // park when steps reaches this
	budget  uint64 // steps at which the current call counts as runaway (0: none)
	limit   uint64 // the smaller of the two
	parked  bool
	waiting bool // blocked on a simulated lock or the like
	done    bool
	killed  bool
	over    bool   // exceeded its budget
	span    uint64 // size of the budget
	strikes int
	starve  uint64 // not to be scheduled before the phase has executed so many statements, if anybody else can run
	site    uint32
	adopted bool
}

// Runaway is the panic value thrown into a call that exceeded its budget.
type Runaway struct{ Site uint32 }

// Killed is never observed by code under test: killed tasks leave by Goexit.

var (
	active   bool
	killing  bool
	cur      *Task
	curG     uint64
	live     [MaxLive]*Task // in order of creation; those that ended are swept out between decisions
	nlive    int
	ntasks   int
	tooMany  bool
	hung     bool      // a child exceeded its budget and was stopped for good
	credit   uint64    // budgets of all calls begun in the phase
	brk      [4]uint32 // break sites (0 = none)
	hits     [MaxSites]bool
	env      *Rng
	mapMode  int
	selMode  int
	selects  uint64
	poolMode int
	waitFn   func()
	stdSteps uint64
	sharedOp uint64 // count of simulated sync operations (probe)
	mapIters uint64
	poolGets uint64
	poolHits uint64
	childs   uint64
	natives  uint64
	lockWait uint64
	strikes  uint64

	phaseSteps  uint64 // statements of the phase up to the last decision
	stepsAtWake uint64 // of the running task
	logBytes    uint64
)

// Y is the yield point.
//
//go:norace
func Y(site uint32) {
	if !active {
		return
	}
	if gid(goidOff) != curG {
		foreign(site)
		return
	}
	c := cur
	c.steps++
	hits[site&(MaxSites-1)] = true
	if c.steps >= c.limit || site == brk[0] || site == brk[1] || site == brk[2] {
		slow(c, site)
	}
}

//go:norace
func slow(c *Task, site uint32) {
	c.site = site
	if c.budget != 0 && c.steps >= c.budget && !c.Client && c.steps < credit {
		// A child may work for many calls.
		c.budget = credit
		c.relimit()
		if c.steps < c.limit && site != brk[0] && site != brk[1] && site != brk[2] {
			return
		}
	}
	if c.budget != 0 && c.steps >= c.budget {
		if c.strikes >= maxStrikes || !othersAlive(c) {
			c.over = true
			if !c.Client {
				// A panic here would take the process with it: it just never
				// goes on, and whoever waits for it will not return.
				hung = true
				Block()
			}
			panic(Runaway{site})
		}
		// It may be waiting in a loop for somebody the schedule starves: a
		// real scheduler is fair in the long run.  Others first.
		c.strikes++
		c.budget += c.span
		c.starve = phaseSteps + c.steps - stepsAtWake + 2*c.span
		strikes++
	}
	c.park()
}

const maxStrikes = 3

//go:norace
func othersAlive(c *Task) bool {
	for i := 0; i < nlive; i++ {
		if t := live[i]; t != c && !t.done {
			return true
		}
	}
	return false
}

//go:norace
func (t *Task) relimit() {
	t.limit = t.quantum
	if t.budget != 0 && t.budget < t.limit {
		t.limit = t.budget
	}
}

//go:norace
func (t *Task) park() {
	raceOff()
	t.parked = true
	<-t.wake
	raceOn()
	if t.killed {
		runtime.Goexit()
	}
}

// foreign handles a yield by a goroutine that is not the one the scheduler
// released: one just started, or one that woke from a native block.
//
//go:norace
func foreign(site uint32) {
	if killing {
		return
	}
	g := gid(goidOff)
	for i := 0; i < nlive; i++ {
		t := live[i]
		if t.g == g && !t.done {
			t.site = site
			natives++
			t.park()
			return
		}
	}
	t := newTask(g, false)
	if t == nil {
		return
	}
	t.site = site
	t.park()
}

//go:norace
func newTask(g uint64, client bool) *Task {
	if nlive >= MaxLive {
		tooMany = true
		return nil
	}
	raceOff()
	t := &Task{ID: ntasks, root: ntasks, g: g, Client: client, wake: make(chan struct{}), quantum: 1, limit: 1}
	raceOn()
	live[nlive] = t
	nlive++
	ntasks++
	if !client {
		childs++
		t.budget, t.span = max(credit, 1), max(childBudget, 1)
	}
	return t
}

var childBudget uint64

// Spawn and Adopt bracket a `go func(){}()` of the code under test so that the
// new task gets an identity that does not depend on arrival order.
//
//go:norace
func Spawn() *Task {
	if !active || killing {
		return nil
	}
	t := newTask(0, false)
	if p := self(); p != nil && t != nil {
		t.root = p.root
	}
	return t
}

//go:norace
func Adopt(t *Task) {
	if t == nil || !active {
		return
	}
	t.g = gid(goidOff)
	t.adopted = true
	t.park()
}

//go:norace
func Exit(t *Task) {
	if t != nil {
		t.done = true
	}
}

// Block parks the running task as waiting on a simulated resource; it returns
// when the scheduler resumes it after Wakeup, so callers re-check in a loop.
//
//go:norace
func Block() {
	t := self()
	if t == nil && killing {
		runtime.Goexit()
	}
	if t == nil {
		panic("verifsim: blocking operation outside the simulation would never finish")
	}
	t.waiting = true
	lockWait++
	raceOff()
	<-t.wake
	raceOn()
	if t.killed {
		runtime.Goexit()
	}
}

// Wakeup makes every task waiting on a simulated resource runnable again.
//
//go:norace
func Wakeup() {
	for i := 0; i < nlive; i++ {
		if t := live[i]; t.waiting && !(t.over && !t.Client) {
			t.waiting = false
			t.parked = true
		}
	}
}

//go:norace
func self() *Task {
	if !active {
		return nil
	}
	g := gid(goidOff)
	if g == curG {
		return cur
	}
	for i := 0; i < nlive; i++ {
		if live[i].g == g && !live[i].done {
			return live[i]
		}
	}
	return nil
}

// InSim says whether the caller is a simulated task.
//
//go:norace
func InSim() bool { return self() != nil }

// SyncOp counts and offers a switch at a simulated synchronisation operation.
//
//go:norace
func SyncOp() {
	sharedOp++
	Y(1)
}

// SetBudget starts a call of the current task with a budget of n statements.
//
//go:norace
func SetBudget(n uint64) {
	t := self()
	if t == nil {
		return
	}
	t.over = false
	if n == 0 {
		t.budget = 0
	} else {
		t.budget, t.span, t.strikes = t.steps+n, n, 0
		childBudget = n
		credit += n
	}
	t.relimit()
}

// CallSteps is the statement count of the current task.
//
//go:norace
func CallSteps() uint64 {
	t := self()
	if t == nil {
		return 0
	}
	return t.steps
}

// Now is the number of statements that all tasks of the phase have executed.
//
//go:norace
func Now() uint64 {
	t := self()
	if t == nil {
		return phaseSteps
	}
	return phaseSteps + t.steps - stepsAtWake
}

// Done is Now for the scheduler, between decisions.
func Done() uint64 { return phaseSteps }

// Waiting: some task waits for something that is not the simulator's.
func Waiting() bool { return anyNative() }

// Live is the number of tasks that have not ended.
//
//go:norace
func Live() (n int) {
	for i := 0; i < nlive; i++ {
		if !live[i].done {
			n++
		}
	}
	return n
}

// RootOf gives the caller that a runnable task works for.
func RootOf(id int) int { return byID(id).root }

// LogBytes is what the list of decisions of the running phase occupies.
func LogBytes() uint64 { return logBytes }

// Over reports whether the current task exceeded its budget since SetBudget.
//
//go:norace
func Over() bool {
	t := self()
	return t != nil && t.over
}

// ---- scheduler side ---------------------------------------------------------

// Decision is one step of the schedule: task Task runs for Steps statements (or
// until it blocks or ends); Sleep is simulated time that passes before it.
type Decision struct {
	Task  int   `json:"t"`
	Steps int64 `json:"n"`
	Sleep int64 `json:"sleep,omitempty"`
	GC    bool  `json:"gc,omitempty"` // a garbage collection comes first
}

// Policy chooses.  runnable is never empty.
type Policy interface {
	Next(runnable []int, last int) Decision
}

// Outcome of a phase.
type Outcome struct {
	Deadlock  bool
	Blocked   []int
	Leaked    int
	Runaway   bool
	Decisions []Decision
	Switches  int
	Trace     uint64 // hash over (task, site) at every switch
	Steps     uint64
	SimTime   time.Duration
	Crashed   bool
	TooMany   bool // more tasks at a time than the simulator holds: the run says nothing
}

type Config struct {
	Wait       func()
	Policy     Policy
	Breaks     []uint32
	MaxBreaks  int                         // break sites are ignored after this many decisions
	CrashAfter uint64                      // total statements after which every task is killed (0: never)
	Log        func(d Decision, done bool) // before and after each decision
}

// Run runs the bodies as client tasks under the policy until all have finished.
func Run(cfg Config, bodies []func(id int)) (out Outcome) {
	if active {
		panic("verifsim: nested Run")
	}
	t0 := time.Now()
	waitFn = cfg.Wait
	ntasks, nlive = 0, 0
	tooMany, hung, credit = false, false, 0
	strikes = 0
	brk = [4]uint32{}
	for i, b := range cfg.Breaks {
		if i < 3 {
			brk[i] = b
		}
	}
	killing = false
	base := runtime.NumGoroutine()
	dones := make([]chan struct{}, len(bodies))
	clients := make([]*Task, len(bodies))
	for i, b := range bodies {
		dones[i] = make(chan struct{})
		t := newTask(0, true)
		clients[i] = t
		go func() {
			t.start()
			defer close(dones[i])
			defer t.finish()
			b(i)
		}()
	}
	waitFn()
	active = true
	var runnable, fair []int
	last := -1
	var lastT *Task
	phaseSteps = 0
	nclients := len(bodies)
	for {
		sweep(base)
		runnable = runnable[:0]
		alive := 0
		for i := 0; i < nlive; i++ {
			t := live[i]
			if t.done {
				continue
			}
			if t.Client {
				alive++
			}
			if t.parked {
				runnable = append(runnable, t.ID)
			}
		}
		if cfg.CrashAfter > 0 && out.Steps >= cfg.CrashAfter && alive > 0 && crashable() {
			out.Crashed = true
			killAll()
			break
		}
		if len(runnable) == 0 {
			if alive == 0 && quiet() {
				break
			}
			// Somebody may be waiting for time to pass.
			woke := false
			if anyNative() {
				for d := time.Millisecond; d < 400*24*time.Hour; d *= 4 {
					sleepTo(d, 2250)
					waitFn()
					if anyParked() {
						woke = true
						break
					}
				}
			}
			if woke {
				continue
			}
			if alive > 0 {
				out.Deadlock = true
				for i := 0; i < nlive; i++ {
					if t := live[i]; !t.done && t.Client {
						out.Blocked = append(out.Blocked, t.ID)
					}
				}
			}
			break
		}
		if cfg.MaxBreaks > 0 && len(out.Decisions) > cfg.MaxBreaks {
			brk = [4]uint32{}
		}
		if strikes > 0 {
			fair = fair[:0]
			for _, r := range runnable {
				if byID(r).starve <= out.Steps {
					fair = append(fair, r)
				}
			}
			if len(fair) > 0 {
				runnable = append(runnable[:0], fair...)
			} else if anyNative() {
				sleepTo(time.Second, 2250) // or it waits for time to pass
				waitFn()
				if anyFair(out.Steps) {
					continue
				}
			}
		}
		d := cfg.Policy.Next(runnable, last)
		if d.Sleep > 0 {
			Sleep(time.Duration(d.Sleep))
			waitFn()
		}
		if d.GC {
			runtime.GC()
			waitFn()
		}
		ok := false
		for _, r := range runnable {
			if r == d.Task {
				ok = true
			}
		}
		if !ok {
			d.Task = runnable[0]
		}
		if d.Steps < 1 {
			d.Steps = 1
		}
		if cfg.Log != nil {
			cfg.Log(d, false)
		}
		t := byID(d.Task)
		before := t.steps
		phaseSteps, stepsAtWake = out.Steps, t.steps
		from := t.site
		t.quantum = t.steps + uint64(d.Steps)
		t.relimit()
		t.parked = false
		cur, curG = t, t.g
		raceOff()
		t.wake <- struct{}{}
		raceOn()
		waitFn()
		curG = 0
		ran := t.steps - before
		out.Steps += ran
		phaseSteps, stepsAtWake = out.Steps, t.steps
		d.Steps = int64(ran)
		if !t.parked {
			d.Steps++ // it blocked or ended behind its last statement, not before it
		}
		out.Decisions = append(out.Decisions, d)
		logBytes = uint64(cap(out.Decisions)) * uint64(unsafe.Sizeof(d))
		if cfg.Log != nil {
			cfg.Log(d, true)
		}
		if d.Task != last {
			if lastT != nil {
				h := (uint64(lastT.site)<<20 ^ uint64(from)) * 0x9E3779B97F4A7C15 >> 42
				pairSet[h>>6] |= 1 << (h & 63)
			}
			out.Switches++
			out.Trace = (out.Trace^uint64(t.site))*1099511628211 ^ uint64(d.Task)<<40
		}
		last, lastT = d.Task, t
	}
	if !out.Deadlock {
		for i := 0; i < nclients; i++ {
			if clients[i].done {
				<-dones[i]
			}
		}
		waitFn()
		if n := runtime.NumGoroutine() - base; n > 0 && !out.Crashed {
			out.Leaked = n
		}
	}
	active = false
	out.Runaway, out.TooMany = hung, tooMany
	out.SimTime = time.Since(t0)
	return out
}

// Sleep lets simulated time pass, within what the runtime's clock can hold.
// What somebody may be waiting for comes even after the last clock jump.
func Sleep(d time.Duration) { sleepTo(d, 2100) }

func sleepTo(d time.Duration, year int) {
	if time.Now().Year() < year {
		time.Sleep(d)
	}
}

// sweep drops the tasks that have ended.  A child that was not started through
// Spawn does not say when it ends; the number of goroutines does.
//
//go:norace
func sweep(base int) {
	known, unknown := 0, 0
	for i := 0; i < nlive; i++ {
		switch t := live[i]; {
		case t.done:
		case t.parked || t.waiting || t.Client || t.adopted:
			known++
		default:
			unknown++
		}
	}
	dead := unknown > 0 && runtime.NumGoroutine()-base <= known
	n := 0
	for i := 0; i < nlive; i++ {
		t := live[i]
		if dead && !(t.parked || t.waiting || t.Client || t.adopted) {
			t.done = true
		}
		if !t.done {
			live[n] = t
			n++
		}
	}
	for i := n; i < nlive; i++ {
		live[i] = nil
	}
	nlive = n
}

//go:norace
func byID(id int) *Task {
	lo, hi := 0, nlive
	for lo < hi {
		m := (lo + hi) / 2
		if live[m].ID < id {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return live[lo]
}

//go:norace
func (t *Task) start() {
	t.g = gid(goidOff)
	t.park()
}

//go:norace
func (t *Task) finish() { t.done = true }

//go:norace
func crashable() bool {
	for i := 0; i < nlive; i++ {
		t := live[i]
		if !t.done && !t.parked && !t.waiting {
			return false
		}
	}
	return true
}

//go:norace
func killAll() {
	killing = true
	active = false
	for i := 0; i < nlive; i++ {
		t := live[i]
		if t.done {
			continue
		}
		t.killed = true
		t.done = true
		raceOff()
		t.wake <- struct{}{}
		raceOn()
		waitFn()
	}
	killing = false
}

//go:norace
func anyFair(now uint64) bool {
	for i := 0; i < nlive; i++ {
		if t := live[i]; !t.done && t.parked && t.starve <= now {
			return true
		}
	}
	return false
}

//go:norace
func anyParked() bool {
	for i := 0; i < nlive; i++ {
		if !live[i].done && live[i].parked {
			return true
		}
	}
	return false
}

// quiet: no task of the code under test is left that might still run.
//
//go:norace
func quiet() bool {
	return !anyNative()
}

// anyNative: some task is neither parked nor waiting nor known to be done: it
// blocks natively, or it is a child that exited without telling.
//
//go:norace
func anyNative() bool {
	for i := 0; i < nlive; i++ {
		t := live[i]
		if !t.done && !t.parked && !t.waiting {
			return true
		}
	}
	return false
}

var pairSet [1 << 16]uint64 // bitmap of (site left, site entered) hashes

// SitePairs counts the distinct context switches seen, up to hash collisions.
func SitePairs() (n int, bits []uint64) {
	for _, w := range pairSet {
		for ; w != 0; w &= w - 1 {
			n++
		}
	}
	return n, pairSet[:]
}

// NSites bounds the scan of SiteHits.
var NSites = MaxSites

// SiteHits gives the set of sites reached since ClearHits.
func SiteHits() []uint32 {
	var s []uint32
	for i := 0; i < NSites && i < MaxSites; i++ {
		if hits[i] {
			s = append(s, uint32(i))
		}
	}
	return s
}

func ClearHits() { hits = [MaxSites]bool{} }

type Probe struct {
	SyncOps, MapIters, PoolGets, PoolHits, Children, Natives, LockWaits, Selects uint64
}

func Probes() Probe {
	return Probe{sharedOp, mapIters, poolGets, poolHits, childs, natives, lockWait, selects}
}

// ---- package state reset ----------------------------------------------------

var resets []func()

// OnReset registers a function that puts one package of the code under test
// back into its state at process start.  Packages register in import order.
func OnReset(f func()) { resets = append(resets, f) }

// Boot simulates a process start of the code under test: mapMode 0 sorted, 1
// reverse, 2 random; selects likewise; poolMode 0 reuse LIFO, 1 never, 2 random.
func Boot(seed uint64, mapM, selM, poolM int, host uint64) {
	env = NewRng(seed)
	mapMode, selMode, poolMode, hostSeed = mapM, selM, poolM, host
	localZone()
	newProcess()
	if BeforeInit != nil {
		BeforeInit()
	}
	for _, f := range resets {
		f()
	}
}

// BeforeInit is called when a new process is about to initialise its variables.
var BeforeInit func()

func ResetCount() int { return len(resets) }

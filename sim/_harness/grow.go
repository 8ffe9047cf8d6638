package harness

import (
	"runtime"
	"strings"
	"time"

	"verifsim/rt"
)

// C14: a process that parses for ever.  One caller, or several, make calls on
// ever new scripts; from time to time all stop and what the process holds is
// measured.  A bounded cache fills up and stays; what grows at every doubling of
// the number of calls is a leak.

const (
	growCalls = 1 << 16   // calls after which growth counts as unbounded
	growBytes = 300 << 20 // or bytes
	growTasks = 6000      // or goroutines
	perCall   = 8         // bytes per call that are nothing
	slack     = 4096      // bytes that are nothing
)

// crew lets one caller wait for the others.
type crew struct {
	start []chan int
	done  chan bool
}

func newCrew(ph *Phase) *crew {
	c := &crew{done: make(chan bool)}
	for _, ops := range ph.Tasks {
		if len(ops) == 0 || ops[0].K != opGrow {
			return nil
		}
		c.start = append(c.start, make(chan int))
	}
	return c
}

// weaver makes a new script of an old one for every number.
type weaver struct {
	pieces []string
	base   int
}

func newWeaver(r *rt.Rng, text string) *weaver {
	w := &weaver{}
	if r.Chance(50) {
		w.base = 1_000_000 // all of the same length
	}
	var ends, low []int
	for i := 1; i <= len(text); i++ {
		if wordByte(text[i-1]) && (i == len(text) || !wordByte(text[i])) {
			ends = append(ends, i)
			j := i
			for j > 0 && wordByte(text[j-1]) {
				j--
			}
			k := j
			for k > 0 && (text[k-1] == ' ' || text[k-1] == '\n') {
				k--
			}
			name := k > 0 && strings.IndexByte("(,'\"`", text[k-1]) >= 0 || k >= 5 && strings.EqualFold(text[k-5:k], "table")
			if x := text[j:i]; name && x[0] > '9' && x != strings.ToUpper(x) {
				low = append(low, i)
			}
		}
	}
	at := map[int]bool{}
	k := r.Intn(100)
	if k < 80 && len(low) > 0 {
		ends = low
	}
	switch {
	case len(ends) == 0 || k >= 95: // always the same
	case k%4 == 0:
		for _, e := range ends {
			at[e] = true
		}
	case k%4 == 1:
		at[ends[0]] = true
	default:
		for n := 1 + r.Intn(3); n > 0; n-- {
			at[ends[r.Intn(len(ends))]] = true
		}
	}
	last := 0
	for i := 0; i <= len(text); i++ {
		if at[i] {
			w.pieces = append(w.pieces, text[last:i])
			last = i
		}
	}
	w.pieces = append(w.pieces, text[last:])
	if r.Chance(15) {
		w.pieces[len(w.pieces)-1] += "\n-- "
		w.pieces = append(w.pieces, "\n")
	}
	return w
}

func (w *weaver) text(n int) string { return strings.Join(w.pieces, itoa(w.base+n)) }

func footprint() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc - rt.LogBytes()
}

func (w *world) grow(p *Plan, s *taskState, op *Op) {
	var ws []*weaver
	r := rt.NewRng(uint64(op.N))
	for _, d := range op.L {
		ws = append(ws, newWeaver(r, p.Docs[d].Text()))
	}
	at := 0
	crew := len(w.crew.start)
	calls := func(n int) {
		for ; n > 0 && !w.late.Load(); n-- {
			i := at*crew + s.id
			if at++; at%32 == 0 { // time goes by
				time.Sleep(time.Hour)
				rt.Y(2)
			}
			f := op.F
			if f > fnUnknown {
				f = (i / len(ws)) % 7
			}
			if len(ws) > 0 {
				s.count(bare(f, ws[i%len(ws)].text(i)))
			}
		}
	}
	if s.id > 0 {
		for n := range w.crew.start[s.id] {
			rt.Y(2)
			calls(n)
			w.crew.done <- true
			rt.Y(2)
		}
		return
	}
	all := func(n int) {
		for _, c := range w.crew.start[1:] {
			c <- n
			rt.Y(2)
		}
		calls(n)
		for range w.crew.start[1:] {
			<-w.crew.done
			rt.Y(2)
		}
	}
	defer func() {
		for _, c := range w.crew.start[1:] {
			close(c)
		}
	}()
	n := max(op.J, 1)
	all(n)
	total := n
	before, tasks := footprint(), rt.Live()
	first := before
	for level := 0; ; level++ {
		all(n)
		total += n
		if w.late.Load() {
			s.notes["out-of-time"]++
			return
		}
		grown := func() bool {
			now := footprint()
			return now > before+slack+perCall*uint64(n*crew) || rt.Live() > tasks+n*crew/50
		}
		if !grown() {
			s.notes["plateau"]++
			return
		}
		// Caches may drop what is old when they are next used.
		time.Sleep(30 * time.Hour)
		rt.Y(2)
		all(40)
		if !grown() || w.late.Load() {
			s.notes["plateau"]++
			return
		}
		s.notes["grew-once"]++
		before, tasks = footprint(), rt.Live()
		if total*crew >= growCalls || before > first+growBytes || tasks > growTasks {
			what := "memory"
			if tasks > growTasks {
				what = "the number of goroutines"
			}
			s.fail("growth", "%s that the process keeps between calls has grown at every doubling of the number of calls, %d times, up to %d calls", what, level+1, total*crew)
			return
		}
		n = total
	}
}

// ---- plan ----------------------------------------------------------------------

func (w *world) planC14(p *Plan, r *rt.Rng) {
	max := []int{120, 300, 300, 800, 2500}[r.Intn(5)]
	n := 1 + r.Intn(4)
	if r.Chance(30) {
		n = 1
	}
	var dial []int
	if r.Chance(50) {
		dial = w.docs(p, r, n, max, max < 300)
	} else { // good ones
		for ; n > 0; n-- {
			d := r.Intn(3)
			dial = append(dial, d)
			p.Add(genScript(r, d, max).Text())
		}
	}
	crew := 1
	if r.Chance(25) {
		crew = 2 + r.Intn(3)
	}
	size, f := 0, r.Intn(9)
	if r.Chance(60) {
		f = fnFor(r, dial[0])
	}
	var l []int
	for i, d := range p.Docs {
		if len(d.Text()) > 2*max {
			continue // once a script is large it is C02's
		}
		l = append(l, i)
		size += len(d.Text())
	}
	if len(l) == 0 {
		l = []int{p.Add(tinyDoc(r))}
	}
	j := 300 + r.Intn(500)
	if size/len(l) > 400 {
		j /= 2
	}
	j = j/crew + 1
	ph := Phase{Env: plainEnv(r)}
	seed := int(r.Next() >> 2)
	for i := 0; i < crew; i++ {
		ph.Tasks = append(ph.Tasks, []Op{{K: opGrow, F: f, N: seed, J: j, L: l}})
	}
	ph.Sched = &Sched{Seed: r.Next(), Policy: "serial", Total: 1}
	if crew > 1 {
		ph.Sched.Policy, ph.Sched.Mean = "random", []int{100, 1000, 5000, 20000}[r.Intn(4)]
	}
	p.Phases = []Phase{ph}
}

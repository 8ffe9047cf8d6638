package harness

import (
	"fmt"
	"strings"
	"time"

	"verifsim/rt"
)

// C15: short calls next to long ones.  The schedule is fair: callers take turns.
// Then the statements that the whole process executes between the beginning and
// the end of a call are about (number of callers) x (what the call needs alone),
// unless the call waits until somebody else is done.

// allowance is the number of statements that all callers together may execute
// while one of them is in a call that needs steps statements alone.
func allowance(callers int, steps uint64) uint64 { return 5 * uint64(callers) * (steps + 2000) }

// fairPolicy: callers take turns, and so do the tasks that work for one caller;
// those share the caller's turn.
type fairPolicy struct {
	r     *rt.Rng
	mean  int
	last  int // caller
	turn  map[int]int
	turns int
	end   uint64 // of the turn, unless none of the caller's tasks can go on
}

func (p *fairPolicy) Next(runnable []int, last int) rt.Decision {
	next, first, n := -1, -1, 0
	if now := rt.Done(); now < p.end {
		for _, t := range runnable {
			if t != last && rt.RootOf(t) == p.last {
				return rt.Decision{Task: t, Steps: int64(p.end - now)}
			}
		}
	}
	for _, t := range runnable {
		c := rt.RootOf(t)
		if first < 0 || c < first {
			first = c
		}
		if c > p.last && (next < 0 || c < next) {
			next = c
		}
	}
	if next < 0 {
		next = first
	}
	p.last = next
	for _, t := range runnable {
		if rt.RootOf(t) == next {
			n++
		}
	}
	mean := p.mean
	if n == len(runnable) {
		mean = 500 // nobody else to wait for
	}
	p.turn[next]++
	k := p.turn[next] % n
	for _, t := range runnable {
		if rt.RootOf(t) == next {
			if k == 0 {
				d := rt.Decision{Task: t, Steps: geom(p.r, mean)}
				if p.turns++; p.turns%16 == 0 && rt.Waiting() {
					d.Sleep = int64(time.Millisecond) // someone may wait for time to pass
				}
				p.end = rt.Done() + uint64(d.Steps)
				return d
			}
			k--
		}
	}
	panic("unreachable")
}

func (w *world) quickCall(p *Plan, s *taskState, op *Op) {
	text := p.Docs[op.D].Text()
	want := w.base[baseKey{op.F, text}]
	if want.bad != "" {
		s.notes["skipped"]++
		return
	}
	rt.Y(2)
again:
	busy := w.busy
	from := rt.Now()
	s.count(bare(op.F, text))
	took := rt.Now() - from
	if busy > 0 {
		s.notes["call-next-to-a-long-one"]++
	}
	if busy > 0 {
		m := allowance(w.callers, want.work)
		s.ratio = max(s.ratio, float64(took)/float64(m))
		if took > m && took-m > s.over {
			s.over = took - m
			s.wait = &Viol{Class: "held-up", Detail: fmt.Sprintf("%s doc %d needs %d statements alone; among %d callers that take turns, %d statements went by before it returned", fnNames[op.F], op.D, want.work, w.callers, took), Task: s.id, Op: s.op}
		}
	}
	if op.N > 0 && busy > 0 && !w.late.Load() { // over and over until the long ones are done
		for n := op.N; n > 1; n-- {
			rt.Y(2)
		}
		goto again
	}
}

// waited judges the longest wait of a phase once it is known how long the long
// calls were: a short time in which one call locks others out, to put its result
// into a table, say, is nothing.
func (w *world) waited(ts []*taskState) *Viol {
	var worst *taskState
	for _, s := range ts {
		if s.wait != nil && s.over > uint64(w.callers)*w.long/50 && (worst == nil || s.over > worst.over) {
			worst = s
		}
	}
	if worst == nil {
		return nil
	}
	return worst.wait
}

// heldUp: a call held up under one fair schedule and not under others had bad luck
// with some short lock; one that waits for the end of another call always does.
func (w *world) heldUp(p *Plan) bool {
	for i := uint64(1); i <= 3; i++ {
		q := *p
		q.Phases = append([]Phase(nil), p.Phases...)
		for j := range q.Phases {
			ph := &q.Phases[j]
			if ph.Sched == nil {
				continue
			}
			s := *ph.Sched
			s.Seed += 7919 * i
			s.Mean = []int{17, 5, 60, 25}[i]
			ph.Sched, ph.Fixed, ph.Decisions = &s, false, nil
		}
		if v := w.exec1(&q); v == nil || v.Class != "held-up" {
			return false
		}
	}
	return true
}

// longDoc gives a script that keeps a call busy for long.
func longDoc(r *rt.Rng, d, bytes int) string {
	var b strings.Builder
	switch k := r.Intn(10); {
	case k < 6:
		for b.Len() < bytes {
			g := newGen(r, d)
			if r.Chance(70) {
				g.richness, g.comments, g.exotic = 10, 0, 0
			}
			s, _ := g.stmt()
			b.WriteString(s)
			b.WriteByte('\n')
		}
	case k < 8: // one wide table
		b.WriteString("CREATE TABLE t1 (\n")
		for i := 0; b.Len() < bytes; i++ {
			b.WriteString("x" + itoa(i) + []string{" INTEGER", " VARCHAR(10)", " NUMERIC(10, 2)"}[i%3] + []string{",\n", " NOT NULL,\n", " DEFAULT 1,\n"}[r.Intn(3)])
		}
		b.WriteString("x INTEGER);")
	case k < 9:
		b.WriteString("CREATE TABLE t1 (x1 INTEGER CHECK (")
		for b.Len() < bytes {
			b.WriteString("x1 > " + itoa(r.Intn(1000)) + " AND (x1 < 7) OR ")
		}
		b.WriteString("x1 = 1));")
	default:
		for b.Len() < bytes {
			b.WriteString([]string{"-- a line of comment\n", "/* some\n more */\n", "\n\n", "CREATE TABLE t1 (x1 INTEGER);\n"}[r.Intn(4)])
		}
	}
	if r.Chance(10) {
		b.WriteString("\nCREATE TABLE t1 (x1")
	}
	return b.String()
}

// ---- plan ----------------------------------------------------------------------

func (w *world) planC15(p *Plan, r *rt.Rng) {
	long, size := 1+r.Intn(3), 8000+r.Intn(24000)
	if r.Chance(20) {
		long, size = 4+r.Intn(20), 5000+r.Intn(6000)
	}
	if r.Chance(15) {
		long, size = 1, 60000+r.Intn(150000)
	}
	if v, ok := lex.near(r, 20, 70); ok {
		long, size = v, 5000+r.Intn(3000)
	}
	ph := Phase{Env: plainEnv(r)}
	d := r.Intn(3)
	dial := w.docs(p, r, 1+r.Intn(3), 300, r.Chance(60))
	same := r.Chance(50) // all the same dialect
	f := r.Intn(7)
	nl := 1
	if r.Chance(30) {
		nl = min(long, 3)
	}
	first := len(p.Docs)
	for i := 0; i < nl; i++ {
		p.Add(longDoc(r, d, size))
	}
	for i := 0; i < long; i++ {
		op := Op{K: opBusy, D: first + i%nl, F: d, N: 1 + r.Intn(2)}
		switch {
		case same && f < fnForce:
			op.F = f/3*3 + d
		case r.Chance(20):
			op.F = fnForce
		case r.Chance(30):
			op.F = 3 + d
		}
		ops := []Op{op}
		if r.Chance(50) {
			ops = []Op{{K: opPause, N: r.Intn(3000)}, op}
		}
		ph.Tasks = append(ph.Tasks, ops)
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		var ops []Op
		for k := 3 + r.Intn(12); k > 0; k-- {
			if r.Chance(50) {
				ops = append(ops, Op{K: opPause, N: 1 << r.Intn(14)})
			}
			x := r.Intn(len(dial))
			op := Op{K: opQuick, D: x, F: fnFor(r, dial[x])}
			if same {
				op.F = d
			}
			if r.Chance(20) {
				op.N = 1 << r.Intn(13)
			}
			ops = append(ops, op)
		}
		at := r.Intn(len(ph.Tasks) + 1)
		ph.Tasks = append(ph.Tasks[:at:at], append([][]Op{ops}, ph.Tasks[at:]...)...)
	}
	ph.Sched = &Sched{Seed: r.Next(), Policy: "fair", Mean: []int{10, 30, 60, 100}[r.Intn(4)], Total: 1}
	if long > 6 {
		ph.Sched.Mean = 40 + r.Intn(40)
	}
	p.Phases = []Phase{ph}
}

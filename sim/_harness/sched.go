package harness

import "verifsim/rt"

const forever = 1 << 50

// policy makes the scheduler for a phase.
func policy(ph *Phase, ntasks int) rt.Policy {
	if ph.Fixed {
		return &fixedPolicy{ds: ph.Decisions}
	}
	s := ph.Sched
	if s == nil {
		return &fixedPolicy{}
	}
	r := rt.Derive(s.Seed, "sched")
	var p rt.Policy
	switch s.Policy {
	case "random":
		p = &randomPolicy{r: r, mean: s.Mean}
	case "mixed":
		p = &mixedPolicy{r: r, mean: s.Mean}
	case "pct":
		p = newPCT(r, s)
	case "stall":
		p = &stallPolicy{r: r, victim: r.Intn(ntasks), after: 1 + int64(r.Next()%(s.Total/uint64(ntasks)+1)), mean: s.Mean}
	case "lockstep":
		p = &lockstepPolicy{n: int64(s.Mean)}
	case "fair":
		p = &fairPolicy{r: r, mean: s.Mean, last: -1, turn: map[int]int{}}
	case "break":
		p = &breakPolicy{r: r}
	default:
		p = &serialPolicy{r: r}
	}
	if s.Jumps > 0 {
		p = &jumpPolicy{p, rt.Derive(s.Seed, "jump"), s.Jumps}
	}
	if s.GCs > 0 {
		p = &gcPolicy{p, rt.Derive(s.Seed, "gc"), s.GCs}
	}
	return p
}

// fixedPolicy replays decisions, then runs the lowest task to completion.
type fixedPolicy struct {
	ds []rt.Decision
	i  int
}

func (p *fixedPolicy) Next(runnable []int, last int) rt.Decision {
	for p.i < len(p.ds) {
		d := p.ds[p.i]
		p.i++
		for _, t := range runnable {
			if t == d.Task {
				return d
			}
		}
	}
	for _, t := range runnable {
		if t == last {
			return rt.Decision{Task: t, Steps: forever}
		}
	}
	return rt.Decision{Task: runnable[0], Steps: forever}
}

// serialPolicy: random order, no preemption.
type serialPolicy struct{ r *rt.Rng }

func (p *serialPolicy) Next(runnable []int, last int) rt.Decision {
	return rt.Decision{Task: runnable[p.r.Intn(len(runnable))], Steps: forever}
}

type randomPolicy struct {
	r    *rt.Rng
	mean int
}

func (p *randomPolicy) Next(runnable []int, last int) rt.Decision {
	return rt.Decision{Task: runnable[p.r.Intn(len(runnable))], Steps: geom(p.r, p.mean)}
}

func geom(r *rt.Rng, mean int) int64 {
	if mean <= 1 {
		return 1
	}
	return 1 + int64(r.Next()%uint64(2*mean-1))
}

// mixedPolicy: quanta over many scales in one run.
type mixedPolicy struct {
	r    *rt.Rng
	mean int
}

func (p *mixedPolicy) Next(runnable []int, last int) rt.Decision {
	m := p.mean
	for i := p.r.Intn(5); i > 0; i-- {
		m *= 6
	}
	if p.r.Chance(20) {
		m = 1 + p.r.Intn(3)
	}
	return rt.Decision{Task: runnable[p.r.Intn(len(runnable))], Steps: geom(p.r, m)}
}

// pctPolicy: priorities with a few change points (Burckhardt et al.).
type pctPolicy struct {
	r      *rt.Rng
	prio   map[int]uint64
	points []uint64
	at     uint64
	lastD  rt.Decision
}

func newPCT(r *rt.Rng, s *Sched) *pctPolicy {
	p := &pctPolicy{r: r, prio: map[int]uint64{}}
	for i := 0; i < s.Depth; i++ {
		p.points = append(p.points, r.Next()%(s.Total+1))
	}
	for i := range p.points { // insertion sort
		for j := i; j > 0 && p.points[j] < p.points[j-1]; j-- {
			p.points[j], p.points[j-1] = p.points[j-1], p.points[j]
		}
	}
	return p
}

func (p *pctPolicy) Next(runnable []int, last int) rt.Decision {
	best := -1
	for _, t := range runnable {
		if _, ok := p.prio[t]; !ok {
			p.prio[t] = 1<<20 + p.r.Next()>>1
		}
		if best < 0 || p.prio[t] > p.prio[best] {
			best = t
		}
	}
	steps := int64(forever)
	if len(p.points) > 0 {
		steps = int64(p.points[0]-p.at) + 1
		p.at = p.points[0]
		p.points = p.points[1:]
		p.prio[best] = uint64(len(p.points))
	}
	return rt.Decision{Task: best, Steps: steps}
}

// stallPolicy: one task stops in the middle until the others are done.
type stallPolicy struct {
	r      *rt.Rng
	victim int
	after  int64
	mean   int
	ran    bool
}

func (p *stallPolicy) Next(runnable []int, last int) rt.Decision {
	if !p.ran {
		for _, t := range runnable {
			if t == p.victim {
				p.ran = true
				return rt.Decision{Task: t, Steps: p.after}
			}
		}
	}
	var o []int
	for _, t := range runnable {
		if t != p.victim {
			o = append(o, t)
		}
	}
	if len(o) == 0 {
		return rt.Decision{Task: runnable[0], Steps: forever}
	}
	steps := int64(forever)
	if p.mean > 0 {
		steps = geom(p.r, p.mean)
	}
	return rt.Decision{Task: o[p.r.Intn(len(o))], Steps: steps}
}

// lockstepPolicy: round robin with a fixed quantum.
type lockstepPolicy struct{ n int64 }

func (p *lockstepPolicy) Next(runnable []int, last int) rt.Decision {
	for _, t := range runnable {
		if t > last {
			return rt.Decision{Task: t, Steps: p.n}
		}
	}
	return rt.Decision{Task: runnable[0], Steps: p.n}
}

// breakPolicy: tasks stop only at the chosen sites.
type breakPolicy struct{ r *rt.Rng }

func (p *breakPolicy) Next(runnable []int, last int) rt.Decision {
	return rt.Decision{Task: runnable[p.r.Intn(len(runnable))], Steps: forever}
}

// jumpPolicy lets simulated time pass before some decisions.
type jumpPolicy struct {
	rt.Policy
	r    *rt.Rng
	mill int
}

func (p *jumpPolicy) Next(runnable []int, last int) rt.Decision {
	d := p.Policy.Next(runnable, last)
	if p.r.Intn(1000) < p.mill {
		d.Sleep = clockJump(p.r)
	}
	return d
}

func clockJump(r *rt.Rng) int64 {
	if d, ok := lex.jump(r, 40); ok {
		return d
	}
	ns := int64(1 + r.Intn(999))
	for k := r.Intn(6); k > 0; k-- {
		ns = ns*1000 + int64(r.Intn(1000))
	}
	if r.Chance(6) { // years
		return int64(1+r.Intn(15*365)) * 24 * 3600 * 1e9
	}
	if lim := int64(30 * 24 * 3600 * 1e9); ns > lim {
		ns = lim - int64(r.Intn(1e9))
	}
	return ns
}

// gcPolicy has the collector run (finalizers, weak pointers) before some
// decisions.
type gcPolicy struct {
	rt.Policy
	r    *rt.Rng
	left int
}

func (p *gcPolicy) Next(runnable []int, last int) rt.Decision {
	d := p.Policy.Next(runnable, last)
	if p.left > 0 && p.r.Chance(30) {
		d.GC = true
		p.left--
	}
	return d
}

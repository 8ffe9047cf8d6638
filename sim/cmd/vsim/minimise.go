package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verifsim/plan"
	"verifsim/rt"
)

// runner executes concrete plans, each in a process of its own.
type runner struct {
	c      *config
	b      *Built
	dir    string
	class  string // the violation class to preserve
	until  time.Time
	trials int
	mu     sync.Mutex
	n      int
}

// try runs a plan; if it violates with the wanted class it gives the plan with
// the decisions that were made.
func (r *runner) try(p *plan.Plan) *plan.Plan {
	r.mu.Lock()
	r.n++
	dir := filepath.Join(r.dir, fmt.Sprint("t", r.n))
	r.mu.Unlock()
	defer os.RemoveAll(dir)
	if os.MkdirAll(dir, 0o755) != nil {
		return nil
	}
	q, class, detail, err := r.once(p, dir)
	if err != nil || class == "" || (r.class != "" && class != r.class) {
		return nil
	}
	if q.Viol == nil {
		q.Viol = &plan.Viol{Class: class, Detail: detail}
	}
	return q
}

func (r *runner) once(p *plan.Plan, dir string) (q *plan.Plan, class, detail string, err error) {
	pf := filepath.Join(dir, "plan.json")
	p = p.Clone()
	p.Viol = nil
	pb, _ := json.Marshal(p)
	if err := os.WriteFile(pf, pb, 0o644); err != nil {
		return nil, "", "", err
	}
	vf, lf := filepath.Join(dir, "viol.json"), filepath.Join(dir, "log")
	res, err := work(context.Background(), r.b, dir, Job{Plan: pf, Viol: vf, Log: lf, Prop: p.Prop, Race: p.Race}, 60*time.Second)
	if err != nil {
		return nil, "", "", err
	}
	class, detail, err = res.verdict(r.b.Res.Module)
	if err != nil || class == "" {
		return nil, "", "", err
	}
	q = &plan.Plan{}
	if vb, err := os.ReadFile(vf); err == nil && json.Unmarshal(vb, q) == nil {
		return q, class, detail, nil
	}
	q = p.Clone()
	applyLog(q, lf)
	q.Viol = &plan.Viol{Class: class, Detail: detail}
	return q, class, detail, nil
}

// applyLog puts the decisions of a log into a plan, as a fixed schedule.
func applyLog(p *plan.Plan, path string) {
	b, _ := os.ReadFile(path)
	for i := range p.Phases {
		p.Phases[i].Decisions = nil
		p.Phases[i].Fixed = !p.Phases[i].Fair()
	}
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	for i, l := range lines {
		var k string
		var ph int
		var d rt.Decision
		if n, _ := fmt.Sscan(l, &k, &ph, &d.Task, &d.Steps, &d.Sleep); n != 5 || ph < 0 || ph >= len(p.Phases) {
			continue
		}
		if !p.Phases[ph].Fixed {
			continue
		}
		if k == "A" || i == len(lines)-1 {
			p.Phases[ph].Decisions = append(p.Phases[ph].Decisions, d)
		}
	}
}

// best tries candidates side by side and gives the first (in order) that still
// violates.
func (r *runner) best(cands []*plan.Plan) *plan.Plan {
	const width = 8
	for len(cands) > 0 && time.Now().Before(r.until) {
		k := width
		if k > len(cands) {
			k = len(cands)
		}
		got := make([]*plan.Plan, k)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got[i] = r.try(cands[i])
			}()
		}
		wg.Wait()
		r.trials += k
		for _, g := range got {
			if g != nil {
				return g
			}
		}
		cands = cands[k:]
	}
	return nil
}

// minimise shrinks a failing plan as long as the same class of violation stays.
func (r *runner) minimise(p *plan.Plan) *plan.Plan {
	size := func(q *plan.Plan) int {
		n := 0
		for _, ph := range q.Phases {
			n += 1000 + 3*len(ph.Decisions)
			for _, t := range ph.Tasks {
				n += 100
				for _, o := range t {
					n += 20 + 5*len(o.L)
				}
			}
			if ph.Crash > 0 {
				n += 50
			}
			if ph.Env != (plan.Env{}) {
				n++
			}
		}
		for _, d := range q.Docs {
			n += 4 + len(d.Text())
		}
		return n
	}
	for round := 0; round < 12 && time.Now().Before(r.until); round++ {
		before := size(p)
		for _, pass := range []func(*plan.Plan) *plan.Plan{r.phases, r.schedules, r.tasks, r.ops, r.schedules, r.batch, r.docs, r.env} {
			p = pass(p)
			if !time.Now().Before(r.until) {
				break
			}
		}
		p = dropUnused(p)
		if size(p) >= before {
			break
		}
	}
	return p
}

func (r *runner) phases(p *plan.Plan) *plan.Plan {
	for i := 0; i < len(p.Phases) && len(p.Phases) > 1; {
		q := p.Clone()
		q.Phases = append(q.Phases[:i], q.Phases[i+1:]...)
		if g := r.best([]*plan.Plan{q}); g != nil {
			p = g
		} else {
			i++
		}
	}
	return p
}

// withSchedules gives a candidate as it is and, since removing work shifts the
// explicit decisions, under some simple other schedules.
func withSchedules(q *plan.Plan) []*plan.Plan {
	cands := []*plan.Plan{q}
	multi := false
	for _, ph := range q.Phases {
		if len(ph.Tasks) > 1 && !ph.Fair() {
			multi = true
		}
	}
	if !multi {
		return cands
	}
	for i := 0; i < 7; i++ {
		c := q.Clone()
		for j := range c.Phases {
			ph := &c.Phases[j]
			if len(ph.Tasks) < 2 || ph.Fair() {
				continue
			}
			s := &plan.Sched{Seed: uint64(i)*7919 + 1, Total: 200000}
			switch i {
			case 0, 1:
				s.Policy, s.Mean = "random", 10
			case 2, 3:
				s.Policy, s.Mean = "random", 200
			case 4:
				s.Policy, s.Mean = "lockstep", 1
			case 5:
				s.Policy, s.Mean = "lockstep", 50
			default:
				s.Policy, s.Mean = "mixed", 3
			}
			ph.Sched, ph.Fixed, ph.Decisions = s, false, nil
		}
		cands = append(cands, c)
	}
	return cands
}

func (r *runner) tasks(p *plan.Plan) *plan.Plan {
	for pi := range p.Phases {
		for i := 0; i < len(p.Phases[pi].Tasks) && len(p.Phases[pi].Tasks) > 1; {
			q := p.Clone()
			ph := &q.Phases[pi]
			ph.Tasks = append(ph.Tasks[:i], ph.Tasks[i+1:]...)
			var ds []rt.Decision
			for _, d := range ph.Decisions {
				if d.Task == i {
					continue
				}
				if d.Task > i {
					d.Task--
				}
				ds = append(ds, d)
			}
			ph.Decisions = ds
			if g := r.best(withSchedules(q)); g != nil {
				p = g
			} else {
				i++
			}
		}
	}
	return p
}

func (r *runner) ops(p *plan.Plan) *plan.Plan {
	for pi := range p.Phases {
		for ti := range p.Phases[pi].Tasks {
			for k := len(p.Phases[pi].Tasks[ti]) / 2; k >= 1; k /= 2 {
				for at := 0; at < len(p.Phases[pi].Tasks[ti]); {
					var cands []*plan.Plan
					var offs []int
					n := len(p.Phases[pi].Tasks[ti])
					for o := at; o < n && len(cands) < 8; o += k {
						q := p.Clone()
						t := q.Phases[pi].Tasks[ti]
						e := o + k
						if e > len(t) {
							e = len(t)
						}
						q.Phases[pi].Tasks[ti] = append(t[:o:o], t[e:]...)
						cands = append(cands, q)
						offs = append(offs, o)
					}
					g := r.best(cands)
					if g == nil && len(p.Phases[pi].Tasks) > 1 {
						g = r.best(withSchedules(cands[0]))
					}
					if g != nil {
						p = g
						continue
					}
					at = offs[len(offs)-1] + k
					if !time.Now().Before(r.until) {
						return p
					}
				}
			}
		}
	}
	return p
}

// schedules removes switches.
func (r *runner) schedules(p *plan.Plan) *plan.Plan {
	for pi := range p.Phases {
		if len(p.Phases[pi].Decisions) == 0 {
			continue
		}
		q := p.Clone()
		q.Phases[pi].Decisions = nil
		if g := r.best([]*plan.Plan{q}); g != nil {
			p = g
			p.Phases[pi].Decisions = nil
			continue
		}
		// Cut the tail, then ddmin.
		for k := len(p.Phases[pi].Decisions) / 2; k >= 1; k /= 2 {
			q := p.Clone()
			q.Phases[pi].Decisions = q.Phases[pi].Decisions[:len(q.Phases[pi].Decisions)-k]
			if r.best([]*plan.Plan{q}) != nil {
				p = q
			}
		}
		for k := len(p.Phases[pi].Decisions) / 2; k >= 1; k /= 2 {
			for at := 0; at < len(p.Phases[pi].Decisions); {
				var cands []*plan.Plan
				last := at
				for o := at; o < len(p.Phases[pi].Decisions) && len(cands) < 8; o += k {
					q := p.Clone()
					ds := q.Phases[pi].Decisions
					e := o + k
					if e > len(ds) {
						e = len(ds)
					}
					q.Phases[pi].Decisions = merge(append(append([]rt.Decision(nil), ds[:o]...), ds[e:]...))
					cands = append(cands, q)
					last = o
				}
				if g := r.bestSame(cands); g != nil {
					p = g
					continue
				}
				at = last + k
				if !time.Now().Before(r.until) {
					return p
				}
			}
		}
	}
	return p
}

// bestSame is best, but keeps the candidate itself rather than the (longer)
// list of decisions recorded when it ran.
func (r *runner) bestSame(cands []*plan.Plan) *plan.Plan {
	got := make([]bool, len(cands))
	var wg sync.WaitGroup
	for i := range cands {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if g := r.try(cands[i]); g != nil {
				got[i] = true
				cands[i].Viol = g.Viol
			}
		}()
	}
	wg.Wait()
	r.trials += len(cands)
	for i := range cands {
		if got[i] {
			return cands[i]
		}
	}
	return nil
}

func merge(ds []rt.Decision) []rt.Decision {
	var out []rt.Decision
	for _, d := range ds {
		if n := len(out); n > 0 && out[n-1].Task == d.Task && d.Sleep == 0 && out[n-1].Steps < 1<<49 && d.Steps < 1<<49 {
			out[n-1].Steps += d.Steps
			continue
		}
		out = append(out, d)
	}
	return out
}

func (r *runner) batch(p *plan.Plan) *plan.Plan {
	for pi := range p.Phases {
		for ti := range p.Phases[pi].Tasks {
			for oi := range p.Phases[pi].Tasks[ti] {
				n := len(p.Phases[pi].Tasks[ti][oi].L)
				k := 1
				for n > 40 && k < n/2 {
					k *= 2
				}
				for ; k >= 1; k /= 2 {
					for i := 0; i < len(p.Phases[pi].Tasks[ti][oi].L) && time.Now().Before(r.until); {
						q := p.Clone()
						o := &q.Phases[pi].Tasks[ti][oi]
						e := min(i+k, len(o.L))
						o.L = append(o.L[:i:i], o.L[e:]...)
						if g := r.best([]*plan.Plan{q}); g != nil {
							p = g
						} else {
							i += k
						}
					}
				}
			}
		}
	}
	return p
}

func (r *runner) docs(p *plan.Plan) *plan.Plan {
	p = dropUnused(p)
	for di := range p.Docs {
		if p.Docs[di].Runs != nil {
			p = r.runs(p, di)
			continue
		}
		for i := 0; i < len(p.Docs[di].Parts); {
			q := p.Clone()
			d := q.Docs[di]
			d.Parts = append(d.Parts[:i:i], d.Parts[i+1:]...)
			if len(d.Parts) == 0 {
				break
			}
			if g := r.best(withSchedules(q)); g != nil {
				p = g
			} else {
				i++
			}
		}
		if p.Docs[di].Parts == nil {
			p = r.text(p, p.Docs[di].Text(), func(q *plan.Plan, s string) { q.Docs[di] = plan.TextDoc(s) })
			continue
		}
		for i := range p.Docs[di].Parts {
			body := strings.TrimSuffix(p.Docs[di].Parts[i].S, ";")
			p = r.text(p, body, func(q *plan.Plan, s string) { q.Docs[di].Parts[i].S = s + ";" })
			p = r.text(p, p.Docs[di].Parts[i].Sep, func(q *plan.Plan, s string) { q.Docs[di].Parts[i].Sep = s })
		}
		p = r.text(p, p.Docs[di].Lead, func(q *plan.Plan, s string) { q.Docs[di].Lead = s })
	}
	return p
}

// text shrinks one string by removing chunks.
func (r *runner) text(p *plan.Plan, s string, put func(*plan.Plan, string)) *plan.Plan {
	for k := len(s); k >= 1; k /= 2 {
		for at := 0; at < len(s); {
			var cands []*plan.Plan
			var texts []string
			last := at
			for o := at; o < len(s) && len(cands) < 8; o += k {
				e := o + k
				if e > len(s) {
					e = len(s)
				}
				t := s[:o] + s[e:]
				q := p.Clone()
				put(q, t)
				cands = append(cands, q)
				texts = append(texts, t)
				last = o
			}
			if g := r.bestIdx(cands); g >= 0 {
				cands[g].Viol = p.Viol
				p, s = cands[g], texts[g]
				continue
			}
			at = last + k
			if !time.Now().Before(r.until) {
				return p
			}
		}
	}
	return p
}

func (r *runner) bestIdx(cands []*plan.Plan) int {
	got := make([]bool, len(cands))
	var wg sync.WaitGroup
	for i := range cands {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = r.try(cands[i]) != nil
		}()
	}
	wg.Wait()
	r.trials += len(cands)
	for i := range got {
		if got[i] {
			return i
		}
	}
	return -1
}

func (r *runner) env(p *plan.Plan) *plan.Plan {
	for pi := range p.Phases {
		for _, f := range []func(*plan.Phase){
			func(ph *plan.Phase) { ph.Env = plan.Env{} },
			func(ph *plan.Phase) { ph.Env.Jump = 0 },
			func(ph *plan.Phase) { ph.Env.Map = 0 },
			func(ph *plan.Phase) { ph.Env.Sel = 0 },
			func(ph *plan.Phase) { ph.Env.Pool = 0 },
			func(ph *plan.Phase) { ph.Env.Seed = 0 },
			func(ph *plan.Phase) { ph.Env.Host = 0 },
			func(ph *plan.Phase) { ph.Crash, ph.Torn = 0, 0 },
			func(ph *plan.Phase) {
				for i := range ph.Decisions {
					ph.Decisions[i].Sleep = 0
				}
			},
		} {
			q := p.Clone()
			f(&q.Phases[pi])
			if fmt.Sprint(q.Phases[pi]) == fmt.Sprint(p.Phases[pi]) {
				continue
			}
			if g := r.bestSame([]*plan.Plan{q}); g != nil {
				p = g
			}
		}
	}
	return p
}

// dropUnused removes scripts no operation refers to.
func dropUnused(p *plan.Plan) *plan.Plan {
	used := map[int]bool{}
	each := func(f func(o *plan.Op)) {
		for i := range p.Phases {
			for j := range p.Phases[i].Tasks {
				for k := range p.Phases[i].Tasks[j] {
					f(&p.Phases[i].Tasks[j][k])
				}
			}
		}
	}
	each(func(o *plan.Op) {
		if o.Uses() {
			used[o.D] = true
		}
		for _, d := range o.L {
			used[d] = true
		}
	})
	idx := map[int]int{}
	var docs []*plan.Doc
	for i, d := range p.Docs {
		if used[i] {
			idx[i] = len(docs)
			docs = append(docs, d)
		}
	}
	each(func(o *plan.Op) {
		if o.Uses() {
			o.D = idx[o.D]
		} else {
			o.D = 0
		}
		for i := range o.L {
			o.L[i] = idx[o.L[i]]
		}
	})
	p.Docs = docs
	return p
}

// runs shortens a huge script.
func (r *runner) runs(p *plan.Plan, di int) *plan.Plan {
	for i := range p.Docs[di].Runs {
		for step := p.Docs[di].Runs[i].N; step > 0 && step > p.Docs[di].Runs[i].N/64; {
			q := p.Clone()
			q.Docs[di].Runs[i].N -= step
			if q.Docs[di].Runs[i].N >= 0 && r.best([]*plan.Plan{q}) != nil {
				p = q
				continue
			}
			step /= 2
		}
	}
	return p
}

package harness

import (
	"verifsim/rt"
)

// Stats is what a worker measured.
type Stats struct {
	Runs      int                 `json:"runs"`
	Baselines int                 `json:"baselines"`
	Calls     int                 `json:"calls"`
	Accepted  int                 `json:"accepted"`
	Rejected  int                 `json:"rejected"`
	Decisions int                 `json:"decisions"`
	Switches  int                 `json:"switches"`
	Steps     uint64              `json:"steps"`
	SimS      float64             `json:"sim_s"`
	MultiTask int                 `json:"multi_task_phases"`
	Phases    int                 `json:"phases"`
	Faults    map[string]int      `json:"faults"`
	Policies  map[string]int      `json:"policies"`
	Probe     rt.Probe            `json:"probe"`
	SitesHit  int                 `json:"sites_hit"`
	Pairs     int                 `json:"pairs"`
	MaxRatio  float64             `json:"max_steps_over_budget"`
	Foreign   int                 `json:"foreign"` // mismatches that are another property's
	traces    map[uint64]struct{} // interleavings
	cases     map[uint64]struct{} // distinct non-trivial runs
	run       map[string]int      // faults and events of the current run
	hash      uint64              // over everything a run did: the determinism check
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Policies: map[string]int{}, traces: map[uint64]struct{}{}, cases: map[uint64]struct{}{}, run: map[string]int{}}
}

func (s *Stats) fault(k string, n int) {
	if n > 0 {
		s.Faults[k] += n
		s.run[k] += n
	}
}

func (s *Stats) mix(x uint64) { s.hash = (s.hash^x)*1099511628211 + 0x9E3779B97F4A7C15 }

func (s *Stats) mixS(t string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(t); i++ {
		h = (h ^ uint64(t[i])) * 1099511628211
	}
	s.mix(h)
}

func (s *Stats) phase(out *rt.Outcome, ntasks int) {
	s.Phases++
	s.Decisions += len(out.Decisions)
	s.Switches += out.Switches
	s.Steps += out.Steps
	s.SimS += out.SimTime.Seconds()
	if ntasks > 1 {
		s.MultiTask++
	}
	s.mix(out.Trace)
	s.mix(out.Steps)
	s.mix(uint64(len(out.Decisions)))
	for _, d := range out.Decisions {
		if d.Sleep > 0 {
			s.Faults["clock-jump"]++
		}
	}
	if out.Switches > 2 && ntasks > 1 {
		s.run["interleaved"]++
	}
	if out.Switches > 1 {
		s.traces[out.Trace] = struct{}{}
	}
}

// count files the run that just ended among the distinct non-trivial ones.
func (s *Stats) count(p *Plan) {
	n := func(k string) bool { return s.run[k] > 0 }
	ok := false
	switch p.Prop {
	case "C01":
		ok = n("interleaved")
	case "C02", "C08":
		ok = n("calls-2")
	case "C03":
		ok = n("held-over")
	case "C04":
		for _, k := range damageKinds {
			ok = ok || n(k)
		}
		ok = ok || n("hostile-shape")
	case "C05":
		ok = n("strict-prefix-read")
	case "C06":
		ok = n("attempts-rejected-1") || n("attempts-rejected-2") || n("attempts-rejected-3")
	case "C16":
		ok = n("calls-2")
	case "C15":
		ok = n("call-next-to-a-long-one")
	case "C14":
		ok = n("plateau")
	case "C07":
		ok = n("multi-batch")
	}
	if !ok {
		return
	}
	for _, d := range p.Docs {
		s.mixS(d.Text())
	}
	for _, ph := range p.Phases {
		s.mix(ph.Env.Seed)
		s.mix(ph.Crash)
		for _, ops := range ph.Tasks {
			for i := range ops {
				s.mixS(ops[i].K)
				s.mix(uint64(ops[i].F)<<32 | uint64(ops[i].D))
				s.mix(uint64(ops[i].N))
				for _, l := range ops[i].L {
					s.mix(uint64(l))
				}
			}
		}
	}
	s.cases[s.hash] = struct{}{}
}

package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"testing"
	"time"

	"verifsim/rt"
)

// Job is what the driver asks of a worker process.
type Job struct {
	Prop     string `json:"prop"`
	Start    uint64 `json:"start"`
	Stride   uint64 `json:"stride"`
	Count    int    `json:"count"`
	Seconds  int    `json:"seconds"`
	Race     bool   `json:"race"`
	Plan     string `json:"plan"`     // run this plan instead
	Log      string `json:"log"`      // write decisions of the run here (for runs that kill the process)
	Mark     string `json:"mark"`     // the seed being run is written here
	Out      string `json:"out"`      // summary
	Traces   string `json:"traces"`   // interleaving hashes
	Viol     string `json:"viol"`     // failing plan
	Hashes   string `json:"hashes"`   // per-seed event hashes, for the determinism check
	Sites    string `json:"sites"`    // site table
	Samples  int    `json:"samples"`  // plans to write out as samples
	ShowPlan string `json:"showplan"` // write the concrete plan of the (single) seed here
}

type Summary struct {
	Stats   *Stats   `json:"stats"`
	Done    bool     `json:"done"`
	Next    uint64   `json:"next"`
	Secs    float64  `json:"secs"`
	Samples []string `json:"samples"`
	Viol    *Viol    `json:"viol,omitempty"`
}

const exitViolation = 10

func TestWorker(t *testing.T) {
	path := os.Getenv("VSIM_JOB")
	if path == "" {
		t.Skip("no job")
	}
	debug.SetGCPercent(400)
	var job Job
	must(readJSON(path, &job))
	loadSites(job.Sites)
	st := newStats()
	begin := time.Now()
	sum := &Summary{Stats: st}

	finish := func(code int) {
		st.SitesHit = len(seenSites)
		st.Pairs, _ = rt.SitePairs()
		st.Probe = rt.Probes()
		sum.Secs = time.Since(begin).Seconds()
		if job.Out != "" {
			writeJSON(job.Out, sum)
		}
		if job.Traces != "" {
			b := make([]byte, 0, 8*len(st.traces))
			for h := range st.traces {
				b = binary.LittleEndian.AppendUint64(b, h)
			}
			must(os.WriteFile(job.Traces, b, 0o644))
			b = b[:0]
			for h := range st.cases {
				b = binary.LittleEndian.AppendUint64(b, h)
			}
			must(os.WriteFile(job.Traces+".cases", b, 0o644))
			b = b[:0]
			for h := range seenSites {
				b = binary.LittleEndian.AppendUint64(b, uint64(h))
			}
			must(os.WriteFile(job.Traces+".sites", b, 0o644))
		}
		os.Exit(code)
	}

	if job.Plan != "" {
		p := &Plan{}
		must(readJSON(job.Plan, p))
		w := newWorld(t, st)
		w.logTo(job.Log)
		v := w.exec(p)
		sum.Done, sum.Viol = true, v
		if v != nil {
			p.Viol = v
			fix(p)
			if job.Viol != "" {
				writeJSON(job.Viol, p)
			}
			fmt.Printf("class=%s phase=%d task=%d op=%d %s\n", v.Class, v.Phase, v.Task, v.Op, v.Detail)
			finish(exitViolation)
		}
		finish(0)
	}

	var mark *os.File
	if job.Mark != "" {
		f, err := os.Create(job.Mark)
		must(err)
		mark = f
	}
	var hashes *os.File
	if job.Hashes != "" {
		f, err := os.Create(job.Hashes)
		must(err)
		hashes = f
	}
	if job.Seconds > 0 {
		time.AfterFunc(time.Duration(job.Seconds)*time.Second, func() { late.Store(true) })
	}
	seed := job.Start
	for i := 0; job.Count == 0 || i < job.Count; i++ {
		if job.Seconds > 0 && time.Since(begin) > time.Duration(job.Seconds)*time.Second {
			break
		}
		if mark != nil {
			mark.WriteAt([]byte(fmt.Sprintf("%020d\n", seed)), 0)
		}
		w := newWorld(t, st)
		if job.ShowPlan != "" {
			w.prop, w.showSolo = job.Prop, job.ShowPlan+".solo"
		}
		p := w.build(job.Prop, seed, job.Race)
		for _, ph := range p.Phases {
			if ph.Sched != nil {
				st.Policies[ph.Sched.Policy]++
			}
		}
		if job.ShowPlan != "" {
			writeJSON(job.ShowPlan, p)
			w.showSolo = ""
		}
		w.logTo(job.Log)
		st.hash = 0
		st.run = map[string]int{}
		calls := st.Calls
		v := w.exec(p)
		for k, n := range p.Faults {
			st.fault(k, n)
		}
		if st.Calls-calls > 1 {
			st.run["calls-2"]++
		}
		for _, s := range rt.SiteHits() {
			seenSites[s] = true
		}
		if hashes != nil && !late.Load() { // a run cut short by real time is no measure
			for _, o := range w.ordered() {
				st.mixS(o)
			}
			if v != nil {
				st.mixS(v.Class + v.Detail)
			}
			fmt.Fprintf(hashes, "%d %016x\n", seed, st.hash)
		}
		if len(sum.Samples) < job.Samples && st.Runs%97 == 1 {
			sum.Samples = append(sum.Samples, describe(p))
		}
		if v != nil {
			p.Viol = v
			sum.Viol = v
			fix(p)
			if job.Viol != "" {
				writeJSON(job.Viol, p)
			}
			fmt.Printf("seed=%d class=%s phase=%d task=%d op=%d %s\n", seed, v.Class, v.Phase, v.Task, v.Op, v.Detail)
			sum.Next = seed
			finish(exitViolation)
		}
		st.count(p)
		seed += job.Stride
	}
	sum.Done, sum.Next = true, seed
	finish(0)
}

// fix turns the schedule that a run had into an explicit one.  Callers that take
// turns (C15) go on doing so.
func fix(p *Plan) {
	for j := range p.Phases {
		if ph := &p.Phases[j]; ph.Fair() {
			ph.Decisions = nil
		} else {
			ph.Fixed = true
		}
	}
}

// logTo writes every decision to a file as it is made, for runs that end the
// process.
func (w *world) logTo(path string) {
	if path == "" {
		return
	}
	f, err := os.Create(path)
	must(err)
	phase := -1
	w.log = func(d rt.Decision, done bool) {
		k := "B"
		if done {
			k = "A"
		}
		fmt.Fprintf(f, "%s %d %d %d %d\n", k, phase, d.Task, d.Steps, d.Sleep)
	}
	w.onPhase = func(n int) { phase = n }
}

var seenSites = map[uint32]bool{}

func describe(p *Plan) string {
	s := fmt.Sprintf("seed %d:", p.Seed)
	for i, ph := range p.Phases {
		s += fmt.Sprintf(" phase %d: %d callers", i, len(ph.Tasks))
		n := 0
		for _, t := range ph.Tasks {
			n += len(t)
		}
		s += fmt.Sprintf(", %d operations, policy %s, %d scheduling decisions", n, ph.Sched.Policy, len(ph.Decisions))
		if ph.Crash > 0 {
			s += fmt.Sprintf(", crash after statement %d", ph.Crash)
		}
		s += ";"
	}
	d := p.Docs[0].Text()
	if len(d) > 160 {
		d = d[:160] + "..."
	}
	return s + fmt.Sprintf(" first script %q", d)
}

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func loadSites(path string) {
	if path == "" {
		return
	}
	var t struct {
		Sites []struct {
			F string `json:"f"`
			L int    `json:"l"`
		} `json:"sites"`
		Lex lexicon `json:"lex"`
	}
	if readJSON(path, &t) == nil {
		for _, x := range t.Sites {
			siteNames = append(siteNames, fmt.Sprintf("%s:%d", x.F, x.L))
		}
		rt.NSites = len(t.Sites)
		lex = t.Lex
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verifsim/instr"
)

// evidence collects what a check covered.
type evidence struct {
	mu                    sync.Mutex
	prop, tier            string
	seed                  uint64
	bs                    *builds
	st                    Stats
	plainRuns, raceRuns   int
	traces, cases, sites  map[uint64]struct{}
	samples               []string
	skipped               map[string]int
	trials                int
	detSeeds, detDiff     int
	built, explored, wall time.Duration
	workers               int
}

func newEvidence(prop, tier string, seed uint64, bs *builds) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed, bs: bs, traces: map[uint64]struct{}{}, cases: map[uint64]struct{}{}, sites: map[uint64]struct{}{}, skipped: map[string]int{},
		st: Stats{Faults: map[string]int{}, Policies: map[string]int{}}}
}

func (e *evidence) add(r *result, dir string, race bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.workers++
	if r.sum == nil || r.sum.Stats == nil {
		return
	}
	s := r.sum.Stats
	t := &e.st
	t.Runs += s.Runs
	if race {
		e.raceRuns += s.Runs
	} else {
		e.plainRuns += s.Runs
	}
	t.Baselines += s.Baselines
	t.Calls += s.Calls
	t.Accepted += s.Accepted
	t.Rejected += s.Rejected
	t.Decisions += s.Decisions
	t.Switches += s.Switches
	t.Steps += s.Steps
	t.SimS += s.SimS
	t.MultiTask += s.MultiTask
	t.Phases += s.Phases
	for k, n := range s.Faults {
		t.Faults[k] += n
	}
	for k, n := range s.Policies {
		t.Policies[k] += n
	}
	t.Probe.SyncOps += s.Probe.SyncOps
	t.Probe.MapIters += s.Probe.MapIters
	t.Probe.PoolGets += s.Probe.PoolGets
	t.Probe.PoolHits += s.Probe.PoolHits
	t.Probe.Children += s.Probe.Children
	t.Probe.Natives += s.Probe.Natives
	t.Probe.LockWaits += s.Probe.LockWaits
	t.Probe.Selects += s.Probe.Selects
	t.SitesHit = max(t.SitesHit, s.SitesHit)
	t.Pairs = max(t.Pairs, s.Pairs)
	t.MaxRatio = max(t.MaxRatio, s.MaxRatio)
	t.Foreign += s.Foreign
	readTraces(filepath.Join(dir, "traces"), e.traces)
	readTraces(filepath.Join(dir, "traces.cases"), e.cases)
	readTraces(filepath.Join(dir, "traces.sites"), e.sites)
	if len(e.samples) < 4 {
		e.samples = append(e.samples, r.sum.Samples...)
	}
}

func (e *evidence) skip(class string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.skipped[class]++
}

func (e *evidence) line() string {
	return fmt.Sprintf("%d runs (%d under the race detector), %d calls, %d scheduling decisions, %d distinct interleavings, %v",
		e.st.Runs, e.raceRuns, e.st.Calls, e.st.Decisions, len(e.traces), e.explored.Round(time.Second))
}

var rules = map[string]string{
	"C01": "a run is one simulated process with 2-50 concurrent callers under one seeded schedule; non-trivial: at least two callers were interleaved inside calls (more than one switch), distinct by the hash of (task, code site) at every switch",
	"C02": "a run is one process making 2-68,000 calls one after the other; non-trivial: every run has at least two calls; distinct: distinct sequences of (entry point, script) by hash",
	"C03": "a run is one process in which callers keep results, overwrite and append to them between further calls; distinct by the hash over the operations and the schedule; non-trivial: at least one result was held while another operation ran",
	"C04": "a run is one process fed damaged scripts; distinct by the hash over operations and schedule; non-trivial: at least one call ran on a damaged script",
	"C05": "a run is one simulated file being written, crashed, recovered and read; distinct by the hash over operations, schedule and crash point; non-trivial: at least one read saw a strict prefix",
	"C06": "a run is one process calling ParseForce on scripts with 0-3 failing attempts; distinct by the hash over operations and schedule; non-trivial: at least one attempt failed before the answer",
	"C07": "a run is one delivery history of a migration log; distinct by the hash over operations and schedule; non-trivial: at least one batch of two or more scripts",
	"C08": "a run is a sequence of processes with different clocks, map orders, pool behaviour and schedules making the same calls; distinct by the hash over operations, schedule and environment; non-trivial: at least two processes or two calls of the same script",
	"C15": "a run is one process in which one to some twenty callers parse long scripts while others make short calls, all taking turns; distinct by the hash over operations and schedule; non-trivial: at least one short call began while a long one was under way",
	"C16": "a run is a sequence of processes with the histories, schedules, clocks and hosts of C01, C02, C04, C06, C07 and C08, with the surroundings compared before and after each process; distinct by the hash over operations and schedule; non-trivial: at least two calls",
	"C14": "a run is one process making calls on ever new scripts, by one to four callers, with measurements of what it keeps at every doubling of the number of calls; distinct by the hash over operations and schedule; non-trivial: all calls were made and what the process keeps came to rest",
}

func (e *evidence) write(path string, code int) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	h := e.explored.Hours()
	perHour := func(n int) int {
		if h == 0 {
			return 0
		}
		return int(float64(n) / h)
	}
	faults := map[string]int{}
	events := map[string]int{}
	for k, n := range e.st.Faults {
		if notFault[k] || strings.HasPrefix(k, "attempts-rejected-0") {
			events[k] = n
		} else {
			faults[k] = n
		}
	}
	samples := e.samples
	if samples == nil {
		samples = []string{fmt.Sprintf("seeds %d, %d, ... (no sample written)", e.seed*1_000_000_000, e.seed*1_000_000_000+1)}
	}
	lv := map[string]any{"plain": e.bs.plain.Level.String()}
	notes := e.bs.plain.Notes
	if e.bs.race != nil {
		lv["race"] = e.bs.race.Level.String()
		notes = append(notes, e.bs.race.Notes...)
	}
	var reached, missed []string
	for i, s := range e.bs.plain.Res.Sites {
		if i < 3 {
			continue
		}
		if _, ok := e.sites[uint64(i)]; ok {
			reached = append(reached, "")
		} else {
			missed = append(missed, fmt.Sprintf("%s:%d", s.File, s.Line))
		}
	}
	cov := map[string]any{
		"evaluations":                    e.st.Runs,
		"distinct_nontrivial":            len(e.cases),
		"distinct_interleavings":         len(e.traces),
		"interleaving_measure":           "hash over (task, code site) at every task switch, over all phases",
		"seeds_per_run":                  1,
		"mismatches_of_other_properties": e.st.Foreign,
		"rule":                           rules[e.prop],
		"samples":                        samples,
		"runs_plain":                     e.plainRuns,
		"runs_race_detector":             e.raceRuns,
		"runs_per_hour":                  perHour(e.st.Runs),
		"first_seed":                     e.seed * 1_000_000_000,
		"parse_calls":                    e.st.Calls,
		"parse_calls_accepted":           e.st.Accepted,
		"parse_calls_rejected":           e.st.Rejected,
		"solo_reference_calls":           e.st.Baselines,
		"simulated_processes":            e.st.Phases,
		"with_several_callers":           e.st.MultiTask,
		"scheduling_decisions":           e.st.Decisions,
		"task_switches":                  e.st.Switches,
		"statements_executed":            e.st.Steps,
		"simulated_time_s":               e.st.SimS,
		"faults_injected":                faults,
		"events":                         events,
		"schedule_policies":              e.st.Policies,
		"distinct_switch_pairs_max":      e.st.Pairs,
		"code_sites":                     len(e.bs.plain.Res.Sites) - 3,
		"code_sites_reached":             len(reached),
		"code_sites_not_reached":         missed,
		"max_share_of_step_budget":       e.st.MaxRatio,
		"seams_used_by_the_code": map[string]any{"sync_operations": e.st.Probe.SyncOps, "map_iterations": e.st.Probe.MapIters, "pool_gets": e.st.Probe.PoolGets,
			"pool_hits": e.st.Probe.PoolHits, "goroutines_started": e.st.Probe.Children, "native_blocks": e.st.Probe.Natives, "lock_waits": e.st.Probe.LockWaits, "selects": e.st.Probe.Selects},
		"seeds_run_twice":          e.detSeeds,
		"seeds_that_differed":      e.detDiff,
		"instrumentation":          lv,
		"instrumentation_notes":    notes,
		"other_property_broken":    e.skipped,
		"minimisation_trials":      e.trials,
		"build_s":                  e.built.Seconds(),
		"exploration_s":            e.explored.Seconds(),
		"components_real":          append([]string{}, e.bs.plain.Res.Packages...),
		"components_stubbed":       stubs(e.bs.plain),
		"components_simulated_env": envParts[e.prop],
	}
	viol := 0
	if code == 1 {
		viol = 1
	}
	doc := map[string]any{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"one statement of the code under test is the scheduling grain of plain runs; unsynchronised accesses inside a statement are left to the race detector (C01, C03, C08)",
			"the oracle is the code itself, run alone in a fresh simulated process: what a single call returns for a script is not judged",
			"package-level state is what the instrumenter finds in package-level variables; a simulated process start re-runs their initialisers",
		},
		"wall_s": e.wall.Seconds(), "violations": viol,
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

var notFault = map[string]bool{"prefix-read": true, "prefix-accepted": true, "skipped": true, "piece-not-accepted": true, "not-accepted-whole": true, "history-calls": true, "batches": true, "held-over": true, "strict-prefix-read": true, "plateau": true, "call-failed": true, "call-next-to-a-long-one": true, "bad-luck": true, "grew-once": true, "multi-batch": true}

func stubs(b *Built) []string {
	if b.Level < instr.Full {
		return []string{"clock (testing/synctest)"}
	}
	return []string{"clock and timers (testing/synctest)", "goroutine scheduler (verifsim/rt)", "map iteration order", "sync", "maps", "math/rand", "math/rand/v2"}
}

var envParts = map[string][]string{
	"C01": {"callers"},
	"C02": {"caller history"},
	"C03": {"callers that keep and overwrite results"},
	"C04": {"callers", "damaged transport and storage"},
	"C05": {"file with page-cache, fsync, crash and torn tail", "writer", "readers"},
	"C06": {"callers", "damaged transport"},
	"C07": {"migration queue with duplication, loss, reordering, redelivery after a crash"},
	"C15": {"callers with long and with short scripts"},
	"C14": {"callers that never stop"},
	"C16": {"callers", "environment variables, working directory, disk and settings of the process", "clock", "process restarts"},
	"C08": {"process restarts", "clock", "runtime choices"},
}

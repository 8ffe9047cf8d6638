// vsim runs the checks: it rewrites the working tree of /repo for the simulator,
// links it with the harness, searches seeds in worker processes, and turns a
// failing seed into a minimised replay file.
package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/instr"
	"verifsim/plan"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "", "scratch directory")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	secs := fs.Int("seconds", 0, "time limit of the exploration")
	runs := fs.Int("runs", 0, "seeds per plain worker")
	fs.Parse(os.Args[2:])
	c := &config{repo: *repo, verif: *verif, work: *work}
	if c.work == "" {
		d, err := os.MkdirTemp("", "vsim")
		if err != nil {
			fatal(err)
		}
		c.work = d
	}
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			seed = uint64(n)
		}
	}
	code := 2
	switch os.Args[1] {
	case "check":
		code = c.check(*prop, *tier, seed, *secs, *runs)
	case "replay":
		code = c.replay(fs.Args())
	case "selftest":
		code = c.selftest(seed, *runs)
	default:
		usage()
	}
	os.RemoveAll(c.work)
	os.Exit(code)
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vsim check -prop C01 [-tier quick|thorough] | replay FILE | selftest")
	os.Exit(2)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "vsim:", err)
	os.Exit(2)
}

const workers = 8

// budgets of one check: seeds per plain worker and per race worker (fixed, so
// that a run is the same on any machine), and a time limit as a safety net.
type effort struct {
	race      int // how many of the workers run race builds
	plainRuns int
	raceRuns  int
}

var quick = map[string]effort{
	"C01": {3, 34000, 9000},
	"C02": {0, 5000, 0},
	"C03": {3, 24000, 6000},
	"C04": {0, 26000, 0},
	"C05": {0, 10000, 0},
	"C06": {0, 14000, 0},
	"C07": {0, 22000, 0},
	"C08": {2, 22000, 9000},
	"C14": {0, 250, 0},
	"C15": {0, 100, 0},
	"C16": {0, 9000, 0},
}

const (
	quickCap     = 400 // seconds
	thoroughSecs = 600
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property string     `json:"property"`
	Class    string     `json:"class"`
	Detail   string     `json:"detail"`
	Seed     uint64     `json:"seed"`
	Level    string     `json:"instrumentation"`
	Note     string     `json:"note"`
	Tries    int        `json:"tries,omitempty"` // more than one only where the tree escapes the simulator's seams
	Plan     *plan.Plan `json:"plan"`
}

type builds struct {
	plain, race *Built
}

func (c *config) buildBoth(race bool) (*builds, error) {
	b := &builds{}
	var wg sync.WaitGroup
	var e1, e2 error
	wg.Add(1)
	go func() { defer wg.Done(); b.plain, e1 = c.build("plain", false) }()
	if race {
		wg.Add(1)
		go func() { defer wg.Done(); b.race, e2 = c.build("race", true) }()
	}
	wg.Wait()
	if e1 != nil {
		return nil, e1
	}
	return b, e2
}

// job slot of one worker process.
type slot struct {
	b      *Built
	race   bool
	start  uint64
	stride uint64
	runs   int
}

func (c *config) check(prop, tier string, seed uint64, secs, runs int) int {
	begin := time.Now()
	ef, ok := quick[prop]
	if !ok || (tier != "quick" && tier != "thorough") {
		fmt.Fprintln(os.Stderr, "vsim: unknown property or tier:", prop, tier)
		return 2
	}
	limit := quickCap
	if prop == "C14" || prop == "C15" {
		limit = 200 // long runs: code with large bounded caches takes long to come to rest, code with many goroutines long to go on
	}
	if tier == "thorough" {
		limit = thoroughSecs
		ef.plainRuns, ef.raceRuns = 0, 0
	}
	if secs > 0 {
		limit = secs
		ef.plainRuns, ef.raceRuns = 0, 0
	}
	if runs > 0 {
		ef.plainRuns, ef.raceRuns = runs, (runs+3)/4
	}
	bs, err := c.buildBoth(ef.race > 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim: the instrumented tree does not build:", err)
		return 2
	}
	built := time.Since(begin)
	ev := newEvidence(prop, tier, seed, bs)

	base := seed * 1_000_000_000
	var slots []slot
	for i := 0; i < workers-ef.race; i++ {
		slots = append(slots, slot{bs.plain, false, base + uint64(i), uint64(workers - ef.race), ef.plainRuns})
	}
	for i := 0; i < ef.race; i++ {
		slots = append(slots, slot{bs.race, true, base + 500_000_000 + uint64(i), uint64(ef.race), ef.raceRuns})
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var found *hit
	var trouble error
	explore := time.Now()
	for i, s := range slots {
		wg.Add(1)
		go func() {
			defer wg.Done()
			left := s.runs
			start := s.start
			skips := 0
			for n := 0; ; n++ {
				remain := limit - int(time.Since(explore).Seconds())
				if remain <= 0 {
					return
				}
				dir := filepath.Join(c.work, fmt.Sprintf("w%d-%d", i, n))
				j := Job{Prop: prop, Start: start, Stride: s.stride, Count: left, Seconds: remain, Race: s.race,
					Traces: filepath.Join(dir, "traces"), Viol: filepath.Join(dir, "viol.json"), Samples: 1}
				r, err := work(ctx, s.b, dir, j, time.Duration(remain+180)*time.Second)
				mu.Lock()
				if err != nil {
					if trouble == nil {
						trouble = err
					}
					mu.Unlock()
					stop()
					return
				}
				if r.stopped {
					mu.Unlock()
					return
				}
				ev.add(r, dir, s.race)
				class, detail, err := r.verdict(s.b.Res.Module)
				mine := class != "" && belongs(prop, class)
				switch {
				case err != nil:
					if trouble == nil {
						trouble = err
					}
				case mine && found == nil:
					found = &hit{s: s, r: r, class: class, detail: detail, dir: dir}
				}
				mu.Unlock()
				if err != nil || mine {
					stop()
					return
				}
				if class == "" {
					return
				}
				// Something else than this property broke: go on behind it.
				ev.skip(class)
				if skips++; skips > 40 {
					return
				}
				done := int((r.seed-start)/s.stride) + 1
				start = r.seed + s.stride
				if left > 0 {
					if left -= done; left <= 0 {
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	ev.explored = time.Since(explore)
	ev.built = built

	if found == nil && trouble == nil {
		if err := c.determinism(ev, bs, prop, base); err != nil {
			trouble = err
		}
	}
	code := 0
	var rep string
	if found != nil {
		rep, err = c.report(found, prop, tier, ev)
		if err != nil {
			trouble = err
		} else {
			code = 1
		}
	}
	ev.wall = time.Since(begin)
	if err := ev.write(filepath.Join(c.verif, "evidence", prop+".json"), code); err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rep)
		return 1
	}
	if trouble != nil {
		fmt.Fprintln(os.Stderr, "vsim: no answer:", trouble)
		return 2
	}
	fmt.Printf("%s held: %s\n", prop, ev.line())
	return 0
}

// belongs says whether a violation class is this property's business.
func belongs(prop, class string) bool {
	switch class {
	case "race":
		return prop == "C01" || prop == "C08"
	case "race-on-result":
		return prop == "C01" || prop == "C03"
	}
	return true
}

type hit struct {
	s             slot
	r             *result
	class, detail string
	dir           string
}

// report reproduces, minimises and writes a violation.
func (c *config) report(h *hit, prop, tier string, ev *evidence) (string, error) {
	fmt.Printf("seed %d: %s: %s\n", h.r.seed, h.class, h.detail)
	p := &plan.Plan{}
	if h.r.code == exitViolation {
		if err := readJSON(filepath.Join(h.dir, "viol.json"), p); err != nil {
			return "", err
		}
	} else {
		// The process died: run the seed again, writing down its decisions.
		dir := filepath.Join(c.work, "again")
		pf, lf := filepath.Join(dir, "plan.json"), filepath.Join(dir, "log")
		r, err := work(context.Background(), h.s.b, dir, Job{Prop: prop, Start: h.r.seed, Stride: 1, Count: 1, Race: h.s.race, ShowPlan: pf, Log: lf}, 120*time.Second)
		if err != nil {
			return "", err
		}
		if _, err := os.Stat(pf); err != nil {
			pf += ".solo" // it died while calls were tried out alone
		}
		if _, err := os.Stat(pf); err != nil {
			return "", fmt.Errorf("seed %d: %s: the plan was not written (status %d)", h.r.seed, h.class, r.code)
		}
		if err := readJSON(pf, p); err != nil {
			return "", err
		}
		if class, _, _ := r.verdict(h.s.b.Res.Module); class == h.class {
			applyLog(p, lf)
		}
	}
	p.Prop, p.Race = prop, h.s.race
	rn := &runner{c: c, b: h.s.b, dir: filepath.Join(c.work, "min"), class: h.class}
	// Reproduce it in a process of its own: from the decisions, or else from
	// the seed.
	seeded := p.Clone()
	for i := range seeded.Phases {
		if ph := &seeded.Phases[i]; ph.Sched != nil {
			ph.Fixed, ph.Decisions = false, nil
		}
	}
	var got *plan.Plan
	for i := 0; i < 6 && got == nil; i++ {
		if got = rn.try(p); got == nil {
			got = rn.try(seeded)
		}
	}
	if got == nil { // any violation of the property will do
		rn.class = ""
		for i := 0; i < 6 && got == nil; i++ {
			if got = rn.try(seeded); got != nil && !belongs(prop, got.Viol.Class) {
				got = nil
			}
		}
		if got != nil {
			rn.class = got.Viol.Class
		}
	}
	if got == nil {
		return "", fmt.Errorf("seed %d (%s: %s) does not reproduce in a process of its own", h.r.seed, h.class, h.detail)
	}
	span := 60 * time.Second
	if tier == "thorough" {
		span = 180 * time.Second
	}
	rn.until = time.Now().Add(span)
	small := rn.minimise(got.Clone())
	// The final word: the file as written, in fresh processes, twice.
	// Should nothing come back every time, the code under test depends on
	// something the simulator does not control: then the file that comes back
	// most often is the one to give, with a note.
	note := "run: /verif/check.sh replay <this file>; decisions: task t runs for n statements"
	var last *plan.Plan
	best, tries := 0, 0
	for _, cand := range []*plan.Plan{small, got, p, seeded} {
		n := 0
		var v *plan.Viol
		for i := 0; i < 8; i++ {
			if a := rn.try(cand); a != nil {
				n++
				v = a.Viol
			}
			if i == 1 && n == 2 {
				n = 8
				break
			}
		}
		if n > best {
			best, last = n, cand
			last.Viol = v
		}
		if n == 8 {
			break
		}
	}
	if last == nil {
		return "", fmt.Errorf("seed %d (%s) reproduces only sometimes", h.r.seed, h.class)
	}
	if best < 8 {
		tries = 40
		note += fmt.Sprintf("; reproduced in %d of 8 processes: the tree depends on something outside the simulator's seams, and replay tries up to %d times", best, tries)
	}
	ev.trials = rn.trials
	rp := &Replay{Property: prop, Class: rn.class, Detail: last.Viol.Detail, Seed: h.r.seed, Level: h.s.b.Level.String(),
		Note: note, Tries: tries, Plan: last}
	dir := filepath.Join(c.verif, "out", "replay")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, h.r.seed))
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return "", err
	}
	fmt.Printf("minimised in %d trials: %s: %s\n", rn.trials, rn.class, last.Viol.Detail)
	for i, d := range last.Docs {
		fmt.Printf("  script %d: %q\n", i, tail(d.Text(), 300))
	}
	for i, ph := range last.Phases {
		fmt.Printf("  process %d: %d callers, %d decisions, crash after %d\n", i, len(ph.Tasks), len(ph.Decisions), ph.Crash)
		for t, ops := range ph.Tasks {
			if len(ops) <= 12 {
				b, _ := json.Marshal(ops)
				fmt.Printf("    caller %d: %s\n", t, b)
			} else {
				fmt.Printf("    caller %d: %d operations\n", t, len(ops))
			}
		}
	}
	return path, nil
}

// replay runs a replay file against the current tree.
func (c *config) replay(args []string) int {
	if len(args) != 1 {
		usage()
	}
	rp := &Replay{}
	if err := readJSON(args[0], rp); err != nil {
		fatal(err)
	}
	levels := []instr.Level{instr.Full, instr.NoStandIns, instr.YieldsOnly}
	for len(levels) > 1 && levels[0].String() != rp.Level {
		levels = levels[1:]
	}
	b, err := c.build("replay", rp.Plan.Race, levels...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	rn := &runner{c: c, b: b, dir: filepath.Join(c.work, "r")}
	dir := filepath.Join(c.work, "r0")
	os.MkdirAll(dir, 0o755)
	_, class, detail, err := rn.once(rp.Plan, dir)
	for i := 1; i < rp.Tries && err == nil && class == ""; i++ {
		_, class, detail, err = rn.once(rp.Plan, dir)
	}
	switch {
	case err != nil:
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	case class == "":
		fmt.Printf("property %s: no violation on this tree\n", rp.Property)
		return 0
	}
	fmt.Printf("property %s: %s: %s\n", rp.Property, class, detail)
	if class == rp.Class && detail == rp.Detail {
		fmt.Println("exactly as recorded")
	} else {
		fmt.Printf("recorded was %s: %s\n", rp.Class, rp.Detail)
	}
	return 1
}

// determinism runs some seeds again in processes of their own and compares
// everything the runs did.
func (c *config) determinism(ev *evidence, bs *builds, prop string, base uint64) error {
	n := 24
	get := func(name string, start, stride uint64, count int) (map[string]string, error) {
		dir := filepath.Join(c.work, "det-"+name)
		hf := filepath.Join(dir, "hashes")
		r, err := work(context.Background(), bs.plain, dir, Job{Prop: prop, Start: start, Stride: stride, Count: count, Seconds: 60, Hashes: hf}, 180*time.Second)
		if err != nil {
			return nil, err
		}
		if r.code != 0 {
			return nil, fmt.Errorf("determinism check: worker ended with %d", r.code)
		}
		b, err := os.ReadFile(hf)
		if err != nil {
			return nil, err
		}
		m := map[string]string{}
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if a, b, ok := strings.Cut(l, " "); ok {
				m[a] = b
			}
		}
		return m, nil
	}
	var wg sync.WaitGroup
	ms := make([]map[string]string, 3)
	errs := make([]error, 3)
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch i {
			case 0:
				ms[i], errs[i] = get("a", base, 1, n)
			case 1:
				ms[i], errs[i] = get("b", base, 2, n/2)
			default:
				ms[i], errs[i] = get("c", base+1, 2, n/2)
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	for s, h := range ms[0] {
		for _, m := range ms[1:] {
			if g, ok := m[s]; ok {
				ev.detSeeds++
				if g != h {
					ev.detDiff++
				}
			}
		}
	}
	return nil
}

// selftest shows that seeds are exactly repeatable for every property.
func (c *config) selftest(seed uint64, runs int) int {
	bs, err := c.buildBoth(false)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	bad := 0
	for _, p := range props() {
		ev := newEvidence(p, "quick", seed, bs)
		if err := c.determinism(ev, bs, p, seed*1_000_000_000); err != nil {
			fmt.Fprintln(os.Stderr, "vsim:", p, err)
			return 2
		}
		fmt.Printf("%s: %d seeds run twice, %d differ\n", p, ev.detSeeds, ev.detDiff)
		bad += ev.detDiff
	}
	if bad > 0 {
		return 2
	}
	return 0
}

func props() []string {
	var ps []string
	for p := range quick {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func readTraces(path string, into map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for len(b) >= 8 {
		into[binary.LittleEndian.Uint64(b)] = struct{}{}
		b = b[8:]
	}
}

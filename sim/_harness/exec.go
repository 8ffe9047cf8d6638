package harness

import (
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	ddl "github.com/kodaimura/ddlparse"
	"verifsim/plan"
	"verifsim/rt"
)

// Entry points.
const (
	fnForce   = 6
	fnUnknown = 7
)

var fnNames = []string{"Parse(SQLite)", "Parse(PostgreSQL)", "Parse(MySQL)", "ParseSQLite", "ParsePostgreSQL", "ParseMySQL", "ParseForce", "Parse(unknown)"}

var dialects = []ddl.Rdbms{ddl.SQLite, ddl.PostgreSQL, ddl.MySQL}

func invokeRaw(fn int, text string) ([]ddl.Table, error) {
	switch fn {
	case 0, 1, 2:
		return ddl.Parse(text, dialects[fn])
	case 3:
		return ddl.ParseSQLite(text)
	case 4:
		return ddl.ParsePostgreSQL(text)
	case 5:
		return ddl.ParseMySQL(text)
	case fnForce:
		return ddl.ParseForce(text)
	}
	return ddl.Parse(text, ddl.Rdbms("Oracle"))
}

// outcome of one call.
type outcome struct {
	bad    string // "", panic, runaway, deadlock, leak
	what   string
	tables []ddl.Table
	err    error
	steps  uint64
	work   uint64 // alone: steps, with those of the goroutines it started
	leaked int
	tab    string   // canonical form of all tables
	each   []string // ... of each table
	errS   string
}

// budget bounds the statements one call may execute: some fifty times what the
// code needs for a script of n bytes.
func budget(n int) uint64 { return 1_000_000 + 5_000*uint64(min(n, 200_000)) }

// invoke makes one call from inside a simulated task.
func invoke(fn int, text string) *outcome {
	o := bare(fn, text)
	if o.bad == "" {
		o.canon()
	}
	return o
}

// bare is invoke without writing the outcome out.
func bare(fn int, text string) (o *outcome) {
	o = &outcome{}
	rt.Y(2)
	start := rt.CallSteps()
	rt.SetBudget(budget(len(text)))
	func() {
		defer func() {
			if p := recover(); p != nil {
				if ra, ok := p.(rt.Runaway); ok {
					o.bad, o.what = "runaway", siteName(ra.Site)
				} else {
					o.bad, o.what = "panic", fmt.Sprint(p)
				}
			}
		}()
		o.tables, o.err = invokeRaw(fn, text)
	}()
	if rt.Over() && o.bad == "" {
		o.bad, o.what = "runaway", "swallowed"
	}
	rt.SetBudget(0)
	o.steps = rt.CallSteps() - start
	rt.Y(2) // a call that returns right after waiting has not been given its turn yet
	if o.bad != "" {
		o.tables, o.err = nil, nil
	}
	return o
}

func (o *outcome) canon() {
	o.each = make([]string, len(o.tables))
	var b strings.Builder
	for i := range o.tables {
		o.each[i] = join(leaves(reflect.ValueOf(&o.tables[i]).Elem(), "", nil))
		fmt.Fprintf(&b, "table %d\n%s", i, o.each[i])
	}
	o.tab = b.String()
	o.errS = errString(o.err)
}

func errString(err error) string {
	if err == nil {
		return "<nil>"
	}
	v := reflect.ValueOf(err)
	return fmt.Sprintf("%T %q\n%s", err, err.Error(), join(leaves(v, "", nil)))
}

func (o *outcome) String() string {
	switch {
	case o.bad != "":
		return o.bad + ": " + o.what
	case o.err != nil:
		return fmt.Sprintf("error %q", o.err.Error())
	}
	var names []string
	for _, t := range o.tables {
		names = append(names, t.Name)
	}
	return fmt.Sprintf("%d tables %q", len(o.tables), names)
}

func (o *outcome) accepted() bool { return o.bad == "" && o.err == nil }

// same compares with the outcome wanted; "" if equal.
func (o *outcome) same(want *outcome) string {
	switch {
	case o.bad != want.bad:
		return fmt.Sprintf("want %s; got %s", want, o)
	case o.errS != want.errS:
		return fmt.Sprintf("want %s; got %s", want, o)
	case o.tab != want.tab:
		return fmt.Sprintf("want %s; got %s: %s", want, o, diff(want.tab, o.tab))
	case o.bad == "" && len(o.tables) == 0 && (o.tables == nil) != (want.tables == nil):
		return fmt.Sprintf("want nil=%v, got nil=%v table list", want.tables == nil, o.tables == nil)
	}
	return ""
}

// ---- baselines ---------------------------------------------------------------

type baseKey struct {
	fn   int
	text string
}

type world struct {
	t        *testing.T
	base     map[baseKey]*outcome
	st       *Stats
	log      func(rt.Decision, bool)
	onPhase  func(int)
	crew     *crew
	callers  int    // of the phase
	busy     int    // long calls under way
	long     uint64 // statements of the longest of them
	prop     string
	showSolo string       // the call about to be run alone is written here
	late     *atomic.Bool // the worker's time is over: a run that could go on for long should not
}

var late atomic.Bool

func newWorld(t *testing.T, st *Stats) *world {
	return &world{t: t, base: map[baseKey]*outcome{}, st: st, late: &late}
}

// bubble runs f in a synctest bubble; it reports a bubble that never came to an
// end (goroutines left blocked).
func (w *world) bubble(f func()) (stuck string) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if !strings.Contains(s, "deadlock") {
				panic(p)
			}
			stuck = s
		}
	}()
	synctest.Test(w.t, func(*testing.T) { f() })
	return ""
}

// solo runs one call alone in a fresh process.
func (w *world) solo(fn int, text string) *outcome {
	k := baseKey{fn, text}
	if o := w.base[k]; o != nil {
		return o
	}
	var o *outcome
	var out rt.Outcome
	if w.showSolo != "" {
		writeJSON(w.showSolo, &Plan{Prop: w.prop, Docs: []*Doc{plan.TextDoc(text)}, Phases: []Phase{{Tasks: [][]Op{{{K: opPlain, F: fn}}}, Sched: &Sched{Policy: "serial"}}}})
	}
	defer rt.SwapDisk(rt.SwapDisk(nil))
	stuck := w.bubble(func() {
		rt.Boot(1, 0, 0, 0, 0)
		out = rt.Run(rt.Config{Wait: synctest.Wait, Policy: &fixedPolicy{}},
			[]func(int){func(int) { o = invoke(fn, strings.Clone(text)) }})
		if o != nil {
			o.work = out.Steps
		}
	})
	switch {
	case out.TooMany:
		o = &outcome{bad: "skip", what: "more goroutines at a time than the simulator holds"}
	case out.Deadlock && out.Runaway:
		o = &outcome{bad: "runaway", what: "in a goroutine the call started"}
	case out.Deadlock:
		o = &outcome{bad: "deadlock", what: "the call never returns"}
	case out.Leaked > 0 || stuck != "":
		o.leaked = out.Leaked // C04's business; the outcome itself stands
	}
	w.base[k] = o
	w.st.Baselines++
	return o
}

// ordered lists the baselines' outcomes in a fixed order (determinism check).
func (w *world) ordered() []string {
	var ks []string
	for k, o := range w.base {
		ks = append(ks, fmt.Sprintf("%d %q %s %s %s %d", k.fn, k.text, o.bad, o.errS, o.tab, o.steps))
	}
	sort.Strings(ks)
	return ks
}

// ---- execution -----------------------------------------------------------------

type held struct {
	tables []ddl.Table
	err    error
	ls     []leaf
	canon  string
	fn     int
	doc    int
}

func (h *held) now() ([]leaf, string) {
	ls := leaves(reflect.ValueOf(&h.tables).Elem(), "", nil)
	c := join(ls)
	if h.err != nil {
		c += errString(h.err) + "\n"
	}
	return ls, c
}

// taskState belongs to one task; nothing in it is shared between tasks.
type taskState struct {
	id    int
	viol  *Viol
	op    int
	calls int
	acc   int
	rej   int
	held  []*held
	ratio float64 // most of its budget any call used
	notes map[string]int
	lent  []lent
	wait  *Viol // the longest wait, by how much it was over its allowance
	over  uint64
}

func (ts *taskState) fail(class, f string, a ...any) {
	if ts.viol == nil {
		ts.viol = &Viol{Class: class, Detail: fmt.Sprintf(f, a...), Task: ts.id, Op: ts.op}
	}
}

// file is the simulated disk file of C05.  It is only touched between yields.
type file struct {
	visible, durable int
}

// exec runs a plan and gives its first violation.
func (w *world) exec(p *Plan) *Viol {
	w.st.Runs++
	v := w.exec1(p)
	if v != nil && v.Class == "leak" && !w.growing(p, v) {
		w.st.fault("goroutines-kept-for-good", 1)
		return nil
	}
	if v != nil && v.Class == "held-up" && !w.heldUp(p) {
		w.st.fault("bad-luck", 1)
		return nil
	}
	if v == nil || p.Prop != "C03" || v.Class == "result-changed" || v.Class == "aliased" {
		return v
	}
	// A call came out wrong.  That is C03's business only if the callers'
	// writes did it: leave them out and look again.
	q := *p
	q.Phases = append([]Phase(nil), p.Phases...)
	for i := range q.Phases {
		ph := &q.Phases[i]
		ph.Tasks = append([][]Op(nil), ph.Tasks...)
		if ph.Decisions != nil {
			ph.Fixed = true
		}
		for j := range ph.Tasks {
			ops := append([]Op(nil), ph.Tasks[j]...)
			for k := range ops {
				if ops[k].K == opScrib {
					ops[k] = Op{K: opPause}
				}
			}
			ph.Tasks[j] = ops
		}
	}
	if u := w.exec1(&q); u != nil {
		w.st.Foreign++
		return nil
	}
	return v
}

// growing: goroutines left behind are a leak if calls add to them, not if they
// are a fixed set the code under test keeps (started once, for later calls).
// The phase's calls one after another, once and three times over, tell.
func (w *world) growing(p *Plan, v *Viol) bool {
	left := func(times int) int {
		n := 0
		w.bubble(func() {
			rt.Boot(1, 0, 0, 0, 0)
			out := rt.Run(rt.Config{Wait: synctest.Wait, Policy: &fixedPolicy{}}, []func(int){func(int) {
				for ; times > 0; times-- {
					for _, ops := range p.Phases[v.Phase].Tasks {
						for _, op := range ops {
							if op.K == opAll {
								invoke(op.F, p.Docs[op.D].Text())
							}
						}
					}
				}
			}})
			n = out.Leaked
		})
		return n
	}
	once := left(1)
	return v.N > once || left(3) > once
}

func (w *world) exec1(p *Plan) (v *Viol) {
	for _, d := range p.Docs {
		d.Text()
	}
	if p.Stack > 0 {
		defer debug.SetMaxStack(debug.SetMaxStack(p.Stack))
	}
	// Baselines first: each in a process of its own.
	for pi := range p.Phases {
		for _, ops := range p.Phases[pi].Tasks {
			for i := range ops {
				w.need(p, &ops[i])
			}
		}
	}
	files := make([]file, len(p.Docs))
	rt.SwapDisk(nil)
	rt.ClearState()
	w.bubble(func() {
		for pi := range p.Phases {
			if v = w.phase(p, pi, files); v != nil {
				return
			}
		}
	})
	return v
}

func (w *world) need(p *Plan, op *Op) {
	switch op.K {
	case opCall, opKeep, opQuick:
		w.solo(op.F, p.Docs[op.D].Text())
	case opForce:
		for f := 0; f < 3; f++ {
			w.solo(f, p.Docs[op.D].Text())
		}
	case opRead:
		w.solo(op.F, p.Docs[op.D].Text())
	case opBatch:
		for _, d := range op.L {
			w.solo(op.F, p.Docs[d].Text())
		}
	}
}

func (w *world) phase(p *Plan, pi int, files []file) *Viol {
	ph := &p.Phases[pi]
	if w.onPhase != nil {
		w.onPhase(pi)
	}
	if pi > 0 {
		w.st.fault("restart", 1)
	}
	if ph.Env.Jump > 0 {
		w.st.fault("clock-jump", 1)
		rt.Sleep(time.Duration(ph.Env.Jump))
	}
	var before *surroundings
	boot := func() { rt.Boot(ph.Env.Seed, ph.Env.Map, ph.Env.Sel, ph.Env.Pool, ph.Env.Host) } // every phase is a new process
	if p.Prop == "C16" {
		rt.BeforeInit = func() { before = look() }
	}
	boot()
	rt.BeforeInit = nil
	n := len(ph.Tasks)
	ts := make([]*taskState, n)
	bodies := make([]func(int), n)
	for i := range ph.Tasks {
		s := &taskState{id: i, notes: map[string]int{}}
		ts[i] = s
		ops := ph.Tasks[i]
		bodies[i] = func(int) {
			for j := range ops {
				s.op = j
				w.step(p, s, &ops[j], files)
				if s.viol != nil {
					return
				}
			}
		}
	}
	w.crew, w.callers, w.busy, w.long = newCrew(ph), n, 0, 0
	cfg := rt.Config{Wait: synctest.Wait, Policy: policy(ph, n), CrashAfter: ph.Crash, Log: w.log}
	if !ph.Fixed && ph.Sched != nil {
		cfg.Breaks = ph.Sched.Breaks
		cfg.MaxBreaks = 20000
	}
	out := rt.Run(cfg, bodies)
	if !ph.Fixed {
		ph.Decisions = out.Decisions
	}
	w.st.phase(&out, n)
	for _, s := range ts {
		w.st.Calls += s.calls
		w.st.MaxRatio = max(w.st.MaxRatio, s.ratio)
		w.st.Accepted += s.acc
		w.st.Rejected += s.rej
		for k, c := range s.notes {
			w.st.fault(k, c)
		}
	}
	if out.TooMany {
		w.st.fault("too-many-goroutines", 1)
		return nil
	}
	for _, s := range ts {
		if s.viol != nil {
			s.viol.Phase = pi
			return s.viol
		}
	}
	if before != nil && out.Deadlock {
		return nil // others' business
	}
	if before != nil && !out.Crashed {
		if v := w.noEffect(ts, before); v != nil {
			v.Phase = pi
			return v
		}
	}
	if v := w.waited(ts); v != nil && !out.Deadlock {
		v.Phase = pi
		return v
	}
	if out.Deadlock {
		t := 0
		if len(out.Blocked) > 0 {
			t = out.Blocked[0]
		}
		class := "deadlock"
		if out.Runaway {
			class = "runaway"
		}
		return &Viol{Class: class, Detail: fmt.Sprintf("callers %v never return", out.Blocked), Phase: pi, Task: t, Op: ts[t].op}
	}
	if out.Leaked > 0 && p.Prop == "C04" {
		return &Viol{Class: "leak", Detail: fmt.Sprintf("%d goroutines left behind after all calls returned", out.Leaked), Phase: pi, N: out.Leaked}
	}
	if out.Crashed {
		w.st.fault("crash", 1)
		for i := range files {
			f := &files[i]
			if lost := f.visible - f.durable; lost > 0 {
				f.visible = f.durable + lost*ph.Torn/1000
				f.durable = f.visible
				w.st.fault("torn-tail", 1)
			}
		}
	}
	// Held results must have survived everything that ran after them.
	for _, s := range ts {
		for _, h := range s.held {
			if _, c := h.now(); c != h.canon {
				return &Viol{Class: "result-changed", Detail: fmt.Sprintf("%s doc %d: %s", fnNames[h.fn], h.doc, diff(h.canon, c)), Phase: pi, Task: s.id, Op: len(ph.Tasks[s.id])}
			}
		}
	}
	return nil
}

func (w *world) step(p *Plan, s *taskState, op *Op, files []file) {
	switch op.K {
	case opPause:
		for n := max(op.N, 1); n > 0; n-- {
			rt.Y(2)
		}

	case opCall, opKeep:
		text := p.Docs[op.D].Text()
		want := w.base[baseKey{op.F, text}]
		if want.bad != "" {
			s.notes["skipped"]++
			return
		}
		o := s.call(op.F, text)
		if d := o.same(want); d != "" {
			class := "mismatch"
			if o.bad != "" {
				class = o.bad
			}
			s.fail(class, "%s doc %d: alone: %s; here: %s; %s", fnNames[op.F], op.D, want, o, d)
			return
		}
		if op.K == opKeep {
			if len(s.held) > 0 {
				s.notes["held-over"]++
			}
			h := &held{tables: o.tables, err: o.err, fn: op.F, doc: op.D}
			h.ls, h.canon = h.now()
			s.held = append(s.held, h)
		}

	case opCheck:
		rt.Y(2)
		for _, h := range s.held {
			if _, c := h.now(); c != h.canon {
				s.fail("result-changed", "%s doc %d: %s", fnNames[h.fn], h.doc, diff(h.canon, c))
				return
			}
		}

	case opScrib:
		rt.Y(2)
		if len(s.held) == 0 {
			return
		}
		r := rt.NewRng(uint64(op.N))
		h := s.held[r.Intn(len(s.held))]
		for try := 0; try < 5 && len(h.tables) == 0; try++ {
			h = s.held[r.Intn(len(s.held))]
		}
		sl := slots(reflect.ValueOf(&h.tables).Elem(), "", nil)
		if len(sl) == 0 {
			return
		}
		// Prefer appends: they are the writes with hidden reach.
		x := sl[r.Intn(len(sl))]
		if r.Chance(50) {
			var ap []slot
			for _, y := range sl {
				if y.extra {
					ap = append(ap, y)
				}
			}
			if len(ap) > 0 {
				x = ap[r.Intn(len(ap))]
			}
		}
		if _, c := h.now(); c != h.canon {
			s.fail("result-changed", "%s doc %d: %s", fnNames[h.fn], h.doc, diff(h.canon, c))
			return
		}
		scribble(x, r)
		if x.extra {
			s.notes["caller-append"]++
		} else {
			s.notes["caller-write"]++
		}
		ls, c := h.now()
		if d := onlyChanged(h.ls, ls, x); d != "" {
			s.fail("aliased", "%s doc %d: writing %s also changed %s", fnNames[h.fn], h.doc, x.path, d)
			return
		}
		h.ls, h.canon = ls, c
		for _, g := range s.held {
			if g == h {
				continue
			}
			if _, c := g.now(); c != g.canon {
				s.fail("aliased", "writing %s of one result changed another (%s doc %d): %s", x.path, fnNames[g.fn], g.doc, diff(g.canon, c))
				return
			}
		}

	case opAll:
		text := p.Docs[op.D].Text()
		o := s.call(op.F, text)
		if p.Stack > 0 && o.bad == "runaway" {
			s.notes["huge-not-judged"]++ // about the stack only: more than linear work is no fault
			return
		}
		if c, d := total(o); c != "" {
			s.fail(c, "%s doc %d (%d bytes): %s", fnNames[op.F], op.D, len(text), d)
		}

	case opForce:
		text := p.Docs[op.D].Text()
		want := &outcome{}
		ok := false
		for f := 0; f < 3; f++ {
			b := w.base[baseKey{f, text}]
			if b.bad != "" {
				s.notes["skipped"]++
				return
			}
			if b.accepted() && !ok {
				want, ok = b, true
				s.notes[fmt.Sprintf("attempts-rejected-%d", f)]++
			}
		}
		o := s.call(fnForce, text)
		if o.bad != "" {
			s.fail(o.bad, "ParseForce doc %d: %s", op.D, o)
			return
		}
		if !ok {
			s.notes["attempts-rejected-3"]++
			if o.err == nil || len(o.tables) != 0 {
				s.fail("mismatch", "ParseForce doc %d: every dialect rejects it, but ParseForce gives %s", op.D, o)
			}
			return
		}
		if o.err != nil || o.tab != want.tab {
			s.fail("mismatch", "ParseForce doc %d: want %s; got %s: %s", op.D, want, o, diff(want.tab, o.tab))
		}

	case opWrite:
		rt.Y(2)
		f := &files[op.D]
		f.visible += op.N
		if n := len(p.Docs[op.D].Text()); f.visible > n {
			f.visible = n
		}

	case opSync:
		rt.Y(2)
		files[op.D].durable = files[op.D].visible

	case opRead:
		w.read(p, s, op, files)

	case opGrow:
		w.grow(p, s, op)

	case opPlain:
		w.plain(p, s, op)

	case opQuick:
		w.quickCall(p, s, op)

	case opBusy:
		for n := op.N; n > 0 && !w.late.Load(); n-- {
			w.busy++
			o := bare(op.F, p.Docs[op.D].Text())
			s.count(o)
			w.busy--
			w.long = max(w.long, o.steps)
		}

	case opBatch:
		var texts []string
		var each []string
		for _, d := range op.L {
			b := w.base[baseKey{op.F, p.Docs[d].Text()}]
			if !b.accepted() {
				s.notes["piece-not-accepted"]++
				continue
			}
			texts = append(texts, p.Docs[d].Text())
			each = append(each, b.each...)
		}
		if len(texts) > 1 {
			s.notes["multi-batch"]++
		}
		o := s.call(op.F, strings.Join(texts, strings.Repeat("\n", 1+op.J)))
		if o.bad != "" {
			s.fail(o.bad, "%s on the batch %v: %s", fnNames[op.F], op.L, o)
			return
		}
		if o.err != nil {
			s.fail("mismatch", "%s: the pieces %v are accepted one by one, the batch gives %s", fnNames[op.F], op.L, o)
			return
		}
		if len(o.each) != len(each) {
			s.fail("mismatch", "%s: the pieces %v give %d tables one by one, the batch %s", fnNames[op.F], op.L, len(each), o)
			return
		}
		for i := range each {
			if each[i] != o.each[i] {
				s.fail("mismatch", "%s: batch %v: table %d: %s", fnNames[op.F], op.L, i, diff(each[i], o.each[i]))
				return
			}
		}
	}
}

// total is the C04 oracle for one outcome.
func total(o *outcome) (class, detail string) {
	var ve ddl.ValidateError
	switch {
	case o.bad != "":
		return o.bad, o.what
	case o.err != nil && len(o.tables) != 0:
		return "shape", "an error and tables: " + o.String()
	case o.err != nil && !errors.As(o.err, &ve):
		return "shape", fmt.Sprintf("the error is a %T, not a ValidateError", o.err)
	}
	return "", ""
}

// read is the C05 oracle.
func (w *world) read(p *Plan, s *taskState, op *Op, files []file) {
	d := p.Docs[op.D]
	whole := w.base[baseKey{op.F, d.Text()}]
	if !whole.accepted() {
		s.notes["not-accepted-whole"]++
		return
	}
	rt.Y(2)
	n := files[op.D].visible
	tabs, exact := d.Complete(n)
	all, _ := d.Complete(len(d.Text()))
	if all != len(whole.each) {
		s.fail("mismatch", "%s doc %d: %d CREATE TABLE statements, but %d tables", fnNames[op.F], op.D, all, len(whole.each))
		return
	}
	o := s.call(op.F, d.Text()[:n])
	s.notes["prefix-read"]++
	if n < len(d.Text()) {
		s.notes["strict-prefix-read"]++
	}
	switch {
	case o.bad != "":
		s.fail(o.bad, "%s on the first %d of %d bytes of doc %d: %s", fnNames[op.F], n, len(d.Text()), op.D, o)
	case o.err != nil:
		if exact {
			s.fail("mismatch", "%s on the first %d bytes of doc %d, cut right after a statement's semicolon: %s", fnNames[op.F], n, op.D, o)
		} else if len(o.tables) != 0 {
			s.fail("mismatch", "%s on the first %d bytes of doc %d: error with tables: %s", fnNames[op.F], n, op.D, o)
		}
	case len(o.each) != tabs:
		s.fail("mismatch", "%s on the first %d bytes of doc %d: %d CREATE TABLE statements are complete, but the call gives %s", fnNames[op.F], n, op.D, tabs, o)
	default:
		s.notes["prefix-accepted"]++
		for i := range o.each {
			if o.each[i] != whole.each[i] {
				s.fail("mismatch", "%s on the first %d bytes of doc %d: table %d: %s", fnNames[op.F], n, op.D, i, diff(whole.each[i], o.each[i]))
				return
			}
		}
	}
}

func (s *taskState) call(fn int, text string) *outcome {
	s.calls++
	o := invoke(fn, text)
	if q := float64(o.steps) / float64(budget(len(text))); q > s.ratio {
		s.ratio = q
	}
	s.calls--
	s.count(o)
	return o
}

func (s *taskState) count(o *outcome) {
	s.calls++
	if o.accepted() {
		s.acc++
	} else {
		s.rej++
	}
}

// onlyChanged checks that a write through slot x changed nothing else.
func onlyChanged(before, after []leaf, x slot) string {
	mine := func(p string) bool {
		return !x.extra && (p == x.path || strings.HasPrefix(p, x.path+"{"))
	}
	i, j := 0, 0
	for i < len(before) || j < len(after) {
		for i < len(before) && mine(before[i].path) {
			i++
		}
		for j < len(after) && mine(after[j].path) {
			j++
		}
		if i >= len(before) && j >= len(after) {
			break
		}
		if i >= len(before) || j >= len(after) {
			return "the shape of the result"
		}
		if before[i] != after[j] {
			return fmt.Sprintf("%s from %q to %q", before[i].path, before[i].val, after[j].val)
		}
		i++
		j++
	}
	return ""
}

var siteNames []string

func siteName(s uint32) string {
	if int(s) < len(siteNames) {
		return siteNames[s]
	}
	return fmt.Sprint("site ", s)
}

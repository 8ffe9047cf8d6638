package harness

import (
	"strings"

	"verifsim/plan"
	"verifsim/rt"
)

// build makes the plan of one seed.
func (w *world) build(prop string, seed uint64, race bool) *Plan {
	p := &Plan{Prop: prop, Seed: seed, Race: race, Faults: map[string]int{}}
	r := rt.Derive(seed, prop)
	rt.ClearHits()
	switch prop {
	case "C01":
		w.planC01(p, r)
	case "C02":
		w.planC02(p, r)
	case "C03":
		w.planC03(p, r)
	case "C04":
		w.planC04(p, r)
	case "C05":
		w.planC05(p, r)
	case "C06":
		w.planC06(p, r)
	case "C07":
		w.planC07(p, r)
	case "C08":
		w.planC08(p, r)
	case "C14":
		w.planC14(p, r)
	case "C15":
		w.planC15(p, r)
	case "C16":
		w.planC16(p, r)
	default:
		panic("unknown property " + prop)
	}
	return p
}

// genScript gives a script of at most max bytes.
func genScript(r *rt.Rng, d, max int) *Script {
	for try := 0; ; try++ {
		g := newGen(r, d)
		if max < 300 || try > 3 {
			g.size = 0
		}
		if try > 6 {
			g.richness, g.comments, g.exotic = 10, 0, 0
		}
		s := g.script()
		if len(s.Text()) <= max || try > 12 {
			return s
		}
	}
}

// tiny scripts, for runs with very fine or very long schedules.
func tinyDoc(r *rt.Rng) string {
	n := namePool[r.Intn(len(namePool))]
	m := namePool[r.Intn(len(namePool))]
	if x, ok := lex.name(r, 30); ok {
		n = x
	}
	if x, ok := lex.name(r, 30); ok {
		m = x
	}
	switch r.Intn(17) {
	case 16:
		return lookalike(r)()
	case 12: // a name first defined, then used, by different scripts
		return []string{"CREATE TYPE ", "CREATE SEQUENCE ", "CREATE DOMAIN ", "CREATE VIEW ", "CREATE SCHEMA ", "CREATE EXTENSION ", "CREATE COLLATION "}[r.Intn(7)] + n + []string{";", " AS ENUM ('x');", " AS TEXT;"}[r.Intn(3)]
	case 13:
		return "CREATE TABLE " + m + " (" + m + " " + n + ");"
	case 14:
		return "CREATE TABLE " + m + " (" + n + " INTEGER REFERENCES " + n + "(" + m + "), x1 " + namePool[r.Intn(len(namePool))] + ");"
	case 15:
		return "CREATE TABLE " + n + "." + m + " (" + m + " INTEGER, FOREIGN KEY (" + m + ") REFERENCES " + n + "." + n + "(" + m + "));"
	case 0:
		return "create table " + n + " (" + m + " integer);"
	case 1:
		return "CREATE TABLE " + n + " (" + m + " TEXT);"
	case 2:
		return "CREATE TABLE " + n + " (" + m + " VARCHAR(10) DEFAULT 'a', PRIMARY KEY (" + m + "));"
	case 3:
		return "CREATE TABLE " + n + " (\n" + m + " INTEGER,\n UNIQUE(" + m + ")\n);"
	case 4:
		return "CREATE TABLE " + n + " (" + m + " FLOT);"
	case 5:
		return "CREATE\nTABLE\n" + n
	case 6:
		return "CREATE TABLE " + n + " (" + m + " INTEGER DEFAULT 'abc"
	case 7:
		return "-- " + n + "\nCREATE TABLE " + n + " (" + m + " INTEGER);"
	case 8:
		return "CREATE TABLE " + n + " (" + m + " INTEGER); CREATE TABLE " + m + " (" + n + " TEXT);"
	case 9:
		return "CREATE TABLE `" + n + "` (`" + m + "` INT);"
	case 10:
		return "CREATE TABLE \"" + n + "\" (\"" + m + "\" INTEGER CHECK (" + m + " > 1));"
	}
	return "CREATE TABLE IF NOT EXISTS a." + n + " (" + m + " REAL NOT NULL);"
}

// lookalikes are words that a careless key (a prefix, a length, a folded or
// trimmed copy, a weak hash) takes for each other, and where they stand.
var lookalikes = []struct {
	in    []string // templates
	words []string
}{
	{[]string{"CREATE TABLE t1 (x1 INTEGER DEFAULT %);", "CREATE TABLE t1 (x1 INTEGER, x2 INTEGER DEFAULT % NOT NULL);"},
		[]string{"12345678", "123456789", "12345678x", "123456780", "12345678901", "1234567x", "1e10", "1e10x", "123", "123x", "1", "1x", "-1", "-x", "'1'", "TRUE", "TRUEX", "true", "NULL", "NULLS"}},
	{[]string{"CREATE TABLE t1 (% INTEGER);", "CREATE TABLE % (x1 INTEGER);", "CREATE TABLE t1 (x1 INTEGER REFERENCES %(x1));", "CREATE TABLE t1 (x1 INTEGER, PRIMARY KEY (%));"},
		[]string{"order_id", "order_id2", "order_id-2", "Order_id", "order", "oxxer", "ordre", "orders", "user", "uter", "users", "group", "gxxup", "select", "selxct", "selects", "SELECT", "table", "tabke", "created_at", "created_a-b", "created_at_1", "created_at_2", "\"order\"", "`order`", "'order'", "x1", "1x", "check", "checks", "Aa", "BB", "AaBB", "BBAa"}},
	{[]string{"CREATE TABLE t1 (x1 %);", "CREATE TABLE t1 (x1 % NOT NULL, x2 INTEGER);", "CREATE TABLE t1 (x1 %(10));"},
		[]string{"INT", "INTEGER", "int", "Int", "INTEGERS", "TEXT", "TEXTS", "text", "VARCHAR", "VARCHARX", "TIMESTAMP", "TIMESTAMPTZ", "TIMESTAMPS", "NUMERIC", "NUMERICS", "DATE", "DATETIME", "BIT", "BIGINT", "SMALLINT", "REAL", "RAEL"}},
	{[]string{"CREATE TABLE t1 (x1 VARCHAR(%));", "CREATE TABLE t1 (x1 NUMERIC(10, %));", "CREATE TABLE t1 (x1 DECIMAL(%, 2), x2 INT);"},
		[]string{"1", "10", "100", "0", "-1", "1x", "01", "99999999999999999999", "1000000", "10000000", "10000000x", "'1'", "x"}},
}

// lookalike gives a maker of scripts that differ in one such word.
func lookalike(r *rt.Rng) func() string {
	c := &lookalikes[r.Intn(len(lookalikes))]
	t := c.in[r.Intn(len(c.in))]
	return func() string { return strings.ReplaceAll(t, "%", c.words[r.Intn(len(c.words))]) }
}

// docs fills a plan with n documents of a size class and gives each one's
// natural dialect.
func (w *world) docs(p *Plan, r *rt.Rng, n, max int, tiny bool) []int {
	var dial []int
	var family func() string
	if r.Chance(15) {
		family = lookalike(r)
	}
	for i := 0; i < n; i++ {
		d := r.Intn(3)
		var s string
		switch k := r.Intn(100); {
		case family != nil && k < 70:
			s = family()
		case i > 0 && k < 25: // near duplicate of an earlier one
			j := r.Intn(i)
			s, d = variant(r, p.Docs[j].Text()), dial[j]
			if r.Chance(30) {
				s = variant(r, s)
			}
		case i > 0 && k < 32: // two earlier ones together
			j := r.Intn(i)
			s, d = p.Docs[j].Text()+"\n"+p.Docs[r.Intn(i)].Text(), dial[j]
			if len(s) > max {
				s = tinyDoc(r)
			}
		case tiny:
			s = tinyDoc(r)
		case k < 45:
			s = string(damage(r, []byte(genScript(r, d, max).Text()), []byte(tinyDoc(r)), p.Faults))
		case k < 52:
			s = ambiguous(r)
		case k < 58 && max >= 400 && !p.Race, k < 64 && !p.Race && len(lex.Ints) > 0:
			s = bigScript(r, d).Text()
		case k < 60:
			s = []string{"", "\n", ";", "--", "CREATE", "(", "x", "CREATE TABLE", "/* c */", " "}[r.Intn(10)]
		default:
			s = genScript(r, d, max).Text()
		}
		if max >= 400 && !tiny && !p.Race && r.Chance(2) {
			s = pad(r, len(s)) + s
		}
		p.Add(s)
		dial = append(dial, d)
	}
	return dial
}

// fnFor picks an entry point: mostly the document's own dialect.
func fnFor(r *rt.Rng, d int) int {
	switch k := r.Intn(100); {
	case k < 40:
		return d
	case k < 60:
		return 3 + d
	case k < 75:
		return fnForce
	case k < 97:
		return r.Intn(6)
	}
	return fnUnknown
}

func env(r *rt.Rng) Env {
	e := Env{Map: r.Intn(3), Pool: []int{0, 0, 2, 1}[r.Intn(4)], Seed: r.Next()}
	if r.Chance(20) {
		e.Jump = clockJump(r)
	}
	return e
}

// plainEnv leaves the choices of C08 alone: nothing but the property's own
// dimension differs from the reference calls.
func plainEnv(r *rt.Rng) Env {
	e := env(r)
	e.Map = 0
	return e
}

// work estimates a phase's statements from the baselines.
func (w *world) work(p *Plan, ph *Phase) (total uint64, bad bool) {
	for _, ops := range ph.Tasks {
		for i := range ops {
			op := &ops[i]
			switch op.K {
			case opCall, opKeep:
				o := w.solo(op.F, p.Docs[op.D].Text())
				total += o.steps
			case opForce, opAll:
				n := uint64(len(p.Docs[op.D].Text()))
				total += 1500 * n
			case opRead:
				total += w.solo(op.F, p.Docs[op.D].Text()).steps / 2
			case opBatch:
				for _, d := range op.L {
					total += w.solo(op.F, p.Docs[d].Text()).steps
				}
			}
			total += 2
		}
	}
	return total, false
}

// sched picks a schedule for a phase.
func (w *world) sched(p *Plan, r *rt.Rng, ph *Phase) {
	total, _ := w.work(p, ph)
	s := &Sched{Seed: r.Next(), Total: total + 1}
	floor := int(total/15000) + 1 // keeps a run below some 15,000 switches
	means := []int{1, 3, 10, 40, 200, 1000, 5000, 30000}
	pick := func() int {
		for try := 0; try < 20; try++ {
			if m := means[r.Intn(len(means))]; m >= floor {
				return m
			}
		}
		return floor
	}
	switch k := r.Intn(100); {
	case k < 8:
		s.Policy = "serial"
	case k < 30:
		s.Policy, s.Mean = "random", pick()
	case k < 45:
		s.Policy, s.Mean = "mixed", pick()
	case k < 60:
		s.Policy, s.Depth = "pct", 1+r.Intn(5)
	case k < 72:
		s.Policy = "stall"
		if r.Chance(50) {
			s.Mean = pick()
		}
	case k < 80:
		s.Policy, s.Mean = "lockstep", pick()
	default:
		s.Policy = "break"
		hits := rt.SiteHits()
		for i := 1 + r.Intn(3); i > 0 && len(hits) > 0; i-- {
			s.Breaks = append(s.Breaks, hits[r.Intn(len(hits))])
		}
		if r.Chance(25) {
			s.Breaks = append(s.Breaks, 1) // synchronisation operations
		}
		if len(s.Breaks) > 3 {
			s.Breaks = s.Breaks[1:]
		}
	}
	if r.Chance(15) {
		s.Jumps = 1 + r.Intn(20)
	}
	ph.Sched = s
}

// ---- C01 ----------------------------------------------------------------------

func (w *world) planC01(p *Plan, r *rt.Rng) {
	tiny := r.Chance(45)
	max := []int{150, 400, 1200}[r.Intn(3)]
	if p.Race && max > 400 {
		max = 400
	}
	var n int
	switch k := r.Intn(100); {
	case k < 40:
		n = 2
	case k < 75:
		n = 3 + r.Intn(2)
	case k < 92:
		n = 5 + r.Intn(6)
	default:
		n, tiny = 11+r.Intn(40), true
	}
	if v, ok := lex.near(r, 10, 300); ok && v > 1 {
		n, tiny = v, true
	}
	dial := w.docs(p, r, 1+r.Intn(4), max, tiny)
	ph := Phase{Env: plainEnv(r)}
	sameDoc := r.Chance(25)
	sameFn := r.Chance(25)
	d0, f0 := r.Intn(len(dial)), 0
	f0 = fnFor(r, dial[d0])
	for i := 0; i < n; i++ {
		var ops []Op
		for k := 1 + r.Intn(3); k > 0; k-- {
			d := r.Intn(len(dial))
			if sameDoc {
				d = d0
			}
			f := fnFor(r, dial[d])
			if sameFn {
				f = f0
			}
			ops = append(ops, Op{K: opCall, F: f, D: d})
		}
		ph.Tasks = append(ph.Tasks, ops)
	}
	w.sched(p, r, &ph)
	p.Phases = []Phase{ph}
}

// ---- C02 ----------------------------------------------------------------------

func (w *world) planC02(p *Plan, r *rt.Rng) {
	var calls, nd, max int
	tiny := false
	switch k := r.Intn(1000); {
	case k < 400:
		calls, nd, max = 2+r.Intn(9), 1+r.Intn(4), 1500
	case k < 800:
		calls, nd, max, tiny = 20+r.Intn(150), 2+r.Intn(10), 200, r.Chance(60)
	case k < 992:
		calls, nd, max, tiny = 300+r.Intn(1500), 2+r.Intn(30), 60, true
	case k < 998:
		calls, nd, max, tiny = 2000+r.Intn(7000), 100+r.Intn(2500), 60, true
	default:
		calls, nd, max, tiny = 66000+r.Intn(2000), 12, 60, true
	}
	if v, ok := lex.near(r, 20, 10000); ok {
		calls, nd, max, tiny = v+1+r.Intn(20), 2+r.Intn(30), 60, true
		if r.Chance(30) {
			nd = 2 + r.Intn(min(v, 3000)+20)
		}
	}
	dial := w.docs(p, r, nd, max, tiny)
	if r.Chance(20) {
		// A long common prefix: what a cache with a cheap key confuses.
		pre := genScript(r, dial[0], 1500).Text() + "\n"
		for i := range dial {
			p.Docs[i] = plan.TextDoc(pre + p.Docs[i].Text())
		}
		if calls > 60 {
			calls = 60
		}
	}
	if nd > 100 { // mostly distinct scripts
		for i := 100; i < nd; i++ {
			p.Docs[i] = plan.TextDoc(strings.Replace(tinyDoc(r), "CREATE TABLE ", "CREATE TABLE t"+itoa(i)+"_", 1))
		}
	}
	fns := make([]int, nd)
	for i := range fns {
		fns[i] = fnFor(r, dial[i])
	}
	var ops []Op
	mode := r.Intn(5)
	cur := 0
	for i := 0; i < calls; i++ {
		d := r.Intn(nd)
		switch mode {
		case 1: // runs of the same document
			if r.Chance(15) {
				cur = d
			}
			d = cur
		case 2: // every document in turn, then again
			d = i % nd
		}
		f := fns[d]
		if r.Chance(20) || mode == 3 {
			f = fnFor(r, dial[d])
		}
		if mode == 4 && r.Chance(50) {
			f = r.Intn(7)
		}
		if calls > 20000 && i < calls-700 && i%8 != 0 && !near(i, 1000) && !near(i, 1024) {
			d = i % 4 // cheap, but not the same for every dialect
			f = i / 4 % 7
		}
		ops = append(ops, Op{K: opCall, F: f, D: d})
	}
	if calls > 20000 {
		cheap := []string{"#", "`", "create\n#", "x#\n", "", "--", "'", "\n#\n)", "CREATE `", "/* `"}
		for i := 0; i < 4; i++ {
			p.Docs[i] = plan.TextDoc(cheap[r.Intn(len(cheap))])
		}
	}
	sc := &Sched{Policy: "serial", Seed: r.Next(), Jumps: 1}
	if r.Chance(35) { // time passes in between
		sc = &Sched{Policy: "random", Mean: []int{2000, 20000, 200000}[r.Intn(3)], Seed: r.Next(), Jumps: []int{5, 50, 400}[r.Intn(3)]}
	}
	p.Phases = []Phase{{Env: env(r), Tasks: [][]Op{ops}, Sched: sc}}
	p.Faults["history-calls"] += calls
}

// near says whether i is next to a multiple of m.
func near(i, m int) bool { return (i+2)%m < 5 }

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// ---- C03 ----------------------------------------------------------------------

func (w *world) planC03(p *Plan, r *rt.Rng) {
	max := []int{200, 500, 1500}[r.Intn(3)]
	if p.Race {
		max = 300
	}
	nd := 1 + r.Intn(3)
	var dial []int
	for i := 0; i < nd; i++ {
		d := r.Intn(3)
		switch {
		case i > 0 && r.Chance(30):
			j := r.Intn(i)
			p.Add(variant(r, p.Docs[j].Text()))
			d = dial[j]
		case r.Chance(15):
			p.Add(ambiguous(r))
		case r.Chance(3) && !p.Race:
			p.Add(bigScript(r, d).Text())
		case r.Chance(18):
			p.Add(string(damage(r, []byte(genScript(r, d, max).Text()), []byte(tinyDoc(r)), p.Faults)))
		default:
			p.Add(genScript(r, d, max).Text())
		}
		dial = append(dial, d)
	}
	n := []int{1, 1, 1, 2, 2, 3}[r.Intn(6)]
	if p.Race {
		n = 2 + r.Intn(2)
	}
	ph := Phase{Env: plainEnv(r)}
	for i := 0; i < n; i++ {
		var ops []Op
		keeps := 0
		for k := 3 + r.Intn(14); k > 0; k-- {
			d := r.Intn(nd)
			f := fnFor(r, dial[d])
			switch q := r.Intn(100); {
			case q < 35 || keeps == 0:
				ops = append(ops, Op{K: opKeep, F: f, D: d})
				keeps++
			case q < 80:
				ops = append(ops, Op{K: opScrib, N: int(r.Next() >> 33)})
			case q < 90:
				ops = append(ops, Op{K: opCall, F: f, D: d})
			default:
				ops = append(ops, Op{K: opCheck})
			}
		}
		ops = append(ops, Op{K: opCheck})
		ph.Tasks = append(ph.Tasks, ops)
	}
	w.sched(p, r, &ph)
	p.Phases = []Phase{ph}
}

// ---- C04 ----------------------------------------------------------------------

func (w *world) planC04(p *Plan, r *rt.Rng) {
	ph := Phase{Env: plainEnv(r)}
	ph.Env.Sel = r.Intn(3)
	if p.Seed%hugeEvery == hugeEvery-1 { // a script of megabytes, little stack
		d, f := huge(int(p.Seed / hugeEvery))
		p.Docs, p.Stack = []*Doc{d}, hugeStack
		p.Faults["huge-script"]++
		ph.Tasks = [][]Op{{{K: opAll, F: f, D: 0}}}
		ph.Sched = &Sched{Policy: "serial", Seed: r.Next()}
		p.Phases = []Phase{ph}
		return
	}
	if p.Seed%hugeEvery == hugeEvery/2 { // more tokens than fit 16 bits
		d, f := large(int(p.Seed / hugeEvery))
		p.Docs = []*Doc{d}
		p.Faults["large-script"]++
		ph.Tasks = [][]Op{{{K: opAll, F: f, D: 0}}}
		ph.Sched = &Sched{Policy: "serial", Seed: r.Next()}
		p.Phases = []Phase{ph}
		return
	}
	max := []int{150, 500, 1500, 4000}[r.Intn(4)]
	d := r.Intn(3)
	switch k := r.Intn(100); {
	case k < 3: // the file ends where a buffer does
		var ops []Op
		for i := 1 + r.Intn(3); i > 0; i-- {
			text := genScript(r, d, 300).Text()
			te := tokenEnds([]byte(text))
			e := te[r.Intn(len(te))]
			ops = append(ops, Op{K: opAll, F: fnFor(r, d), D: p.Add(pad(r, e) + text[:e])})
			p.Faults["cut-block"]++
		}
		ph.Tasks = [][]Op{ops}
	case k < 25: // every token boundary of one script lost its tail
		text := genScript(r, d, 300).Text()
		f := []int{d, 3 + d, fnForce, r.Intn(8)}[r.Intn(4)]
		var ops []Op
		for _, e := range tokenEnds([]byte(text)) {
			ops = append(ops, Op{K: opAll, F: f, D: p.Add(text[:e])})
			p.Faults["cut-token"]++
		}
		ph.Tasks = [][]Op{ops}
	case k < 75: // many damaged versions, one process
		var ops []Op
		for i := 4 + r.Intn(16); i > 0; i-- {
			d := r.Intn(3)
			b := []byte(genScript(r, d, max).Text())
			if r.Chance(3) {
				b = []byte(bigScript(r, d).Text())
			}
			other := []byte(genScript(r, r.Intn(3), 300).Text())
			for j := []int{0, 1, 1, 1, 2, 4}[r.Intn(6)]; j > 0; j-- {
				b = damage(r, b, other, p.Faults)
			}
			ops = append(ops, Op{K: opAll, F: fnFor(r, d), D: p.Add(string(b))})
		}
		ph.Tasks = [][]Op{ops}
	case k < 83: // hostile shapes
		var ops []Op
		for i := 1 + r.Intn(4); i > 0; i-- {
			ops = append(ops, Op{K: opAll, F: r.Intn(8), D: p.Add(hostile(r))})
			p.Faults["hostile-shape"]++
		}
		ph.Tasks = [][]Op{ops}
	default: // next to other calls
		for i := 2 + r.Intn(4); i > 0; i-- {
			var ops []Op
			for k := 1 + r.Intn(4); k > 0; k-- {
				d := r.Intn(3)
				b := []byte(genScript(r, d, 300).Text())
				if r.Chance(60) {
					b = damage(r, b, []byte(tinyDoc(r)), p.Faults)
				}
				ops = append(ops, Op{K: opAll, F: fnFor(r, d), D: p.Add(string(b))})
			}
			ph.Tasks = append(ph.Tasks, ops)
		}
		if r.Chance(30) {
			ph.Tasks = append(ph.Tasks, []Op{{K: opAll, F: r.Intn(8), D: 0}})
		}
		w.sched(p, r, &ph)
		p.Phases = []Phase{ph}
		return
	}
	ph.Sched = &Sched{Policy: "serial", Seed: r.Next()}
	p.Phases = []Phase{ph}
}

// hostile gives what a stuck or looping writer leaves: one piece repeated.
func hostile(r *rt.Rng) string {
	n := 1 + r.Intn(400)
	if v, ok := lex.near(r, 40, 20000); ok {
		n = v
	}
	unit := []string{"(", ")", "'", "\"", "`", "--", "/*", "*/", "*", "/", ",", ".", ";", "\n", "#", "x1", "1", "(x1", "'\"", "\"`'", "x1,", "x1.", ", x1 INTEGER", "CHECK (", "DEFAULT ", "/*/", "\x00", "\xff", "é", "　", "BEGIN ", "REFERENCES x1.", "NOT NULL ", "CREATE "}[r.Intn(34)]
	heads := []string{"", "CREATE TABLE t1 (", "CREATE TABLE t1 (x1 INTEGER ", "CREATE TABLE t1 (x1 INTEGER CHECK (", "CREATE TABLE t1 (x1 INTEGER DEFAULT ", "CREATE TABLE t1 (x1 INTEGER, PRIMARY KEY (", "CREATE TABLE t1 (x1 INTEGER REFERENCES ", "CREATE VIEW ", "CREATE TABLE t1 (x1 INTEGER) ", "CREATE TRIGGER x BEGIN ",
		"CREATE TABLE t1 (x1 INTEGER, CHECK ", "CREATE TABLE t1 (x1 INTEGER DEFAULT (", "CREATE TABLE t1 (x1 INTEGER, KEY (", "CREATE TABLE t1 (x1 NUMERIC(", "CREATE TABLE t1 (x1 INTEGER, FOREIGN KEY (x1) REFERENCES x1 ", "CREATE TABLE t1 (x1 INTEGER GENERATED ALWAYS AS "}
	head := heads[r.Intn(len(heads))]
	if r.Chance(15) { // brackets that match
		return head + strings.Repeat("(", n) + "x1" + strings.Repeat(")", n) + []string{";", ");", "));", " STORED);"}[r.Intn(4)]
	}
	tails := []string{"", ";", ");", ")", " x1);", "\n", " INTEGER);", "));", "));\nCREATE TABLE t2 (x1 INTEGER);"}
	return head + strings.Repeat(unit, n) + tails[r.Intn(len(tails))]
}

// Scripts of megabytes must not exhaust the stack.  To keep them affordable both
// sides are scaled down by 64: goroutines have 16 MB of stack instead of Go's
// 1 GB, and the scripts are that much shorter.
const (
	hugeEvery = 1999
	hugeStack = 16_000_000
)

const col = "CREATE TABLE t1 (x1 INTEGER"

func run(f int, rs ...any) (*Doc, int) {
	d := &Doc{}
	for i := 0; i < len(rs); i += 2 {
		d.Runs = append(d.Runs, plan.Run{S: rs[i].(string), N: rs[i+1].(int)})
	}
	return d, f
}

// large scripts have over 65536 tokens, lines or characters of one kind, and
// their work is bounded like any other's.
func large(k int) (*Doc, int) {
	f := k / 8 % 3
	switch k % 8 {
	case 0:
		return run(f, col+", PRIMARY KEY (", 1, "x,", 33_500, "x));", 1)
	case 1:
		return run(f, "CREATE TABLE t (x REAL);", 7_400)
	case 2:
		return run(f, "\n", 66_000, col+");", 1)
	case 3:
		return run(f, col, 1, ",x REAL", 22_500, ");", 1)
	case 4:
		return run(f, col+" CHECK (", 1, "x.", 33_000, "x));", 1)
	case 5:
		return run(f, "CREATE VIEW v AS ", 1, "x,", 33_000, ";", 1, col+");", 1)
	case 6:
		return run(f, col+" DEFAULT '", 1, "x", 66_000, "');", 1)
	}
	return run(f, col+");--", 1, "x", 66_000, "\n/*", 1, "x\n", 33_000, "*/", 1, col+");", 1)
}

// pad gives a comment to put in front of a script so that its offset at falls
// on a boundary that code which works in blocks would have, or next to it.
func pad(r *rt.Rng, at int) string {
	b := []int{64, 100, 128, 256, 256, 500, 512, 512, 1000, 1024, 1024, 2048, 4096, 4096, 8192}[r.Intn(15)]
	if v, ok := lex.near(r, 40, 70000); ok {
		b = v
	} else if r.Chance(4) {
		b = []int{10000, 16384, 32768, 65536}[r.Intn(4)]
	}
	n := b*[]int{1, 1, 1, 2, 3}[r.Intn(5)] + []int{0, 0, 0, 0, 1, -1}[r.Intn(6)] - at
	for n < 4 {
		n += b
	}
	if r.Chance(30) {
		return "/*" + strings.Repeat("x", n-4) + "*/"
	}
	return "--" + strings.Repeat("x", n-3) + "\n"
}

func huge(k int) (*Doc, int) {
	f := k / 20 % 3
	switch k % 20 {
	case 0:
		return run(f, col+" CHECK (", 1, "(", 75_000)
	case 1:
		return run(f, col+" CHECK ", 1, "(", 75_000, "x1", 1, ")", 75_000, ");", 1)
	case 2:
		return run(f, col+" DEFAULT ", 1, "'\"", 75_000)
	case 3:
		return run(f, "/*", 150_000, "*/", 1)
	case 4:
		return run(2, col+", KEY (", 1, "x1,", 125_000, "x1));", 1)
	case 5:
		return run(f, col+", PRIMARY KEY (", 1, "x1,", 200_000, "x1));", 1)
	case 6:
		return run(f, col+");", 50_000)
	case 7:
		return run(f, col, 1, ", x1 INTEGER", 15_000, ");", 1)
	case 8:
		return run(f, col, 1, ", CONSTRAINT x2 CHECK (x1 > 0)", 10_000, ");", 1)
	case 9:
		return run(f, "\n", 300_000, col+");", 1)
	case 10:
		return run(f, col, 1, " ", 300_000, ");", 1)
	case 11:
		return run(f, "CREATE VIEW x1;", 30_000)
	case 12:
		return run(2, col+") ", 1, "COMMENT='x' ", 10_000, ";", 1)
	case 13:
		return run(f, col+" DEFAULT ", 1, "''", 75_000, ");", 1)
	case 14:
		return run(f, "CREATE VIEW v1 AS ", 1, "x ", 150_000, ";", 1)
	case 15:
		return run(0, "CREATE TRIGGER v1 BEGIN ", 1, "x; ", 75_000, "END;", 1)
	case 16:
		return run(f, col, 1, ", FOREIGN KEY (x1) REFERENCES x2(x1)", 10_000, ");", 1)
	case 17:
		return run(2, "# x\n", 75_000, col+");", 1)
	case 18:
		return run(f, col+" CHECK (", 1, "x.", 75_000, "x));", 1)
	}
	return run(f, "-- x\n/* x */", 75_000, col+");", 1)
}

// ---- C05 ----------------------------------------------------------------------

func (w *world) planC05(p *Plan, r *rt.Rng) {
	d := r.Intn(3)
	f := d
	if r.Chance(40) {
		f += 3
	}
	if r.Chance(45) {
		// A reader polls while the writer appends byte by byte: every cut.
		s := genScript(r, d, 350)
		p.Docs = []*Doc{scriptDoc(s)}
		n := len(p.Docs[0].Text())
		ops := []Op{{K: opRead, F: f}}
		for i := 0; i < n; i++ {
			ops = append(ops, Op{K: opWrite, N: 1}, Op{K: opRead, F: f})
		}
		p.Phases = []Phase{{Env: plainEnv(r), Tasks: [][]Op{ops}, Sched: &Sched{Policy: "serial", Seed: r.Next()}}}
		return
	}
	if r.Chance(10) {
		// The file system keeps whole blocks: cuts where a block ends.
		sc := genScript(r, d, 350)
		ends := sc.Ends()
		e := ends[r.Intn(len(ends))] - r.Intn(2)
		if r.Chance(40) {
			te := tokenEnds([]byte(sc.Text()))
			e = te[r.Intn(len(te))]
		}
		front := pad(r, e)
		sc.Lead = front + sc.Lead
		e += len(front)
		p.Docs = []*Doc{scriptDoc(sc)}
		p.Faults["cut-block"]++
		read := Op{K: opRead, F: f}
		ops := []Op{{K: opWrite, N: e - 1}, read, {K: opWrite, N: 1}, read, {K: opWrite, N: 1}, read}
		if n := len(p.Docs[0].Text()) - e - 1; n > 0 {
			ops = append(ops, Op{K: opWrite, N: n}, read)
		}
		p.Phases = []Phase{{Env: plainEnv(r), Tasks: [][]Op{ops}, Sched: &Sched{Policy: "serial", Seed: r.Next()}}}
		return
	}
	max := []int{400, 1200, 4000}[r.Intn(3)]
	p.Docs = []*Doc{scriptDoc(genScript(r, d, max))}
	if r.Chance(6) {
		p.Docs = []*Doc{scriptDoc(bigScript(r, d))}
	}
	n := len(p.Docs[0].Text())
	chunk := []int{1 + n/3, 1 + n/10, 64, 16, 512, 4096}[r.Intn(6)]
	if chunk < 1+n/40 {
		chunk = 1 + n/40
	}
	back := []int{20, 60, 100}[r.Intn(3)]
	writer := func(from int) []Op {
		var ops []Op
		for at := from; at < n; {
			k := 1 + r.Intn(2*chunk)
			if r.Chance(20) { // up to the next token boundary
				te := tokenEnds([]byte(p.Docs[0].Text()[at:]))
				k = te[r.Intn(len(te))]
				if k == 0 {
					k = 1
				}
			}
			ops = append(ops, Op{K: opWrite, N: k})
			at += k
			if r.Chance(back) { // read back
				ops = append(ops, Op{K: opRead, F: f})
			}
			if r.Chance(25) {
				ops = append(ops, Op{K: opSync})
			}
		}
		return append(ops, Op{K: opSync}, Op{K: opRead, F: f})
	}
	reader := func(k int) []Op {
		var ops []Op
		for ; k > 0; k-- {
			ops = append(ops, Op{K: opRead, F: f})
		}
		return ops
	}
	cycles := 1 + r.Intn(4)
	for c := 0; c < cycles; c++ {
		ph := Phase{Env: plainEnv(r)}
		if c > 0 {
			// Recovery: read what survived before anything else.
			ph.Tasks = append(ph.Tasks, append(reader(1), writer(0)...))
		} else {
			ph.Tasks = append(ph.Tasks, writer(0))
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			ph.Tasks = append(ph.Tasks, reader(2+r.Intn(8)))
		}
		w.sched(p, r, &ph)
		if c < cycles-1 {
			ph.Crash = 1 + r.Next()%ph.Sched.Total
			ph.Torn = r.Intn(1001)
		}
		p.Phases = append(p.Phases, ph)
	}
}

// ---- C06 ----------------------------------------------------------------------

func (w *world) planC06(p *Plan, r *rt.Rng) {
	n := []int{1, 1, 2, 3}[r.Intn(4)]
	ph := Phase{Env: plainEnv(r)}
	max := []int{150, 500, 1500}[r.Intn(3)]
	nd := 2 + r.Intn(6)
	var dial []int
	for i := 0; i < nd; i++ {
		d := r.Intn(3)
		s := ""
		switch k := r.Intn(100); {
		case k < 30:
			s = genScript(r, d, max).Text()
		case k < 60:
			s = ambiguous(r)
			if r.Chance(40) {
				s += "\n" + ambiguous(r)
			}
		case k < 75:
			s = string(damage(r, []byte(ambiguous(r)), []byte(tinyDoc(r)), p.Faults))
		case k < 85: // accepted statements, then one that some dialects reject
			s = tinyDoc(r) + "\n" + genScript(r, d, max).Text()
		case k < 92:
			s = tinyDoc(r)
		case k < 93 && max >= 500:
			s = bigScript(r, d).Text()
		case k < 94 && max >= 500: // large, and accepted by several
			least := []int{1100, 2100, 4200, 8300, 16500}[r.Intn(5)]
			if v, ok := lex.near(r, 50, 70_000); ok {
				least = v + 1
			} else if r.Chance(3) {
				least = 66_000
			}
			for len(s) < least {
				one := ambiguous(r) + "\n"
				s += strings.Repeat(one, 1+r.Intn(1+least/len(one)))
			}
		case k < 96:
			s = []string{"", "\n", ";", "--", "CREATE", "x", "/* c", "# c", "# c\n", "'"}[r.Intn(10)]
		default:
			s = string(damage(r, []byte(genScript(r, d, max).Text()), []byte(tinyDoc(r)), p.Faults))
		}
		p.Add(s)
		dial = append(dial, d)
	}
	// Streaks: the same script, or scripts of one dialect, many times in a row,
	// then the others.  What was accepted (or rejected) lately must not matter.
	streak := r.Chance(25)
	for i := 0; i < n; i++ {
		var ops []Op
		if streak {
			long := []int{2, 3, 4, 5, 8, 16, 17, 40}[r.Intn(8)]
			if max == 150 && n == 1 && r.Chance(10) {
				long = []int{64, 100, 130, 260}[r.Intn(4)]
			}
			if v, ok := lex.near(r, 40, 300); ok {
				long = v
			}
			one := []string{
				"CREATE TABLE t1 (x1 JSONB);",
				"CREATE TABLE t1 (x1 SERIAL);",
				"CREATE TABLE `t1` (x1 INT);",
				"CREATE TABLE t1 (x1 DATETIME) ENGINE=InnoDB;",
				"CREATE TABLE t1 (x1);",
				"CREATE TABLE t1 (x1 INTEGER PRIMARY KEY AUTOINCREMENT);",
				"CREATE TABLE t1 (",
				"CREATE TABLE t1 (x1 INTEGER);",
			}[r.Intn(8)]
			p.Add(one)
			cheap := len(p.Docs) - 1
			for l := 1 + r.Intn(3); l > 0; l-- {
				for k := 0; k < long; k++ {
					ops = append(ops, Op{K: opForce, D: cheap})
				}
				d := r.Intn(nd)
				ops = append(ops, Op{K: opForce, D: d})
				if r.Chance(50) {
					ops = append(ops, Op{K: opForce, D: r.Intn(nd)})
				}
			}
		}
		for k := 3 + r.Intn(10); k > 0; k-- {
			d := r.Intn(nd)
			if r.Chance(75) {
				ops = append(ops, Op{K: opForce, D: d})
			} else {
				ops = append(ops, Op{K: opCall, F: r.Intn(6), D: d})
			}
		}
		ph.Tasks = append(ph.Tasks, ops)
	}
	w.sched(p, r, &ph)
	p.Phases = []Phase{ph}
}

// ---- C07 ----------------------------------------------------------------------

func (w *world) planC07(p *Plan, r *rt.Rng) {
	d := r.Intn(3)
	f := d
	if r.Chance(30) {
		f += 3
	}
	// The migration log.
	n := 2 + r.Intn(8)
	max := []int{100, 300, 800}[r.Intn(3)]
	for i := 0; i < n; i++ {
		switch k := r.Intn(100); {
		case k < 43:
			p.Add(genScript(r, d, max).Text())
		case k < 45 && max >= 300:
			p.Add(bigScript(r, d).Text())
		case k < 70:
			g := newGen(r, d)
			if g.size > 1 {
				g.size = 1
			}
			st, _ := g.stmt()
			p.Add(st)
		case k < 78:
			g := newGen(r, d)
			p.Add(g.comment())
		case k < 84: // ends inside a line comment
			g := newGen(r, d)
			st, _ := g.stmt()
			p.Add(st + " -- end")
		case k < 90:
			p.Add([]string{"", "\n", " ", "-- only", "/* x */", "\n\n", "\t", "/* a\nb */", "--", "/**/"}[r.Intn(10)])
		case i > 0:
			p.Add(variant(r, p.Docs[r.Intn(i)].Text()))
		default:
			p.Add(tinyDoc(r))
		}
	}
	if r.Chance(4) { // one piece ends where a block does
		i := r.Intn(n)
		at := 0
		for j := 0; j <= i; j++ {
			at += len(p.Docs[j].Text())
			if j < i {
				at++
			}
		}
		p.Docs[0] = plan.TextDoc(pad(r, at) + p.Docs[0].Text())
		whole := Op{K: opBatch, F: f}
		for j := range p.Docs {
			whole.L = append(whole.L, j)
		}
		p.Faults["block-end"]++
		p.Phases = []Phase{{Env: plainEnv(r), Tasks: [][]Op{{whole}}, Sched: &Sched{Policy: "serial", Seed: r.Next()}}}
		return
	}
	v, lexed := lex.near(r, 4, 4200)
	if k := r.Intn(6000); k < 10 || lexed { // a long log, delivered as a whole
		for i := range p.Docs {
			p.Docs[i] = plan.TextDoc(shortStmt(r, d))
		}
		many := []int{300, 300, 600, 1100, 1100, 2100, 4200}[r.Intn(7)]
		if k == 0 {
			many = 10500
		}
		if lexed {
			many = v + 1
		}
		op := Op{K: opBatch, F: f, J: r.Intn(2)}
		for i := 0; i < many; i++ {
			op.L = append(op.L, r.Intn(n))
		}
		p.Faults["long-log"]++
		p.Phases = []Phase{{Env: plainEnv(r), Tasks: [][]Op{{op}}, Sched: &Sched{Policy: "serial", Seed: r.Next()}}}
		return
	}
	// Delivery: cut into batches, with the queue's faults.
	deliver := func() []Op {
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		if r.Chance(40) {
			for k := 1 + r.Intn(3); k > 0; k-- {
				i, j := r.Intn(n), r.Intn(n)
				order[i], order[j] = order[j], order[i]
				p.Faults["reordered"]++
			}
		}
		for r.Chance(45) {
			order = append(order, order[r.Intn(len(order))])
			p.Faults["duplicated"]++
		}
		if r.Chance(30) {
			// One after the other, the classic redelivery.
			i := r.Intn(len(order))
			order = append(order[:i+1], order[i:]...)
			p.Faults["duplicated"]++
		}
		if r.Chance(20) && len(order) > 1 {
			i := r.Intn(len(order))
			order = append(order[:i], order[i+1:]...)
			p.Faults["lost"]++
		}
		var ops []Op
		for len(order) > 0 {
			k := 1 + r.Intn(len(order))
			l := append([]int(nil), order[:k]...)
			order = order[k:]
			ops = append(ops, Op{K: opBatch, F: f, L: l, J: []int{0, 0, 0, 1, 3}[r.Intn(5)]})
			p.Faults["batches"]++
		}
		return ops
	}
	ph := Phase{Env: plainEnv(r)}
	nt := []int{1, 1, 1, 2, 3}[r.Intn(5)]
	for i := 0; i < nt; i++ {
		ops := deliver()
		if r.Chance(40) {
			ops = append(ops, deliver()...)
		}
		ph.Tasks = append(ph.Tasks, ops)
	}
	w.sched(p, r, &ph)
	p.Phases = []Phase{ph}
	if r.Chance(25) { // the consumer dies and everything is delivered again
		p.Phases[0].Crash = 1 + r.Next()%ph.Sched.Total
		ph2 := Phase{Env: plainEnv(r), Tasks: ph.Tasks}
		w.sched(p, r, &ph2)
		p.Phases = append(p.Phases, ph2)
		p.Faults["redelivered"]++
	}
}

// shortStmt gives a small statement.
func shortStmt(r *rt.Rng, d int) string {
	best := ""
	for i := 0; i < 6; i++ {
		g := newGen(r, d)
		g.size = 0
		if s, _ := g.stmt(); best == "" || len(s) < len(best) {
			best = s
		}
	}
	return best
}

// ---- C08 ----------------------------------------------------------------------

func (w *world) planC08(p *Plan, r *rt.Rng) {
	max := []int{150, 500, 1500}[r.Intn(3)]
	if p.Race {
		max = 300
	}
	nd := 1 + r.Intn(3)
	dial := w.docs(p, r, nd, max, false)
	fns := make([]int, nd)
	for i := range fns {
		fns[i] = fnFor(r, dial[i])
	}
	for k := 2 + r.Intn(3); k > 0; k-- {
		e := Env{Map: r.Intn(3), Sel: r.Intn(3), Pool: r.Intn(3), Seed: r.Next()}
		if r.Chance(60) {
			e.Jump = clockJump(r)
		}
		if r.Chance(60) {
			e.Host = r.Next()
			p.Faults["other-host"]++
		}
		ph := Phase{Env: e}
		nt := []int{1, 1, 1, 2}[r.Intn(4)]
		if p.Race { // races between callers are C01's
			nt = 1
		}
		for t := nt; t > 0; t-- {
			var ops []Op
			for c := 1 + r.Intn(4); c > 0; c-- {
				d := r.Intn(nd)
				ops = append(ops, Op{K: opCall, F: fns[d], D: d})
			}
			ph.Tasks = append(ph.Tasks, ops)
		}
		w.sched(p, r, &ph)
		if r.Chance(50) {
			ph.Sched.Jumps = 1 + r.Intn(60)
		}
		if r.Chance(4) {
			ph.Sched.GCs = 1 + r.Intn(4)
			p.Faults["gc"]++
		}
		if k > 1 && r.Chance(30) {
			ph.Crash = 1 + r.Next()%ph.Sched.Total
		}
		p.Phases = append(p.Phases, ph)
	}
}

package harness

import (
	"bytes"
	"fmt"
	"log"
	"log/slog"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"verifsim/rt"
)

// C16: what the calls do to the process and the host besides returning.

// surroundings is what they could alter.
type surroundings struct {
	out       [2]int64 // what has been written to the standard outputs
	files     [3]*os.File
	args      string
	logFlags  int
	logPrefix string
	logWriter any
	slog      *slog.Logger
	zone      *time.Location
	env, wd   string
	gc, procs int
	sim       string // what the simulator did in place of the host
}

func look() *surroundings {
	s := &surroundings{files: [3]*os.File{os.Stdin, os.Stdout, os.Stderr}, args: strings.Join(os.Args, "\x00"), logFlags: log.Flags(), logPrefix: log.Prefix(),
		logWriter: log.Writer(), slog: slog.Default(), zone: time.Local, env: strings.Join(os.Environ(), "\x00"), procs: runtime.GOMAXPROCS(0), sim: rt.State()}
	s.wd, _ = os.Getwd()
	for i := range s.out {
		var st syscall.Stat_t
		if syscall.Fstat(i+1, &st) == nil && st.Mode&syscall.S_IFMT == syscall.S_IFREG {
			s.out[i] = st.Size
		}
	}
	s.gc = debug.SetGCPercent(100)
	debug.SetGCPercent(s.gc)
	return s
}

// since says what became different from a to b; "" if nothing.
func (b *surroundings) since(a *surroundings) string {
	var d []string
	add := func(diff bool, f string, x ...any) {
		if diff {
			d = append(d, fmt.Sprintf(f, x...))
		}
	}
	for i := range b.out {
		if b.out[i] != a.out[i] {
			d = append(d, fmt.Sprintf("printed: %q", tailOf(i+1, a.out[i], b.out[i])))
			break // both may be the same file
		}
	}
	add(a.files != b.files, "os.Stdin, os.Stdout or os.Stderr replaced")
	add(a.args != b.args, "os.Args changed")
	add(a.logFlags != b.logFlags, "log flags %d changed to %d", a.logFlags, b.logFlags)
	add(a.logPrefix != b.logPrefix, "log prefix %q changed to %q", a.logPrefix, b.logPrefix)
	add(a.logWriter != b.logWriter, "log output redirected")
	add(a.slog != b.slog, "slog.Default replaced")
	add(a.zone != b.zone, "time.Local replaced by %v", b.zone)
	add(a.env != b.env, "environment variables changed")
	add(a.wd != b.wd, "working directory changed to %s", b.wd)
	add(a.gc != b.gc, "GC percentage changed")
	add(a.procs != b.procs, "GOMAXPROCS changed")
	if a.sim != b.sim {
		d = append(d, fmt.Sprintf("host: before [%s], after [%s]", a.sim, b.sim))
	}
	return strings.Join(d, "; ")
}

// restore undoes what can be undone, for the runs to come.
func (a *surroundings) restore() {
	os.Stdin, os.Stdout, os.Stderr = a.files[0], a.files[1], a.files[2]
	log.SetFlags(a.logFlags)
	log.SetPrefix(a.logPrefix)
}

func tailOf(fd int, from, to int64) string {
	b := make([]byte, min(to-from, 200))
	n, _ := syscall.Pread(fd, b, from)
	if n < 0 {
		n = 0
	}
	return string(bytes.TrimRight(b[:n], "\x00"))
}

// lent is a script that a call was given.
type lent struct {
	own, want string
	fn, doc   int
}

// plain makes one call of C16.
func (w *world) plain(p *Plan, s *taskState, op *Op) {
	text := p.Docs[op.D].Text()
	l := lent{own: strings.Clone(text), want: text, fn: op.F, doc: op.D}
	o := bare(op.F, l.own)
	s.count(o)
	if o.bad != "" {
		s.notes["call-failed"]++
	}
	if l.own != l.want {
		s.fail("effect", "%s doc %d: the caller's script was altered: %s", fnNames[op.F], op.D, diff(l.want, l.own))
		return
	}
	if len(s.lent) < 50 && len(text) < 100_000 {
		s.lent = append(s.lent, l)
	}
}

// noEffect is the check at the end of a phase.
func (w *world) noEffect(ts []*taskState, before *surroundings) *Viol {
	for _, s := range ts {
		for _, l := range s.lent {
			if l.own != l.want {
				return &Viol{Class: "effect", Detail: fmt.Sprintf("%s doc %d: the caller's script was altered after the call: %s", fnNames[l.fn], l.doc, diff(l.want, l.own)), Task: s.id, Op: s.op}
			}
		}
	}
	if d := look().since(before); d != "" {
		before.restore()
		return &Viol{Class: "effect", Detail: d}
	}
	return nil
}

// planC16 takes the histories of the other properties, for what they do to their
// surroundings.
func (w *world) planC16(p *Plan, r *rt.Rng) {
	for {
		switch k := r.Intn(100); {
		case k < 25:
			w.planC01(p, r)
		case k < 45:
			w.planC02(p, r)
		case k < 65:
			w.planC04(p, r)
		case k < 75:
			w.planC06(p, r)
		case k < 85:
			w.planC07(p, r)
		default:
			w.planC08(p, r)
		}
		if p.Stack == 0 {
			break
		}
		*p = Plan{Prop: p.Prop, Seed: p.Seed, Race: p.Race, Faults: map[string]int{}}
	}
	for i := range p.Phases {
		ph := &p.Phases[i]
		if i == 0 && ph.Env.Host == 0 && r.Chance(25) {
			ph.Env = env(r)
		}
		for j, ops := range ph.Tasks {
			var res []Op
			for _, op := range ops {
				switch op.K {
				case opCall, opKeep, opAll, opRead:
					res = append(res, Op{K: opPlain, F: op.F, D: op.D})
				case opForce:
					res = append(res, Op{K: opPlain, F: fnForce, D: op.D})
				case opBatch:
					for _, d := range op.L {
						res = append(res, Op{K: opPlain, F: op.F, D: d})
					}
				default:
					res = append(res, Op{K: opPause})
				}
			}
			ph.Tasks[j] = res
		}
	}
}

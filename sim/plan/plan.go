// Package plan describes one simulated run, completely: what every caller does,
// which faults happen when, and (for replay) every scheduling decision.
package plan

import (
	"encoding/json"
	"unicode/utf8"

	"verifsim/rt"
)

// Doc is one script.  Scripts with statement boundaries (C05) keep their parts.
type Doc struct {
	T     string `json:"t,omitempty"`
	B     []byte `json:"b,omitempty"` // not valid UTF-8
	Lead  string `json:"lead,omitempty"`
	Parts []Part `json:"parts,omitempty"`
	Runs  []Run  `json:"runs,omitempty"` // a huge script, written down in short
	text  string
	have  bool
}

type Part struct {
	S   string `json:"s"`
	Sep string `json:"sep,omitempty"`
	Tab bool   `json:"tab,omitempty"`
}

// Run is a piece that occurs N times in a row.
type Run struct {
	S string `json:"s"`
	N int    `json:"n"`
}

func TextDoc(s string) *Doc {
	if utf8.ValidString(s) {
		return &Doc{T: s}
	}
	return &Doc{B: []byte(s)}
}

func (d *Doc) Text() string {
	if !d.have {
		switch {
		case d.B != nil:
			d.text = string(d.B)
		case d.Parts != nil:
			b := []byte(d.Lead)
			for _, p := range d.Parts {
				b = append(append(b, p.S...), p.Sep...)
			}
			d.text = string(b)
		case d.Runs != nil:
			var b []byte
			for _, r := range d.Runs {
				for i := 0; i < r.N; i++ {
					b = append(b, r.S...)
				}
			}
			d.text = string(b)
		default:
			d.text = d.T
		}
		d.have = true
	}
	return d.text
}

// Complete gives the number of statements and tables complete in a prefix of n
// bytes, and whether the prefix ends exactly with a statement's semicolon.
func (d *Doc) Complete(n int) (tabs int, exact bool) {
	at := len(d.Lead)
	for _, p := range d.Parts {
		at += len(p.S)
		if at > n {
			return tabs, exact
		}
		if p.Tab {
			tabs++
		}
		exact = at == n
		at += len(p.Sep)
	}
	return tabs, exact
}

// Operations of a simulated caller.
const (
	OpCall  = "call"  // F on D; outcome must equal the call run alone in a fresh process
	OpKeep  = "keep"  // as call, and hold on to the result
	OpCheck = "check" // every held result must be what it was
	OpScrib = "scrib" // write to a held result (N chooses where); all else must stay
	OpAll   = "total" // F on D; must return in bounded work, in one of the two shapes (C04)
	OpForce = "force" // ParseForce on D against the composition of single-dialect calls (C06)
	OpWrite = "write" // append N bytes of the script to the simulated file
	OpSync  = "sync"  // make the file durable
	OpRead  = "read"  // F on what the file shows now (C05)
	OpBatch = "batch" // F on the documents L joined by line breaks (C07)
	OpGrow  = "grow"  // calls without end on ever new scripts made from L; what the process keeps must not grow (C14)
	OpQuick = "quick" // F on D while others are busy; must not wait for them (C15)
	OpBusy  = "busy"  // F on D, N times; only keeps the process busy
	OpPlain = "plain" // F on a copy of D, which must stay as it is; nothing else may change either (C16)
	OpPause = "pause" // only a scheduling point
)

type Op struct {
	K string `json:"k"`
	F int    `json:"f,omitempty"`
	D int    `json:"d,omitempty"`
	N int    `json:"n,omitempty"`
	L []int  `json:"l,omitempty"`
	J int    `json:"j,omitempty"` // number of extra line breaks between batch items
}

type Phase struct {
	Tasks     [][]Op        `json:"tasks"`
	Crash     uint64        `json:"crash,omitempty"` // kill the process after this many statements
	Torn      int           `json:"torn,omitempty"`  // per mille of unsynced bytes that survive the crash
	Env       Env           `json:"env"`
	Sched     *Sched        `json:"sched,omitempty"`
	Decisions []rt.Decision `json:"decisions,omitempty"` // explicit schedule (replay)
	Fixed     bool          `json:"fixed,omitempty"`     // use Decisions
}

// Fair: the property itself is about callers that take turns (C15); the schedule
// stays what it is.
func (p *Phase) Fair() bool { return p.Sched != nil && p.Sched.Policy == "fair" }

type Env struct {
	Map  int    `json:"map,omitempty"`
	Sel  int    `json:"sel,omitempty"`
	Pool int    `json:"pool,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	Jump int64  `json:"jump,omitempty"` // clock advance before the phase, ns
	Host uint64 `json:"host,omitempty"` // which host the process runs on (environment variables, CPUs, ...); 0: the reference host
}

type Sched struct {
	Policy string   `json:"policy"`
	Seed   uint64   `json:"seed"`
	Mean   int      `json:"mean,omitempty"`
	Depth  int      `json:"depth,omitempty"`
	Total  uint64   `json:"total,omitempty"`
	Breaks []uint32 `json:"breaks,omitempty"`
	Jumps  int      `json:"jumps,omitempty"` // per mille of decisions that let time pass
	GCs    int      `json:"gcs,omitempty"`   // collections
}

// Plan is one simulated run.
type Plan struct {
	Prop   string         `json:"property"`
	Seed   uint64         `json:"seed"`
	Race   bool           `json:"race,omitempty"`
	Docs   []*Doc         `json:"docs"`
	Stack  int            `json:"max_stack,omitempty"` // bytes of stack a goroutine may use; 0: Go's default
	Phases []Phase        `json:"phases"`
	Viol   *Viol          `json:"violation,omitempty"`
	Faults map[string]int `json:"-"`
}

// Viol says what went wrong.
type Viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Phase  int    `json:"phase"`
	Task   int    `json:"task"`
	Op     int    `json:"op"`
	N      int    `json:"n,omitempty"`
}

func (p *Plan) Clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

// Add appends a script and gives its index.
func (p *Plan) Add(s string) int {
	p.Docs = append(p.Docs, TextDoc(s))
	return len(p.Docs) - 1
}

// Uses says whether an operation refers to its D field.
func (o *Op) Uses() bool {
	switch o.K {
	case OpCheck, OpScrib, OpBatch, OpPause, OpGrow:
		return false
	}
	return true
}

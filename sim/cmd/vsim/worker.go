package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verifsim/plan"
	"verifsim/rt"
)

// Job and Summary mirror the worker's side (_harness/main_test.go).
type Job struct {
	Prop     string `json:"prop"`
	Start    uint64 `json:"start"`
	Stride   uint64 `json:"stride"`
	Count    int    `json:"count"`
	Seconds  int    `json:"seconds"`
	Race     bool   `json:"race"`
	Plan     string `json:"plan"`
	Log      string `json:"log"`
	Mark     string `json:"mark"`
	Out      string `json:"out"`
	Traces   string `json:"traces"`
	Viol     string `json:"viol"`
	Hashes   string `json:"hashes"`
	Sites    string `json:"sites"`
	Samples  int    `json:"samples"`
	ShowPlan string `json:"showplan"`
}

type Stats struct {
	Runs      int            `json:"runs"`
	Baselines int            `json:"baselines"`
	Calls     int            `json:"calls"`
	Accepted  int            `json:"accepted"`
	Rejected  int            `json:"rejected"`
	Decisions int            `json:"decisions"`
	Switches  int            `json:"switches"`
	Steps     uint64         `json:"steps"`
	SimS      float64        `json:"sim_s"`
	MultiTask int            `json:"multi_task_phases"`
	Phases    int            `json:"phases"`
	Faults    map[string]int `json:"faults"`
	Policies  map[string]int `json:"policies"`
	Probe     rt.Probe       `json:"probe"`
	SitesHit  int            `json:"sites_hit"`
	Pairs     int            `json:"pairs"`
	Foreign   int            `json:"foreign"`
	MaxRatio  float64        `json:"max_steps_over_budget"`
}

type Summary struct {
	Stats   *Stats     `json:"stats"`
	Done    bool       `json:"done"`
	Next    uint64     `json:"next"`
	Secs    float64    `json:"secs"`
	Samples []string   `json:"samples"`
	Viol    *plan.Viol `json:"viol,omitempty"`
}

const (
	exitViolation = 10
	exitRace      = 66
)

// result of one worker process.
type result struct {
	code    int
	killed  bool // ran into the watchdog
	stopped bool // no longer needed
	out     string
	sum     *Summary
	seed    uint64
	dir     string
}

// work runs one worker process.
func work(ctx context.Context, b *Built, dir string, job Job, limit time.Duration) (*result, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	job.Sites = b.Sites
	job.Out = filepath.Join(dir, "out.json")
	job.Mark = filepath.Join(dir, "mark")
	os.Remove(job.Out)
	os.Remove(job.Mark)
	jp := filepath.Join(dir, "job.json")
	jb, _ := json.Marshal(job)
	if err := os.WriteFile(jp, jb, 0o644); err != nil {
		return nil, err
	}
	stop := ctx
	ctx, cancel := context.WithTimeout(ctx, limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.Bin, "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = []string{"VSIM_JOB=" + jp, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single",
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3", "HOME=" + dir, "PATH=/usr/bin:/bin", "TZ=UTC", "GOMEMLIMIT=3GiB"}
	var buf bytes.Buffer
	w := &limited{b: &buf, max: 1 << 20}
	cmd.Stdout, cmd.Stderr = w, w
	if job.Prop == "C16" { // the worker looks at what comes out of it
		f, err := os.Create(filepath.Join(dir, "output"))
		if err != nil {
			return nil, err
		}
		defer f.Close()
		cmd.Stdout, cmd.Stderr = f, f
	}
	err := cmd.Run()
	if f, ok := cmd.Stdout.(*os.File); ok {
		b := make([]byte, 1<<20)
		n, _ := f.ReadAt(b, 0)
		buf.Write(b[:n])
	}
	r := &result{out: buf.String(), dir: dir}
	var ee *exec.ExitError
	switch {
	case stop.Err() != nil:
		r.stopped, r.code = true, -1
	case ctx.Err() != nil:
		r.killed, r.code = true, -1
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
	case err != nil:
		return nil, err
	}
	if sb, err := os.ReadFile(job.Out); err == nil {
		r.sum = &Summary{}
		if err := json.Unmarshal(sb, r.sum); err != nil {
			return nil, err
		}
	}
	if mb, err := os.ReadFile(job.Mark); err == nil {
		r.seed, _ = strconv.ParseUint(strings.TrimSpace(string(mb)), 10, 64)
	}
	return r, nil
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if n := l.max - l.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		l.b.Write(p[:n])
	}
	return len(p), nil
}

// verdict classifies how a worker ended: "" (fine), a violation class, or an
// error of the machinery.
func (r *result) verdict(module string) (class, detail string, err error) {
	switch {
	case r.killed:
		return "", "", fmt.Errorf("watchdog: worker did not finish (seed %d)", r.seed)
	case r.code == 0 && r.sum != nil:
		return "", "", nil
	case r.code == exitViolation:
		if r.sum == nil || r.sum.Viol == nil {
			return "", "", fmt.Errorf("worker reported a violation without details:\n%s", tail(r.out, 2000))
		}
		return r.sum.Viol.Class, r.sum.Viol.Detail, nil
	case r.code == exitRace && strings.Contains(r.out, "WARNING: DATA RACE"):
		return raceClass(r.out, module), raceDetail(r.out, module), nil
	case strings.Contains(r.out, "goroutine stack exceeds") && inModule(panicFrame(r.out), module):
		return "stack-overflow", "goroutine stack exceeds the limit", nil
	}
	if strings.Contains(r.out, "panic: ") || strings.Contains(r.out, "fatal error: ") {
		if f := panicFrame(r.out); inModule(f, module) {
			return "crash", firstLine(r.out, "panic: ", "fatal error: ") + " in " + f, nil
		}
	}
	if r.sum == nil && r.code >= 0 && !strings.Contains(r.out, "harness: ") && !strings.Contains(r.out, "panic: ") && !strings.Contains(r.out, "fatal error: ") {
		return "exit", fmt.Sprintf("the process ended in the middle of a call, with status %d", r.code), nil
	}
	return "", "", fmt.Errorf("worker ended with status %d (seed %d):\n%s", r.code, r.seed, tail(r.out, 4000))
}

func inModule(frame, module string) bool {
	return strings.HasPrefix(frame, module) && !strings.Contains(frame, "zz_verifsim")
}

func firstLine(s string, prefixes ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range prefixes {
			if strings.HasPrefix(l, p) {
				return l
			}
		}
	}
	return ""
}

// panicFrame gives the innermost frame below the standard library and the simulator.
func panicFrame(s string) string {
	in := false
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "goroutine ") && strings.Contains(l, "[running") {
			in = true
			continue
		}
		if !in || strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		first, _, _ := strings.Cut(l, "/")
		if first == l || !strings.Contains(first, ".") { // the standard library, or verifsim
			continue
		}
		return l
	}
	return ""
}

// raceClass tells a race inside the code under test from one between a caller
// using its own result and anybody else (the results share memory).
func raceClass(s, module string) string {
	var tops []string
	want := false
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous"):
			want = true
		case strings.HasPrefix(t, "Goroutine"):
			want = false
		case want && strings.HasPrefix(t, module):
			tops = append(tops, t)
			want = false
		}
	}
	for _, t := range tops {
		if strings.Contains(t, "zz_verifsim/") && !strings.Contains(t, "invoke") && !strings.Contains(t, ".bare") {
			return "race-on-result"
		}
	}
	return "race"
}

// raceDetail shortens a race report to its two accesses.
func raceDetail(s, module string) string {
	var d []string
	take := false
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous"):
			d = append(d, strings.Fields(t)[0]+" "+strings.Fields(t)[1])
			take = true
		case strings.HasPrefix(t, "Goroutine"):
			take = false
		case take && strings.HasPrefix(t, module):
			if n := len(d) - 1; !strings.Contains(d[n], " in ") {
				d[n] += " in " + strings.TrimPrefix(t, module)
			}
		case take && strings.HasPrefix(t, "/") && len(d) > 0 && strings.Contains(d[len(d)-1], " in ") && !strings.Contains(d[len(d)-1], ".go:"):
			f := strings.Fields(t)[0]
			d[len(d)-1] += " " + filepath.Base(f)
		}
		if len(d) > 2 {
			break
		}
	}
	for i, x := range d { // "Read at" carries an address next: drop it
		d[i] = strings.Replace(x, " at", "", 1)
	}
	return "unsynchronised conflicting accesses: " + strings.Join(d, "; ")
}

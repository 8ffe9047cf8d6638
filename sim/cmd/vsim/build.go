package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"verifsim/instr"
)

// Built is a harness binary linked with the instrumented working tree.
type Built struct {
	Bin   string
	Sites string
	Level instr.Level
	Res   *instr.Result
	Notes []string
}

type config struct {
	repo, verif, work string
}

func (c *config) env() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "CGO_ENABLED="+cgo())
}

func cgo() string {
	if v := os.Getenv("CGO_ENABLED"); v != "" {
		return v
	}
	return "1"
}

// build makes a harness binary: the richest instrumentation that compiles.
func (c *config) build(name string, race bool, levels ...instr.Level) (*Built, error) {
	if len(levels) == 0 {
		levels = []instr.Level{instr.Full, instr.NoStandIns, instr.YieldsOnly}
	}
	var notes []string
	var last error
	for _, l := range levels {
		b, err := c.buildAt(name, race, l)
		if err == nil {
			b.Notes = notes
			return b, nil
		}
		notes = append(notes, fmt.Sprintf("level %v: %v", l, err))
		last = err
	}
	return nil, fmt.Errorf("%w\n%s", last, strings.Join(notes, "\n"))
}

func (c *config) buildAt(name string, race bool, level instr.Level) (*Built, error) {
	dir := filepath.Join(c.work, name)
	if err := os.RemoveAll(dir); err != nil {
		return nil, err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	res, err := instr.Run(c.repo, filepath.Join(dir, "src"), level, c.env())
	if err != nil {
		return nil, err
	}
	return c.link(dir, race, level, res)
}

// link compiles the harness against an overlay.
func (c *config) link(dir string, race bool, level instr.Level, res *instr.Result) (*Built, error) {
	hs, err := filepath.Glob(filepath.Join(c.verif, "sim/_harness/*.go"))
	if err != nil || len(hs) == 0 {
		return nil, errors.New("harness sources not found")
	}
	replace := map[string]string{}
	for k, v := range res.Replace {
		replace[k] = v
	}
	for _, h := range hs {
		base := filepath.Base(h)
		if !strings.HasSuffix(base, "_test.go") {
			base = strings.TrimSuffix(base, ".go") + "_test.go"
		}
		replace[filepath.Join(c.repo, "zz_verifsim/harness", base)] = h
	}
	if race {
		if err := c.poolOverlay(dir, replace); err != nil {
			return nil, err
		}
	}
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return nil, err
	}
	mod, err := os.ReadFile(filepath.Join(c.repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	mf := filepath.Join(dir, "m.mod")
	if err := os.WriteFile(mf, mod, 0o644); err != nil {
		return nil, err
	}
	if sum, err := os.ReadFile(filepath.Join(c.repo, "go.sum")); err == nil {
		if err := os.WriteFile(filepath.Join(dir, "m.sum"), sum, 0o644); err != nil {
			return nil, err
		}
	}
	edit := []string{"mod", "edit", "-require=verifsim@v0.0.0", "-replace=verifsim=" + filepath.Join(c.verif, "sim")}
	if goBelow(mod, 25) {
		edit = append(edit, "-go=1.25")
	}
	if out, err := c.run(c.repo, "go", append(edit, mf)...); err != nil {
		return nil, fmt.Errorf("go mod edit: %v\n%s", err, out)
	}
	bin := filepath.Join(dir, "sim.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-modfile", mf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zz_verifsim/harness")
	if out, err := c.run(c.repo, "go", args...); err != nil {
		return nil, fmt.Errorf("go test -c: %v\n%s", err, tail(out, 4000))
	}
	sites := filepath.Join(dir, "sites.json")
	res.Lex.Tidy()
	sb, _ := json.Marshal(map[string]any{"sites": res.Sites, "lex": res.Lex})
	if err := os.WriteFile(sites, sb, 0o644); err != nil {
		return nil, err
	}
	return &Built{Bin: bin, Sites: sites, Level: level, Res: res}, nil
}

// poolOverlay takes the standard library's pools out of race builds: their
// hand-overs would order unrelated tasks, and they drop items at random.
func (c *config) poolOverlay(dir string, replace map[string]string) error {
	out, err := c.run(c.repo, "go", "env", "GOROOT")
	if err != nil {
		return err
	}
	path := filepath.Join(strings.TrimSpace(out), "src/sync/pool.go")
	src, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	s := string(src)
	a := regexp.MustCompile(`func \(p \*Pool\) Put\(x any\) \{\n`)
	b := regexp.MustCompile(`func \(p \*Pool\) Get\(\) any \{\n`)
	if !a.MatchString(s) || !b.MatchString(s) {
		return errors.New("unexpected sync/pool.go")
	}
	s = a.ReplaceAllString(s, "${0}\tif race.Enabled {\n\t\treturn\n\t}\n")
	s = b.ReplaceAllString(s, "${0}\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n")
	dst := filepath.Join(dir, "pool.go")
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		return err
	}
	replace[path] = dst
	return nil
}

func goBelow(mod []byte, minor int) bool {
	m := regexp.MustCompile(`(?m)^go 1\.(\d+)`).FindSubmatch(mod)
	if m == nil {
		return true
	}
	n := 0
	fmt.Sscan(string(m[1]), &n)
	return n < minor
}

func (c *config) run(dir, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = c.env()
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

package rt

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// What code under test does to the process and the host besides returning: kept
// here instead of being done, so that it can be looked at and undone.
var (
	envSet   = map[string]*string{} // nil: unset
	cwd      string
	settings = map[string]int64{}
	actions  []string // what cannot be taken back
)

// State describes all that; equal states, equal strings.
func State() string {
	var s []string
	for k, v := range envSet {
		if v == nil {
			s = append(s, "environment variable "+k+" unset")
		} else {
			s = append(s, "environment variable "+k+" set to "+fmt.Sprintf("%q", *v))
		}
	}
	if cwd != "" {
		s = append(s, "working directory changed to "+cwd)
	}
	for k, v := range settings {
		s = append(s, fmt.Sprintf("%s set to %d", k, v))
	}
	for k, f := range disk {
		s = append(s, fmt.Sprintf("file %s (%d bytes)", k, len(f.data)))
	}
	sort.Strings(s)
	return strings.Join(append(s, actions...), "; ")
}

// ClearState forgets it (a new machine, for all that the code can tell).
func ClearState() {
	envSet, cwd, settings, actions = map[string]*string{}, "", map[string]int64{}, nil
	for n := range realNames {
		os.Remove(n)
		delete(realNames, n)
	}
}

// newProcess drops what ends with a process.
func newProcess() { envSet, cwd, settings = map[string]*string{}, "", map[string]int64{} }

func act(f string, a ...any) {
	if len(actions) < 20 {
		actions = append(actions, fmt.Sprintf(f, a...))
	}
}

func Setenv(k, v string) error {
	defer diskOp()()
	if k == "" {
		return fmt.Errorf("setenv: invalid argument")
	}
	if old, ok := hostEnv(k); ok && old == v {
		delete(envSet, k)
	} else {
		envSet[k] = &v
	}
	return nil
}

func Unsetenv(k string) error {
	defer diskOp()()
	if _, ok := hostEnv(k); ok {
		envSet[k] = nil
	} else {
		delete(envSet, k)
	}
	return nil
}

func Clearenv() { defer diskOp()(); act("environment cleared") }

func Chdir(d string) error {
	defer diskOp()()
	if cwd = d; d == hostWd() {
		cwd = ""
	}
	return nil
}

func set(name string, def, v int64) int64 {
	defer diskOp()()
	old, ok := settings[name]
	if !ok {
		old = def
	}
	if v == def {
		delete(settings, name)
	} else {
		settings[name] = v
	}
	return old
}

func get(name string, def int64) int64 {
	defer diskOp()()
	if v, ok := settings[name]; ok {
		return v
	}
	return def
}

func SetGCPercent(n int) int { return int(set("debug.SetGCPercent", 100, int64(n))) }
func SetMaxStack(n int) int  { return int(set("debug.SetMaxStack", 1000000000, int64(n))) }
func SetMaxThreads(n int) int {
	return int(set("debug.SetMaxThreads", 10000, int64(n)))
}
func SetMemoryLimit(n int64) int64 {
	const none = 1<<63 - 1
	if n < 0 {
		return get("debug.SetMemoryLimit", none)
	}
	return set("debug.SetMemoryLimit", none, n)
}
func SetPanicOnFault(b bool) bool {
	n := int64(0)
	if b {
		n = 1
	}
	return set("debug.SetPanicOnFault", 0, n) == 1
}
func SetTraceback(string) { act("debug.SetTraceback called") }

// ---- files that are open ---------------------------------------------------------

var nfiles int
var realNames = map[string]string{} // scratch file: what the code calls it

// OpenFile: what is opened for writing is a scratch file.
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
		return os.OpenFile(name, flag, perm)
	}
	defer diskOp()()
	f, err := os.CreateTemp(".", "sim")
	if err != nil {
		return nil, err
	}
	p := filepath.Clean(name)
	nfiles++
	realNames[filepath.Clean(f.Name())] = p
	put(p, &file{})
	return f, nil
}

func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return Create(filepath.Join(dir, fmt.Sprintf("%s%d", pattern, nfiles)))
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	n := filepath.Join(dir, fmt.Sprintf("%s%d", pattern, EnvUint64()))
	return n, Mkdir(n, 0o700)
}

// named gives the name under which the code knows a scratch file.
func named(path string) string {
	p := filepath.Clean(path)
	if n, ok := realNames[p]; ok {
		return n
	}
	return p
}

func Chmod(path string, _ os.FileMode) error { defer diskOp()(); act("chmod %s", path); return nil }
func Symlink(_, path string) error           { defer diskOp()(); put(path, &file{}); return nil }
func Link(_, path string) error              { defer diskOp()(); put(path, &file{}); return nil }
func Truncate(path string, _ int64) error    { defer diskOp()(); put(path, &file{}); return nil }

// Seeded: the random numbers of the whole process start anew.
func Seeded() { settings["math/rand.Seed called, seed"] = 1 }

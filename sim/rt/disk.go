package rt

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// A disk for code under test that comes to use one: whole files only.  It
// outlives simulated restarts, and what else lies on it is the host's.
var disk map[string]*file

type file struct {
	data []byte
	dir  bool
	at   time.Time
}

// SwapDisk puts another disk in; nil is an empty one.
func SwapDisk(d map[string]*file) map[string]*file {
	old := disk
	disk = d
	return old
}

var diskAt int

// diskOp offers a switch and orders the operations for the race detector.
func diskOp() func() {
	SyncOp()
	RaceAcquire(unsafe.Pointer(&diskAt))
	return func() { RaceReleaseMerge(unsafe.Pointer(&diskAt)) }
}

func find(path string) *file {
	p := filepath.Clean(path)
	if f := disk[p]; f != nil {
		return f
	}
	if hostSeed == 0 || hostPick("file "+p, 3) != 1 {
		return nil
	}
	words := append([]string{"", "{}", "1", "true", "x\n"}, hostWords...)
	return &file{data: []byte(words[hostPick("content "+p, len(words))]), at: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}
}

func put(path string, f *file) {
	if disk == nil {
		disk = map[string]*file{}
	}
	f.at = time.Now()
	disk[filepath.Clean(path)] = f
}

func perr(op, path string) error { return &fs.PathError{Op: op, Path: path, Err: fs.ErrNotExist} }

func ReadFile(path string) ([]byte, error) {
	defer diskOp()()
	f := find(path)
	if f == nil || f.dir {
		return nil, perr("open", path)
	}
	return append([]byte{}, f.data...), nil
}

func WriteFile(path string, data []byte, _ os.FileMode) error {
	defer diskOp()()
	put(path, &file{data: append([]byte{}, data...)})
	return nil
}

func Mkdir(path string, _ os.FileMode) error {
	defer diskOp()()
	put(path, &file{dir: true})
	return nil
}

func MkdirAll(path string, m os.FileMode) error { return Mkdir(path, m) }

func Remove(path string) error {
	defer diskOp()()
	p := named(path)
	if disk[p] == nil {
		return perr("remove", path)
	}
	delete(disk, p)
	if p != filepath.Clean(path) { // a scratch file
		os.Remove(path)
		delete(realNames, filepath.Clean(path))
	}
	return nil
}

func RemoveAll(path string) error {
	defer diskOp()()
	p := filepath.Clean(path)
	for k := range disk {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(disk, k)
		}
	}
	return nil
}

func Rename(from, to string) error {
	defer diskOp()()
	f := disk[named(from)]
	if f == nil {
		return perr("rename", from)
	}
	delete(disk, named(from))
	put(to, f)
	return nil
}

func Stat(path string) (os.FileInfo, error) {
	defer diskOp()()
	f := find(path)
	if f == nil {
		return nil, perr("stat", path)
	}
	return info{filepath.Base(path), f}, nil
}

func ReadDir(path string) ([]os.DirEntry, error) {
	defer diskOp()()
	var r []os.DirEntry
	p := filepath.Clean(path)
	for k, f := range disk {
		if filepath.Dir(k) == p && k != p {
			r = append(r, fs.FileInfoToDirEntry(info{filepath.Base(k), f}))
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r, nil
}

type info struct {
	name string
	f    *file
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.f.data)) }
func (i info) Mode() fs.FileMode {
	if i.f.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time { return i.f.at }
func (i info) IsDir() bool        { return i.f.dir }
func (i info) Sys() any           { return nil }

func TempDir() string { return "/tmp" }
func UserHomeDir() (string, error) {
	return [...]string{"/home/x", "/root", "/"}[hostPick("home", 3)], nil
}
func UserCacheDir() (string, error)  { return "/home/x/.cache", nil }
func UserConfigDir() (string, error) { return "/home/x/.config", nil }
func Executable() (string, error) {
	return [...]string{"/bin/app", "/opt/x/server"}[hostPick("exe", 2)], nil
}
func Getuid() int { return [...]int{1000, 0, 33}[hostPick("uid", 3)] }
func Version() string {
	return [...]string{"go1.27.3", "go1.22.0", "go1.23.1", "devel go1.28"}[hostPick("version", 4)]
}

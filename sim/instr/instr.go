// Package instr rewrites the code under test for the simulator and describes the
// rewrite as a `go build -overlay` file, so /repo itself is never touched.
//
// It works on whatever the working tree holds: every non-test package of the
// module that the root package depends on gets
//   - a yield point before every statement,
//   - map iteration, sync, maps and math/rand replaced by simulator versions,
//   - a function that puts all package-level state back to process start.
package instr

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Level of instrumentation; lower ones are fall-backs for code a higher one
// cannot rewrite into something that compiles.
type Level int

const (
	YieldsOnly Level = iota // yields only, no reset, no stand-ins
	NoStandIns              // yields and reset
	Full
)

func (l Level) String() string {
	return [...]string{"yields-only", "no-stand-ins", "full"}[l]
}

// Site describes one yield point.
type Site struct {
	File string `json:"f"`
	Line int    `json:"l"`
}

type Result struct {
	Module   string
	Replace  map[string]string
	Sites    []Site
	Packages []string
	MapRange int
	GoStmts  int
	Selects  int
	Vars     int
	Shims    []string
	Lex      Lexicon
}

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles, CgoFiles             []string
	Imports                       []string
	Standard                      bool
	Module                        *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

var shims = map[string]string{
	"sync":         "verifsim/zsync",
	"sync/atomic":  "verifsim/zatomic",
	"maps":         "verifsim/zmaps",
	"math/rand":    "verifsim/zrand",
	"math/rand/v2": "verifsim/zrand2",
	"hash/maphash": "verifsim/zmaphash",
}

var shimNames = map[string]string{"sync": "sync", "sync/atomic": "atomic", "maps": "maps", "math/rand": "rand", "math/rand/v2": "rand", "hash/maphash": "maphash"}

// standIns are single functions and variables of packages that are otherwise
// left alone.
var standIns = map[string]map[string]string{
	"os": {"Getenv": "Getenv", "LookupEnv": "LookupEnv", "Environ": "Environ", "Getpid": "Getpid", "Getppid": "Getppid", "Hostname": "Hostname", "Getwd": "Getwd",
		"ReadFile": "ReadFile", "WriteFile": "WriteFile", "Mkdir": "Mkdir", "MkdirAll": "MkdirAll", "Remove": "Remove", "RemoveAll": "RemoveAll", "Rename": "Rename",
		"Stat": "Stat", "Lstat": "Stat", "ReadDir": "ReadDir", "TempDir": "TempDir", "UserHomeDir": "UserHomeDir", "UserCacheDir": "UserCacheDir", "UserConfigDir": "UserConfigDir",
		"Executable": "Executable", "Getuid": "Getuid", "Geteuid": "Getuid",
		"Setenv": "Setenv", "Unsetenv": "Unsetenv", "Clearenv": "Clearenv", "Chdir": "Chdir", "Create": "Create", "OpenFile": "OpenFile", "CreateTemp": "CreateTemp", "MkdirTemp": "MkdirTemp",
		"Chmod": "Chmod", "Symlink": "Symlink", "Link": "Link", "Truncate": "Truncate"},
	"runtime/debug": {"SetGCPercent": "SetGCPercent", "SetMaxStack": "SetMaxStack", "SetMaxThreads": "SetMaxThreads", "SetMemoryLimit": "SetMemoryLimit", "SetPanicOnFault": "SetPanicOnFault", "SetTraceback": "SetTraceback"},
	"runtime":       {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "NumGoroutine": "NumGoroutine", "ReadMemStats": "ReadMemStats", "Version": "Version"},
	"crypto/rand":   {"Read": "CryptoRead", "Reader": "CryptoReader"},
}

type edit struct {
	off, del int
	text     string
	seq      int
}

// Run instruments the module at repo and writes rewritten files below out.
func Run(repo, out string, level Level, env []string) (*Result, error) {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,CgoFiles,Imports,Standard,Module,Error", ".")
	cmd.Dir = repo
	cmd.Env = env
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(&stdout)
	for {
		var p listPkg
		if err := dec.Decode(&p); errors.Is(err, io.EOF) {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Module.Main {
			pkgs = append(pkgs, &p)
		}
	}
	if len(pkgs) == 0 {
		return nil, errors.New("no packages found in " + repo)
	}
	res := &Result{Module: pkgs[0].Module.Path, Replace: map[string]string{}}
	res.Sites = append(res.Sites, Site{"(none)", 0}, Site{"(sync operation)", 0}, Site{"(harness)", 0})
	for _, p := range pkgs { // -deps lists dependencies first
		if err := instrument(p, exports, out, level, res); err != nil {
			return nil, fmt.Errorf("%s: %w", p.ImportPath, err)
		}
		res.Packages = append(res.Packages, p.ImportPath)
	}
	return res, nil
}

type fileState struct {
	path  string
	src   []byte
	file  *ast.File
	base  int
	edits []edit
	tail  bytes.Buffer
}

func (f *fileState) add(off, del int, text string) {
	f.edits = append(f.edits, edit{off, del, text, len(f.edits)})
}

// apply gives the text of [from,to) with the edits inside it.
func (f *fileState) apply(from, to int) string {
	es := append([]edit(nil), f.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].seq < es[j].seq
	})
	var b bytes.Buffer
	pos := from
	for _, e := range es {
		if e.off < from || e.off > to || (e.off == to && to != len(f.src)) {
			continue
		}
		if e.off < pos {
			continue
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	if pos < to {
		b.Write(f.src[pos:to])
	}
	return b.String()
}

func instrument(p *listPkg, exports map[string]string, out string, level Level, res *Result) error {
	if len(p.CgoFiles) > 0 {
		return errors.New("cgo files are not supported")
	}
	fset := token.NewFileSet()
	var files []*fileState
	var asts []*ast.File
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		file, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, &fileState{path: path, src: src, file: file, base: fset.File(file.Pos()).Base()})
		asts = append(asts, file)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var terr error
	conf := types.Config{Importer: imp, Error: func(err error) {
		if terr == nil {
			terr = err
		}
	}}
	conf.Check(p.ImportPath, fset, asts, info)
	if terr != nil {
		return terr
	}

	initN := 0
	var initCalls []string
	for _, f := range files {
		res.Lex.collect(f.file, info)
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		// Offsets must be physical: ignore //line directives.
		off = func(pos token.Pos) int { return int(pos) - f.base }
		f.add(off(f.file.Name.End()), 0, `; import zzrt "verifsim/rt"`)
		if level >= Full {
			for _, im := range f.file.Imports {
				path := strings.Trim(im.Path.Value, "`\"")
				if sh, ok := shims[path]; ok {
					text := `"` + sh + `"`
					if im.Name == nil {
						text = shimNames[path] + " " + text
					}
					f.add(off(im.Path.Pos()), len(im.Path.Value), text)
					res.Shims = append(res.Shims, path)
				}
			}
		}
		site := func(pos token.Pos) string {
			n := len(res.Sites)
			rel := filepath.Base(f.path)
			res.Sites = append(res.Sites, Site{filepath.Join(filepath.Base(filepath.Dir(f.path)), rel), fset.PositionFor(pos, false).Line})
			return fmt.Sprintf("zzrt.Y(%d);", n)
		}
		spawnN := 0
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				switch s := s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				case *ast.GoStmt:
					f.add(off(s.Pos()), 0, site(s.Pos()))
					res.GoStmts++
					if fl, ok := s.Call.Fun.(*ast.FuncLit); ok {
						v := fmt.Sprintf("zztok%d", spawnN)
						spawnN++
						f.add(off(s.Pos()), 0, v+" := zzrt.Spawn();")
						f.add(off(fl.Body.Lbrace)+1, 0, " zzrt.Adopt("+v+"); defer zzrt.Exit("+v+");")
					} else {
						goCall(f, off, info, s, fmt.Sprintf("zztok%d", spawnN))
						spawnN++
					}
				default:
					f.add(off(s.Pos()), 0, site(s.Pos()))
				}
			}
		}
		var bodyEmpty = func(b *ast.BlockStmt) {
			if b != nil && len(b.List) == 0 {
				f.add(off(b.Lbrace)+1, 0, " "+site(b.Lbrace))
			}
		}
		hosty := false
		var selects []*ast.SelectStmt
		labeled := map[ast.Stmt]bool{}
		var words []string
		word := func(e ast.Expr) {
			if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.STRING && len(l.Value) < 24 {
				words = append(words, l.Value)
			}
		}
		ast.Inspect(f.file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				if n.Op == token.EQL || n.Op == token.NEQ {
					word(n.X)
					word(n.Y)
				}
			case *ast.SelectorExpr:
				id, ok := n.X.(*ast.Ident)
				if !ok || level < Full {
					break
				}
				pn, ok := info.Uses[id].(*types.PkgName)
				if !ok {
					break
				}
				path := pn.Imported().Path()
				to, ok := standIns[path][n.Sel.Name]
				if !ok {
					break
				}
				f.add(off(n.Pos()), int(n.End()-n.Pos()), "zzrt."+to)
				fmt.Fprintf(&f.tail, "\nvar _ = %s.%s\n", id.Name, n.Sel.Name) // keeps the import in use
				res.Shims = append(res.Shims, path+"."+n.Sel.Name)
				if path == "os" {
					hosty = true
				}
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				for _, e := range n.List {
					word(e)
				}
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.LabeledStmt:
				labeled[n.Stmt] = true
			case *ast.SelectStmt:
				if level >= Full && !labeled[n] {
					selects = append(selects, n)
				}
			case *ast.FuncDecl:
				bodyEmpty(n.Body)
			case *ast.FuncLit:
				bodyEmpty(n.Body)
			case *ast.ForStmt:
				bodyEmpty(n.Body)
			case *ast.RangeStmt:
				bodyEmpty(n.Body)
				if level >= Full {
					if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
						if _, isMap := tv.Type.Underlying().(*types.Map); isMap && n.Key != nil {
							fn := "MapSeq2"
							if n.Value == nil {
								fn = "MapSeq1"
							}
							f.add(off(n.X.Pos()), 0, "zzrt."+fn+"(")
							f.add(off(n.X.End()), 0, ")")
							res.MapRange++
						}
					}
				}
			}
			return true
		})
		for i := len(selects) - 1; i >= 0; i-- { // inner ones first
			if selectStmt(f, off, selects[i]) {
				res.Selects++
			}
		}
		if hosty && len(words) > 0 { // what the code compares with is what the host may well say
			fmt.Fprintf(&f.tail, "\nfunc init() { zzrt.HostWords(%s) }\n", strings.Join(words, ", "))
		}
		if level >= NoStandIns {
			for _, d := range f.file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
					name := fmt.Sprintf("zzinit%d", initN)
					initN++
					f.add(off(fd.Name.Pos()), len("init"), name)
					fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", name)
					initCalls = append(initCalls, name+"()")
				}
			}
		}
	}

	// Package state reset: zero what has no initialiser, then run the
	// initialisers again in the order the compiler runs them.
	if level >= NoStandIns {
		byDecl := map[types.Object]string{}
		var zero, order []string
		n := 0
		for _, f := range files {
			for _, d := range f.file.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				embed := hasEmbed(gd.Doc)
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if embed || hasEmbed(vs.Doc) {
						continue
					}
					off := func(pos token.Pos) int { return int(pos) - f.base }
					fn := func(body string) string {
						name := fmt.Sprintf("zzreset%d", n)
						n++
						fmt.Fprintf(&f.tail, "\nfunc %s() { %s }\n", name, body)
						return name + "()"
					}
					res.Vars += len(vs.Names)
					switch {
					case len(vs.Values) == 0:
						t := f.apply(off(vs.Type.Pos()), off(vs.Type.End()))
						for _, id := range vs.Names {
							if id.Name != "_" {
								zero = append(zero, fn(fmt.Sprintf("var zz %s; %s = zz", t, id.Name)))
							}
						}
					case len(vs.Values) == len(vs.Names):
						for i, id := range vs.Names {
							v := vs.Values[i]
							expr := f.apply(off(v.Pos()), off(v.End()))
							if id.Name == "_" {
								continue // interface assertions and the like
							}
							byDecl[info.Defs[id]] = fn(id.Name + " = " + expr)
						}
					default:
						v := vs.Values[0]
						expr := f.apply(off(v.Pos()), off(v.End()))
						var names []string
						var first types.Object
						for _, id := range vs.Names {
							names = append(names, id.Name)
							if first == nil && id.Name != "_" {
								first = info.Defs[id]
							}
						}
						call := fn(strings.Join(names, ", ") + " = " + expr)
						if first != nil {
							byDecl[first] = call
						}
					}
				}
			}
		}
		for _, in := range infoInitOrder(conf, p, fset, asts) {
			for _, v := range in {
				for obj, call := range byDecl {
					if obj.Name() == v {
						order = append(order, call)
					}
				}
			}
		}
		if len(order) != len(byDecl) {
			return fmt.Errorf("initialisation order: %d of %d", len(order), len(byDecl))
		}
		fmt.Fprintf(&files[0].tail, "\nfunc init() { zzrt.OnReset(func() { %s }) }\n",
			strings.Join(append(append(zero, order...), initCalls...), "; "))
	}

	dir := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for _, f := range files {
		text := f.apply(0, len(f.src)) + "\nvar _ = zzrt.Y\n" + f.tail.String()
		dst := filepath.Join(dir, filepath.Base(f.path))
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			return err
		}
		res.Replace[f.path] = dst
	}
	return nil
}

// goCall turns `go f(x, y)` into a block that evaluates f, x and y and starts a
// literal that calls them.  What it cannot rewrite stays as it is: the new task
// is then noticed at its first statement.
func goCall(f *fileState, off func(token.Pos) int, info *types.Info, s *ast.GoStmt, v string) {
	fun := ast.Unparen(s.Call.Fun)
	tv, ok := info.Types[s.Call.Fun]
	if !ok || tv.IsType() || tv.IsBuiltin() {
		return
	}
	for _, a := range s.Call.Args {
		if tv, ok := info.Types[a]; !ok {
			return
		} else if _, multi := tv.Type.(*types.Tuple); multi {
			return
		}
	}
	hoist := true // f is a value, to be evaluated now
	switch x := fun.(type) {
	case *ast.Ident:
		_, isFn := info.Uses[x].(*types.Func)
		hoist = !isFn
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := info.Uses[id].(*types.PkgName); isPkg {
				_, isFn := info.Uses[x.Sel].(*types.Func)
				hoist = !isFn
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		hoist = false
		if ix, ok := fun.(*ast.IndexExpr); ok {
			if t, ok := info.Types[ix.Index]; ok && !t.IsType() {
				hoist = true
			}
		}
	}
	f.add(off(s.Pos()), int(s.Call.Pos()-s.Pos()), "{ ")
	end := off(s.Call.Rparen) + 1
	call := ""
	if hoist {
		f.add(off(s.Call.Pos()), 0, v+"f := ")
		call = v + "f("
		f.add(off(s.Call.Lparen), 1, "; ")
	} else {
		call = string(f.src[off(s.Call.Fun.Pos()):off(s.Call.Fun.End())]) + "("
		f.add(off(s.Call.Fun.Pos()), int(s.Call.Lparen-s.Call.Fun.Pos())+1, "")
	}
	for i, a := range s.Call.Args {
		if i > 0 {
			call += ", "
			// the comma between the arguments
			f.add(off(s.Call.Args[i-1].End()), int(a.Pos()-s.Call.Args[i-1].End()), "; ")
		}
		tv := info.Types[a]
		b, basic := tv.Type.(*types.Basic)
		if tv.Value != nil || tv.IsNil() || basic && b.Info()&types.IsUntyped != 0 {
			f.add(off(a.Pos()), int(a.End()-a.Pos()), "")
			call += string(f.src[off(a.Pos()):off(a.End())])
			continue
		}
		f.add(off(a.Pos()), 0, fmt.Sprintf("%sa%d := ", v, i))
		call += fmt.Sprintf("%sa%d", v, i)
	}
	if s.Call.Ellipsis.IsValid() {
		call += "..."
	}
	from := s.Call.Lparen + 1
	if n := len(s.Call.Args); n > 0 {
		from = s.Call.Args[n-1].End()
	}
	f.add(off(from), end-off(from), fmt.Sprintf("; %s := zzrt.Spawn(); go func() { zzrt.Adopt(%s); defer zzrt.Exit(%s); %s) }() }", v, v, v, call))
}

// selectStmt makes the simulator choose between the cases that are ready: it
// tries them one by one in an order of its own, then waits for all of them, and
// a switch over the case taken holds the bodies.
func selectStmt(f *fileState, off func(token.Pos) int, s *ast.SelectStmt) bool {
	type comm struct {
		pre, op, take string
	}
	var cs []comm
	var clauses []*ast.CommClause
	def := false
	text := func(n ast.Node) string { return f.apply(off(n.Pos()), off(n.End())) }
	for _, st := range s.Body.List {
		cc := st.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			continue
		}
		i := len(cs)
		c := fmt.Sprintf("zzc%d", i)
		v, ok := fmt.Sprintf("zzr%d", i), fmt.Sprintf("zzk%d", i)
		recv := func(e ast.Expr) bool {
			u, is := ast.Unparen(e).(*ast.UnaryExpr)
			if !is || u.Op != token.ARROW {
				return false
			}
			cs = append(cs, comm{
				pre: fmt.Sprintf("%s := %s; %s, %s := zzrt.RecvZero(%s); _, _ = %s, %s;", c, text(u.X), v, ok, c, v, ok),
				op:  fmt.Sprintf("case %s, %s = <-%s:", v, ok, c),
			})
			return true
		}
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			cs = append(cs, comm{
				pre: fmt.Sprintf("%s, %s := zzrt.SendPair(%s, %s);", c, v, text(x.Chan), text(x.Value)),
				op:  fmt.Sprintf("case %s <- %s:", c, v),
			})
		case *ast.ExprStmt:
			if !recv(x.X) {
				return false
			}
		case *ast.AssignStmt:
			if len(x.Rhs) != 1 || !recv(x.Rhs[0]) {
				return false
			}
			l := text(x.Lhs[0])
			take := l + " " + x.Tok.String() + " " + v + ";"
			if len(x.Lhs) == 2 {
				take = l + ", " + text(x.Lhs[1]) + " " + x.Tok.String() + " " + v + ", " + ok + ";"
			}
			cs[i].take = take
		default:
			return false
		}
		clauses = append(clauses, cc)
	}
	if len(cs) < 2 {
		return false
	}
	var b strings.Builder
	b.WriteString("{ ")
	for _, c := range cs {
		b.WriteString(c.pre)
	}
	b.WriteString("zzsel := -1; for _, zzi := range zzrt.Perm(" + fmt.Sprint(len(cs)) + ") { switch zzi { ")
	for i, c := range cs {
		fmt.Fprintf(&b, "case %d: select { %s zzsel = %d; default: }; ", i, c.op, i)
	}
	b.WriteString("}; if zzsel >= 0 { break } }; ")
	if !def {
		b.WriteString("if zzsel < 0 { select { ")
		for i, c := range cs {
			fmt.Fprintf(&b, "%s zzsel = %d; ", c.op, i)
		}
		b.WriteString("} }; ")
	}
	b.WriteString("switch zzsel {")
	f.add(off(s.Pos()), off(s.Body.Lbrace)+1-off(s.Pos()), b.String())
	for i, cc := range clauses {
		head := fmt.Sprintf("case %d: %s", i, cs[i].take)
		if !def && i == len(clauses)-1 {
			head = "default: " + cs[i].take
		}
		f.add(off(cc.Case), off(cc.Colon)+1-off(cc.Case), head)
	}
	f.add(off(s.End()), 0, " }")
	return true
}

// infoInitOrder gives the names initialised by each initialiser in order.
func infoInitOrder(conf types.Config, p *listPkg, fset *token.FileSet, asts []*ast.File) [][]string {
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
	conf.Error = func(error) {}
	conf.Check(p.ImportPath, fset, asts, info)
	var r [][]string
	for _, in := range info.InitOrder {
		var names []string
		for _, v := range in.Lhs {
			if v.Name() != "_" {
				names = append(names, v.Name())
				break
			}
		}
		r = append(r, names)
	}
	return r
}

func hasEmbed(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

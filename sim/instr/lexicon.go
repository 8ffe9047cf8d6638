package instr

import (
	_ "embed"
	"go/ast"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Lexicon is what the code under test says beyond what it said when the checks
// were written: the words, numbers and durations of its function bodies.  Code
// that treats some name, size or age specially mentions it, and the generators
// then try it.  Nothing is judged by it.
type Lexicon struct {
	Words []string `json:"words,omitempty"`
	Ints  []int    `json:"ints,omitempty"`
	Durs  []int64  `json:"durs,omitempty"`
}

//go:embed known.txt
var knownText string

var known = func() map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(knownText, "\n") {
		if s, err := strconv.Unquote(l); err == nil {
			m[s] = true
		}
	}
	return m
}()

func (x *Lexicon) collect(file *ast.File, info *types.Info) {
	add := func(e ast.Expr) {
		tv, ok := info.Types[e]
		if !ok || tv.Value == nil {
			return
		}
		switch tv.Value.Kind() {
		case constant.String:
			if s := constant.StringVal(tv.Value); s != "" && len(s) <= 40 && !known[s] {
				x.Words = append(x.Words, s)
			}
		case constant.Int:
			n, exact := constant.Int64Val(tv.Value)
			if !exact {
				return
			}
			if t, ok := tv.Type.(*types.Named); ok && t.Obj().Name() == "Duration" {
				if n > 3 && n < 20*365*24*3600*1e9 {
					x.Durs = append(x.Durs, n)
				}
				return
			}
			if b, ok := tv.Type.Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.UntypedRune) && n >= 32 && n < 0x110000 {
				if s := string(rune(n)); !known[s] {
					x.Words = append(x.Words, s)
				}
			}
			if n > 3 && n <= 1<<20 && n != 64 {
				x.Ints = append(x.Ints, int(n))
			}
		}
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if gd, isGen := d.(*ast.GenDecl); isGen {
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for _, v := range vs.Values { // constants, small tables
					ast.Inspect(v, func(n ast.Node) bool {
						if e, ok := n.(ast.Expr); ok {
							add(e)
						}
						return true
					})
				}
			}
		}
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok {
				add(e)
			}
			return true
		})
	}
}

// Tidy drops duplicates, and what is too much.
func (x *Lexicon) Tidy() {
	x.Words = uniq(x.Words, 60)
	x.Ints = uniq(x.Ints, 40)
	x.Durs = uniq(x.Durs, 20)
}

func uniq[T int | int64 | string](s []T, max int) []T {
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	var r []T
	for i, v := range s {
		if i == 0 || v != s[i-1] {
			r = append(r, v)
		}
	}
	if len(r) > max {
		r = r[:max]
	}
	return r
}

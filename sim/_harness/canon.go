package harness

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"verifsim/rt"
)

// leaf is one scalar of a result, or the shape of one of its slices.
type leaf struct{ path, val string }

func leaves(v reflect.Value, path string, out []leaf) []leaf {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return append(out, leaf{path, "nil"})
		}
		out = append(out, leaf{path, "len " + strconv.Itoa(v.Len())})
		for i := 0; i < v.Len(); i++ {
			out = leaves(v.Index(i), path+"["+strconv.Itoa(i)+"]", out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out = leaves(v.Index(i), path+"["+strconv.Itoa(i)+"]", out)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			out = leaves(v.Field(i), path+"."+t.Field(i).Name, out)
		}
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return append(out, leaf{path, "nil"})
		}
		return leaves(v.Elem(), path+"{"+v.Elem().Type().String()+"}", out)
	case reflect.String:
		out = append(out, leaf{path, strings.Clone(v.String())})
	case reflect.Bool:
		out = append(out, leaf{path, strconv.FormatBool(v.Bool())})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		out = append(out, leaf{path, strconv.FormatInt(v.Int(), 10)})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		out = append(out, leaf{path, strconv.FormatUint(v.Uint(), 10)})
	case reflect.Float32, reflect.Float64:
		out = append(out, leaf{path, "f" + strconv.FormatUint(math.Float64bits(v.Float()), 16)})
	case reflect.Map:
		out = append(out, leaf{path, fmt.Sprintf("map%v", v.Len())})
	default:
		out = append(out, leaf{path, v.Kind().String()})
	}
	return out
}

func join(ls []leaf) string {
	n := 0
	for _, l := range ls {
		n += len(l.path) + len(l.val) + 2
	}
	var b strings.Builder
	b.Grow(n)
	for _, l := range ls {
		b.WriteString(l.path)
		b.WriteByte('=')
		b.WriteString(l.val)
		b.WriteByte('\n')
	}
	return b.String()
}

// diff describes the first difference between two canonical forms.
func diff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "(end)", "(end)"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("want %q, got %q", a, b)
		}
	}
	return "no difference"
}

// slots lists the settable places of a result a caller may write to.
type slot struct {
	path  string
	v     reflect.Value
	extra bool // spare capacity of the slice at path: append
}

func slots(v reflect.Value, path string, out []slot) []slot {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out = append(out, slot{path, v, true})
		for i := 0; i < v.Len(); i++ {
			out = slots(v.Index(i), path+"["+strconv.Itoa(i)+"]", out)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() {
				out = slots(v.Field(i), path+"."+t.Field(i).Name, out)
			}
		}
	default:
		if v.CanSet() {
			out = append(out, slot{path, v, false})
		}
	}
	return out
}

// scribble writes to one slot, the way a caller is entitled to.
func scribble(s slot, r *rt.Rng) {
	if s.extra {
		t := s.v.Type().Elem()
		n := s.v.Cap() - s.v.Len()
		if n > 8 {
			n = 8
		}
		if n < 1 {
			n = 1
		}
		x := s.v
		for i := 0; i < n; i++ {
			e := reflect.New(t).Elem()
			fill(e, r, 0)
			x = reflect.Append(x, e)
		}
		return
	}
	fill(s.v, r, 0)
}

func fill(v reflect.Value, r *rt.Rng, depth int) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("#scribble" + strconv.Itoa(r.Intn(1000)))
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(-1 - int64(r.Intn(1000)))
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("#scribble" + strconv.Itoa(r.Intn(1000))))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i), r, depth+1)
		}
	case reflect.Slice:
		if depth < 3 {
			e := reflect.New(v.Type().Elem()).Elem()
			fill(e, r, depth+1)
			v.Set(reflect.Append(reflect.MakeSlice(v.Type(), 0, 1), e))
		}
	}
}

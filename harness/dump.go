package main

import (
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// Dumper writes the public content of a model as text. The text does not depend on addresses and directories.
type Dumper struct {
	b       strings.Builder
	dir     string
	ids     bool // identifiers
	pos     bool // locations and positions
	tree    bool // objects that are reachable in several ways are written every time
	noState bool // the unwrapped mark is left out
	noLabel bool // names, labels and markers of references are left out
	seen    map[any]int
	path    map[any]int
	limit   int
	skip    map[string]bool
	numbers bool // numbers in values are written without their Go type
	links   bool // the fragments that types link to are left out, but their types are written
}

func newDumper(dir string) *Dumper {
	return &Dumper{dir: dir, pos: true, seen: map[any]int{}, path: map[any]int{}, limit: 400000, skip: map[string]bool{}}
}

func (d *Dumper) w(format string, args ...any) { fmt.Fprintf(&d.b, format, args...) }

func (d *Dumper) nl(depth int) {
	d.b.WriteByte('\n')
	for i := 0; i < depth && i < 40; i++ {
		d.b.WriteByte(' ')
	}
}

func (d *Dumper) str(s string) {
	if d.dir != "" {
		s = strings.ReplaceAll(s, d.dir, "$DIR")
	}
	d.b.WriteString(strconv.Quote(s))
}

type ramlStringer interface{ String() string }

func (d *Dumper) value(v reflect.Value, depth int) {
	if d.b.Len() > d.limit {
		if !strings.HasSuffix(d.b.String(), "…") {
			d.b.WriteString("…")
		}
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		d.w("nil")
	case reflect.Interface:
		if v.IsNil() {
			d.w("nil")
			return
		}
		if e := v.Elem(); d.numbers {
			switch e.Kind() {
			case reflect.Int, reflect.Int64:
				d.w("number %s", new(big.Rat).SetInt64(e.Int()).RatString())
				return
			case reflect.Uint64:
				d.w("number %s", new(big.Rat).SetUint64(e.Uint()).RatString())
				return
			case reflect.Float64:
				if r := new(big.Rat).SetFloat64(e.Float()); r != nil {
					d.w("number %s", r.RatString())
					return
				}
			}
		}
		d.value(v.Elem(), depth)
	case reflect.Pointer:
		if v.IsNil() {
			d.w("nil")
			return
		}
		switch p := v.Interface().(type) {
		case *regexp.Regexp:
			d.w("/%s/", p.String())
			return
		case *raml.RAML:
			d.w("RAML")
			return
		case *raml.DataType:
			if d.links {
				d.w("DataType ")
				d.str(p.Location)
				d.value(reflect.ValueOf(p.Shape), depth+1)
				return
			}
		case *raml.BaseShape:
			if d.visit(p) {
				d.base(p, depth)
				delete(d.path, p)
			}
			return
		}
		if s, ok := v.Interface().(ramlStringer); ok && strings.HasPrefix(v.Type().String(), "*big.") {
			d.w("%s", s.String())
			return
		}
		if v.Elem().Kind() != reflect.Struct {
			d.w("&")
			d.value(v.Elem(), depth)
			return
		}
		if v.MethodByName("Oldest").IsValid() {
			d.ordered(v, depth)
			return
		}
		p := v.Interface()
		if d.visit(p) {
			d.fields(v.Elem(), depth)
			delete(d.path, p)
		}
	case reflect.Struct:
		d.fields(v, depth)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() && !d.links {
			d.w("nil[]")
			return
		}
		d.w("[")
		for i := 0; i < v.Len(); i++ {
			d.nl(depth + 1)
			d.value(v.Index(i), depth+1)
		}
		d.w("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		d.w("{")
		for _, k := range keys {
			d.nl(depth + 1)
			d.str(fmt.Sprint(k))
			d.w(": ")
			d.value(v.MapIndex(k), depth+1)
		}
		d.w("}")
	case reflect.String:
		d.str(v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		d.w("%s", v.Kind())
	default:
		d.w("%s(%v)", v.Type().Name(), v)
	}
}

func (d *Dumper) visit(p any) bool {
	if d.tree {
		if n, ok := d.path[p]; ok {
			d.w("^%d", len(d.path)-n)
			return false
		}
		d.path[p] = len(d.path)
		return true
	}
	if n, ok := d.seen[p]; ok {
		d.w("@%d", n)
		return false
	}
	d.seen[p] = len(d.seen)
	d.w("#%d ", len(d.seen)-1)
	return true
}

func (d *Dumper) ordered(v reflect.Value, depth int) {
	d.w("{")
	for p := v.MethodByName("Oldest").Call(nil)[0]; !p.IsNil(); p = p.MethodByName("Next").Call(nil)[0] {
		d.nl(depth + 1)
		d.value(p.Elem().FieldByName("Key"), depth+1)
		d.w(" = ")
		d.value(p.Elem().FieldByName("Value"), depth+1)
	}
	d.w("}")
}

// skipped reports whether a field of this name is left out.
func (d *Dumper) skipped(name string) bool {
	switch name {
	case "ID":
		return !d.ids
	case "Location", "Position":
		return !d.pos
	case "ShapeVisited":
		return true
	}
	return d.skip[name]
}

func (d *Dumper) fields(v reflect.Value, depth int) {
	t := v.Type()
	d.w("%s{", t.Name())
	for i := 0; i < v.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() || d.skipped(f.Name) {
			continue
		}
		if f.Anonymous && f.Type == reflect.TypeOf((*raml.BaseShape)(nil)) {
			continue // written by base
		}
		fv := v.Field(i)
		if (fv.Kind() == reflect.Pointer || fv.Kind() == reflect.Interface) && fv.IsNil() {
			continue
		}
		d.nl(depth + 1)
		d.w("%s: ", f.Name)
		d.value(fv, depth+1)
	}
	d.w("}")
}

func (d *Dumper) base(s *raml.BaseShape, depth int) {
	d.w("Shape")
	if !d.noState {
		d.w("(unwrapped %v)", s.IsUnwrapped())
	}
	d.fields(reflect.ValueOf(s).Elem(), depth)
}

// shapeText writes a single shape.
func shapeText(dir string, s *raml.BaseShape, conf func(*Dumper)) string {
	d := newDumper(dir)
	d.tree = true
	if conf != nil {
		conf(d)
	}
	d.value(reflect.ValueOf(s), 0)
	return d.b.String()
}

// text writes everything that is reachable from the entry point and the annotations of the model.
func (m *Model) text(conf func(*Dumper)) string {
	d := newDumper(m.Dir)
	if conf != nil {
		conf(d)
	}
	d.value(reflect.ValueOf(m.R.EntryPoint()), 0)
	d.w("\nannotations ")
	d.value(reflect.ValueOf(m.R.GetAllAnnotationsPtr()), 0)
	d.w("\nshapes ")
	d.value(reflect.ValueOf(m.R.GetShapes()), 0)
	return d.b.String()
}

// firstDiff describes where two texts differ.
func firstDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) || i < len(bs); i++ {
		var x, y string
		if i < len(as) {
			x = as[i]
		}
		if i < len(bs) {
			y = bs[i]
		}
		if x != y || i >= len(as) || i >= len(bs) {
			lo := max(0, i-12)
			return fmt.Sprintf("line %d:\n  %s\n- %s\n+ %s", i, strings.Join(as[lo:min(i, len(as))], "\n  "), trim(x, 600), trim(y, 600))
		}
	}
	return "equal"
}

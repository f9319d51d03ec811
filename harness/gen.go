package main

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"slices"
	"strings"
)

// GO holds the options of the world generator.
type GO struct {
	Libs     int // maximal number of libraries besides the entry point
	DTs      int // maximal number of DataType fragments
	Types    int // maximal number of types
	Rec      bool
	RecAll   bool
	RecHeirs bool // recursive types may inherit from each other
	RecDT    bool // recursive data types
	Ex       bool // examples and defaults
	Custom   bool
	Anns     bool
	NoUnion  bool
	Overlap  bool // pattern properties may match declared names
	NoFile   bool
	NoAny    bool
	Heirs    bool // more heirs
}

var propNames = []string{"id", "name", "a", "b", "c", "tag", "size"}

// oddNames are names that have a meaning elsewhere or consist of other characters.
var oddNames = []string{"prop.x", "ключ", "a/b", "x y", "q~1", "100%", "type", "$ref", "default", "A.b", "id#"}

var typeNames = []string{"A", "B", "C", "Type-1", "my_type", "User", "Item", "D2", "x", "Zed", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N"}

// Ref is a declared type that other declarations may refer to.
type Ref struct {
	F   *File
	D   *Decl // nil for a DataType fragment
	T   *Type
	N   *SN
	Rec bool // reaches a recursive type
}

func (r *Ref) name() string {
	if r.D == nil {
		return r.F.Path
	}
	return r.D.Name
}

// WG generates worlds.
type WG struct {
	g        G
	wide     bool // some lists are long
	longs    int
	chain    bool // types inherit from the latest ones
	o        GO
	w        *World
	s        *Sem
	refs     []*Ref
	pending  []*Ref // recursive types under construction
	anns     []*Ref
	facetN   int
	fileN    int
	separate bool // declarations are not planted into existing ones
	rec      map[*SN]bool
	noEx     int
	witness  map[*PropDecl]V // conforming values of custom facets
}

func relPath(from *File, to string) string {
	r, err := filepath.Rel(path.Dir(from.Path), to)
	if err != nil {
		bug("rel: %v", err)
	}
	return filepath.ToSlash(r)
}

func newWG(g G, o GO) *WG {
	w := &World{}
	wg := &WG{g: g, o: o, w: w, s: newSem(w), rec: map[*SN]bool{}, witness: map[*PropDecl]V{}}
	return wg
}

var libPaths = []string{"lib1.raml", "libs/lib2.raml", "libs/deep/lib3.raml", "other/lib1.raml"}

func (w *WG) addFile(f *File) *File {
	w.w.Files = append(w.w.Files, f)
	return f
}

var libDirs = []string{"", "libs/", "libs/deep/", "other/", "api/", "other/libs/"}

// freePath returns the path of a new file.
func (w *World) freePath(g G, dirs []string, base string) string {
	p := pick(g, dirs) + base
	for i := 0; ; i++ {
		q := p + ".raml"
		if i > 0 {
			q = fmt.Sprintf("%s%d.raml", p, i)
		}
		if w.file(q) == nil {
			return q
		}
	}
}

// world generates a valid world.
func (w *WG) world() *World {
	g := w.g
	entry := "main.raml"
	if w.o.Libs > 0 && g.P(4) {
		entry = "api/main.raml"
	}
	w.addFile(&File{Path: entry, Kind: "Library"})
	same := g.P(5)
	for i, n := 0, g.Int(0, w.o.Libs); i < n; i++ {
		p := libPaths[i]
		if same {
			p = w.w.freePath(g, libDirs, "lib") // files of the same name in several directories
		}
		w.addFile(&File{Path: p, Kind: "Library"})
	}
	libs := w.w.Files
	dts := 0
	if w.o.DTs > 0 {
		dts = g.Int(0, w.o.DTs)
	}
	if w.o.Anns {
		for i, n := 0, g.Int(1, 3); i < n; i++ {
			w.annType(pick(g, libs))
		}
	}
	n := g.Int(1, w.o.Types)
	if !w.o.RecAll {
		w.wide = g.P(1)
		w.chain = !w.wide && g.P(1)
	}
	if w.chain {
		n += g.Int(0, 8)
	} else if w.wide && g.P(4) {
		n += 12
	}
	for i := 0; i < n; i++ {
		if w.o.Rec && !w.wide && !w.chain && g.P(2) || w.o.RecAll && (i == 0 || g.P(6)) {
			w.recGroup(libs)
			continue
		}
		if dts > 0 && g.P(4) {
			dts--
			w.dataType(libs)
			continue
		}
		w.topType(pick(g, libs))
	}
	w.finish(libs)
	return w.w
}

// freshName returns a name that is not declared in the file.
func (w *WG) freshName(f *File) string {
	off := w.g.Idx(4)
	for i := range typeNames {
		n := typeNames[(i+off)%len(typeNames)]
		if f.typ(n) == nil {
			return n
		}
	}
	return fmt.Sprintf("T%d", len(f.Types))
}

func (w *WG) declare(f *File, name string, t *Type) *Ref {
	d := &Decl{Name: name, T: t}
	f.Types = append(f.Types, d)
	r := &Ref{F: f, D: d, T: t}
	return r
}

func (w *WG) done(r *Ref) {
	r.N = w.s.node(r.F, r.T)
	r.Rec = w.reachesRec(r.N)
	w.refs = append(w.refs, r)
}

func (w *WG) topType(f *File) *Ref {
	t := w.decl(f, 3, true)
	r := w.declare(f, w.freshName(f), t)
	w.done(r)
	return r
}

func (w *WG) dataType(libs []*File) *Ref {
	w.fileN++
	dirs := []string{"", "types/", "libs/"}
	p := fmt.Sprintf("%sdt%d.raml", pick(w.g, dirs), w.fileN)
	if w.g.P(4) {
		p = w.w.freePath(w.g, dirs, "dt")
	}
	f := w.addFile(&File{Path: p, Kind: "DataType"})
	t := w.decl(f, 2, true)
	if t.Scalar {
		t.Scalar = false // the body of a fragment is a map
		if ps := w.s.node(f, clone(t)).Parents; len(ps) > 0 && len(t.Custom) == 0 {
			w.customFacets(f, t, ps)
		}
	}
	if len(t.Anns) == 0 && t.Desc == nil && t.bare() && t.Expr == nil && t.Parents == nil && t.Include == "" {
		t.Expr = en("string") // not an empty document
	}
	f.Body = t
	r := &Ref{F: f, T: t}
	w.done(r)
	// Something must include it.
	u := pick(w.g, libs)
	i := &Type{Include: relPath(u, f.Path), Scalar: w.g.Bool()}
	if !i.Scalar {
		n := w.s.node(f, t)
		w.heirFacets(u, i, 1, []*SN{n}, true)
		w.customFacets(u, i, []*SN{n})
	} else if w.needsFacets([]*SN{w.s.node(f, t)}) {
		i.Scalar = false
		w.customFacets(u, i, []*SN{w.s.node(f, t)})
	}
	x := w.declare(u, w.freshName(u), i)
	w.done(x)
	return x
}

// reachesRec reports whether a recursive type can be reached.
func (w *WG) reachesRec(ns ...*SN) bool {
	seen := map[*SN]bool{}
	var visit func(n *SN) bool
	visit = func(n *SN) bool {
		if w.rec[n] {
			return true
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		for _, m := range w.s.edges(n) {
			if visit(m) {
				return true
			}
		}
		return false
	}
	for _, n := range ns {
		if visit(n) {
			return true
		}
	}
	return false
}

// hasEx reports whether the declaration contains examples or defaults, which need not conform to a narrower type.
func (w *WG) hasEx(root bool, n *SN) bool {
	seen := map[*SN]bool{}
	var visit func(n *SN, root bool) bool
	visit = func(n *SN, root bool) bool {
		if t := n.T; root && t != nil && (t.Default != nil || t.Example != nil || t.Examples != nil || t.ExInc != "") {
			return true
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		for _, p := range n.Parents {
			if visit(p, false) {
				return true
			}
		}
		if n.Alias != nil && visit(n.Alias, root) {
			return true
		}
		for _, m := range w.s.edges(&SN{Items: n.Items, Members: n.Members, Props: n.Props}) {
			if visit(m, true) {
				return true
			}
		}
		return false
	}
	return visit(n, root)
}

// name returns the name of the type in the file, importing its library if necessary.
func (w *WG) name(f *File, r *Ref) string {
	if r.F == f {
		return r.D.Name
	}
	return w.use(f, r.F) + "." + r.D.Name
}

func (w *WG) use(f, lib *File) string {
	for _, u := range f.Uses {
		if f.rel(u.Path) == lib.Path {
			return u.Name
		}
	}
	names := []string{"l", "lib", "common", "l2", "api-types"}
	off := w.g.Idx(3)
	for i := range names {
		n := names[(i+off)%len(names)]
		if f.use(n) == "" {
			p := relPath(f, lib.Path)
			if w.g.P(3) {
				p = "./" + p
			}
			f.Uses = append(f.Uses, Use{n, p})
			return n
		}
	}
	bug("too many uses")
	return ""
}

// ref picks a type that can be referred to by its name.
func (w *WG) ref(ok func(*Ref) bool) *Ref {
	var rs []*Ref
	for _, r := range w.refs {
		if r.D != nil && (ok == nil || ok(r)) {
			rs = append(rs, r)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	if w.chain {
		rs = rs[:min(2, len(rs))] // the number of parts of a type must not grow exponentially
	}
	return rs[len(rs)-1-w.g.Idx(len(rs))]
}

// many returns the number of further elements of a list.
func (w *WG) many(k int) int {
	if w.wide && w.longs < 2 && w.g.P(k) {
		w.longs++
		return w.g.Int(10, 20)
	}
	return 0
}

var scalarKinds = []string{"string", "integer", "number", "boolean", "datetime", "datetime-only", "date-only", "time-only", "file", "nil", "any"}

func (w *WG) scalarKind() string {
	for {
		k := scalarKinds[w.g.W(8, 5, 5, 3, 1, 1, 1, 1, 1, 1, 1)]
		if k == "file" && w.o.NoFile || k == "any" && w.o.NoAny {
			continue
		}
		return k
	}
}

// decl generates a declaration.
func (w *WG) decl(f *File, depth int, top bool) *Type {
	g := w.g
	var weights []int
	if top {
		weights = []int{3, 2, 3, 7, 2, 7, 2, 3}
		if w.o.Heirs {
			weights = []int{2, 1, 2, 5, 1, 12, 4, 2}
		}
		if w.chain {
			weights[5] = 40
		}
	} else {
		weights = []int{8, 2, 2, 2, 5, 3, 1, 4}
	}
	if depth <= 0 {
		weights[2], weights[3] = 0, 0
	}
	if w.o.NoUnion {
		weights[7] /= 2
	}
	t := &Type{}
	switch g.W(weights...) {
	case 0:
		k := w.scalarKind()
		t.Expr = en(k)
		if g.P(5) {
			t.Scalar = true
			return t
		}
		w.facets(f, t, &Eff{Kind: k}, depth)
	case 1:
		k := pick(g, []string{"string", "number", "object", "array", "file"})
		if depth <= 0 && (k == "object" || k == "array") || k == "file" && w.o.NoFile {
			k = "string"
		}
		w.impliedFacets(f, t, &Eff{Kind: k}, depth)
		if t.bare() {
			t.Expr, t.Scalar = en("string"), true
			return t
		}
	case 2:
		t.Expr = en("array")
		w.facets(f, t, &Eff{Kind: "array"}, depth)
	case 3:
		t.Expr = en("object")
		w.facets(f, t, &Eff{Kind: "object"}, depth)
	case 4:
		r := w.ref(func(r *Ref) bool { return true })
		if r == nil {
			t.Expr, t.Scalar = en("integer"), true
			return t
		}
		t.Expr, t.Scalar = en(w.name(f, r)), true
		return t
	case 5:
		r := w.ref(nil)
		if top && w.chain && r != nil && g.P(9) {
			for _, q := range w.refs {
				if q.D != nil {
					r = q
				}
			}
		}
		if r == nil {
			t.Expr = en("object")
			w.facets(f, t, &Eff{Kind: "object"}, min(depth, 1))
			break
		}
		t.Expr = en(w.name(f, r))
		w.heirFacets(f, t, depth, []*SN{r.N}, top)
		w.customFacets(f, t, []*SN{r.N})
		if t.bare() && g.Bool() && !top {
			t.Scalar = true
			return t
		}
	case 6:
		a := w.ref(func(r *Ref) bool { return w.s.eff(r.N).Kind != "" })
		if a == nil {
			t.Expr, t.Scalar = en("boolean"), true
			return t
		}
		b := w.ref(func(r *Ref) bool { return r != a && w.mergeable(a, r) })
		if b == nil {
			t.Expr = en(w.name(f, a))
			w.heirFacets(f, t, depth, []*SN{a.N}, top)
			w.customFacets(f, t, []*SN{a.N})
			break
		}
		t.Parents = []string{w.name(f, a), w.name(f, b)}
		ns, rs := []*SN{a.N, b.N}, []*Ref{a, b}
		for len(ns) < 5 && g.P(4) {
			e := w.s.eff(ns...)
			c := w.ref(func(r *Ref) bool {
				if r.Rec || slices.Contains(rs, r) || w.hasEx(false, r.N) || e.Kind == "" {
					return false
				}
				for _, o := range rs {
					if !w.mergeable(o, r) {
						return false
					}
				}
				return w.narrower(e, w.s.eff(r.N))
			})
			if c == nil {
				break
			}
			t.Parents = append(t.Parents, w.name(f, c))
			ns, rs = append(ns, c.N), append(rs, c)
		}
		w.heirFacets(f, t, depth, ns, top)
		w.customFacets(f, t, ns)
		if t.bare() && g.Bool() {
			t.Scalar = true
			return t
		}
	case 7:
		e := w.expr(f, 2)
		t.Expr = e
		if e.isName() || g.P(8) {
			t.Scalar = true
			if e.isName() && !builtins[e.Name] && w.needsFacets([]*SN{w.s.expr(f, e)}) {
				// an alias needs no facets
				return t
			}
			return t
		}
		if e.Op == "a" {
			w.arrayBounds(t, &Eff{Kind: "array"})
		}
	}
	w.commons(f, t, top)
	return t
}

// expr generates a type expression over names.
func (w *WG) expr(f *File, depth int) *Expr {
	g := w.g
	leaf := func() *Expr {
		if r := w.ref(nil); r != nil && g.P(9) {
			return en(w.name(f, r))
		}
		return en(w.scalarKind())
	}
	if depth <= 0 {
		return leaf()
	}
	switch {
	case w.o.NoUnion || g.P(7):
		return ea(w.expr(f, depth-1))
	case g.P(6):
		return eo(w.expr(f, depth-1))
	default:
		e := &Expr{Op: "u"}
		for i, n := 0, g.Int(2, 3); i < n; i++ {
			e.Args = append(e.Args, w.expr(f, depth-1-g.Idx(2)))
		}
		for i := w.many(2); i > 0; i-- {
			e.Args = append(e.Args, leaf())
		}
		return e
	}
}

// commons adds facets that every type has.
func (w *WG) commons(f *File, t *Type, top bool) {
	g := w.g
	if g.P(2) {
		t.Display = ptr(pick(g, []string{"Display", "A: title", "日本語", ""}))
	}
	if g.P(2) {
		t.Desc = ptr(pick(g, []string{"some text", "multi\nline", "# not a comment"}))
	}
	if w.o.Anns && g.P(3) {
		w.annotate(f, &t.Anns)
	}
	if g.P(6) {
		t.Shuf = uint32(g.Int(1, 1000))
	}
	if w.o.Ex && w.noEx == 0 {
		w.examples(f, t)
	}
	if top && w.o.Custom && g.P(4) {
		w.facetDefs(f, t)
	}
}

func (w *WG) examples(f *File, t *Type) {
	g := w.g
	n := w.s.node(f, clone(t))
	if g.P(3) {
		if v, ok := w.s.valid(g, 2, n); ok {
			t.Default = &Data{V: v}
		}
	}
	switch g.W(8, 2, 2) {
	case 1:
		if v, ok := w.s.valid(g, 2, n); ok {
			t.Example = w.example(f, v)
		}
	case 2:
		names := []string{"one", "two", "ex-3"}
		for i, k := 0, g.Int(1, 3)+w.many(3); i < k; i++ {
			if v, ok := w.s.valid(g, 2, n); ok {
				e := w.example(f, v)
				if e.Name = fmt.Sprintf("ex%d", i); i < len(names) {
					e.Name = names[i]
				}
				t.Examples = append(t.Examples, e)
			}
		}
	}
}

func hasValueKey(v V) bool {
	m, ok := tree(v).(map[string]any)
	if !ok {
		return false
	}
	_, ok = m["value"]
	return ok
}

func (w *WG) example(f *File, v V) *Ex {
	g := w.g
	e := &Ex{D: Data{V: v}}
	if g.P(4) || hasValueKey(v) {
		e.Wrapped = true
		if g.P(4) {
			e.Display = ptr("An example")
		}
		if g.P(4) {
			e.Desc = ptr("about it")
		}
		if w.o.Anns && g.P(6) {
			w.annotate(f, &e.Anns)
		}
	}
	return e
}

// impliedFacets adds facets of which at least one implies the kind.
func (w *WG) impliedFacets(f *File, t *Type, e *Eff, depth int) {
	g := w.g
	w.facets(f, t, e, depth)
	t.Format = nil
	switch e.Kind {
	case "number":
		if t.Minimum == nil && t.Maximum == nil && t.MultipleOf == nil {
			if e.Min != nil {
				t.Minimum = ptr(string(ratNum(e.Min)))
			} else if e.Max != nil {
				t.Maximum = ptr(string(ratNum(e.Max)))
			} else {
				t.Minimum = ptr("-100")
			}
		}
	case "array":
		if t.Items == nil && t.MinItems == nil && t.MaxItems == nil && t.Unique == nil {
			if e.MinItems != nil {
				t.MinItems = e.MinItems
			} else {
				t.MinItems = ptr(uint64(0))
			}
		}
	case "object":
		if len(t.Props) == 0 && t.MinProps == nil && t.MaxProps == nil && t.Additional == nil && t.Discr == nil {
			t.PropsSet = true
		}
	case "file":
		if t.FileTypes == nil {
			if e.FileTypes != nil {
				t.FileTypes = e.FileTypes
			} else {
				t.FileTypes = []string{"image/png"}
			}
		}
	}
	_ = g
}

// heirFacets adds facets to an heir of the given declarations that narrow what these allow.
func (w *WG) heirFacets(f *File, t *Type, depth int, parents []*SN, top bool) {
	e := w.s.eff(parents...)
	if e.Kind == "" || e.Kind == "json" || e.Unions != nil || e.Conflict {
		return
	}
	w.facets(f, t, e, depth)
}

func between(g G, lo, hi uint64) *uint64 {
	if hi < lo {
		return &lo
	}
	v := uint64(g.Int(int(lo), int(hi)))
	return &v
}

func up(e *uint64, d uint64) uint64 {
	if e == nil {
		return d
	}
	return *e
}

// span draws a narrower lower and upper bound of a count.
func (w *WG) span(lo, hi *uint64, width uint64) (*uint64, *uint64) {
	g := w.g
	var a, b *uint64
	l := up(lo, 0)
	h := up(hi, l+width)
	if g.P(5) {
		a = between(g, l, min(h, l+width))
		l = *a
	}
	if g.P(5) {
		h = up(hi, l+width)
		b = between(g, l, h)
	}
	return a, b
}

func (w *WG) arrayBounds(t *Type, e *Eff) {
	t.MinItems, t.MaxItems = w.span(e.MinItems, e.MaxItems, 3)
	if w.g.P(3) {
		t.Unique = ptr(e.Unique || w.g.P(12))
	}
}

// facets adds facets for a declaration whose parents have the effective constraints.
func (w *WG) facets(f *File, t *Type, e *Eff, depth int) {
	g := w.g
	switch e.Kind {
	case "string", "file":
		t.MinLength, t.MaxLength = w.span(e.MinLen, e.MaxLen, 5)
		if e.Kind == "file" {
			if g.P(6) {
				pool := []string{"image/png", "image/jpeg", "*/*", "text/plain"}
				if e.FileTypes != nil {
					pool = e.FileTypes
				}
				for _, i := range g.perm(len(pool))[:g.Int(1, len(pool))] {
					t.FileTypes = append(t.FileTypes, pool[i])
				}
			}
			return
		}
		if len(e.Patterns) == 0 && e.Enum == nil && g.P(3) {
			t.Pattern = ptr(pick(g, stringPatterns).Re)
		}
		if g.P(3) {
			w.enum(f, t, e)
		}
	case "integer", "number":
		w.bounds(t, e)
		if e.Kind == "number" && e.Min == nil && e.Max == nil && g.P(3) {
			// Bounds that single precision does not hold.
			t.Minimum, t.Maximum = nil, nil
			pool := []string{"-16777217", "-33554433.5", "-1234567.03125"}
			if g.P(6) {
				t.Minimum = ptr(pick(g, pool))
			}
			if g.P(12) {
				t.Maximum = ptr(pick(g, pool)[1:])
			}
			if e.Format == "" && g.P(12) {
				t.Format = ptr(pick(g, []string{"float", "double"}))
			}
		}
		if g.P(2) && t.MultipleOf == nil {
			t.MultipleOf = ptr(pick(g, []string{"1", "2", "5", "0.5"}))
			if e.Kind == "integer" {
				t.MultipleOf = ptr("1")
			}
		}
		if g.P(3) {
			w.enum(f, t, e)
		}
		if t.Format == nil && g.P(2) {
			if e.Format != "" {
				t.Format = ptr(e.Format)
			} else if e.Kind == "integer" {
				t.Format = ptr(pick(g, []string{"int8", "int16", "int32", "int64", "int", "long"}))
			} else {
				t.Format = ptr(pick(g, []string{"float", "double"}))
			}
		}
	case "boolean":
		if g.P(3) {
			w.enum(f, t, e)
		}
	case "datetime":
		if g.P(6) {
			switch {
			case e.Format != "":
				t.Format = ptr(e.Format)
			case len(e.Layers) == 0:
				t.Format = ptr(pick(g, []string{"rfc3339", "rfc2616"}))
			default:
				t.Format = ptr("rfc3339")
			}
		}
	case "array":
		if len(e.Items) == 0 {
			if g.P(13) && depth > 0 {
				t.Items = w.nested(f, depth-1)
			}
		} else if g.P(4) {
			t.Items = w.override(f, depth-1, e.Items)
		}
		w.arrayBounds(t, e)
	case "object":
		w.object(f, t, e, depth)
	}
}

// nested generates the declaration of a property or of items.
func (w *WG) nested(f *File, depth int) *Type {
	return w.decl(f, depth, false)
}

var intBounds = []string{"-9223372036854775808", "-2147483649", "-10", "-1", "0", "1", "2", "3", "5", "7", "10", "100", "2147483647", "9007199254740993", "9223372036854775807"}
var numBounds = []string{"-16777217", "-1000000", "-10", "-2.5", "-1", "-0.5", "0", "0.000244140625", "0.25", "1", "1.5", "2", "5", "10", "10.125", "100", "16777217", "33554433.5", "2147483648"}

func (w *WG) bounds(t *Type, e *Eff) {
	g := w.g
	pool := intBounds
	if e.Kind == "number" {
		pool = numBounds
	}
	var fit []string
	for _, b := range pool {
		r := ratOf(b)
		if e.Min != nil && r.Cmp(e.Min) < 0 || e.Max != nil && r.Cmp(e.Max) > 0 {
			continue
		}
		fit = append(fit, b)
	}
	if len(fit) == 0 {
		return
	}
	lo := 0
	if g.P(6) {
		lo = len(fit)/2 - g.Idx(len(fit)/2+1)
		t.Minimum = ptr(fit[lo])
	}
	if g.P(6) {
		t.Maximum = ptr(fit[lo+g.Idx(len(fit)-lo)])
	}
}

// enum adds an enumeration of values that conform to all other facets.
func (w *WG) enum(f *File, t *Type, e *Eff) {
	g := w.g
	var out []V
	if e.Enum != nil {
		perm := g.perm(len(e.Enum))
		for _, i := range perm[:g.Int(1, len(perm))] {
			out = append(out, e.Enum[i])
		}
	} else {
		// The kind is written out in place of the parents, whose constraints are copied.
		c := &Type{Expr: en(e.Kind), MinLength: maxU(e.MinLen, t.MinLength), MaxLength: minU(e.MaxLen, t.MaxLength), Pattern: t.Pattern, Minimum: t.Minimum, Maximum: t.Maximum}
		if c.Minimum == nil && e.Min != nil {
			c.Minimum = ptr(string(ratNum(e.Min)))
		}
		if c.Maximum == nil && e.Max != nil {
			c.Maximum = ptr(string(ratNum(e.Max)))
		}
		if c.Pattern == nil && len(e.Patterns) > 0 {
			c.Pattern = &e.Patterns[0]
		}
		n := w.s.node(f, c)
		seen := map[string]bool{}
		for i, k := 0, g.Int(1, 4)+w.many(4); i < k; i++ {
			if v, ok := w.s.valid(g, 0, n); ok && !seen[string(v)] {
				seen[string(v)] = true
				out = append(out, v)
			}
		}
	}
	if len(out) > 0 {
		t.Enum = out
	}
}

func (w *WG) object(f *File, t *Type, e *Eff, depth int) {
	g := w.g
	have := map[string]bool{}
	required := 0
	for _, p := range e.Props {
		have[p.Name] = true
		if p.Required {
			required++
		}
	}
	// Overridden properties.
	for _, p := range e.Props {
		if !g.P(4) || strings.HasSuffix(p.Name, "?") {
			continue
		}
		if o := w.override(f, depth-1, p.Ns); o != nil {
			d := &PropDecl{Name: p.Name, T: o}
			w.requirement(d, p.Required)
			if d.name() != p.Name {
				d.Opt = false
			}
			if d.required() && !p.Required {
				required++
			}
			t.Props = append(t.Props, d)
		}
	}
	for _, p := range e.Pats {
		if g.P(3) {
			if o := w.override(f, depth-1, p.Ns); o != nil {
				t.Props = append(t.Props, &PropDecl{Name: p.Name, Pattern: true, T: o})
			}
		}
	}
	n := g.Int(0, 4)
	if len(e.Layers) > 0 {
		n = g.Int(0, 2)
	}
	more := w.many(4)
	for i := 0; i < n+more && depth > 0; i++ {
		name := propNames[g.Idx(len(propNames))]
		deep := depth
		if i >= n {
			name, deep = fmt.Sprintf("p%d", i), 1
		} else if g.P(1) {
			name = pick(g, oddNames)
		}
		if have[name] {
			continue
		}
		if w.o.Overlap && g.P(1) {
			name = "k_1"
			if have[name] {
				continue
			}
		}
		have[name] = true
		d := &PropDecl{Name: name, T: w.nested(f, deep-1)}
		w.requirement(d, false)
		if d.Opt && d.T.Required == nil && i < n && g.P(1) && g.P(3) {
			d.Name += "?"
		}
		if d.name() != name && have[d.name()] {
			continue
		}
		have[d.name()] = true
		if d.required() {
			required++
		}
		t.Props = append(t.Props, d)
	}
	if len(t.Props) > 1 && g.P(8) {
		var ps []*PropDecl
		for _, i := range g.perm(len(t.Props)) {
			ps = append(ps, t.Props[i])
		}
		t.Props = ps
	}
	pats := len(e.Pats) > 0
	if !e.Closed && depth > 0 && g.P(2) {
		n := 1
		if w.o.Overlap {
			n = 3
		}
		for i, k := 0, g.Int(1, n); i < k; i++ {
			re := pick(g, keyPatterns).Re
			dup := false
			for _, p := range e.Pats {
				dup = dup || p.Name == re
			}
			for _, p := range t.Props {
				dup = dup || p.Pattern && p.Name == re
			}
			if !dup && (w.o.Overlap || !pats && i == 0) {
				t.Props = append(t.Props, &PropDecl{Name: re, Pattern: true, T: w.nested(f, depth-1)})
			}
		}
		for _, p := range t.Props {
			pats = pats || p.Pattern
		}
	}
	if !pats && g.P(3) {
		t.Additional = ptr(false)
	} else if !e.Closed && g.P(1) {
		t.Additional = ptr(true)
	}
	if g.P(2) {
		t.MinProps = between(g, up(e.MinProps, 0), min(up(e.MaxProps, 3), up(e.MinProps, 0)+2))
	}
	if g.P(2) {
		lo := max(uint64(required), up(e.MinProps, 0), up(t.MinProps, 0))
		hi := lo + 3
		if e.MaxProps != nil {
			hi = *e.MaxProps
		}
		if lo <= hi {
			t.MaxProps = between(g, lo, hi)
		}
	}
	if e.Discr != "" && g.P(6) {
		var ns []*SN
		for _, p := range t.Props {
			if !p.Pattern && p.name() == e.Discr {
				ns = append(ns, w.s.node(f, clone(p.T)))
			}
		}
		for _, q := range e.Props {
			if q.Name == e.Discr {
				ns = append(ns, q.Ns...)
			}
		}
		if len(ns) > 0 {
			if v, ok := w.s.valid(g, 0, ns...); ok {
				t.DiscrVal = v
			}
		}
	}
	if e.Discr == "" && g.P(2) {
		for _, p := range t.Props {
			if p.Pattern || strings.HasSuffix(p.name(), "?") || p.T.Include != "" {
				continue
			}
			switch k := w.s.eff(w.s.node(f, clone(p.T))); {
			case k.Unions == nil && (k.Kind == "string" || k.Kind == "integer" || k.Kind == "boolean"):
				t.Discr = ptr(p.Name)
				ns := []*SN{w.s.node(f, clone(p.T))}
				for _, q := range e.Props {
					if q.Name == p.name() {
						ns = append(ns, q.Ns...)
					}
				}
				if v, ok := w.s.valid(g, 0, ns...); ok && g.Bool() {
					t.DiscrVal = v
				}
			}
			if t.Discr != nil {
				break
			}
		}
	}
}

func (w *WG) requirement(d *PropDecl, must bool) {
	g := w.g
	if must {
		if g.P(2) && !d.T.Scalar {
			d.T.Required = ptr(true)
		}
		return
	}
	switch {
	case g.P(6):
		d.Opt = true
	case g.P(2) && !d.T.Scalar:
		d.T.Required = ptr(g.Bool())
		if g.P(3) {
			d.Opt = true
		}
	}
}

// override generates a declaration that narrows the given ones, or nil.
func (w *WG) override(f *File, depth int, ns []*SN) *Type {
	g := w.g
	if w.reachesRec(ns...) {
		return nil
	}
	e := w.s.eff(ns...)
	for _, l := range e.Layers {
		if len(l.Facets) > 0 || l.T != nil && len(l.T.Custom) > 0 {
			return nil
		}
	}
	for _, n := range ns {
		if len(n.customDefs()) > 0 {
			return nil
		}
	}
	if e.Conflict {
		return nil
	}
	if e.Kind == "" && len(e.Unions) == 1 {
		// Narrow one member, the only one of its kind.
		kinds := map[string]int{}
		for _, m := range e.Unions[0] {
			me := w.s.eff(m)
			if me.Kind == "" || me.Conflict || me.Unions != nil {
				return nil
			}
			kinds[me.Kind]++
		}
		if kinds["integer"] > 0 && kinds["number"] > 0 {
			return nil // an heir of the number may not be an integer
		}
		var ms []*SN
		for _, m := range e.Unions[0] {
			if me := w.s.eff(m); kinds[me.Kind] == 1 && me.Kind != "json" {
				ms = append(ms, m)
			}
		}
		if len(ms) == 0 {
			return nil
		}
		m := pick(g, ms)
		e = w.s.eff(m)
		for _, l := range e.Layers {
			if len(l.Facets) > 0 || l.T != nil && len(l.T.Custom) > 0 {
				return nil
			}
		}
	}
	t := &Type{}
	if e.Unions != nil || e.Kind == "json" {
		return nil
	}
	if e.Kind == "" { // any
		w.noEx++
		defer func() { w.noEx-- }()
		return w.decl(f, min(depth, 1), false)
	}
	if g.P(4) {
		// A declared type that is narrower.
		r := w.ref(func(r *Ref) bool {
			re := w.s.eff(r.N)
			return !r.Rec && len(r.N.customDefs()) == 0 && !w.hasEx(true, r.N) && re.Unions == nil && !re.Conflict && re.Kind == e.Kind && w.narrower(re, e)
		})
		if r != nil {
			t.Expr, t.Scalar = en(w.name(f, r)), true
			return t
		}
	}
	implied := map[string]bool{"string": true, "number": true, "array": true, "object": true, "file": true}
	if implied[e.Kind] && g.P(6) {
		w.impliedFacets(f, t, e, depth)
		if e.Kind == "string" && t.bare() {
			t.Desc = ptr("inherited")
		}
	} else {
		t.Expr = en(e.Kind)
		w.facets(f, t, e, depth)
		if t.bare() {
			t.Scalar = true
			return t
		}
	}
	if g.P(2) {
		t.Desc = ptr("overridden")
	}
	if g.P(4) {
		t.Shuf = uint32(g.Int(1, 1000))
	}
	return t
}

func atLeast(a, b *uint64) bool { return a == nil || b == nil || *a >= *b }
func atMost(a, b *uint64) bool  { return a == nil || b == nil || *a <= *b }

func subset(a, b []V) bool {
	for _, x := range a {
		if !inEnum(b, goValue(x, true)) {
			return false
		}
	}
	return true
}

// narrower reports whether the facets of a that b has as well narrow these of b.
func (w *WG) narrower(a, b *Eff) bool { return w.narrowerDepth(a, b, 4) }

func (w *WG) narrowerDepth(a, b *Eff, depth int) bool {
	if depth < 0 || a.Kind != b.Kind || a.Unions != nil || b.Unions != nil || a.Conflict || b.Conflict || a.Kind == "json" {
		return false
	}
	if !atLeast(a.MinLen, b.MinLen) || !atMost(a.MaxLen, b.MaxLen) || !atLeast(a.MinItems, b.MinItems) || !atMost(a.MaxItems, b.MaxItems) ||
		!atLeast(a.MinProps, b.MinProps) || !atMost(a.MaxProps, b.MaxProps) {
		return false
	}
	// The merged bounds must leave something.
	if !atMost(maxU(a.MinLen, b.MinLen), minU(a.MaxLen, b.MaxLen)) || !atMost(maxU(a.MinItems, b.MinItems), minU(a.MaxItems, b.MaxItems)) ||
		!atMost(maxU(a.MinProps, b.MinProps), minU(a.MaxProps, b.MaxProps)) {
		return false
	}
	if len(a.Patterns) > 0 && len(b.Patterns) > 0 {
		return false
	}
	if a.Min != nil && b.Min != nil && a.Min.Cmp(b.Min) < 0 || a.Max != nil && b.Max != nil && a.Max.Cmp(b.Max) > 0 {
		return false
	}
	lo, hi := a.Min, a.Max
	if lo == nil {
		lo = b.Min
	}
	if hi == nil {
		hi = b.Max
	}
	if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
		return false
	}
	if a.Enum != nil && b.Enum != nil && !subset(a.Enum, b.Enum) {
		return false
	}
	if a.FileTypes != nil && b.FileTypes != nil {
		for _, x := range a.FileTypes {
			ok := false
			for _, y := range b.FileTypes {
				ok = ok || x == y
			}
			if !ok {
				return false
			}
		}
	}
	if a.Format != "" && b.Format != "" && a.Format != b.Format || a.Kind == "datetime" && a.Format != b.Format {
		return false
	}
	if b.Unique {
		for _, l := range a.Layers {
			if l.T != nil && l.T.Unique != nil {
				if !a.Unique {
					return false
				}
				if !*l.T.Unique {
					return false
				}
			}
		}
	}
	if a.Discr != "" && b.Discr != "" && a.Discr != b.Discr {
		return false
	}
	nested := func(x, y []*SN) bool {
		if len(x) == 0 || len(y) == 0 {
			return true
		}
		if w.reachesRec(x...) || w.reachesRec(y...) {
			return false
		}
		for _, n := range append(append([]*SN{}, x...), y...) {
			if len(n.customDefs()) > 0 {
				return false
			}
		}
		return w.narrowerDepth(w.s.eff(x...), w.s.eff(y...), depth-1)
	}
	if !nested(a.Items, b.Items) {
		return false
	}
	if a.Kind == "object" {
		if b.Additional != nil && a.Additional != nil && *b.Additional != *a.Additional {
			return false
		}
		closed := a.Closed || a.Additional == nil && b.Closed
		if closed && (len(a.Pats) > 0 || len(b.Pats) > 0) {
			return false
		}
		if b.Closed || a.Closed {
			// Properties of the one must be declared by the other.
			names := map[string]bool{}
			for _, p := range b.Props {
				names[p.Name] = true
			}
			for _, p := range a.Props {
				if b.Closed && !names[p.Name] {
					return false
				}
				delete(names, p.Name)
			}
			if a.Closed && len(names) > 0 {
				return false
			}
		}
		match := func(as, bs []*EProp) bool {
			for _, p := range as {
				for _, q := range bs {
					if p.Name == q.Name && (q.Required && !p.Required || !nested(p.Ns, q.Ns)) {
						return false
					}
				}
			}
			return true
		}
		if !match(a.Props, b.Props) || !match(a.Pats, b.Pats) {
			return false
		}
		if len(a.Pats) > 0 && len(b.Pats) > 0 && !w.o.Overlap {
			return false
		}
	}
	return true
}

// mergeable reports whether a type may inherit from both.
func (w *WG) mergeable(a, b *Ref) bool {
	if a.Rec || b.Rec {
		return false
	}
	if w.hasEx(false, a.N) || w.hasEx(false, b.N) {
		return false
	}
	ea, eb := w.s.eff(a.N), w.s.eff(b.N)
	return ea.Kind != "" && w.narrower(ea, eb)
}

// recHeirs makes objects of the group heirs of others.
func (w *WG) recHeirs(group []*Ref) {
	g := w.g
	parent := map[int]int{}
	object := func(i int) bool { return group[i].D != nil && group[i].T.Props != nil }
	order := g.perm(len(group))
	for k, i := range order {
		if k == 0 || !object(i) || !g.P(6) {
			continue
		}
		j := order[g.Idx(k)]
		if !object(j) {
			continue
		}
		t := group[i].T
		t.Expr = en(w.name(group[i].F, group[j]))
		t.MinProps, t.MaxProps, t.Additional, t.Discr, t.DiscrVal = nil, nil, nil, nil, nil
		parent[i] = j
		next := func(a int) (int, bool) {
			b, ok := parent[a]
			return b, ok
		}
		have := map[string]bool{}
		open := true
		for a, ok := j, true; ok; a, ok = next(a) {
			p := group[a].T
			open = open && (p.Additional == nil || *p.Additional)
			for _, q := range p.Props {
				have[q.name()] = true
				open = open && !q.Pattern
			}
		}
		var ps []*PropDecl
		for _, q := range t.Props {
			if !have[q.name()] && (open || !q.Pattern) {
				ps = append(ps, q)
			}
		}
		for _, q := range group[j].T.Props {
			if q.Pattern || !q.T.Scalar || q.T.Expr == nil || group[i].F != group[j].F || !g.P(3) {
				continue
			}
			// The same property once more.
			ps = append(ps, clone(q))
		}
		t.Props = ps
		t.PropsSet = len(ps) == 0 && g.Bool()
		if len(ps) == 0 && g.Bool() {
			t.Desc = ptr("an heir")
		}
	}
}

// recGroup generates a group of types that refer to each other.
func (w *WG) recGroup(libs []*File) {
	g := w.g
	n := g.Int(1, 3)
	var group []*Ref
	dt := -1
	if w.o.RecDT && g.P(6) {
		dt = g.Idx(n)
	}
	for i := 0; i < n; i++ {
		if i == dt {
			w.fileN++
			f := w.addFile(&File{Path: fmt.Sprintf("%srec%d.raml", pick(g, []string{"", "types/", "libs/"}), w.fileN), Kind: "DataType", Usage: "recursive"})
			f.Body = &Type{}
			group = append(group, &Ref{F: f, T: f.Body})
			continue
		}
		f := pick(g, libs)
		r := w.declare(f, w.freshName(f), &Type{})
		group = append(group, r)
	}
	link := func(f *File, opt *bool) *Type {
		r := group[g.Idx(n)]
		if r.D == nil {
			// Only an include refers to a fragment.
			*opt = true
			t := &Type{Include: relPath(f, r.F.Path), Scalar: true}
			switch g.W(3, 1, 1) {
			case 1:
				return &Type{Expr: en("array"), Items: t}
			case 2:
				return &Type{Expr: en("object"), Props: []*PropDecl{{Name: "in", Opt: g.Bool(), T: t}}}
			}
			return t
		}
		name := en(w.name(f, r))
		switch g.W(4, 3, 2, 2, 2, 1) {
		case 0:
			*opt = true
			return &Type{Expr: name, Scalar: true}
		case 1:
			*opt = g.Bool()
			return &Type{Expr: ea(name), Scalar: true}
		case 2:
			if w.o.NoUnion {
				*opt = true
				return &Type{Expr: name, Scalar: true}
			}
			*opt = g.Bool()
			return &Type{Expr: eo(name), Scalar: true}
		case 3:
			*opt = g.Bool()
			t := &Type{Expr: en("array"), Items: &Type{Expr: name, Scalar: true}}
			w.arrayBounds(t, &Eff{Kind: "array"})
			if t.MinItems != nil && *t.MinItems > 0 {
				*opt = true
			}
			return t
		case 4:
			*opt = true
			t := &Type{Expr: en("object"), Props: []*PropDecl{{Name: "in", Opt: g.Bool(), T: &Type{Expr: name, Scalar: true}}}}
			return t
		default:
			if w.o.NoUnion {
				*opt = true
				return &Type{Expr: name, Scalar: true}
			}
			*opt = g.Bool()
			return &Type{Expr: eu(en("string"), name), Scalar: true}
		}
	}
	for _, r := range group {
		t := r.T
		switch {
		case g.P(13):
			t.Expr = en("object")
			w.noEx++
			w.object(r.F, t, &Eff{Kind: "object"}, 1)
			w.noEx--
			names := []string{"next", "left", "children"}
			if g.P(2) {
				names = []string{"n/x", "l~1 é", "100%"}
			}
			for i, k := 0, g.Int(1, 2); i < k; i++ {
				opt := false
				d := &PropDecl{Name: names[i], T: link(r.F, &opt)}
				d.Opt = opt
				t.Props = append(t.Props, d)
			}
			if t.MaxProps != nil {
				*t.MaxProps += 2
			}
			if g.P(2) && t.Additional == nil && !w.o.NoUnion {
				opt := false
				pat := false
				for _, p := range t.Props {
					pat = pat || p.Pattern
				}
				if !pat {
					t.Props = append(t.Props, &PropDecl{Name: "^k_", Pattern: true, T: link(r.F, &opt)})
				}
			}
		case g.Bool() || w.o.NoUnion:
			t.Expr = en("array")
			// The items are values of another kind or of the group.
			opt := false
			t.Items = link(r.F, &opt)
			w.arrayBounds(t, &Eff{Kind: "array"})
			t.MinItems = nil
		default:
			to := group[g.Idx(n)]
			if to.D == nil {
				t.Expr = ea(en("string"))
				break
			}
			t.Expr = eu(en("integer"), ea(en(w.name(r.F, to))))
			t.Scalar = g.Bool() && r.D != nil
		}
	}
	if w.o.RecHeirs {
		w.recHeirs(group)
	}
	// Every cycle must pass a property or items, which the forms above ensure.
	for _, r := range group {
		r.N = w.s.node(r.F, r.T)
		r.Rec = true
	}
	for _, r := range group {
		w.rec[r.N] = true
		w.refs = append(w.refs, r)
	}
	if dt >= 0 {
		// Something must include the fragment.
		r := group[dt]
		f := pick(g, libs)
		x := w.declare(f, w.freshName(f), &Type{Include: relPath(f, r.F.Path), Scalar: g.Bool()})
		w.done(x)
	}
}

// annType declares an annotation type.
func (w *WG) annType(f *File) {
	g := w.g
	names := []string{"note", "flag", "meta", "x-ann", "since"}
	name := ""
	for _, i := range g.perm(len(names)) {
		if f.annType(names[i]) == nil {
			name = names[i]
			break
		}
	}
	if name == "" {
		return
	}
	w.noEx++
	anns := w.o.Anns
	w.o.Anns = false
	t := w.decl(f, 2, false)
	w.o.Anns = anns
	w.noEx--
	t.Required = nil
	d := &Decl{Name: name, T: t}
	f.AnnTypes = append(f.AnnTypes, d)
	r := &Ref{F: f, D: d, T: t}
	r.N = w.s.node(f, t)
	w.anns = append(w.anns, r)
}

// annotate applies an annotation.
func (w *WG) annotate(f *File, anns *[]Named) {
	if len(w.anns) == 0 {
		return
	}
	r := pick(w.g, w.anns)
	name := w.name(f, r)
	for _, a := range *anns {
		if a.Name == name {
			return
		}
	}
	if v, ok := w.s.valid(w.g, 2, r.N); ok {
		*anns = append(*anns, Named{name, Data{V: v}})
	}
}

var facetKinds = []string{"string", "integer", "number", "boolean", "array", "any"}

// facetDefs defines custom facets.
func (w *WG) facetDefs(f *File, t *Type) {
	g := w.g
	k := w.s.eff(w.s.node(f, clone(t)))
	if k.Kind == "" || k.Unions != nil || k.Conflict || k.Kind == "json" {
		return
	}
	for i, n := 0, g.Int(1, 2); i < n; i++ {
		w.facetN++
		w.noEx++
		d := &PropDecl{Name: fmt.Sprintf("facet%d", w.facetN), T: w.decl(f, 1, false)}
		w.noEx--
		d.Opt = g.P(10)
		if w.reachesRec(w.s.node(f, clone(d.T))) {
			d.T = &Type{Expr: en("string"), Scalar: true}
		}
		v, ok := w.s.valid(g, 1, w.s.node(f, clone(d.T)))
		if !ok {
			d.T = &Type{Expr: en("string"), Scalar: true}
			v = V(`"x"`)
		}
		w.witness[d] = v
		t.Facets = append(t.Facets, d)
	}
}

func (w *WG) needsFacets(parents []*SN) bool {
	set := (&SN{Parents: parents}).customSet()
	for _, d := range (&SN{Parents: parents}).customDefs() {
		if d.Required && !set[d.Name] {
			return true
		}
	}
	return false
}

// customFacets sets custom facets that the parents define.
func (w *WG) customFacets(f *File, t *Type, parents []*SN) {
	g := w.g
	n := &SN{Parents: parents}
	set := n.customSet()
	done := map[string]bool{}
	for _, d := range n.customDefs() {
		if done[d.Name] {
			continue
		}
		done[d.Name] = true
		if d.Required && !set[d.Name] || g.P(4) {
			v, ok := w.s.valid(g, 1, d.N)
			if !ok {
				v = w.witness[d.D]
			}
			t.Custom = append(t.Custom, Named{d.Name, Data{V: v}})
		}
	}
}

// finish makes all files reachable, annotates libraries and shuffles declarations.
func (w *WG) finish(libs []*File) {
	g := w.g
	if w.o.Anns {
		for _, f := range libs {
			if g.P(6) {
				w.annotate(f, &f.Anns)
			}
		}
	}
	for _, f := range libs[1:] {
		if !w.w.reachable()[f.Path] {
			w.use(libs[0], f)
		}
	}
	for _, f := range w.w.Files {
		if len(f.Types) > 1 && g.P(10) {
			ds := make([]*Decl, len(f.Types))
			for i, j := range g.perm(len(ds)) {
				ds[i] = f.Types[j]
			}
			f.Types = ds
		}
		if g.P(6) {
			f.Shuf = uint32(g.Int(1, 1000))
		}
		if g.P(2) && f.Kind != "raw" || len(f.Types) == 0 && len(f.AnnTypes) == 0 && f.Kind == "Library" {
			f.Usage = "for tests"
		}
	}
}

// reachable returns the files that are loaded.
func (w *World) reachable() map[string]bool {
	seen := map[string]bool{}
	var visit func(f *File)
	visit = func(f *File) {
		if f == nil || seen[f.Path] {
			return
		}
		seen[f.Path] = true
		for _, p := range f.includes() {
			visit(w.file(f.rel(p)))
		}
	}
	visit(w.Files[0])
	return seen
}

// includes returns the relative paths that the file mentions.
func (f *File) includes() []string {
	var out []string
	for _, u := range f.Uses {
		out = append(out, u.Path)
	}
	f.walk(func(t *Type) {
		if t.Include != "" {
			out = append(out, t.Include)
		}
		if t.ExInc != "" {
			out = append(out, t.ExInc)
		}
		for _, e := range t.EnumInc {
			if e != "" {
				out = append(out, e)
			}
		}
	})
	f.data(func(d *Data) {
		if d.Inc != "" {
			out = append(out, d.Inc)
		}
	})
	sort.Strings(out)
	return out
}

// walk visits all declarations in the file.
func (f *File) walk(visit func(*Type)) {
	for _, d := range f.AnnTypes {
		d.T.walk(visit)
	}
	for _, d := range f.Types {
		d.T.walk(visit)
	}
	f.Body.walk(visit)
}

// data visits all values in the file apart from enums.
func (f *File) data(visit func(*Data)) {
	ex := func(e *Ex) {
		visit(&e.D)
		for i := range e.Anns {
			visit(&e.Anns[i].D)
		}
	}
	for i := range f.Anns {
		visit(&f.Anns[i].D)
	}
	for _, e := range f.Examples {
		ex(e)
	}
	f.walk(func(t *Type) {
		if t.Default != nil {
			visit(t.Default)
		}
		if t.Example != nil {
			ex(t.Example)
		}
		for _, e := range t.Examples {
			ex(e)
		}
		for i := range t.Custom {
			visit(&t.Custom[i].D)
		}
		for i := range t.Anns {
			visit(&t.Anns[i].D)
		}
	})
}

// TypeID names a declared type.
type TypeID struct {
	File string `json:"f"`
	Name string `json:"n"` // empty for a DataType fragment
}

// typeIDs lists the declared types of all loaded files.
func (w *World) typeIDs() []TypeID {
	var out []TypeID
	re := w.reachable()
	for _, f := range w.Files {
		if !re[f.Path] {
			continue
		}
		for _, d := range f.Types {
			out = append(out, TypeID{f.Path, d.Name})
		}
		if f.Body != nil {
			out = append(out, TypeID{f.Path, ""})
		}
	}
	return out
}

func (s *Sem) id(id TypeID) *SN {
	f := s.w.file(id.File)
	if f == nil {
		return nil
	}
	if id.Name == "" {
		return s.node(f, f.Body)
	}
	t := f.typ(id.Name)
	if t == nil {
		return nil
	}
	return s.node(f, t)
}

package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"
)

// Fault is a defect injected into a valid world.
type Fault struct {
	Kind  string `json:"kind"`
	File  string `json:"file"`
	Label string `json:"label"` // label of the declaration that contains the fault
	Stage string `json:"stage"` // parse, unwrap or validate: the first stage that must reject the world
}

// site is a declaration in a file.
type site struct {
	F     *File
	T     *Type
	Label string
	Root  *Type // the declaration of a name or file that contains it
	Heir  bool  // it is within a declaration that inherits
}

func (t *Type) sites(f *File, label string, visit func(site)) {
	t.sitesIn(site{F: f, T: t, Label: label, Root: t}, visit)
}

func (t *Type) sitesIn(s site, visit func(site)) {
	if t == nil {
		return
	}
	s.T = t
	s.Heir = s.Heir || t.Include != "" || t.Parents != nil || t.Expr != nil && !(t.Expr.isName() && builtins[t.Expr.Name])
	visit(s)
	sub := func(t *Type, label string) {
		x := s
		x.Label += label
		t.sitesIn(x, visit)
	}
	sub(t.Items, "/items")
	for _, p := range t.Props {
		sub(p.T, "/props/"+p.key())
	}
	for _, p := range t.Facets {
		sub(p.T, "/facets/"+p.key())
	}
}

func (f *File) sites(visit func(site)) {
	for _, d := range f.AnnTypes {
		d.T.sites(f, "annotationTypes/"+d.Name, visit)
	}
	for _, d := range f.Types {
		d.T.sites(f, "types/"+d.Name, visit)
	}
	f.Body.sites(f, "body", visit)
}

// allSites lists the declarations of all loaded files.
func (w *World) allSites() []site {
	var out []site
	re := w.reachable()
	for _, f := range w.Files {
		if re[f.Path] {
			f.sites(func(s site) { out = append(out, s) })
		}
	}
	return out
}

func (w *WG) libs() []*File {
	var out []*File
	for _, f := range w.w.Files {
		if f.Kind == "Library" {
			out = append(out, f)
		}
	}
	return out
}

// plant adds a new declaration somewhere in the world and returns where it is. The declaration is made for the file.
func (w *WG) plant(make func(f *File) *Type) site {
	g := w.g
	f := pick(g, w.libs())
	name := func(f *File) string {
		for i := 0; ; i++ {
			n := fmt.Sprintf("Z%d", i)
			if f.typ(n) == nil {
				return n
			}
		}
	}
	top := func(f *File, t *Type) string {
		n := name(f)
		d := &Decl{n, t}
		if g.Bool() {
			f.Types = append(f.Types, d)
		} else {
			f.Types = append([]*Decl{d}, f.Types...)
		}
		return "types/" + n
	}
	prop := func(t *Type) *Type {
		t.Required = nil
		return t
	}
	existing := 5
	if w.separate {
		existing = 0
	}
	switch g.W(6, existing, 3, 3, 3, 2, 2, 3) {
	case 1: // a property of an existing declaration
		var ss []site
		for _, s := range w.w.allSites() {
			if s.T.Expr.isName() && s.T.Expr.Name == "object" && !s.T.Scalar && (s.T.Additional == nil || *s.T.Additional) {
				ss = append(ss, s)
			}
		}
		if len(ss) > 0 {
			s := pick(g, ss)
			w.fileN++ // heirs must not have the property
			if n := fmt.Sprintf("zz%d", w.fileN); !s.T.hasProp(n) {
				old := s.T.Props
				t := prop(make(s.F))
				s.T.Props = append(s.T.Props, &PropDecl{Name: n, Opt: true, T: t})
				sem := newSem(w.w)
				if !sem.refersTo(sem.node(s.F, t), s.Root) {
					return site{F: s.F, T: t, Label: s.Label + "/props/" + n + "?"}
				}
				s.T.Props = old // the declaration refers to its host
			}
		}
	case 2:
		t := make(f)
		return site{F: f, T: t, Label: top(f, &Type{Expr: en("array"), Items: t}) + "/items"}
	case 3:
		d := &PropDecl{Name: "zz", Opt: g.Bool(), T: prop(make(f))}
		return site{F: f, T: d.T, Label: top(f, &Type{Expr: en("object"), Props: []*PropDecl{d}}) + "/props/" + d.key()}
	case 4:
		t := prop(make(f))
		return site{F: f, T: t, Label: top(f, &Type{Expr: en("object"), Props: []*PropDecl{{Name: "^z", Pattern: true, T: t}}}) + "/props//^z/"}
	case 5:
		t := prop(make(f))
		return site{F: f, T: t, Label: top(f, &Type{Expr: en("string"), Facets: []*PropDecl{{Name: "zz", Opt: true, T: t}}}) + "/facets/zz?"}
	case 6:
		if f.annType("zz") == nil {
			t := make(f)
			t.Required = nil
			f.AnnTypes = append(f.AnnTypes, &Decl{"zz", t})
			return site{F: f, T: t, Label: "annotationTypes/zz"}
		}
	case 7:
		w.fileN++
		dt := w.addFile(&File{Path: fmt.Sprintf("%szz%d.raml", pick(g, []string{"", "types/", "libs/"}), w.fileN), Kind: "DataType"})
		t := make(dt)
		if t.Scalar {
			t.Scalar = false
		}
		dt.Body = t
		inc := &Type{Include: relPath(f, dt.Path), Scalar: true}
		switch {
		case g.Bool():
			top(f, inc)
		default:
			top(f, &Type{Expr: en("object"), Props: []*PropDecl{{Name: "p", T: inc}}})
		}
		return site{F: dt, T: t, Label: "body"}
	}
	t := make(f)
	return site{F: f, T: t, Label: top(f, t)}
}

// refersTo reports whether the declaration refers to another one, also in its custom facet definitions.
func (s *Sem) refersTo(n *SN, t *Type) bool {
	seen := map[*SN]bool{}
	var visit func(n *SN) bool
	visit = func(n *SN) bool {
		if n.T == t {
			return true
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		for _, m := range s.edges(n) {
			if visit(m) {
				return true
			}
		}
		for _, p := range n.Facets {
			if visit(p.N) {
				return true
			}
		}
		return false
	}
	return visit(n)
}

func (t *Type) hasProp(name string) bool {
	for _, p := range t.Props {
		if p.Name == name {
			return true
		}
	}
	return false
}

// mapDecl generates a declaration that is a map.
func (w *WG) mapDecl(f *File, depth int) *Type {
	w.noEx++
	defer func() { w.noEx-- }()
	for i := 0; i < 5; i++ {
		t := w.decl(f, depth, false)
		if t.Scalar {
			if e := t.Expr; e == nil || e.isName() && !builtins[e.Name] {
				continue
			}
			t.Scalar = false
		}
		t.Required = nil
		return t
	}
	return &Type{Expr: en("integer")}
}

// faultClass creates a fault, it returns nil if it does not find a site.
type faultClass struct {
	kind  string
	stage string
	make  func(w *WG) *Fault
}

func class(kinds ...string) func(faultClass) bool {
	return func(c faultClass) bool {
		for _, k := range kinds {
			if c.kind == k {
				return true
			}
		}
		return false
	}
}

// verdict checks which stages reject the world.
func (x *X) verdict(w *World, f *Fault) {
	stage := map[string]int{"parse": 0, "unwrap": 1, "validate": 2, "": 3}
	kind, st := "no fault", 3
	if f != nil {
		kind, st = f.Kind, stage[f.Stage]
	}
	for _, m := range []Mode{parseOnly, unwrapped, validated, full} {
		want := st == 0 || st == 1 && (m.Unwrap || m.Validate) || st == 2 && m.Validate
		_, err := x.parse(w, m)
		if err != nil && !want {
			x.Fail("rejected at an early stage or although valid", "%s, unwrap %v validate %v: %v\n%s", kind, m.Unwrap, m.Validate, x.errText(err), dumpFiles(w.render()))
		}
		if err == nil && want {
			x.Fail("fault is accepted", "%s in %s at %s, unwrap %v validate %v\n%s", kind, f.File, f.Label, m.Unwrap, m.Validate, dumpFiles(w.render()))
		}
	}
	x.Label("%s", kind)
}

func (w *WG) fault(s site) *Fault { return &Fault{File: s.F.Path, Label: s.Label} }

// useTwice makes the file use a library that uses another one, most of the time.
func (w *WG) useTwice(f *File) {
	libs := w.libs()
	if len(libs) < 3 || w.separate || w.g.P(4) {
		return
	}
	if a, b := pick(w.g, libs), pick(w.g, libs); a != f && b != a && b != f {
		w.use(f, a)
		w.use(a, b)
	}
}

// inject adds one fault of the kinds, or of any kind, nil if none can be created.
func (w *WG) inject(kinds func(faultClass) bool) *Fault {
	var cs []faultClass
	for _, c := range faultClasses {
		if kinds == nil || kinds(c) {
			cs = append(cs, c)
		}
	}
	for i := 0; i < 3; i++ {
		c := pick(w.g, cs)
		if f := c.make(w); f != nil {
			if f.Kind != "" {
				f.Kind = ": " + f.Kind
			}
			f.Kind, f.Stage = c.kind+f.Kind, c.stage
			return f
		}
	}
	return nil
}

// declSite plants a declaration and picks a declaration within it.
func (w *WG) declSite(depth int, ok func(site) bool) (site, bool) {
	s := w.plant(func(f *File) *Type { return w.mapDecl(f, depth) })
	var ss []site
	s.T.sites(s.F, s.Label, func(x site) {
		if !x.T.Scalar && (ok == nil || ok(x)) {
			ss = append(ss, x)
		}
	})
	if len(ss) == 0 {
		return s, false
	}
	return pick(w.g, ss), true
}

// invalidFor draws a value that does not conform to the declaration.
func (w *WG) invalidFor(s site) (V, bool) {
	sem := newSem(w.w)
	v, ok := sem.invalid(w.g, 2, sem.node(s.F, s.T))
	if jsonString(v) {
		return nil, false
	}
	return v, ok
}

// jsonString reports whether the value is a string whose content is taken for JSON.
func jsonString(v V) bool { return strings.HasPrefix(string(v), `"{`) }

func (w *WG) validFor(s site) (V, bool) {
	sem := newSem(w.w)
	return sem.valid(w.g, 2, sem.node(s.F, s.T))
}

// exampleFault sets the examples of the declaration, one of which does not conform.
func (w *WG) exampleFault(s site, bad V) *Fault {
	g := w.g
	t := s.T
	t.Example, t.Examples, t.ExInc = nil, nil, ""
	ex := func(v V) *Ex {
		e := &Ex{D: Data{V: v}}
		e.Wrapped = hasValueKey(v) || g.P(4)
		if e.Wrapped && g.Bool() {
			e.Strict = ptr(true)
		}
		return e
	}
	f := w.fault(s)
	if g.Bool() {
		t.Example = ex(bad)
		return f
	}
	n := g.Int(1, 3)
	at := g.Idx(n)
	for i := 0; i < n; i++ {
		e := ex(bad)
		if i != at {
			v, ok := w.validFor(s)
			if !ok {
				continue
			}
			e = ex(v)
		}
		e.Name = fmt.Sprintf("e%d", i)
		t.Examples = append(t.Examples, e)
	}
	if g.P(6) {
		w.fileN++
		ne := w.addFile(&File{Path: fmt.Sprintf("%szne%d.raml", pick(g, []string{"", "examples/"}), w.fileN), Kind: "NamedExample", Examples: t.Examples})
		t.ExInc, t.Examples = relPath(s.F, ne.Path), nil
	}
	return f
}

// badData lists values that are no values of the kind.
func badData(kind string) []V {
	switch kind {
	case "string":
		return []V{V("1"), V("true"), V("1.5"), V("null"), V("[]"), V(`["a"]`)}
	case "integer":
		return []V{V(`"1"`), V("true"), V("1.5"), V("[]"), V(`""`)}
	case "number":
		return []V{V(`"1"`), V("false"), V("[]")}
	case "boolean":
		return []V{V(`"true"`), V("0"), V("1"), V("[]")}
	}
	bug("no bad values of %s", kind)
	return nil
}

// freeName returns an undeclared name with the prefix.
func (f *File) freeName(prefix string) string {
	for i := 0; ; i++ {
		if n := fmt.Sprintf("%s%d", prefix, i); f.typ(n) == nil {
			return n
		}
	}
}

// family declares a type in the library or in a file of its own, possibly with types that inherit from it or alias it,
// and returns how to inherit from the last one. An heir in between is completed with the facets.
func (w *WG) family(lib *File, base *Type, facets []Named) func(f *File) *Type {
	g := w.g
	named := func(t *Type) func(f *File) *Type {
		n := lib.freeName("Y")
		lib.Types = append(lib.Types, &Decl{n, t})
		return func(f *File) *Type {
			if f == lib {
				return &Type{Expr: en(n)}
			}
			return &Type{Expr: en(w.use(f, lib) + "." + n)}
		}
	}
	var heir func(f *File) *Type
	if g.P(11) {
		heir = named(base)
	} else {
		w.fileN++
		// The declaration refers to names of the library.
		dt := w.addFile(&File{Path: fmt.Sprintf("%syy%d.raml", pick(g, []string{"", "types/"}), w.fileN), Kind: "DataType", Body: base})
		ref := func(e *Expr) {
			if e.Op == "" && !builtins[e.Name] {
				e.Name = w.use(dt, lib) + "." + e.Name
			}
		}
		base.walk(func(t *Type) { t.Expr.walk(ref) })
		heir = func(f *File) *Type { return &Type{Include: relPath(f, dt.Path)} }
	}
	for i, k := 0, g.Int(0, 2); i < k; i++ {
		t := heir(lib)
		switch g.W(2, 3, 2) {
		case 0:
			if t.Include != "" && base.Facets != nil {
				continue // an included data type is a parent (KNOWN_FINDINGS.txt)
			}
			t.Scalar = true // an alias
		case 1:
			t.Desc = ptr("in between")
			t.Custom = facets
		default:
			if t.Include != "" {
				continue
			}
			// The other parent allows everything of the kind.
			o := lib.freeName("Y")
			lib.Types = append(lib.Types, &Decl{o, &Type{Expr: en(base.Expr.Name), Desc: ptr("other")}})
			t = &Type{Parents: []string{t.Expr.Name, o}, Custom: facets}
			if g.Bool() && base.Expr.Name != "any" {
				t.Parents = []string{o, t.Parents[0]}
			}
		}
		heir = named(t)
	}
	return heir
}

// facetType generates the type of a custom facet, with conforming and other values.
func (w *WG) facetType(f *File) (*Type, V, V) {
	for i := 0; i < 4; i++ {
		t := w.mapDecl(f, 1)
		s := newSem(w.w)
		n := s.node(f, t)
		if w.reachesRec(n) {
			continue
		}
		good, ok := s.valid(w.g, 2, n)
		bad, ok2 := s.invalid(w.g, 2, n)
		if ok && ok2 && !jsonString(good) && !jsonString(bad) {
			return t, good, bad
		}
	}
	return &Type{Expr: en("integer")}, V("1"), V(`"x"`)
}

// facetFamily plants an heir of a type that defines custom facets, and changes it.
func (w *WG) facetFamily(facets func(lib *File) ([]*PropDecl, []Named), use func(t *Type)) *Fault {
	g := w.g
	lib := pick(g, w.libs())
	fs, between := facets(lib)
	var more []Named
	if g.P(8) {
		// Other facets.
		for i, n := 0, g.Int(1, 3); i < n; i++ {
			d := &PropDecl{Name: fmt.Sprintf("other%d", i), Opt: true, T: &Type{Expr: en(pick(g, []string{"integer", "any"})), Scalar: true}}
			v := Named{d.Name, Data{V: V("5")}}
			switch g.W(3, 2, 1) {
			case 1:
				more = append(more, v)
			case 2:
				d.Opt = false
				more = append(more, v)
				between = append(between, v)
			}
			at := g.Int(0, len(fs))
			fs = slices.Insert(fs, at, d)
		}
	}
	for _, p := range fs {
		if !p.T.Scalar || !builtins[p.T.Expr.Name] {
			// The base type may be declared in another file.
			n := lib.freeName("X")
			lib.Types = append(lib.Types, &Decl{n, p.T})
			p.T = &Type{Expr: en(n), Scalar: true}
		}
	}
	kinds := []string{"string", "integer", "object", "array", "boolean", "number", "file", "date-only", "nil", "any"}
	heir := w.family(lib, &Type{Expr: en(pick(g, kinds)), Facets: fs}, between)
	return w.fault(w.plant(func(f *File) *Type {
		t := heir(f)
		use(t)
		for _, c := range more {
			t.Custom = slices.Insert(t.Custom, g.Int(0, len(t.Custom)), c)
		}
		return t
	}))
}

func (w *WG) annFault(s site, name string, v V) *Fault {
	f := w.fault(s)
	s.T.Anns = append(s.T.Anns, Named{name, Data{V: v}})
	f.Label = fmt.Sprintf("%s/anns/%d", s.Label, len(s.T.Anns)-1)
	return f
}

// annTypeWith declares an annotation type of which both conforming and other values exist.
func (w *WG) annTypeWith(f *File) (name string, good, bad V, lib *File) {
	if w.g.P(6) {
		// An annotation type that may be applied elsewhere.
		lib = pick(w.g, w.libs())
		if len(lib.AnnTypes) > 0 {
			d := pick(w.g, lib.AnnTypes)
			sem := newSem(w.w)
			n := sem.node(lib, d.T)
			good, ok := sem.valid(w.g, 2, n)
			bad, ok2 := sem.invalid(w.g, 2, n)
			if ok && ok2 && !jsonString(good) && !jsonString(bad) {
				name := d.Name
				if f != lib {
					name = w.use(f, lib) + "." + name
				}
				return name, good, w.alike(sem, n, good, bad), lib
			}
		}
	}
	lib = pick(w.g, w.libs())
	t, good, bad := w.facetType(lib)
	sem := newSem(w.w)
	bad = w.alike(sem, sem.node(lib, t), good, bad)
	for {
		w.fileN++
		n := fmt.Sprintf("w%d", w.fileN)
		if lib.annType(n) == nil {
			lib.AnnTypes = append(lib.AnnTypes, &Decl{n, t})
			if f == lib {
				return n, good, bad, lib
			}
			return w.use(f, lib) + "." + n, good, bad, lib
		}
	}
}

// alike may replace a value that does not conform by one that looks like the conforming value.
func (w *WG) alike(sem *Sem, n *SN, good, bad V) V {
	if w.g.P(11) {
		return bad
	}
	var change func(v any) any
	change = func(v any) any {
		switch v := v.(type) {
		case nil:
			return "<nil>"
		case bool:
			return fmt.Sprint(v)
		case json.Number:
			return string(v)
		case string:
			var x any
			d := json.NewDecoder(strings.NewReader(v))
			d.UseNumber()
			if d.Decode(&x) == nil && !d.More() {
				return x
			}
			return []any{v}
		case []any:
			if len(v) > 0 {
				i := w.g.Idx(len(v))
				v[i] = change(v[i])
			}
			return v
		case map[string]any:
			if ks := keysOf(v); len(ks) > 0 {
				k := pick(w.g, ks)
				v[k] = change(v[k])
			}
			return v
		}
		return v
	}
	x := change(tree(good))
	if v := mustJSON(x); !jsonString(v) && !sem.all([]*SN{n}, x) {
		return v
	}
	return bad
}

// annotatable plants or picks a place for an annotation and adds it.
func (w *WG) annotatePlace(ann func(f *File) Named) *Fault {
	g := w.g
	switch g.W(3, 5, 3) {
	case 0: // a fragment
		f := pick(g, w.libs())
		a := ann(f)
		for _, b := range f.Anns {
			if a.Name == b.Name {
				return nil
			}
		}
		f.Anns = append(f.Anns, a)
		return &Fault{File: f.Path, Label: fmt.Sprintf("anns/%d", len(f.Anns)-1)}
	case 1:
		s, ok := w.declSite(2, nil)
		if !ok {
			return nil
		}
		a := ann(s.F)
		for _, b := range s.T.Anns {
			if a.Name == b.Name {
				return nil
			}
		}
		return w.annFault(s, a.Name, a.D.V)
	default: // an example
		s, ok := w.declSite(1, func(s site) bool { return !s.Heir || s.T == s.Root })
		if !ok {
			return nil
		}
		v, ok := w.validFor(s)
		if !ok {
			return nil
		}
		a := ann(s.F)
		e := &Ex{D: Data{V: v}, Wrapped: true, Anns: []Named{a}}
		s.T.Example, s.T.Examples, s.T.ExInc = nil, nil, ""
		if g.Bool() {
			s.T.Example = e
			return &Fault{File: s.F.Path, Label: s.Label + "/example/anns/0"}
		}
		e.Name = "one"
		s.T.Examples = []*Ex{e}
		return &Fault{File: s.F.Path, Label: s.Label + "/examples/one/anns/0"}
	}
}

// widening returns facets of a parent and of an heir that widens them.
func (w *WG) widening(f *File) (parent, child *Type, kind string) {
	g := w.g
	n := func(v int) *uint64 { return ptr(uint64(v)) }
	lo := g.Int(1, 5)
	hi := lo + g.Int(0, 4)
	less, more := g.Int(0, lo-1), hi+g.Int(1, 3)
	str := func(v int) *string { return ptr(fmt.Sprint(v)) }
	kinds := []string{
		"string minLength", "string maxLength", "string enum", "integer minimum", "integer maximum", "integer enum", "integer format",
		"number minimum", "number maximum", "number enum", "boolean enum", "array minItems", "array maxItems", "array uniqueItems",
		"array items type", "object minProperties", "object maxProperties", "object required", "object property type", "file minLength",
		"file maxLength", "file fileTypes", "number format", "object additionalProperties", "union member", "items to union", "pattern property type", "union narrowed member",
	}
	kind = pick(g, kinds)
	p, c := &Type{}, &Type{}
	p.Expr = en(strings.Fields(kind)[0])
	ints := func(enum ...string) []V {
		var out []V
		for _, e := range enum {
			out = append(out, V(e))
		}
		return out
	}
	switch kind {
	case "string minLength", "file minLength":
		p.MinLength, c.MinLength = n(lo), n(less)
	case "string maxLength", "file maxLength":
		p.MaxLength, c.MaxLength = n(hi), n(more)
	case "string enum":
		p.Enum, c.Enum = ints(`"a"`, `"b"`), ints(`"a"`, `"c"`)
	case "integer minimum", "number minimum":
		p.Minimum, c.Minimum = str(lo), str(less)
	case "integer maximum", "number maximum":
		p.Maximum, c.Maximum = str(hi), str(more)
	case "integer enum", "number enum":
		p.Enum, c.Enum = ints("1", "2", "5"), ints("1", "3")
	case "integer format":
		ranks := [][]string{{"int8"}, {"int16"}, {"int32", "int"}, {"int64", "long"}}
		i := g.Int(0, 2)
		p.Format, c.Format = ptr(pick(g, ranks[i])), ptr(pick(g, ranks[g.Int(i+1, 3)]))
	case "number format":
		p.Format, c.Format = ptr("float"), ptr("double")
		if g.Bool() {
			p.Format, c.Format = c.Format, p.Format
		}
	case "boolean enum":
		p.Enum, c.Enum = ints("true"), ints("true", "false")
	case "array minItems":
		p.MinItems, c.MinItems = n(lo), n(less)
	case "array maxItems":
		p.MaxItems, c.MaxItems = n(hi), n(more)
	case "array uniqueItems":
		p.Unique, c.Unique = ptr(true), ptr(false)
	case "array items type":
		p.Items, c.Items = &Type{Expr: en("string"), Scalar: true}, &Type{Expr: en(pick(g, []string{"integer", "object", "boolean"})), Scalar: true}
	case "object minProperties":
		p.MinProps, c.MinProps = n(lo), n(less)
	case "object maxProperties":
		p.MaxProps, c.MaxProps = n(hi), n(more)
	case "object required":
		p.Props = []*PropDecl{{Name: "p", T: &Type{Expr: en("string"), Scalar: g.Bool()}}}
		c.Props = []*PropDecl{{Name: "p", Opt: true, T: &Type{Expr: en("string"), Scalar: g.Bool()}}}
		if g.Bool() {
			c.Props[0].Opt, c.Props[0].T.Scalar, c.Props[0].T.Required = false, false, ptr(false)
		}
	case "object property type":
		p.Props = []*PropDecl{{Name: "p", Opt: true, T: &Type{Expr: en("number"), Scalar: true}}}
		c.Props = []*PropDecl{{Name: "p", Opt: true, T: &Type{Expr: en(pick(g, []string{"string", "object", "boolean"})), Scalar: true}}}
	case "pattern property type":
		p.Expr = en("object")
		p.Props = []*PropDecl{{Name: "^k_", Pattern: true, T: &Type{Expr: en("number"), Scalar: true}}}
		c.Props = []*PropDecl{{Name: "^k_", Pattern: true, T: &Type{Expr: en(pick(g, []string{"string", "object", "boolean"})), Scalar: true}}}
	case "file fileTypes":
		p.FileTypes, c.FileTypes = []string{"image/png", "image/jpeg"}, []string{"image/png", "text/plain"}
	case "object additionalProperties":
		return nil, nil, ""
	case "union member":
		p.Expr = en("object")
		p.Props = []*PropDecl{{Name: "p", Opt: true, T: &Type{Expr: eu(en("string"), en("integer")), Scalar: true}}}
		bad := pick(g, []*Expr{en("boolean"), eu(en("string"), en("boolean")), eu(en("object"), en("integer")), ea(en("string"))})
		c.Props = []*PropDecl{{Name: "p", Opt: true, T: &Type{Expr: bad, Scalar: true}}}
	case "items to union":
		p.Expr = en("array")
		p.Items = &Type{Expr: en("string"), Scalar: true}
		c.Items = &Type{Expr: eu(en("string"), en("integer")), Scalar: true}
	case "union narrowed member":
		return nil, nil, ""
	}
	return p, c, kind
}

// plantWidening declares a parent and an heir that widens it, possibly nested in properties and items.
func (w *WG) plantWidening() *Fault {
	lib := pick(w.g, w.libs())
	p, c, kind := w.widening(lib)
	if p == nil {
		return nil
	}
	s, sub := w.plantHeir(lib, p, c)
	f := w.fault(s)
	f.Label += sub
	f.Kind = kind
	return f
}

// plantNarrowing declares an heir that narrows its parent or restates its constraints.
func (w *WG) plantNarrowing() {
	for i := 0; i < 5; i++ {
		lib := pick(w.g, w.libs())
		p, c, kind := w.widening(lib)
		if p == nil {
			continue
		}
		switch kind {
		case "string enum":
			c.Enum = []V{p.Enum[w.g.Idx(len(p.Enum))]}
		case "integer enum", "number enum", "boolean enum":
			c.Enum = append([]V{}, p.Enum...)
			for i, j := 0, len(c.Enum)-1; i < j; i, j = i+1, j-1 {
				c.Enum[i], c.Enum[j] = c.Enum[j], c.Enum[i]
			}
		case "integer format", "number format":
			c.Format = p.Format
		case "file fileTypes":
			c.FileTypes = []string{"image/jpeg"}
		case "object property type", "pattern property type", "array items type", "union member", "items to union":
			continue
		default:
			e := p.Expr
			p, c = c, p
			p.Expr, c.Expr = e, nil
		}
		w.plantHeir(lib, p, c)
		return
	}
}

// enrich adds facets that neither the parent nor the heir has yet and that do not contradict each other.
func (w *WG) enrich(f *File, p, c *Type, top bool) {
	g := w.g
	sides := func() (bool, bool) {
		switch g.W(12, 2, 1, 1) {
		case 1:
			return true, false
		case 2:
			return false, true
		case 3:
			return true, true
		}
		return false, false
	}
	add := func(free bool, set func(t *Type)) {
		a, b := sides()
		if !free || p.Expr == nil {
			return
		}
		if a {
			p.Scalar = false
			set(p)
		}
		if b {
			c.Scalar = false
			set(c)
		}
	}
	kind := ""
	if p.Expr.isName() && (c.Expr == nil || c.Expr.isName() && c.Expr.Name == p.Expr.Name) {
		kind = p.Expr.Name
	}
	switch kind {
	case "string":
		add(p.MinLength == nil && c.MinLength == nil, func(t *Type) { t.MinLength = ptr(uint64(1)) })
		add(p.MaxLength == nil && c.MaxLength == nil, func(t *Type) { t.MaxLength = ptr(uint64(50)) })
		add(p.Pattern == nil && c.Pattern == nil, func(t *Type) { t.Pattern = ptr("^[a-z]*$") })
		add(p.Enum == nil && c.Enum == nil, func(t *Type) { t.Enum = []V{V(`"abc"`), V(`"de"`), V(`"fghijkl"`)} })
	case "integer", "number":
		add(p.Minimum == nil && c.Minimum == nil, func(t *Type) { t.Minimum = ptr("-10") })
		add(p.Maximum == nil && c.Maximum == nil, func(t *Type) { t.Maximum = ptr("100") })
		add(p.Format == nil && c.Format == nil, func(t *Type) { t.Format = ptr(map[string]string{"integer": "int64", "number": "double"}[kind]) })
		add(p.MultipleOf == nil && c.MultipleOf == nil, func(t *Type) { t.MultipleOf = ptr("1") })
		add(p.Enum == nil && c.Enum == nil, func(t *Type) { t.Enum = []V{V("3"), V("5"), V("7"), V("8")} })
	case "file":
		add(p.MinLength == nil && c.MinLength == nil, func(t *Type) { t.MinLength = ptr(uint64(1)) })
		add(p.MaxLength == nil && c.MaxLength == nil, func(t *Type) { t.MaxLength = ptr(uint64(50)) })
	case "array":
		add(p.MinItems == nil && c.MinItems == nil, func(t *Type) { t.MinItems = ptr(uint64(0)) })
		add(p.MaxItems == nil && c.MaxItems == nil, func(t *Type) { t.MaxItems = ptr(uint64(40)) })
		add(p.Items == nil && c.Items == nil, func(t *Type) { t.Items = &Type{Expr: en("integer"), Scalar: true} })
		add(p.Unique == nil && c.Unique == nil, func(t *Type) { t.Unique = ptr(true) })
	case "object":
		add(p.MinProps == nil && c.MinProps == nil, func(t *Type) { t.MinProps = ptr(uint64(0)) })
		add(p.MaxProps == nil && c.MaxProps == nil, func(t *Type) { t.MaxProps = ptr(uint64(40)) })
		add(p.Additional == nil && c.Additional == nil, func(t *Type) { t.Additional = ptr(true) })
		add(!p.hasProp("also") && !c.hasProp("also"), func(t *Type) {
			t.Props = append(t.Props, &PropDecl{Name: "also", Opt: true, T: &Type{Expr: en("boolean"), Scalar: true}})
		})
	}
	if top {
		p.Scalar, c.Scalar = false, false
	}
	if p.Items != nil && c.Items != nil {
		w.enrich(f, p.Items, c.Items, false)
	}
	for _, a := range p.Props {
		for _, b := range c.Props {
			if a.Name == b.Name && a.Pattern == b.Pattern {
				w.enrich(f, a.T, b.T, false)
			}
		}
	}
	add(true, func(t *Type) { t.Desc = ptr("described") })
	add(true, func(t *Type) { t.Display = ptr("displayed") })
	if a, b := sides(); a || b {
		cc := clone(c)
		if cc.Expr == nil {
			cc.Expr = p.Expr
		}
		sem := newSem(w.w)
		v, ok := sem.valid(g, 2, sem.node(f, clone(p)), sem.node(f, cc))
		if !ok || jsonString(v) {
			return
		}
		ex := g.Bool()
		set := func(t *Type) {
			t.Scalar = false
			if ex {
				t.Example = &Ex{D: Data{V: v}, Wrapped: hasValueKey(v)}
			} else {
				t.Default = &Data{V: v}
			}
		}
		if a {
			set(p)
		}
		if b {
			set(c)
		}
	}
}

// plantHeir declares a type and an heir of it, or types that have them as property or items.
func (w *WG) plantHeir(lib *File, p, c *Type) (site, string) {
	g := w.g
	w.enrich(lib, p, c, true)
	// The heir may override a property or items.
	sub := ""
	wrapped := false
	for i, k := 0, g.Int(0, 2); i < k; i++ {
		if c.Expr == nil && wrapped == false {
			c.Expr = en(p.Expr.Name)
		}
		wrapped = true
		switch g.Idx(3) {
		case 0:
			p = &Type{Expr: en("array"), Items: p}
			c = &Type{Expr: en("array"), Items: c}
			sub = "/items" + sub
		case 1:
			p = &Type{Expr: en("object"), Props: []*PropDecl{{Name: "q", Opt: true, T: p}}}
			opt := g.Bool()
			c = &Type{Expr: en("object"), Props: []*PropDecl{{Name: "q", Opt: opt, T: c}}}
			sub = "/props/" + c.Props[0].key() + sub
		default:
			p = &Type{Expr: en("object"), Props: []*PropDecl{{Name: "^q", Pattern: true, T: p}}}
			c = &Type{Expr: en("object"), Props: []*PropDecl{{Name: "^q", Pattern: true, T: c}}}
			sub = "/props//^q/" + sub
		}
	}
	heir := w.family(lib, p, nil)
	s := w.plant(func(f *File) *Type {
		t := heir(f)
		h := clone(c)
		h.Expr, h.Include = t.Expr, t.Include
		return h
	})
	return s, sub
}

var (
	badCounts  = []string{"-1", "abc", "1.5", "[1]", "{a: 1}", "true", "36893488147419103232", "1e3x", "0.5", "2.25"}
	badBounds  = []string{"abc", "[]", "{a: 1}", "true", ".inf", "-.inf", ".nan", "1x", "[1]", "--1"}
	badFlags   = []string{"maybe", "5", "[true]", "{a: true}", "1.5"}
	badStrings = []string{"{a: b}", "[a]"}
	badMaps    = []string{"5", "[a, b]", `"a"`, "true"}
	badLists   = []string{"5", "{a: 1}", "a", "true"}
)

// badFacets are facets with values that their types do not allow.
var badFacets = []struct {
	k     string
	kinds []string // nil for all
	vs    []string
}{
	{"minLength", []string{"string", "file"}, badCounts}, {"maxLength", []string{"string", "file"}, badCounts},
	{"pattern", []string{"string"}, []string{`"["`, "[a]", "'(a'", "{a: b}", "'a**'", "'*'"}},
	{"minimum", []string{"integer", "number"}, badBounds}, {"maximum", []string{"integer", "number"}, badBounds}, {"multipleOf", []string{"integer", "number"}, badBounds},
	{"format", []string{"integer"}, []string{"int7", "float", "rfc3339", "[int8]", "{a: b}"}}, {"format", []string{"number"}, []string{"int7", "rfc2616", "[float]"}},
	{"format", []string{"datetime"}, []string{"rfc1", "int8", "[rfc3339]", "{a: b}"}},
	{"minItems", []string{"array"}, badCounts}, {"maxItems", []string{"array"}, badCounts}, {"uniqueItems", []string{"array"}, badFlags},
	{"items", []string{"array"}, []string{"[a, b]", "{minLength: x}", "{type: array, items: {minimum: a}}"}},
	{"minProperties", []string{"object"}, badCounts}, {"maxProperties", []string{"object"}, badCounts},
	{"properties", []string{"object"}, append([]string{"{a: {minLength: -1}}", `{"/[/": string}`, "{a: {required: sometimes}}", "{b: {properties: 5}}"}, badMaps...)},
	{"additionalProperties", []string{"object"}, append([]string{"some"}, badFlags...)}, {"discriminator", []string{"object"}, badStrings},
	{"fileTypes", []string{"file"}, append([]string{"[5]", "[[a]]", "[a, {b: c}]", "[true]", "['{\"a\": 1}']", "[image/png, 5]"}, badLists...)},
	{"enum", []string{"string", "integer", "number", "boolean"}, badLists},
	{"required", nil, []string{"sometimes", "[true]", "{a: b}"}}, {"displayName", nil, badStrings}, {"description", nil, badStrings},
	{"facets", nil, append([]string{"{f: {minLength: x}}"}, badMaps...)}, {"examples", nil, []string{"5", "[a]", "true", "a"}},
}

var badExprs = []string{"string |", "| string", "string[", "string]", "(string", "string)", "string[]]", "a b", "string || integer", "[]", "()", "string & integer", "string | ", "string[1]", "?", "string[] []x", "str*ng", "string,integer"}

var faultClasses = []faultClass{
	{"example", "validate", func(w *WG) *Fault {
		s, ok := w.declSite(2, nil)
		if !ok {
			return nil
		}
		v, ok := w.invalidFor(s)
		if !ok {
			return nil
		}
		return w.exampleFault(s, v)
	}},
	{"default", "validate", func(w *WG) *Fault {
		s, ok := w.declSite(2, nil)
		if !ok {
			return nil
		}
		v, ok := w.invalidFor(s)
		if !ok {
			return nil
		}
		s.T.Default = &Data{V: v}
		return w.fault(s)
	}},
	{"example of an existing type", "validate", func(w *WG) *Fault {
		var ss []site
		for _, s := range w.w.allSites() {
			if !s.T.Scalar {
				ss = append(ss, s)
			}
		}
		if len(ss) == 0 {
			return nil
		}
		s := pick(w.g, ss)
		v, ok := w.invalidFor(s)
		if !ok {
			return nil
		}
		if w.g.Bool() {
			s.T.Default = &Data{V: v}
			return w.fault(s)
		}
		return w.exampleFault(s, v)
	}},
	{"enum value", "validate", func(w *WG) *Fault {
		s, ok := w.declSite(2, func(s site) bool {
			k := newSem(w.w).node(s.F, s.T)
			return !s.Heir && len(k.Parents) == 0 && (k.Kind == "string" || k.Kind == "integer" || k.Kind == "number" || k.Kind == "boolean")
		})
		if !ok {
			return nil
		}
		v := pick(w.g, badData(newSem(w.w).node(s.F, s.T).Kind))
		at := w.g.Int(0, len(s.T.Enum))
		e := append([]V{}, s.T.Enum[:at]...)
		s.T.Enum = append(append(e, v), s.T.Enum[at:]...)
		return w.fault(s)
	}},
	{"minimum above maximum", "validate", func(w *WG) *Fault {
		g := w.g
		lo := g.Int(1, 9)
		hi := g.Int(0, lo-1)
		a, b := ptr(uint64(lo)), ptr(uint64(hi))
		sa, sb := ptr(fmt.Sprint(lo-5)), ptr(fmt.Sprint(hi-5))
		set := map[string]func(p, c *Type){
			"string":  func(p, c *Type) { p.MaxLength, c.MinLength = b, a },
			"file":    func(p, c *Type) { p.MaxLength, c.MinLength = b, a },
			"integer": func(p, c *Type) { p.Maximum, c.Minimum = sb, sa },
			"number":  func(p, c *Type) { p.Maximum, c.Minimum = sb, sa },
			"array":   func(p, c *Type) { p.MaxItems, c.MinItems = b, a },
			"object":  func(p, c *Type) { p.MaxProps, c.MinProps = b, a },
		}
		k := pick(g, keysOf(set))
		if g.P(8) {
			// The parent sets the one and the heir the other.
			base := &Type{Expr: en(k)}
			var h Type
			set[k](base, &h)
			if g.Bool() {
				base = &Type{Expr: en(k)}
				h = Type{}
				set[k](&h, base)
			}
			heir := w.family(pick(g, w.libs()), base, nil)
			return w.fault(w.plant(func(f *File) *Type {
				t, x := heir(f), h
				x.Expr, x.Include = t.Expr, t.Include
				return &x
			}))
		}
		return w.fault(w.plant(func(f *File) *Type {
			t := &Type{Expr: en(k)}
			set[k](t, t)
			return t
		}))
	}},
	{"discriminator value", "validate", func(w *WG) *Fault {
		g := w.g
		var v V
		s := w.plant(func(f *File) *Type {
			k := pick(g, []string{"string", "integer", "boolean"})
			p := &Type{Expr: en(k)}
			v = pick(g, map[string][]V{"string": {V("1"), V("true")}, "integer": {V(`"x"`), V("true")}, "boolean": {V(`"x"`), V("1")}}[k])
			if k == "string" && g.Bool() {
				p.MaxLength = ptr(uint64(2))
				v = V(`"long"`)
			}
			if k == "integer" && g.Bool() {
				p.Maximum = ptr("2")
				v = V("3")
			}
			t := &Type{Expr: en("object"), Props: []*PropDecl{{Name: "d", T: p}}, Discr: ptr("d"), DiscrVal: v}
			return t
		})
		return w.fault(s)
	}},
	{"unknown custom facet", "validate", func(w *WG) *Fault {
		g := w.g
		if g.Bool() {
			return w.facetFamily(func(lib *File) ([]*PropDecl, []Named) {
				return []*PropDecl{{Name: "known", Opt: true, T: &Type{Expr: en("any"), Scalar: true}}}, nil
			}, func(t *Type) { t.Custom = []Named{{pick(g, []string{"unknown", "Known", "known2"}), Data{V: V("1")}}} })
		}
		s, ok := w.declSite(2, func(s site) bool {
			return newSem(w.w).node(s.F, s.T).deref().Kind != "union"
		})
		if !ok {
			return nil
		}
		s.T.Custom = append(s.T.Custom, Named{"undefined", Data{V: V("true")}})
		return w.fault(s)
	}},
	{"custom facet set by its definer", "validate", func(w *WG) *Fault {
		return w.fault(w.plant(func(f *File) *Type {
			return &Type{Expr: en("string"), Facets: []*PropDecl{{Name: "mine", Opt: w.g.Bool(), T: &Type{Expr: en("string"), Scalar: true}}}, Custom: []Named{{"mine", Data{V: V(`"x"`)}}}}
		}))
	}},
	{"custom facet value", "validate", func(w *WG) *Fault {
		var good, bad V
		return w.facetFamily(func(lib *File) ([]*PropDecl, []Named) {
			t, a, b := w.facetType(lib)
			good, bad = a, b
			d := &PropDecl{Name: "facet", Opt: w.g.Bool(), T: t}
			if d.Opt && w.g.Bool() {
				return []*PropDecl{d}, nil
			}
			return []*PropDecl{d}, []Named{{"facet", Data{V: good}}}
		}, func(t *Type) { t.Custom = []Named{{"facet", Data{V: bad}}} })
	}},
	{"missing custom facet", "validate", func(w *WG) *Fault {
		g := w.g
		lib := pick(g, w.libs())
		base := &Type{Expr: en(pick(g, []string{"string", "integer", "object", "array", "boolean"})), Facets: []*PropDecl{{Name: "must", T: &Type{Expr: en("string"), Scalar: true}}}}
		if g.Bool() {
			base.Facets = slices.Insert(base.Facets, g.Idx(2), &PropDecl{Name: "may", Opt: true, T: &Type{Expr: en("string"), Scalar: true}})
		}
		set := len(base.Facets) > 1 && g.Bool()
		n := lib.freeName("Y")
		lib.Types = append(lib.Types, &Decl{n, base})
		if g.P(5) { // an alias of the base
			m := lib.freeName("Y")
			lib.Types = append(lib.Types, &Decl{m, &Type{Expr: en(n), Scalar: true}})
			n = m
		}
		return w.fault(w.plant(func(f *File) *Type {
			t := &Type{}
			if f != lib {
				n = w.use(f, lib) + "." + n
			}
			t.Expr = en(n)
			if g.P(4) {
				t.Expr, t.Parents = nil, []string{n}
			}
			if set {
				t.Custom = []Named{{"may", Data{V: V(`"x"`)}}}
			}
			t.Desc = ptr("heir")
			return t
		}))
	}},
	{"redefined custom facet", "validate", func(w *WG) *Fault {
		f := w.facetFamily(func(lib *File) ([]*PropDecl, []Named) {
			return []*PropDecl{{Name: "facet", Opt: true, T: &Type{Expr: en("string"), Scalar: true}}}, nil
		}, func(t *Type) {
			t.Facets = []*PropDecl{{Name: "facet", Opt: w.g.Bool(), T: &Type{Expr: en(pick(w.g, []string{"string", "integer"})), Scalar: true}}}
		})
		if strings.Contains(f.Label, "/facets/") {
			return nil // custom facet definitions cannot define custom facets
		}
		return f
	}},
	{"annotation value", "validate", func(w *WG) *Fault {
		return w.annotatePlace(func(f *File) Named {
			n, good, bad, lib := w.annTypeWith(f)
			if w.g.P(8) {
				// The annotation is applied elsewhere as well.
				h := pick(w.g, w.libs())
				name := n[strings.LastIndex(n, ".")+1:]
				if h != lib {
					name = w.use(h, lib) + "." + name
				}
				d := &Decl{h.freeName("Y"), &Type{Expr: en("string"), Anns: []Named{{name, Data{V: good}}}}}
				if w.g.Bool() {
					h.Types = append(h.Types, d)
				} else {
					h.Types = append([]*Decl{d}, h.Types...)
				}
			}
			return Named{n, Data{V: bad}}
		})
	}},
	{"unknown annotation", "parse", func(w *WG) *Fault {
		return w.annotatePlace(func(f *File) Named {
			n := "nowhere"
			switch w.g.Idx(5) {
			case 3: // a type is no annotation type
				lib := pick(w.g, w.libs())
				if len(lib.Types) > 0 {
					n = pick(w.g, lib.Types).Name
					if lib != f {
						n = w.use(f, lib) + "." + n
					}
				}
			case 4: // the imports of a library are not imported along with it
				w.useTwice(f)
				for _, u := range f.Uses {
					if lib := w.w.file(f.rel(u.Path)); lib != nil {
						for _, v := range lib.Uses {
							if l := w.w.file(lib.rel(v.Path)); l != nil && len(l.AnnTypes) > 0 {
								t := pick(w.g, l.AnnTypes).Name
								n = u.Name + "." + v.Name + "." + t
								if m := u.Name + "." + t; !w.separate && w.g.Bool() {
									if known, _ := newSem(w.w).lookup(f, m, true); known == nil {
										n = m
										break
									}
								}
							}
						}
					}
				}
			case 0: // declared, but elsewhere
				name, _, _, lib := w.annTypeWith(f)
				if lib != f {
					n = name[strings.LastIndex(name, ".")+1:]
					if f.Kind == "Library" && f.annType(n) != nil {
						n = "nowhere"
					}
				}
			case 2: // spaces are part of the name
				name, _, _, _ := w.annTypeWith(f)
				n = pick(w.g, []string{" " + name, name + " "})
			case 1:
				if len(f.Uses) > 0 {
					n = pick(w.g, f.Uses).Name + ".nowhere"
				} else {
					n = "nolib.x"
				}
			}
			if t, _ := newSem(w.w).lookup(f, n, true); t != nil {
				n = "nowhere"
			}
			return Named{n, Data{V: V(`"x"`)}}
		})
	}},
	{"unknown type", "parse", func(w *WG) *Fault {
		g := w.g
		return w.fault(w.plant(func(f *File) *Type {
			n := "Nowhere"
			switch g.Idx(8) {
			case 0:
				lib := pick(g, w.libs())
				w.fileN++
				m := fmt.Sprintf("Only%d", w.fileN)
				lib.Types = append(lib.Types, &Decl{m, &Type{Expr: en("string"), Scalar: true}})
				if lib != f {
					n = m // declared in another file
				}
			case 1:
				if len(f.Uses) > 0 {
					n = pick(g, f.Uses).Name + ".Nowhere"
					if l := pick(g, w.libs()); g.Bool() && len(l.Types) > 0 && !w.separate {
						n = pick(g, f.Uses).Name + "." + pick(g, l.Types).Name // a name of another file
					}
				}
			case 2: // a prefix that only other files bind
				if w.separate {
					break // the file may bind it later
				}
				n = "nolib.A"
				for _, o := range w.libs() {
					for _, u := range o.Uses {
						if f.use(u.Name) == "" {
							if lib := w.w.file(o.rel(u.Path)); lib != nil && len(lib.Types) > 0 {
								n = u.Name + "." + pick(g, lib.Types).Name
							}
						}
					}
				}
			case 4: // the imports of a library are not imported along with it
				w.useTwice(f)
				w.useTwice(f)
				for _, u := range f.Uses {
					if lib := w.w.file(f.rel(u.Path)); lib != nil {
						for _, v := range lib.Uses {
							if l := w.w.file(lib.rel(v.Path)); l != nil && len(l.Types) > 0 {
								t := pick(g, l.Types).Name
								n = u.Name + "." + v.Name + "." + t
								if m := u.Name + "." + t; !w.separate && g.Bool() {
									if known, _ := newSem(w.w).lookup(f, m, false); known == nil {
										n = m
										break
									}
								}
							}
						}
					}
				}
			case 5: // names are case-sensitive
				n = pick(g, []string{"String", "INTEGER", "dateTime", "date-Only", "nul", "int", "float", "list"})
			case 6: // annotation types and prefixes are no types
				lib := pick(g, w.libs())
				switch {
				case len(f.Uses) > 0 && g.Bool():
					n = pick(g, f.Uses).Name
				case len(lib.AnnTypes) > 0 && lib == f:
					n = pick(g, lib.AnnTypes).Name
				case len(lib.AnnTypes) > 0:
					n = w.use(f, lib) + "." + pick(g, lib.AnnTypes).Name
				}
			}
			if t, _ := newSem(w.w).lookup(f, n, false); t != nil {
				n = "Nowhere"
			}
			switch g.W(3, 3, 1, 1, 1, 1, 1) {
			case 0:
				return &Type{Expr: en(n), Scalar: true}
			case 1:
				return &Type{Expr: en(n), Desc: ptr("heir")}
			case 2:
				return &Type{Parents: []string{n}, Desc: ptr("heir")}
			case 3:
				return &Type{Expr: eu(en("string"), en(n)), Scalar: g.Bool()}
			case 4:
				return &Type{Expr: ea(en(n)), Scalar: g.Bool()}
			case 5:
				return &Type{Expr: eu(ea(eo(en(n))), en("integer"))}
			default:
				return &Type{Expr: en("array"), Items: &Type{Expr: en(n), Scalar: true}}
			}
		}))
	}},
	{"circular definition", "parse", func(w *WG) *Fault {
		g := w.g
		// A ring of declarations in libraries and data types, each of which refers to the next one only.
		type entry struct {
			f    *File
			name string
			t    *Type
		}
		var ring []entry
		for i, n := 0, g.Int(1, 3); i < n; i++ {
			t := &Type{}
			if g.P(3) {
				w.fileN++
				ring = append(ring, entry{w.addFile(&File{Path: fmt.Sprintf("%sring%d.raml", pick(g, []string{"", "types/", "libs/"}), w.fileN), Kind: "DataType", Body: t}), "", t})
				continue
			}
			f := pick(g, w.libs())
			name := f.freeName("Z")
			f.Types = append(f.Types, &Decl{name, t})
			ring = append(ring, entry{f, name, t})
		}
		for i, e := range ring {
			next := ring[(i+1)%len(ring)]
			if next.name == "" {
				e.t.Include = relPath(e.f, next.f.Path)
				e.t.Scalar = e.name != "" && g.Bool()
				continue
			}
			n := next.name
			if next.f != e.f {
				n = w.use(e.f, next.f) + "." + n
			}
			switch g.Idx(3) {
			case 0:
				e.t.Expr, e.t.Scalar = en(n), e.name != ""
			case 1:
				e.t.Expr, e.t.Desc = en(n), ptr("heir")
			default:
				e.t.Parents = []string{n}
			}
		}
		at := func(e entry) *Fault {
			if e.name == "" {
				return &Fault{File: e.f.Path, Label: "body"}
			}
			return &Fault{File: e.f.Path, Label: "types/" + e.name}
		}
		for _, e := range ring {
			if e.name != "" {
				return at(e)
			}
		}
		// Data types only: one of them must be loaded.
		f := pick(g, w.libs())
		f.Types = append(f.Types, &Decl{f.freeName("Z"), &Type{Include: relPath(f, ring[0].f.Path), Scalar: g.Bool()}})
		return at(ring[0])
	}},
	{"malformed expression", "parse", func(w *WG) *Fault {
		return w.fault(w.plant(func(f *File) *Type {
			return &Type{Expr: en(pick(w.g, badExprs)), Scalar: w.g.Bool()}
		}))
	}},
	{"missing type file", "parse", func(w *WG) *Fault {
		return w.fault(w.plant(func(f *File) *Type {
			return &Type{Include: pick(w.g, []string{"missing.raml", "no/such/file.raml", "../missing.raml", "missing.json"}), Scalar: w.g.Bool()}
		}))
	}},
	{"missing data file", "parse", func(w *WG) *Fault {
		g := w.g
		return w.fault(w.plant(func(f *File) *Type {
			t := &Type{Expr: en("any")}
			d := Data{Inc: pick(g, []string{"missing.json", "no/such/file.txt", "../missing.yaml"})}
			switch g.Idx(5) {
			case 0:
				t.Default = &d
			case 1:
				t.Example = &Ex{D: d}
			case 2:
				t.Examples = []*Ex{{Name: "one", D: d}}
			case 3:
				t.ExInc = "missing.raml"
			default:
				t.Expr = en("string")
				t.Enum, t.EnumInc = []V{V(`"x"`)}, []string{d.Inc}
			}
			return t
		}))
	}},
	{"missing library", "parse", func(w *WG) *Fault {
		f := pick(w.g, w.libs())
		f.Uses = append(f.Uses, Use{"zz", pick(w.g, []string{"missing.raml", "no/such/lib.raml"})})
		return &Fault{File: f.Path, Label: "uses/zz"}
	}},
	{"wrong kind of fragment", "parse", func(w *WG) *Fault {
		g := w.g
		w.fileN++
		p := fmt.Sprintf("kind%d.raml", w.fileN)
		file := func(kind string) string {
			f := &File{Path: p, Kind: kind}
			switch kind {
			case "Library":
				f.Types = []*Decl{{"A", &Type{Expr: en("string"), Scalar: true}}}
			case "DataType":
				f.Body = &Type{Expr: en("string")}
			case "NamedExample":
				f.Examples = []*Ex{{Name: "one", D: Data{V: V(`"x"`)}}}
			default:
				f.Kind, f.Raw = "raw", pick(g, []string{"type: string\n", "", "#%RAML 0.8\ntype: string\n", "#%RAML 1.0 Nothing\ntype: string\n", "#%RAML 1.0\ntitle: x\n"})
			}
			w.addFile(f)
			return p
		}
		switch g.Idx(3) {
		case 0:
			f := pick(g, w.libs())
			f.Uses = append(f.Uses, Use{"zz", relPath(f, file(pick(g, []string{"DataType", "NamedExample", "raw"})))})
			return &Fault{File: f.Path, Label: "uses/zz"}
		case 1:
			return w.fault(w.plant(func(f *File) *Type {
				return &Type{Include: relPath(f, file(pick(g, []string{"Library", "NamedExample", "raw"}))), Scalar: g.Bool()}
			}))
		default:
			return w.fault(w.plant(func(f *File) *Type {
				return &Type{Expr: en("string"), ExInc: relPath(f, file(pick(g, []string{"Library", "DataType", "raw"})))}
			}))
		}
	}},
	{"bad facet value", "parse", func(w *WG) *Fault {
		b := pick(w.g, badFacets)
		kv := KV{b.k, pick(w.g, b.vs)}
		kinds := b.kinds
		if kinds == nil {
			kinds = []string{"string", "integer", "object", "array", "boolean", "number", "file", "any", "nil", "datetime", "date-only"}
		}
		k := pick(w.g, kinds)
		return w.fault(w.plant(func(f *File) *Type {
			t := &Type{Raw: []KV{kv}}
			t.Expr = en(k)
			return t
		}))
	}},
	{"widening", "unwrap", func(w *WG) *Fault { return w.plantWidening() }},
}

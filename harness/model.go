package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// MC compares a model with the declarations it was parsed from.
type MC struct {
	x     *X
	m     *Model
	w     *World
	s     *Sem
	un    bool // the model is unwrapped: declarations have the facets of their parents, too
	lines map[string]map[string]Lines
	ids   map[*Type]TypeID
	n     int // compared facets
	anns  []*raml.DomainExtension
}

func newMC(x *X, w *World, m *Model, un bool) *MC {
	c := &MC{x: x, m: m, w: w, s: newSem(w), un: un, lines: map[string]map[string]Lines{}, ids: map[*Type]TypeID{}}
	for _, f := range w.Files {
		ls := map[string]Lines{}
		f.render(ls)
		c.lines[f.Path] = ls
		for _, d := range f.Types {
			c.ids[d.T] = TypeID{f.Path, d.Name}
		}
		if f.Body != nil {
			c.ids[f.Body] = TypeID{f.Path, ""}
		}
	}
	return c
}

func (c *MC) bad(at, what string, want, got any) {
	c.x.Fail("model differs from the source", "%s: %s: %v instead of %v\n%s", at, what, deref(got), deref(want), dumpFiles(c.w.render()))
}

func deref(v any) any {
	switch p := v.(type) {
	case *string:
		if p != nil {
			return fmt.Sprintf("%q", *p)
		}
	case *bool:
		if p != nil {
			return *p
		}
	case *uint64:
		if p != nil {
			return *p
		}
	}
	return v
}

func (c *MC) path(p string) string { return filepath.Join(c.m.Dir, filepath.FromSlash(p)) }

// location checks where something says that it comes from.
func (c *MC) location(f *File, label, at, loc string, line int) {
	if loc != c.path(f.Path) {
		c.bad(at, "location", c.path(f.Path), loc)
	}
	l, ok := c.lines[f.Path][label]
	if !ok {
		bug("no label %s in %s", label, f.Path)
	}
	if line < l.From || line > l.To {
		c.bad(at, "line", l, line)
	}
}

// all compares everything.
func (c *MC) all() {
	re := c.w.reachable()
	if e := c.m.frag(c.w.Files[0].Path); e == nil || c.m.R.EntryPoint() != e {
		c.x.Fail("entry point is not the requested fragment", "%v", c.w.Files[0].Path)
	}
	if got := c.m.R.GetLocation(); got != c.path(c.w.Files[0].Path) {
		c.x.Fail("entry point is not the requested fragment", "%v", got)
	}
	for _, f := range c.w.Files {
		if !re[f.Path] || f.Kind == "raw" {
			continue
		}
		fr := c.m.frag(f.Path)
		if fr == nil {
			c.x.Fail("fragment is missing", "%s", f.Path)
		}
		if fr.GetLocation() != c.path(f.Path) {
			c.bad(f.Path, "location", c.path(f.Path), fr.GetLocation())
		}
		switch f.Kind {
		case "Library":
			l, ok := fr.(*raml.Library)
			if !ok {
				c.bad(f.Path, "kind", "Library", fmt.Sprintf("%T", fr))
			}
			if l.Usage != f.Usage {
				c.bad(f.Path, "usage", f.Usage, l.Usage)
			}
			c.uses(f, l.Uses)
			c.annotations(f, f.Path, "anns", f.Anns, l.CustomDomainProperties)
			c.decls(f, "annotationTypes", f.AnnTypes, l.AnnotationTypes)
			c.decls(f, "types", f.Types, l.Types)
		case "DataType":
			d, ok := fr.(*raml.DataType)
			if !ok {
				c.bad(f.Path, "kind", "DataType", fmt.Sprintf("%T", fr))
			}
			if d.Usage != f.Usage {
				c.bad(f.Path, "usage", f.Usage, d.Usage)
			}
			c.uses(f, d.Uses)
			c.typ(f, f.Body, d.Shape, f.Path, "body")
		case "NamedExample":
			e, ok := fr.(*raml.NamedExample)
			if !ok {
				c.bad(f.Path, "kind", "NamedExample", fmt.Sprintf("%T", fr))
			}
			c.examples(f, f.Path, "examples/", f.Examples, e.Map)
		}
	}
}

func (c *MC) uses(f *File, got *orderedmap.OrderedMap[string, *raml.LibraryLink]) {
	if got.Len() != len(f.Uses) {
		c.bad(f.Path, "number of uses", len(f.Uses), got.Len())
	}
	if got == nil {
		return
	}
	i := 0
	for p := got.Oldest(); p != nil; p = p.Next() {
		u := f.Uses[i]
		i++
		if p.Key != u.Name || p.Value.Value != u.Path {
			c.bad(f.Path, "uses", u, p.Value)
		}
		if raml.Fragment(p.Value.Link) != c.m.frag(f.rel(u.Path)) {
			c.bad(f.Path, "library "+u.Name, f.rel(u.Path), p.Value.Link)
		}
		c.location(f, "uses/"+u.Name, f.Path+" uses "+u.Name, p.Value.Location, p.Value.Line)
		c.n++
	}
}

func (c *MC) decls(f *File, key string, ds []*Decl, got *orderedmap.OrderedMap[string, *raml.BaseShape]) {
	var want, have []string
	for _, d := range ds {
		want = append(want, d.Name)
	}
	if got != nil {
		for p := got.Oldest(); p != nil; p = p.Next() {
			have = append(have, p.Key)
		}
	}
	if strings.Join(want, "\n") != strings.Join(have, "\n") {
		c.bad(f.Path, key, want, have)
	}
	for _, d := range ds {
		s, _ := got.Get(d.Name)
		if s == nil {
			c.bad(f.Path, key+" "+d.Name, "a type", nil)
		}
		at := f.Path + " " + d.Name
		if s.Name != d.Name {
			c.bad(at, "name", d.Name, s.Name)
		}
		c.typ(f, d.T, s, at, key+"/"+d.Name)
		// The type is registered under its name.
		var reg *raml.BaseShape
		var err error
		if key == "types" {
			reg, err = c.m.R.GetTypeFromFragmentPtr(c.path(f.Path), d.Name)
		} else {
			reg, err = c.m.R.GetAnnotationTypeFromFragmentPtr(c.path(f.Path), d.Name)
		}
		if err != nil || reg != s {
			c.bad(at, "registered type", fmt.Sprintf("%p", s), fmt.Sprintf("%p %v", reg, err))
		}
	}
}

// ref compares a reference to a declared type.
func (c *MC) ref(f *File, name string, got *raml.BaseShape, at, what string) {
	t, file := c.s.lookup(f, name, false)
	if t == nil {
		bug("unresolved reference %s in %s", name, f.Path)
	}
	id, ok := c.ids[t]
	if !ok {
		bug("no id of %s in %s", name, file.Path)
	}
	want := c.m.shape(id)
	if want == nil || got != want {
		g := "nothing"
		if got != nil {
			g = fmt.Sprintf("%s in %s", got.Name, got.Location)
		}
		c.bad(at, what, id, g)
	}
}

func (c *MC) noRefs(s *raml.BaseShape, at string) {
	if s.Alias != nil {
		c.bad(at, "alias", "none", s.Alias.Name)
	}
	if len(s.Inherits) > 0 {
		c.bad(at, "parents", "none", s.Inherits[0].Name)
	}
	if s.Link != nil {
		c.bad(at, "link", "none", s.Link.Location)
	}
}

func (c *MC) kind(s *raml.BaseShape, kind, at string) {
	if s.Type != kind {
		c.bad(at, "type", kind, s.Type)
	}
	if got := shapeKind(s.Shape); got != kind {
		c.bad(at, "kind of shape", kind, got)
	}
	if s.Shape.Base() != s {
		c.bad(at, "base of the shape", "itself", "another one")
	}
}

func shapeKind(s raml.Shape) string {
	switch s.(type) {
	case *raml.AnyShape:
		return "any"
	case *raml.StringShape:
		return "string"
	case *raml.IntegerShape:
		return "integer"
	case *raml.NumberShape:
		return "number"
	case *raml.BooleanShape:
		return "boolean"
	case *raml.DateTimeShape:
		return "datetime"
	case *raml.DateTimeOnlyShape:
		return "datetime-only"
	case *raml.DateOnlyShape:
		return "date-only"
	case *raml.TimeOnlyShape:
		return "time-only"
	case *raml.ArrayShape:
		return "array"
	case *raml.ObjectShape:
		return "object"
	case *raml.FileShape:
		return "file"
	case *raml.NilShape:
		return "nil"
	case *raml.UnionShape:
		return "union"
	case *raml.JSONShape:
		return "json"
	case *raml.RecursiveShape:
		return "recursive"
	case *raml.UnknownShape:
		return "unknown"
	}
	return fmt.Sprintf("%T", s)
}

// expr compares the structure of a type expression, scalar references are aliases.
func (c *MC) expr(f *File, e *Expr, s *raml.BaseShape, at string, top bool) {
	for e.Op == "g" {
		e = e.Args[0]
	}
	c.n++
	switch e.Op {
	case "":
		if builtins[e.Name] {
			c.kind(s, e.Name, at)
			c.noRefs(s, at)
			return
		}
		if s.Alias == nil {
			c.bad(at, "alias", e.Name, "none")
		}
		c.ref(f, e.Name, s.Alias, at, "alias")
		if len(s.Inherits) > 0 || s.Link != nil {
			c.bad(at, "parents", "none", "some")
		}
		n := c.s.expr(f, e)
		c.kind(s, n.deref().Kind, at)
		return
	case "a":
		c.kind(s, "array", at)
		c.noRefs(s, at)
		items := s.Shape.(*raml.ArrayShape).Items
		if items == nil {
			c.bad(at, "items", e.Args[0], "none")
		}
		c.expr(f, e.Args[0], items, at+"[]", false)
	case "o":
		c.kind(s, "union", at)
		c.noRefs(s, at)
		u := s.Shape.(*raml.UnionShape)
		if len(u.AnyOf) != 2 {
			c.bad(at, "members", 2, len(u.AnyOf))
		}
		c.expr(f, e.Args[0], u.AnyOf[0], at+"?0", false)
		c.kind(u.AnyOf[1], "nil", at+"?1")
	case "u":
		c.kind(s, "union", at)
		c.noRefs(s, at)
		u := s.Shape.(*raml.UnionShape)
		if len(u.AnyOf) != len(e.Args) {
			c.bad(at, "members", len(e.Args), len(u.AnyOf))
		}
		for i, a := range e.Args {
			c.expr(f, a, u.AnyOf[i], fmt.Sprintf("%s|%d", at, i), false)
		}
	}
	if !top {
		c.empty(s, at)
	}
}

// empty checks that a shape has no facets.
func (c *MC) empty(s *raml.BaseShape, at string) { c.facets(nil, &Type{}, s, at, "", true) }

// typ compares a declaration.
func (c *MC) typ(f *File, t *Type, s *raml.BaseShape, at, label string) {
	if s == nil {
		c.bad(at, "type", "a type", nil)
	}
	alias := false
	switch {
	case t.Include != "":
		if !c.un {
			inc := c.w.file(f.rel(t.Include))
			if s.Link == nil || raml.Fragment(s.Link) != c.m.frag(inc.Path) {
				c.bad(at, "linked fragment", inc.Path, s.Link)
			}
			if s.Alias != nil || len(s.Inherits) > 0 {
				c.bad(at, "parents", "none", "some")
			}
			c.kind(s, c.s.node(f, t).Kind, at)
		}
	case t.Parents != nil:
		if s.Alias != nil || s.Link != nil {
			c.bad(at, "alias or link", "none", "some")
		}
		if len(s.Inherits) != len(t.Parents) {
			c.bad(at, "number of parents", len(t.Parents), len(s.Inherits))
		}
		if !c.un {
			for i, p := range t.Parents {
				c.parent(f, p, s.Inherits[i], at+" parent "+p)
			}
			c.kind(s, c.s.node(f, t).Kind, at)
		}
	case t.JSON != "":
		c.kind(s, "json", at)
		if j := s.Shape.(*raml.JSONShape); j.Raw != t.JSON || j.Schema == nil {
			c.bad(at, "schema", t.JSON, j.Raw)
		}
	case t.Expr != nil:
		e := t.Expr
		for e.Op == "g" {
			e = e.Args[0]
		}
		if e.isName() && !builtins[e.Name] {
			alias = t.Scalar
			if c.un {
				break
			}
			if alias {
				c.expr(f, e, s, at, true)
				break
			}
			if s.Alias != nil || s.Link != nil || len(s.Inherits) != 1 {
				c.bad(at, "parents", e.Name, fmt.Sprintf("alias %v, link %v, %d parents", s.Alias != nil, s.Link != nil, len(s.Inherits)))
			}
			c.ref(f, e.Name, s.Inherits[0], at, "parent")
			c.kind(s, c.s.node(f, t).Kind, at)
			break
		}
		if !c.un {
			c.expr(f, e, s, at, true)
		}
	default:
		if !c.un {
			c.kind(s, t.implied(), at)
			c.noRefs(s, at)
		}
	}
	c.n++
	if alias && c.un {
		return
	}
	c.facets(f, t, s, at, label, !c.un)
	if f != nil {
		c.location(f, label, at, s.Location, s.Line)
	}
}

// parent compares an entry of a list of parents, which is a reference of its own.
func (c *MC) parent(f *File, name string, s *raml.BaseShape, at string) {
	if builtins[name] {
		c.kind(s, name, at)
		return
	}
	c.expr(f, en(name), s, at, true)
}

// node compares a data value.
func (c *MC) node(f *File, d Data, n *raml.Node, at, label string) {
	if n == nil {
		c.bad(at, "value", string(d.V), "nothing")
	}
	// Numbers in JSON are double precision.
	if !equal(goValue(d.V, !strings.HasSuffix(d.Inc, ".json")), plainValue(c, n.Value, at)) {
		c.bad(at, "value", string(d.V), fmt.Sprintf("%#v", n.Value))
	}
	c.n++
	if d.Inc != "" {
		if want := c.path(f.rel(d.Inc)); n.Location != want {
			c.bad(at, "location of the value", want, n.Location)
		}
		if raw := c.w.file(f.rel(d.Inc)); raw == nil || n.Line < 1 || n.Line > 1+strings.Count(raw.Raw, "\n") {
			c.bad(at, "line of the value", "a line of the included file", n.Line)
		}
		return
	}
	c.location(f, label, at+" value", n.Location, n.Line)
}

// plainValue checks that a value consists of the types that values are decoded to.
func plainValue(c *MC, v any, at string) any {
	switch x := v.(type) {
	case nil, string, bool, int, uint64, float64:
	case int64:
		return int(x)
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = plainValue(c, x[i], at)
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k := range x {
			out[k] = plainValue(c, x[k], at)
		}
		return out
	default:
		c.bad(at, "type of the value", "a JSON value", fmt.Sprintf("%T %v", v, v))
	}
	return v
}

func (c *MC) annotations(f *File, at, label string, want []Named, got *orderedmap.OrderedMap[string, *raml.DomainExtension]) {
	if got.Len() != len(want) {
		c.bad(at, "number of annotations", len(want), got.Len())
	}
	for i, a := range want {
		de, ok := got.Get(a.Name)
		if !ok {
			c.bad(at, "annotation", a.Name, "none")
		}
		at := at + " (" + a.Name + ")"
		if de.Name != a.Name {
			c.bad(at, "name", a.Name, de.Name)
		}
		l := fmt.Sprintf("%s/anns/%d", label, i)
		if label == "anns" {
			l = fmt.Sprintf("anns/%d", i)
		}
		c.node(f, a.D, de.Extension, at, l)
		c.location(f, l, at, de.Location, de.Line)
		// The annotation type that the name denotes where it is applied.
		t, lib := c.s.lookup(f, a.Name, true)
		if t == nil {
			bug("annotation type %s in %s", a.Name, f.Path)
		}
		var def *raml.BaseShape
		for _, d := range lib.AnnTypes {
			if d.T == t {
				def, _ = c.m.frag(lib.Path).(*raml.Library).AnnotationTypes.Get(d.Name)
			}
		}
		if def == nil || de.DefinedBy != def {
			g := "nothing"
			if de.DefinedBy != nil {
				g = fmt.Sprintf("%s in %s", de.DefinedBy.Name, de.DefinedBy.Location)
			}
			c.bad(at, "annotation type", lib.Path, g)
		}
		if c.un && (!de.DefinedBy.IsUnwrapped() || shapeKind(de.DefinedBy.Shape) == "unknown") {
			c.bad(at, "annotation type", "an unwrapped type", de.DefinedBy.String())
		}
		c.anns = append(c.anns, de)
	}
}

func (c *MC) example(f *File, at, label string, e *Ex, got *raml.Example) {
	if got == nil {
		c.bad(at, "example", e, "none")
	}
	str := func(p *string) string {
		if p == nil {
			return ""
		}
		return *p
	}
	want := *e
	if !e.Wrapped {
		want = Ex{Name: e.Name, D: e.D}
	}
	if got.Name != want.Name {
		c.bad(at, "name of the example", want.Name, got.Name)
	}
	if got.DisplayName != str(want.Display) {
		c.bad(at, "displayName of the example", str(want.Display), got.DisplayName)
	}
	if got.Description != str(want.Desc) {
		c.bad(at, "description of the example", str(want.Desc), got.Description)
	}
	if strict := want.Strict == nil || *want.Strict; got.Strict != strict {
		c.bad(at, "strict", strict, got.Strict)
	}
	c.annotations(f, at, label, want.Anns, got.CustomDomainProperties)
	c.node(f, e.D, got.Data, at, label)
	c.location(f, label, at, got.Location, got.Line)
}

func (c *MC) examples(f *File, at, label string, want []*Ex, got *orderedmap.OrderedMap[string, *raml.Example]) {
	var a, b []string
	for _, e := range want {
		a = append(a, e.Name)
	}
	if got != nil {
		for p := got.Oldest(); p != nil; p = p.Next() {
			b = append(b, p.Key)
		}
	}
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		c.bad(at, "examples", a, b)
	}
	for _, e := range want {
		g, _ := got.Get(e.Name)
		c.example(f, at+" example "+e.Name, label+e.Name, e, g)
	}
}

// facets compares the facets of a declaration with these of the shape. If exact is not set, the shape may have further
// facets.
func (c *MC) facets(f *File, t *Type, s *raml.BaseShape, at, label string, exact bool) {
	if s.Shape == nil || shapeKind(s.Shape) == "recursive" && c.un {
		return
	}
	u := func(what string, want, got *uint64) {
		if want == nil && !exact {
			return
		}
		c.n++
		if (want == nil) != (got == nil) || want != nil && *want != *got {
			c.bad(at, what, want, got)
		}
	}
	str := func(what string, want, got *string) {
		if want == nil && !exact {
			return
		}
		c.n++
		if (want == nil) != (got == nil) || want != nil && *want != *got {
			c.bad(at, what, want, got)
		}
	}
	boolean := func(what string, want, got *bool) {
		if want == nil && !exact {
			return
		}
		c.n++
		if (want == nil) != (got == nil) || want != nil && *want != *got {
			c.bad(at, what, want, got)
		}
	}
	number := func(what string, want *string, got any) {
		if want == nil && !exact {
			return
		}
		c.n++
		var have *big.Rat
		switch g := got.(type) {
		case *big.Int:
			if g != nil {
				have = new(big.Rat).SetInt(g)
			}
		case *float64:
			if g != nil {
				have = rat(*g)
			}
		}
		if want == nil {
			if have != nil {
				c.bad(at, what, "none", have)
			}
			return
		}
		w := ratOf(*want)
		if _, ok := got.(*float64); ok {
			v, _ := strconv.ParseFloat(*want, 64)
			w = rat(v)
		}
		if have == nil || have.Cmp(w) != 0 {
			c.bad(at, what, w, have)
		}
	}
	nodes := func(what string, n int, got raml.Nodes, elem func(i int, n *raml.Node)) {
		if n == 0 && !exact {
			return
		}
		if len(got) != n {
			c.bad(at, "number of "+what, n, len(got))
		}
		for i := range got {
			elem(i, got[i])
		}
	}
	enum := func(got raml.Nodes) {
		nodes("enum values", len(t.Enum), got, func(i int, n *raml.Node) {
			d := Data{V: t.Enum[i]}
			if i < len(t.EnumInc) {
				d.Inc = t.EnumInc[i]
			}
			c.node(f, d, n, fmt.Sprintf("%s enum value %d", at, i), fmt.Sprintf("%s/enum/%d", label, i))
		})
	}
	str("displayName", t.Display, s.DisplayName)
	str("description", t.Desc, s.Description)
	boolean("required", t.Required, s.Required)
	switch {
	case t.Default != nil:
		c.node(f, *t.Default, s.Default, at+" default", label+"/default")
	case s.Default != nil && exact:
		c.bad(at, "default", "none", s.Default)
	}
	switch {
	case t.Example != nil:
		c.example(f, at+" example", label+"/example", t.Example, s.Example)
	case s.Example != nil && exact:
		c.bad(at, "example", "none", s.Example.Data)
	}
	switch {
	case t.ExInc != "":
		p := f.rel(t.ExInc)
		if s.Examples == nil || s.Examples.Link == nil || raml.Fragment(s.Examples.Link) != c.m.frag(p) {
			c.bad(at, "included examples", p, s.Examples)
		}
	case t.Examples != nil:
		if s.Examples == nil || s.Examples.Link != nil {
			c.bad(at, "examples", "a map", s.Examples)
		}
		c.examples(f, at, label+"/examples/", t.Examples, s.Examples.Map)
	case s.Examples != nil && exact:
		c.bad(at, "examples", "none", s.Examples)
	}
	if f != nil && (exact || len(t.Anns) > 0) {
		c.annotations(f, at, label, t.Anns, s.CustomDomainProperties)
	} else if exact && s.CustomDomainProperties.Len() > 0 {
		c.bad(at, "annotations", 0, s.CustomDomainProperties.Len())
	}
	if got := s.CustomShapeFacets.Len(); exact && got != len(t.Custom) {
		c.bad(at, "number of custom facets", len(t.Custom), got)
	}
	for _, k := range t.Custom {
		n, _ := s.CustomShapeFacets.Get(k.Name)
		c.node(f, k.D, n, at+" facet "+k.Name, label+"/custom/"+k.Name)
	}
	c.props(f, t.Facets, at+" facet", label+"/facets", exact, "custom facet", s.CustomShapeFacetDefinitions, nil)
	if !exact && f != nil && c.s.node(f, t).Kind != s.Type {
		return // an heir of a union is a union itself
	}
	switch k := s.Shape.(type) {
	case *raml.StringShape:
		u("minLength", t.MinLength, k.MinLength)
		u("maxLength", t.MaxLength, k.MaxLength)
		var p *string
		if k.Pattern != nil {
			p = ptr(k.Pattern.String())
		}
		str("pattern", t.Pattern, p)
		enum(k.Enum)
	case *raml.FileShape:
		u("minLength", t.MinLength, k.MinLength)
		u("maxLength", t.MaxLength, k.MaxLength)
		nodes("fileTypes", len(t.FileTypes), k.FileTypes, func(i int, n *raml.Node) {
			if n.Value != any(t.FileTypes[i]) {
				c.bad(at, "fileTypes", t.FileTypes[i], n.Value)
			}
		})
	case *raml.IntegerShape:
		number("minimum", t.Minimum, k.Minimum)
		number("maximum", t.Maximum, k.Maximum)
		number("multipleOf", t.MultipleOf, k.MultipleOf)
		str("format", t.Format, k.Format)
		enum(k.Enum)
	case *raml.NumberShape:
		number("minimum", t.Minimum, k.Minimum)
		number("maximum", t.Maximum, k.Maximum)
		number("multipleOf", t.MultipleOf, k.MultipleOf)
		str("format", t.Format, k.Format)
		enum(k.Enum)
	case *raml.BooleanShape:
		enum(k.Enum)
	case *raml.DateTimeShape:
		str("format", t.Format, k.Format)
	case *raml.ArrayShape:
		u("minItems", t.MinItems, k.MinItems)
		u("maxItems", t.MaxItems, k.MaxItems)
		boolean("uniqueItems", t.Unique, k.UniqueItems)
		if t.Items != nil {
			c.typ(f, t.Items, k.Items, at+" items", label+"/items")
		} else if exact && k.Items != nil && (t.Expr == nil || t.Expr.isName()) && f != nil && !groupOfArray(t.Expr) {
			c.bad(at, "items", "none", k.Items.Type)
		}
	case *raml.ObjectShape:
		boolean("additionalProperties", t.Additional, k.AdditionalProperties)
		u("minProperties", t.MinProps, k.MinProperties)
		u("maxProperties", t.MaxProps, k.MaxProperties)
		str("discriminator", t.Discr, k.Discriminator)
		if t.DiscrVal != nil {
			if !equal(goValue(t.DiscrVal, true), plainValue(c, k.DiscriminatorValue, at)) {
				c.bad(at, "discriminatorValue", string(t.DiscrVal), k.DiscriminatorValue)
			}
		} else if exact && k.DiscriminatorValue != nil {
			c.bad(at, "discriminatorValue", "none", k.DiscriminatorValue)
		}
		c.props(f, t.Props, at, label+"/props", exact, "property", k.Properties, k.PatternProperties)
	case *raml.UnionShape:
		if exact && f == nil && len(k.Enum) > 0 {
			c.bad(at, "enum", "none", k.Enum)
		}
	}
}

func groupOfArray(e *Expr) bool {
	for e != nil && e.Op == "g" {
		e = e.Args[0]
	}
	return e != nil && e.Op == "a"
}

// props compares properties, pattern properties or the definitions of custom facets.
func (c *MC) props(f *File, want []*PropDecl, at, label string, exact bool, what string,
	got *orderedmap.OrderedMap[string, raml.Property], pats *orderedmap.OrderedMap[string, raml.PatternProperty]) {
	if exact {
		var names, patterns, a, b []string
		for _, p := range want {
			if p.Pattern {
				patterns = append(patterns, p.key())
			} else {
				names = append(names, p.name())
			}
		}
		if got != nil {
			for p := got.Oldest(); p != nil; p = p.Next() {
				a = append(a, p.Key)
			}
		}
		if pats != nil {
			for p := pats.Oldest(); p != nil; p = p.Next() {
				b = append(b, p.Key)
			}
		}
		if strings.Join(a, "\n") != strings.Join(names, "\n") {
			c.bad(at, what+" names", names, a)
		}
		if strings.Join(b, "\n") != strings.Join(patterns, "\n") {
			c.bad(at, "pattern "+what+" names", patterns, b)
		}
	}
	for _, p := range want {
		at := at + "." + p.key()
		l := label + "/" + p.key()
		c.n++
		if p.Pattern {
			var g raml.PatternProperty
			ok := pats != nil
			if ok {
				g, ok = pats.Get(p.key())
			}
			if !ok {
				c.bad(at, "pattern property", p.key(), "none")
			}
			if g.Pattern == nil || g.Pattern.String() != p.Name {
				c.bad(at, "pattern", p.Name, g.Pattern)
			}
			c.typ(f, p.T, g.Base, at, l)
			continue
		}
		var g raml.Property
		ok := got != nil
		if ok {
			g, ok = got.Get(p.name())
		}
		if !ok {
			c.bad(at, what, p.name(), "none")
		}
		if g.Name != p.name() {
			c.bad(at, "name of the "+what, p.name(), g.Name)
		}
		if g.Required != p.required() {
			c.bad(at, "requirement of the "+what, p.required(), g.Required)
		}
		c.typ(f, p.T, g.Base, at, l)
	}
}

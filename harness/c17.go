package main

import (
	"reflect"

	raml "github.com/acronis/go-raml/v2"
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

type c17 struct {
	W     *World   `json:"w"`
	Vals  []Inst   `json:"vals"`
	Pairs [][2]int `json:"pairs"` // types that are cloned together or inherited from each other
	Deep  bool     `json:"deep"`  // clones of clones
}

func init() {
	register("C17", 2500, 60000,
		"a cloned type refers to other shapes, and clones were unwrapped, inherited into and edited",
		func(g G) *c17 {
			wg := newWG(g, GO{Libs: 2, DTs: 2, Types: 6, Rec: g.P(6), RecAll: g.P(6), RecDT: g.P(8), Ex: g.P(6), Custom: g.P(5), Anns: g.P(5)})
			w := wg.world()
			s := newSem(w)
			c := &c17{W: w, Vals: instances(g, s, w.typeIDs(), g.Int(3, 8)), Deep: g.P(2)}
			for i, n := 0, g.Int(1, 4); i < n; i++ {
				c.Pairs = append(c.Pairs, [2]int{g.Int(0, 20), g.Int(0, 20)})
			}
			return c
		},
		checkClones)
}

// joint writes shapes with all that is shared between them.
func joint(dir string, ss ...*raml.BaseShape) string {
	d := newDumper(dir)
	d.ids, d.links = true, true
	d.skip["DefinedBy"], d.skip["Uses"] = true, true
	for _, s := range ss {
		d.value(reflect.ValueOf(s), 0)
		d.nl(0)
	}
	return d.b.String()
}

// reach collects all shapes that are reachable from a shape.
func reach(s *raml.BaseShape, seen map[*raml.BaseShape]bool) {
	if s == nil || seen[s] {
		return
	}
	seen[s] = true
	reach(s.Alias, seen)
	if s.Link != nil {
		reach(s.Link.Shape, seen)
	}
	for _, p := range s.Inherits {
		reach(p, seen)
	}
	for _, n := range nestedShapes(s) {
		reach(n, seen)
	}
	for _, n := range facetShapes(s) {
		reach(n, seen)
	}
	if r, ok := s.Shape.(*raml.RecursiveShape); ok {
		reach(r.Head, seen)
	}
}

func (m *Model) allShapes(w *World) map[*raml.BaseShape]bool {
	seen := map[*raml.BaseShape]bool{}
	for _, s := range m.declared(w) {
		reach(s, seen)
	}
	for _, de := range m.R.GetAllAnnotationsPtr() {
		reach(de.DefinedBy, seen)
	}
	return seen
}

// parts collects the mutable parts of the shapes.
func parts(seen map[*raml.BaseShape]bool) map[any]string {
	out := map[any]string{}
	for s := range seen {
		out[s] = "shape " + s.Name
		if s.Shape != nil {
			out[s.Shape] = "concrete shape " + s.Name
		}
		if s.Link != nil {
			out[s.Link] = "link of " + s.Name
		}
		if s.CustomShapeFacets != nil {
			out[s.CustomShapeFacets] = "custom facets of " + s.Name
		}
		if s.CustomShapeFacetDefinitions != nil {
			out[s.CustomShapeFacetDefinitions] = "custom facet definitions of " + s.Name
		}
		if s.CustomDomainProperties != nil {
			out[s.CustomDomainProperties] = "annotations of " + s.Name
		}
		if len(s.Inherits) > 0 {
			out[&s.Inherits[0]] = "parents of " + s.Name
		}
		switch t := s.Shape.(type) {
		case *raml.ObjectShape:
			if t.Properties != nil {
				out[t.Properties] = "properties of " + s.Name
			}
			if t.PatternProperties != nil {
				out[t.PatternProperties] = "pattern properties of " + s.Name
			}
		case *raml.UnionShape:
			if len(t.AnyOf) > 0 {
				out[&t.AnyOf[0]] = "members of " + s.Name
			}
		}
	}
	return out
}

func wreck[V any](m *orderedmap.OrderedMap[string, V]) {
	if m == nil {
		return
	}
	var zero V
	for p := m.Oldest(); p != nil; p = p.Next() {
		p.Value = zero
	}
	m.Set("edited", zero)
	m.Delete(m.Oldest().Key)
}

// edit changes everything that can be changed in the shape and all that it refers to.
func edit(root *raml.BaseShape) {
	seen := map[*raml.BaseShape]bool{}
	reach(root, seen)
	str := "edited"
	yes := true
	one := uint64(1)
	for s := range seen {
		s.Name, s.Type, s.TypeLabel, s.Location = str, str, str, str
		s.ID, s.Line, s.Column = -s.ID, 0, 0
		s.DisplayName, s.Description, s.Required = &str, &str, &yes
		s.Example, s.Examples, s.Default, s.Alias = nil, nil, nil, nil
		s.ShapeVisited = true
		s.SetUnwrapped()
		if s.Link != nil {
			s.Link.Shape = nil
			s.Link = nil
		}
		for i := range s.Inherits {
			s.Inherits[i] = nil
		}
		s.Inherits = append(s.Inherits, nil)
		wreck(s.CustomShapeFacets)
		wreck(s.CustomShapeFacetDefinitions)
		wreck(s.CustomDomainProperties)
		switch t := s.Shape.(type) {
		case *raml.ObjectShape:
			wreck(t.Properties)
			wreck(t.PatternProperties)
			t.Properties, t.PatternProperties = nil, nil
			t.MinProperties, t.MaxProperties, t.AdditionalProperties, t.Discriminator, t.DiscriminatorValue = &one, &one, &yes, &str, str
		case *raml.ArrayShape:
			t.Items, t.MinItems, t.MaxItems, t.UniqueItems = nil, &one, &one, &yes
		case *raml.UnionShape:
			for i := range t.AnyOf {
				t.AnyOf[i] = nil
			}
			t.AnyOf, t.Enum = nil, nil
		case *raml.StringShape:
			t.MinLength, t.MaxLength, t.Pattern, t.Enum = &one, &one, nil, nil
		case *raml.FileShape:
			t.MinLength, t.MaxLength, t.FileTypes = &one, &one, nil
		case *raml.IntegerShape:
			t.Minimum, t.Maximum, t.MultipleOf, t.Format, t.Enum = nil, nil, nil, &str, nil
		case *raml.NumberShape:
			t.Minimum, t.Maximum, t.MultipleOf, t.Format, t.Enum = nil, nil, nil, &str, nil
		case *raml.BooleanShape:
			t.Enum = nil
		case *raml.DateTimeShape:
			t.Format = &str
		case *raml.RecursiveShape:
			t.Head = nil
		case *raml.JSONShape:
			t.Raw, t.Schema = str, nil
		}
		s.SetShape(&raml.AnyShape{BaseShape: s})
	}
}

func checkClones(x *X, c *c17) {
	w := c.W
	s := newSem(w)
	ids := func(d *Dumper) { d.ids = true }
	files := func() string { return dumpFiles(w.render()) }
	visited := func(what string, m *Model) {
		for sh := range m.allShapes(w) {
			if sh.ShapeVisited {
				x.Fail("operation leaves a mark on a type", "%s: %s\n%s", what, sh.Name, files())
			}
		}
	}
	clone := func(sh *raml.BaseShape) *raml.BaseShape {
		d := sh.CloneDetached()
		if c.Deep {
			e := d.CloneDetached()
			edit(d)
			return e
		}
		return d
	}
	// equalClone checks a clone against the original.
	equalClone := func(m *Model, o, d *raml.BaseShape) {
		if d == nil || d.Shape == nil || d.Shape.Base() != d {
			x.Fail("clone is malformed", "%s\n%s", o.Name, files())
		}
		if a, b := joint(m.Dir, o), joint(m.Dir, d); a != b {
			x.Fail("clone differs from the original", "%s: %s\n%s", o.Name, firstDiff(a, b), files())
		}
	}
	refs := false
	apart := func(m *Model, ds ...*raml.BaseShape) {
		all := parts(m.allShapes(w))
		for i, d := range ds {
			mine := map[*raml.BaseShape]bool{}
			reach(d, mine)
			refs = refs || len(mine) > 1
			ps := parts(mine)
			for p, what := range ps {
				if _, ok := all[p]; ok {
					x.Fail("clone shares a mutable part with the original", "clone of %s (%d): %s\n%s", d.Name, i, what, files())
				}
			}
			for sh := range mine {
				if sh.ShapeVisited {
					x.Fail("operation leaves a mark on a type", "clone of %s: %s\n%s", d.Name, sh.Name, files())
				}
			}
			for p, what := range ps {
				all[p] = what // neither do clones share parts with each other
			}
		}
	}
	clones := func(m *Model) (os, ds []*raml.BaseShape) {
		before := m.text(ids)
		os = m.declared(w)
		for _, o := range os {
			d := clone(o)
			equalClone(m, o, d)
			ds = append(ds, d)
		}
		apart(m, ds...)
		if after := m.text(ids); after != before {
			x.Fail("cloning changes the original", "%s\n%s", firstDiff(before, after), files())
		}
		return os, ds
	}
	texts := func(m *Model, ds []*raml.BaseShape) []string {
		var out []string
		for _, d := range ds {
			out = append(out, joint(m.Dir, d))
		}
		return out
	}
	same := func(what string, m *Model, ds []*raml.BaseShape, before []string) {
		for i, d := range ds {
			if t := joint(m.Dir, d); t != before[i] {
				x.Fail(what, "%s: %s\n%s", d.Name, firstDiff(before[i], t), files())
			}
		}
	}
	// together clones types that share parts.
	together := func(m *Model, os []*raml.BaseShape) {
		for _, p := range c.Pairs {
			a, b := os[p[0]%len(os)], os[p[1]%len(os)]
			cm := map[int64]*raml.BaseShape{}
			ca := a.Clone(cm)
			cb := b.Clone(cm)
			if t, u := joint(m.Dir, a, b), joint(m.Dir, ca, cb); t != u {
				x.Fail("clone differs from the original", "%s and %s together: %s\n%s", a.Name, b.Name, firstDiff(t, u), files())
			}
		}
	}
	inherits := func(m *Model, os []*raml.BaseShape) {
		before := m.text(ids)
		for i, p := range c.Pairs {
			a, b := os[p[0]%len(os)], os[p[1]%len(os)]
			for _, o := range os { // prefer a source that fits
				if (i+p[1])%3 > 0 && o.Type == a.Type && o != a {
					b = o
				}
			}
			target := clone(a)
			source := b
			bt := joint(m.Dir, b)
			if i%2 == 1 {
				source = clone(b)
			}
			_, err := target.Inherit(source)
			x.Label("inherit: %v", err == nil)
			if after := m.text(ids); after != before {
				x.Fail("inheriting into a clone changes the original", "%s from %s (%v): %s\n%s", a.Name, b.Name, err, firstDiff(before, after), files())
			}
			visited("inherit", m)
			if t := joint(m.Dir, source); t != bt {
				x.Fail("inheriting changes the source", "%s from %s (%v): %s\n%s", a.Name, b.Name, err, firstDiff(bt, t), files())
			}
		}
	}
	verdicts := func(what string, m *Model, of func(TypeID) *raml.BaseShape) {
		for _, i := range c.Vals {
			sh := of(i.ID)
			v := goValue(i.V, i.Ints)
			want := s.accept(goValue(i.V, i.Ints), s.id(i.ID))
			if err := sh.Validate(v); want != (err == nil) {
				x.Fail("clone has another meaning than the original", "%s: %v value %s: %v instead of %v: %v\n%s", what, i.ID, i.V, err == nil, want, x.errText(err), files())
			}
		}
	}
	cyclic := map[TypeID]bool{}
	for _, id := range w.typeIDs() {
		cy, _ := s.recursive([]*SN{s.id(id)})
		cyclic[id] = len(cy) > 0
	}

	// Before unwrapping.
	m := x.mustParse(w, parseOnly)
	os, ds := clones(m)
	together(m, os)
	inherits(m, os)
	before := m.text(ids)
	for _, d := range ds {
		edit(d)
	}
	if after := m.text(ids); after != before {
		x.Fail("editing a clone changes the original", "%s\n%s", firstDiff(before, after), files())
	}
	// Clones of the parsed model are unwrapped on their own.
	fresh, err := parseDir(m.Dir, w.Files[0].Path, unwrapped)
	if err != nil {
		x.Fail("valid declarations are rejected", "%s\n%s", x.errText(err), files())
	}
	conv := newConverters()
	before = m.typesText(ids)
	var kept []*raml.BaseShape // clones that stay as they are
	for _, o := range os {
		kept = append(kept, clone(o))
	}
	keptTexts := texts(m, kept)
	un := map[TypeID]*raml.BaseShape{}
	unwrapClone := func(id TypeID, d *raml.BaseShape) *raml.BaseShape {
		u, err := m.R.UnwrapShape(d)
		if err == nil {
			var mark *raml.BaseShape
			mark, err = m.R.FindAndMarkRecursion(u)
			if mark != nil {
				x.Fail("clone has another meaning than the original", "%v is recursive itself\n%s", id, files())
			}
		}
		if err != nil {
			x.Fail("clone cannot be unwrapped", "%v: %s\n%s", id, x.errText(err), files())
		}
		un[id] = u
		if !u.IsUnwrapped() {
			x.Fail("clone cannot be unwrapped", "%v\n%s", id, files())
		}
		if cyclic[id] {
			return u
		}
		o := x.shape(fresh, id)
		conf := func(d *Dumper) { d.skip["DefinedBy"], d.skip["Uses"] = true, true }
		if a, b := shapeText(m.Dir, o, conf), shapeText(m.Dir, u, conf); a != b {
			x.Fail("unwrapped clone differs from the original", "%v: %s\n%s", id, firstDiff(a, b), files())
		}
		p1, f1 := conv.texts(x, o)
		p2, f2 := conv.texts(x, u)
		if string(p1) != string(p2) || string(f1) != string(f2) {
			x.Fail("unwrapped clone has another schema than the original", "%v\n%s\n%s\n%s\n%s\n%s", id, p1, p2, f1, f2, files())
		}
		return u
	}
	for _, id := range w.typeIDs() {
		unwrapClone(id, clone(x.shape(m, id)))
	}
	if after := m.typesText(ids); after != before {
		x.Fail("unwrapping a clone changes the original", "%s\n%s", firstDiff(before, after), files())
	}
	visited("unwrapping a clone", m)
	verdicts("unwrapped clone", m, func(id TypeID) *raml.BaseShape { return un[id] })
	// The originals are unwrapped, the clones are not.
	early := map[TypeID]*raml.BaseShape{}
	for _, id := range w.typeIDs() {
		early[id] = clone(x.shape(m, id))
	}
	if err := m.R.UnwrapShapes(); err != nil {
		x.Fail("valid declarations are rejected", "%s\n%s", x.errText(err), files())
	}
	same("unwrapping the original changes a clone", m, kept, keptTexts)
	apart(m, kept...)
	verdicts("original", m, func(id TypeID) *raml.BaseShape { return x.shape(m, id) })
	for id, d := range early {
		if d.IsUnwrapped() {
			x.Fail("unwrapping the original changes a clone", "%v\n%s", id, files())
		}
		unwrapClone(id, d)
	}
	verdicts("early clone", m, func(id TypeID) *raml.BaseShape { return un[id] })

	// After unwrapping.
	os, ds = clones(m)
	together(m, os)
	inherits(m, os)
	for i, o := range os {
		p1, f1 := conv.texts(x, o)
		p2, f2 := conv.texts(x, ds[i])
		if string(p1) != string(p2) || string(f1) != string(f2) {
			x.Fail("clone has another schema than the original", "%s\n%s\n%s\n%s\n%s\n%s", o.Name, p1, p2, f1, f2, files())
		}
	}
	late := map[TypeID]*raml.BaseShape{}
	for _, id := range w.typeIDs() {
		late[id] = clone(x.shape(m, id))
		if !late[id].IsUnwrapped() {
			x.Fail("clone differs from the original", "%v is not unwrapped", id)
		}
	}
	verdicts("late clone", m, func(id TypeID) *raml.BaseShape { return late[id] })
	before = m.text(ids)
	for _, d := range ds {
		edit(d)
	}
	if after := m.text(ids); after != before {
		x.Fail("editing a clone changes the original", "%s\n%s", firstDiff(before, after), files())
	}
	verdicts("original", m, func(id TypeID) *raml.BaseShape { return x.shape(m, id) })
	// Finally, the originals are edited.
	var ls []*raml.BaseShape
	for _, id := range w.typeIDs() {
		ls = append(ls, late[id])
	}
	lt := texts(m, ls)
	for _, o := range os {
		edit(o)
	}
	same("editing the original changes a clone", m, ls, lt)
	same("editing the original changes a clone", m, kept, keptTexts)
	verdicts("late clone", m, func(id TypeID) *raml.BaseShape { return late[id] })
	if refs {
		x.NonTrivial()
	}
}

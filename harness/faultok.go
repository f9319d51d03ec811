package main

import "fmt"

// injectValid adds declarations that are close to a fault of the kinds, but conform.
func (w *WG) injectValid(kinds []string) {
	g := w.g
	switch pick(g, kinds) {
	case "example", "default", "example of an existing type":
		s, ok := w.declSite(2, func(s site) bool {
			// A declaration within an heir may override one of its parents.
			return !s.Heir || s.T == s.Root
		})
		if !ok {
			return
		}
		if v, ok := w.validFor(s); ok && !jsonString(v) {
			if g.Bool() {
				s.T.Default = &Data{V: v}
			} else {
				w.exampleFault(s, v)
			}
		}
	case "minimum above maximum":
		n := g.Int(0, 5)
		a, sa := ptr(uint64(n)), ptr(fmt.Sprint(n-2))
		set := map[string]func(p, c *Type){
			"string":  func(p, c *Type) { p.MaxLength, c.MinLength = a, a },
			"file":    func(p, c *Type) { p.MaxLength, c.MinLength = a, a },
			"integer": func(p, c *Type) { p.Maximum, c.Minimum = sa, sa },
			"number":  func(p, c *Type) { p.Maximum, c.Minimum = sa, sa },
			"array":   func(p, c *Type) { p.MaxItems, c.MinItems = a, a },
			"object":  func(p, c *Type) { p.MaxProps, c.MinProps = a, a },
		}
		k := pick(g, keysOf(set))
		base, h := &Type{Expr: en(k)}, Type{}
		if g.Bool() {
			set[k](base, &h)
		} else {
			set[k](&h, base)
		}
		heir := w.family(pick(g, w.libs()), base, nil)
		w.plant(func(f *File) *Type {
			t, x := heir(f), h
			x.Expr, x.Include = t.Expr, t.Include
			return &x
		})
	case "unknown custom facet", "custom facet set by its definer", "custom facet value", "missing custom facet", "redefined custom facet":
		var good V
		w.facetFamily(func(lib *File) ([]*PropDecl, []Named) {
			t, a, _ := w.facetType(lib)
			good = a
			d := &PropDecl{Name: "facet", Opt: g.Bool(), T: t}
			if d.Opt && g.Bool() {
				return []*PropDecl{d}, nil
			}
			return []*PropDecl{d}, []Named{{"facet", Data{V: good}}}
		}, func(t *Type) {
			t.Custom = []Named{{"facet", Data{V: good}}}
			if g.P(4) {
				t.Facets = []*PropDecl{{Name: "other", Opt: true, T: &Type{Expr: en("string"), Scalar: true}}}
			}
		})
	case "widening":
		w.plantNarrowing()
	case "annotation value", "unknown annotation":
		w.annotatePlace(func(f *File) Named {
			n, good, _, _ := w.annTypeWith(f)
			return Named{n, Data{V: good}}
		})
	}
}

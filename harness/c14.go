package main

import (
	raml "github.com/acronis/go-raml/v2"
)

// annotations checks that the model lists exactly the annotations that are attached to its parts.
func (c *MC) annotationList(m *Model) {
	want := map[*raml.DomainExtension]int{}
	for _, a := range c.anns {
		want[a]++
	}
	got := m.R.GetAllAnnotationsPtr()
	vals := m.R.GetAllAnnotations()
	if len(vals) != len(got) {
		c.x.Fail("lists of annotations differ", "%d and %d", len(vals), len(got))
	}
	seen := map[*raml.DomainExtension]bool{}
	for i, a := range got {
		if a == nil || seen[a] {
			c.x.Fail("annotation is listed twice or nil", "%v\n%s", a, dumpFiles(c.w.render()))
		}
		seen[a] = true
		if want[a] == 0 {
			c.x.Fail("listed annotation is not attached to anything", "%s at %s:%d\n%s", a.Name, a.Location, a.Line, dumpFiles(c.w.render()))
		}
		v := vals[i]
		if v.Name != a.Name || v.DefinedBy != a.DefinedBy || v.Extension != a.Extension || v.Location != a.Location || v.Line != a.Line {
			c.x.Fail("lists of annotations differ", "%s: %v and %v", a.Name, v, *a)
		}
	}
	for a := range want {
		if !seen[a] {
			c.x.Fail("annotation is not listed", "%s at %s:%d\n%s", a.Name, a.Location, a.Line, dumpFiles(c.w.render()))
		}
	}
}

func init() {
	register("C14", 6000, 100000,
		"at least two annotations are compared, or exactly one fault was injected",
		func(g G) *faulty {
			c := genFaulty(g, GO{Libs: 3, DTs: 2, Types: 6, Rec: g.P(3), Ex: g.P(8), Custom: g.P(4), Anns: true, Overlap: true}, 8,
				"annotation value", "unknown annotation")
			if g.P(5) {
				scatter(g, c.W)
			}
			return c
		},
		func(x *X, c *faulty) {
			x.verdict(c.W, c.Fault)
			if c.Fault != nil && c.Fault.Stage == "parse" {
				x.NonTrivial()
				return
			}
			m := x.mustParse(c.W, parseOnly)
			mc := newMC(x, c.W, m, false)
			mc.all()
			mc.annotationList(m)
			if len(mc.anns) >= 2 || c.Fault != nil {
				x.NonTrivial()
			}
			x.Label("annotations %d", min(len(mc.anns), 9))
			un := x.mustParse(c.W, unwrapped)
			mc = newMC(x, c.W, un, true)
			mc.all()
			for _, a := range un.R.GetAllAnnotationsPtr() {
				if a.DefinedBy == nil || !a.DefinedBy.IsUnwrapped() {
					x.Fail("annotation is not bound to an unwrapped type", "%s\n%s", a.Name, dumpFiles(c.W.render()))
				}
			}
			if n := len(un.R.GetAllAnnotationsPtr()); n != len(m.R.GetAllAnnotationsPtr()) {
				x.Fail("unwrapping changes the number of annotations", "%d", n)
			}
			// Values are checked against the types before and after unwrapping.
			if c.Fault == nil {
				for _, a := range un.R.GetAllAnnotationsPtr() {
					if err := a.DefinedBy.Validate(a.Extension.Value); err != nil {
						x.Fail("conforming annotation value is rejected", "%s: %v\n%s", a.Name, err, dumpFiles(c.W.render()))
					}
				}
			}
		})
}

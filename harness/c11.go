package main

import (
	"fmt"
	"reflect"

	raml "github.com/acronis/go-raml/v2"
)

type c11 struct {
	W     *World `json:"w"`
	Vals  []Inst `json:"vals"`
	Ops   []int  `json:"ops"` // 0 unwrap, 1 validate
	Fault *Fault `json:"fault,omitempty"`
}

func init() {
	register("C11", 5000, 80000,
		"the model has a reference (parent, alias, link or annotation) and a recursive, aliased or inherited type is reachable; or a fault decides the verdict",
		func(g G) *c11 {
			wg := newWG(g, GO{Libs: 2, DTs: 2, Types: 6, Rec: g.P(8), RecDT: g.P(8), Ex: g.P(8), Custom: g.P(6), Anns: g.P(6), Overlap: true})
			w := wg.world()
			s := newSem(w)
			c := &c11{W: w, Vals: instances(g, s, w.typeIDs(), g.Int(2, 6))}
			for i, n := 0, g.Int(1, 5); i < n; i++ {
				c.Ops = append(c.Ops, g.Int(0, 1))
			}
			if g.P(6) {
				c.Fault = wg.inject(nil)
			}
			return c
		},
		func(x *X, c *c11) {
			if c.Fault != nil {
				_, e1 := x.parse(c.W, validated)
				_, e2 := x.parse(c.W, full)
				if (e1 == nil) != (e2 == nil) {
					x.Fail("verdict of validation depends on unwrapping", "%s\nwithout: %v\nwith: %v\n%s", c.Fault.Kind, x.errText(e1), x.errText(e2), dumpFiles(c.W.render()))
				}
				x.Label("fault %s: %v", c.Fault.Kind, e1 != nil)
				if e1 != nil {
					x.NonTrivial()
				}
				return
			}
			x.Label("valid")
			for _, m := range []Mode{unwrapped, full} {
				md := x.mustParse(c.W, m)
				x.unwrappedModel(md, c.W)
				x.meaning(md, c)
				ids := func(d *Dumper) { d.ids = true }
				before := md.typesText(ids)
				for i := 0; i < 2; i++ {
					if err := md.R.UnwrapShapes(); err != nil {
						x.Fail("unwrapping again fails", "%v\n%s", x.errText(err), dumpFiles(c.W.render()))
					}
					if after := md.typesText(ids); after != before {
						x.Fail("unwrapping again changes the model", "%s\n%s", firstDiff(before, after), dumpFiles(c.W.render()))
					}
				}
				x.meaning(md, c)
				if err := md.R.ValidateShapes(); err != nil {
					x.Fail("valid model is rejected after unwrapping", "%v\n%s", x.errText(err), dumpFiles(c.W.render()))
				}
				if after := md.typesText(ids); after != before {
					x.Fail("validation changes the unwrapped model", "%s\n%s", firstDiff(before, after), dumpFiles(c.W.render()))
				}
			}
			pm := x.mustParse(c.W, parseOnly)
			plain := pm.typesText(nil)
			vm := x.mustParse(c.W, validated)
			if t := vm.typesText(nil); t != plain {
				x.Fail("validation changes the parsed model", "%s\n%s", firstDiff(plain, t), dumpFiles(c.W.render()))
			}
			un := false
			var unText string
			for _, op := range c.Ops {
				if op == 1 {
					if err := vm.R.ValidateShapes(); err != nil {
						x.Fail("validating again fails", "after %v: %v\n%s", c.Ops, x.errText(err), dumpFiles(c.W.render()))
					}
				} else {
					if err := vm.R.UnwrapShapes(); err != nil {
						x.Fail("unwrapping a validated model fails", "after %v: %v\n%s", c.Ops, x.errText(err), dumpFiles(c.W.render()))
					}
					if !un {
						x.unwrappedModel(vm, c.W)
						unText = vm.typesText(nil)
					}
					un = true
				}
				if un {
					if t := vm.typesText(nil); t != unText {
						x.Fail("sequence of unwrapping and validation changes the model", "%v: %s\n%s", c.Ops, firstDiff(unText, t), dumpFiles(c.W.render()))
					}
					x.meaning(vm, c)
				} else if t := vm.typesText(nil); t != plain {
					x.Fail("validation changes the parsed model", "%s\n%s", firstDiff(plain, t), dumpFiles(c.W.render()))
				}
			}
			if un {
				// Validation before unwrapping makes no difference.
				um := x.mustParse(c.W, unwrapped)
				if t := um.typesText(nil); t != unText {
					x.Fail("validation before unwrapping changes the result", "%v: %s\n%s", c.Ops, firstDiff(t, unText), dumpFiles(c.W.render()))
				}
			}
		})
}

// meaning checks instances of an unwrapped model, and that declared facets are still there.
func (x *X) meaning(m *Model, c *c11) {
	s := newSem(c.W)
	for _, i := range c.Vals {
		sh := x.shape(m, i.ID)
		want := s.accept(goValue(i.V, i.Ints), s.id(i.ID))
		err := sh.Validate(goValue(i.V, i.Ints))
		if want != (err == nil) {
			x.Fail("unwrapped type has another meaning", "%v value %s: %v instead of %v: %v\n%s", i.ID, i.V, err == nil, want, x.errText(err), dumpFiles(c.W.render()))
		}
	}
	newMC(x, c.W, m, true).all()
}

// typesText writes the types and annotations, without the list of shapes.
func (m *Model) typesText(conf func(*Dumper)) string {
	d := newDumper(m.Dir)
	if conf != nil {
		conf(d)
	}
	d.value(reflect.ValueOf(m.R.EntryPoint()), 0)
	d.w("\nannotations ")
	d.value(reflect.ValueOf(m.R.GetAllAnnotationsPtr()), 0)
	return d.b.String()
}

// nestedShapes lists the shapes that a shape consists of.
func nestedShapes(s *raml.BaseShape) []*raml.BaseShape {
	var out []*raml.BaseShape
	switch t := s.Shape.(type) {
	case *raml.ArrayShape:
		if t.Items != nil {
			out = append(out, t.Items)
		}
	case *raml.ObjectShape:
		if t.Properties != nil {
			for p := t.Properties.Oldest(); p != nil; p = p.Next() {
				out = append(out, p.Value.Base)
			}
		}
		if t.PatternProperties != nil {
			for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
				out = append(out, p.Value.Base)
			}
		}
	case *raml.UnionShape:
		out = append(out, t.AnyOf...)
	}
	return out
}

func facetShapes(s *raml.BaseShape) []*raml.BaseShape {
	var out []*raml.BaseShape
	if s.CustomShapeFacetDefinitions != nil {
		for p := s.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
			out = append(out, p.Value.Base)
		}
	}
	return out
}

// declared lists the declared types and annotation types of the model.
func (m *Model) declared(w *World) []*raml.BaseShape {
	var out []*raml.BaseShape
	re := w.reachable()
	for _, f := range w.Files {
		if !re[f.Path] {
			continue
		}
		switch fr := m.frag(f.Path).(type) {
		case *raml.Library:
			if fr.AnnotationTypes != nil {
				for p := fr.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
					out = append(out, p.Value)
				}
			}
			if fr.Types != nil {
				for p := fr.Types.Oldest(); p != nil; p = p.Next() {
					out = append(out, p.Value)
				}
			}
		case *raml.DataType:
			out = append(out, fr.Shape)
		}
	}
	return out
}

// unwrappedModel checks the structure of an unwrapped model.
func (x *X) unwrappedModel(m *Model, w *World) {
	roots := m.declared(w)
	for _, de := range m.R.GetAllAnnotationsPtr() {
		if de.DefinedBy == nil {
			x.Fail("annotation is not bound", "%s\n%s", de.Name, dumpFiles(w.render()))
		}
		roots = append(roots, de.DefinedBy)
	}
	name := func(s *raml.BaseShape) string {
		return fmt.Sprintf("%s (%s) at %s:%d", s.Name, s.Type, s.Location, s.Line)
	}
	seen := map[*raml.BaseShape]bool{}
	var markers []*raml.BaseShape
	var visit func(s *raml.BaseShape, parents int)
	visit = func(s *raml.BaseShape, parents int) {
		if s == nil {
			x.Fail("shape is missing", "%s", dumpFiles(w.render()))
		}
		if seen[s] {
			return
		}
		seen[s] = true
		bad := func(what string) { x.Fail(what, "%s\n%s", name(s), dumpFiles(w.render())) }
		if !s.IsUnwrapped() {
			bad("reachable shape is not unwrapped")
		}
		if s.ShapeVisited {
			bad("reachable shape is left marked as visited")
		}
		if s.Shape == nil || shapeKind(s.Shape) == "unknown" {
			bad("reachable shape is not concrete")
		}
		if s.Alias != nil {
			bad("alias is left")
		}
		if s.Link != nil {
			bad("link is left")
		}
		if s.Shape.Base() != s {
			bad("shape belongs to another base")
		}
		if k := shapeKind(s.Shape); k != s.Type {
			bad("type of the shape is " + k)
		}
		if r, ok := s.Shape.(*raml.RecursiveShape); ok {
			if r.Head == nil {
				bad("recursive shape without a head")
			}
			markers = append(markers, s)
			visit(r.Head, 0)
		}
		for _, n := range nestedShapes(s) {
			visit(n, 0)
		}
		for _, n := range facetShapes(s) {
			visit(n, 0)
		}
		for _, p := range s.Inherits {
			visit(p, parents+1)
		}
	}
	for _, r := range roots {
		visit(r, 0)
	}
	// Without the heads there are no cycles.
	state := map[*raml.BaseShape]int{}
	var acyclic func(s *raml.BaseShape)
	acyclic = func(s *raml.BaseShape) {
		switch state[s] {
		case 1:
			x.Fail("cycle is not cut by a recursive shape", "%s\n%s", name(s), dumpFiles(w.render()))
		case 2:
			return
		}
		state[s] = 1
		for _, n := range nestedShapes(s) {
			acyclic(n)
		}
		state[s] = 2
	}
	for s := range seen {
		acyclic(s)
	}
	// The head encloses the marker, possibly through other markers: declarations that denote the same type share their parts.
	for _, mk := range markers {
		head := mk.Shape.(*raml.RecursiveShape).Head
		found := false
		done := map[*raml.BaseShape]bool{}
		var search func(s *raml.BaseShape)
		search = func(s *raml.BaseShape) {
			if s == mk {
				found = true
			}
			if found || done[s] {
				return
			}
			done[s] = true
			for _, n := range nestedShapes(s) {
				search(n)
			}
			if r, ok := s.Shape.(*raml.RecursiveShape); ok && s != mk {
				search(r.Head)
			}
		}
		search(head)
		if !found {
			x.Fail("recursive shape refers to a type that does not enclose it", "%s -> %s\n%s", name(mk), name(head), dumpFiles(w.render()))
		}
		x.NonTrivial()
		x.Label("marker")
	}
	for s := range seen {
		if len(s.Inherits) > 0 {
			x.NonTrivial()
		}
	}
}

package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

type c24 struct {
	W     *World   `json:"w"`
	Names []string `json:"names"` // names to look up besides the declared ones
	Mode  int      `json:"mode"`
}

func init() {
	register("C24", 5000, 80000,
		"names are found in other fragments, and names are not found",
		func(g G) *c24 {
			wg := newWG(g, GO{Libs: 3, DTs: 2, Types: 6, Rec: g.P(3), Ex: g.P(3), Custom: g.P(2), Anns: g.P(8), Overlap: true})
			c := &c24{W: wg.world(), Mode: g.Idx(4)}
			if g.P(8) {
				wg.clash()
			}
			// Names with dots: declared ones come before imported ones.
			var all []string
			for _, f := range c.W.Files {
				for _, d := range append(append([]*Decl{}, f.Types...), f.AnnTypes...) {
					all = append(all, d.Name)
				}
			}
			for _, f := range wg.libs() {
				if len(f.Uses) > 0 && len(all) > 0 && g.P(3) {
					n := pick(g, f.Uses).Name + "." + pick(g, all)
					if strings.Contains(dumpFiles(c.W.render()), n) {
						continue // Declaring it would change the meaning of a reference.
					}
					if g.Bool() && f.typ(n) == nil {
						f.Types = append(f.Types, &Decl{n, &Type{Expr: en("string")}})
					} else if f.annType(n) == nil {
						f.AnnTypes = append(f.AnnTypes, &Decl{n, &Type{Expr: en("string")}})
					}
				}
			}
			for i, n := 0, g.Int(3, 10); i < n; i++ {
				name := "X"
				if len(all) > 0 {
					name = pick(g, all)
				}
				switch g.Idx(8) {
				case 0:
					name = strings.ToUpper(name)
				case 1:
					name = strings.ToLower(name)
				case 2:
					name = name[1:]
				case 3:
					name += pick(g, []string{"1", ".", " ", "?", "[]", "s"})
				case 4:
					name = pick(g, []string{"string", "object", "any", "nil", "", ".", "..", "types.A", "file"})
				case 5:
					name = pick(g, []string{".", "nolib.", " ", "types."}) + name
				case 6:
					name = pick(g, all) + "." + name
				default:
					var us []string
					for _, f := range c.W.Files {
						for _, u := range f.Uses {
							us = append(us, u.Name)
						}
					}
					if len(us) > 0 {
						name = pick(g, us) + "." + name
						if g.Bool() {
							name = pick(g, us) + "." + name
						}
					}
				}
				c.Names = append(c.Names, name)
			}
			return c
		},
		checkLookup)
}

func checkLookup(x *X, c *c24) {
	w := c.W
	mode := []Mode{parseOnly, unwrapped, validated, full}[c.Mode]
	m := x.mustParse(w, mode)
	s := newSem(w)
	re := w.reachable()
	cross, missed := false, false
	where := func() string { return fmt.Sprintf("mode %+v\n%s", mode, dumpFiles(w.render())) }
	// declared returns the shape that the fragment declares under the name.
	declared := func(f *File, name string, ann bool) *raml.BaseShape {
		l, ok := m.frag(f.Path).(*raml.Library)
		if !ok {
			return nil
		}
		t := l.Types
		if ann {
			t = l.AnnotationTypes
		}
		b, _ := t.Get(name)
		return b
	}
	names := map[string]bool{}
	for _, n := range c.Names {
		names[n] = true
	}
	for _, f := range w.Files {
		for _, d := range append(append([]*Decl{}, f.Types...), f.AnnTypes...) {
			names[d.Name] = true
			for _, g := range w.Files {
				for _, u := range g.Uses {
					names[u.Name+"."+d.Name] = true
				}
			}
		}
	}
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	loc := func(p string) string { return filepath.Join(m.Dir, filepath.FromSlash(p)) }
	for _, f := range w.Files {
		if f.Kind == "raw" {
			continue
		}
		fr := m.frag(f.Path)
		if !re[f.Path] {
			if fr != nil {
				x.Fail("fragment that nothing refers to", "%s\n%s", f.Path, where())
			}
			if _, err := m.R.GetReferencedType("A", loc(f.Path)); err == nil {
				x.Fail("name found in a fragment that nothing refers to", "%s\n%s", f.Path, where())
			}
			continue
		}
		if fr == nil {
			x.Fail("fragment is missing", "%s\n%s", f.Path, where())
		}
		types := map[string]*raml.BaseShape{}
		for _, ann := range []bool{false, true} {
			for _, n := range sorted {
				var got, want, reg *raml.BaseShape
				var err, regErr error
				if ann {
					got, err = m.R.GetReferencedAnnotationType(n, loc(f.Path))
					reg, regErr = m.R.GetAnnotationTypeFromFragmentPtr(loc(f.Path), n)
				} else {
					got, err = m.R.GetReferencedType(n, loc(f.Path))
					reg, regErr = m.R.GetTypeFromFragmentPtr(loc(f.Path), n)
				}
				at := fmt.Sprintf("%q from %s (annotation %v)", n, f.Path, ann)
				t, lib := s.lookup(f, n, ann)
				if f.Kind == "NamedExample" {
					t = nil // NOTE: These fragments refer to nothing.
				}
				if t == nil {
					missed = true
					if err == nil || got != nil {
						x.Fail("name that is not declared is found", "%s: %v\n%s", at, got, where())
					}
				} else {
					cross = cross || lib != f
					own := n
					if f.typ(n) == nil && !ann || f.annType(n) == nil && ann || f.Kind != "Library" {
						own = n[strings.LastIndex(n, ".")+1:]
					}
					want = declared(lib, own, ann)
					if want == nil {
						x.Fail("declared type is missing", "%s in %s\n%s", own, lib.Path, where())
					}
					if err != nil || got != want {
						x.Fail("name is looked up wrongly", "%s: %v %v\n%s", at, got, x.errText(err), where())
					}
				}
				// The types of the fragment itself.
				if f.Kind != "Library" {
					continue
				}
				mine := declared(f, n, ann)
				if reg != mine || mine != nil && regErr != nil {
					x.Fail("type of a fragment is registered wrongly", "%s: %v %v, declared %v\n%s", at, reg, x.errText(regErr), mine, where())
				}
				if mine != nil && !ann {
					types[n] = mine
				}
			}
		}
		if f.Kind == "Library" {
			got := m.R.GetFragmentTypePtrs(loc(f.Path))
			if len(got) != len(types) {
				x.Fail("types of a fragment", "%s: %d instead of %d\n%s", f.Path, len(got), len(types), where())
			}
			for n, b := range types {
				if got[n] != b {
					x.Fail("types of a fragment", "%s: %s is %v\n%s", f.Path, n, got[n], where())
				}
			}
		}
	}
	for _, p := range []string{"nothing.raml", "libs", "", "."} {
		if m.R.GetFragment(loc(p)) != nil {
			x.Fail("fragment of a missing file", "%q\n%s", p, where())
		}
		if _, err := m.R.GetReferencedType("A", loc(p)); err == nil {
			x.Fail("name found in a missing file", "%q\n%s", p, where())
		}
		if _, err := m.R.GetReferencedAnnotationType("A", loc(p)); err == nil {
			x.Fail("name found in a missing file", "%q\n%s", p, where())
		}
	}
	x.shapesListed(m, w, mode, where)
	x.nontrivial = cross && missed
	x.Label(fmt.Sprintf("mode %+v", mode))
}

// shapesListed checks the list of the shapes.
func (x *X) shapesListed(m *Model, w *World, mode Mode, where func() string) {
	seen, ids := map[*raml.BaseShape]int{}, map[int64]*raml.BaseShape{}
	for i, b := range m.R.GetShapes() {
		if j, dup := seen[b]; dup {
			x.Fail("shape is listed twice", "%s: %d and %d\n%s", b.Name, j, i, where())
		}
		seen[b] = i
		// NOTE: Validation of a model that is not unwrapped lists its private copies as well, which keep their IDs.
		if o := ids[b.ID]; o != nil && mode != validated {
			x.Fail("two shapes with one ID", "%s and %s: %d\n%s", b.Name, o.Name, b.ID, where())
		}
		ids[b.ID] = b
	}
	if mode != parseOnly {
		return // NOTE: After unwrapping, only some of the parts are listed.
	}
	for b := range m.allShapes(w) {
		if _, ok := seen[b]; !ok {
			x.Fail("shape is not listed", "%s of type %s at %s:%d\n%s", b.Name, b.Type, b.Location, b.Line, where())
		}
	}
}

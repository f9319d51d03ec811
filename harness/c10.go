package main

import (
	"fmt"

	raml "github.com/acronis/go-raml/v2"
)

type c10 struct {
	Base *World `json:"base"`
	W    *World `json:"w"` // with further declarations
	Vals []Inst `json:"vals"`
}

func init() {
	register("C10", 4000, 80000,
		"a further declaration refers to an existing type, whose values are accepted and rejected",
		func(g G) *c10 {
			o := GO{Libs: 2, DTs: 2, Types: 4, Rec: g.P(6), RecDT: g.P(8), Ex: g.P(6), Custom: g.P(5), Anns: g.P(5), Heirs: g.P(3)}
			if !o.Rec && !o.RecDT {
				o.Overlap = g.P(3)
			}
			wg := newWG(g, o)
			wg.world()
			c := &c10{Base: clone(wg.w)}
			wg.extend(g.Int(1, 5))
			c.W = wg.w
			s := newSem(c.Base)
			ids := c.Base.typeIDs()
			c.Vals = instances(g, s, ids, g.Int(4, 10))
			return c
		},
		checkExtended)
}

var moreLibs = []string{"aaa.raml", "zz.raml", "libs/aa.raml"}

// extend adds declarations to a finished world.
func (w *WG) extend(n int) {
	g := w.g
	old := map[*File][]*Decl{}
	oldAnns := map[*File][]*Decl{}
	var libs []*File
	for _, f := range w.w.Files {
		if f.Kind == "Library" {
			libs = append(libs, f)
			old[f], oldAnns[f] = f.Types, f.AnnTypes
		}
	}
	own := len(libs)
	for i, k := 0, g.Int(0, 2); i < k; i++ {
		libs = append(libs, w.addFile(&File{Path: moreLibs[i], Kind: "Library"}))
	}
	w.o.Heirs = true
	for i := 0; i < n; i++ {
		switch g.W(10, 3, 1, 1) {
		case 0:
			w.topType(pick(g, libs))
		case 1:
			w.dataType(libs)
		case 2:
			w.recGroup(libs)
		default:
			w.annType(pick(g, libs))
		}
	}
	// Existing DataType fragments are included once more.
	for _, f := range w.w.Files {
		if f.Kind == "DataType" && g.P(3) {
			u := pick(g, libs)
			i := &Type{Include: relPath(u, f.Path), Scalar: true}
			if w.needsFacets([]*SN{w.s.node(f, f.Body)}) {
				i.Scalar = false
				w.customFacets(u, i, []*SN{w.s.node(f, f.Body)})
			}
			w.done(w.declare(u, w.freshName(u), i))
		}
	}
	for _, f := range libs[own:] {
		f.Usage = "further types"
		if !w.w.reachable()[f.Path] {
			w.use(pick(g, libs[:own]), f)
		}
		if !w.w.reachable()[f.Path] {
			w.use(libs[0], f)
		}
	}
	// The new declarations come before, between and after the existing ones, which keep their order.
	mix := func(all, old []*Decl) []*Decl {
		out := append([]*Decl{}, old...)
		for _, d := range all[len(old):] {
			i := g.Int(0, len(out))
			out = append(out[:i:i], append([]*Decl{d}, out[i:]...)...)
		}
		return out
	}
	for _, f := range libs[:own] {
		f.Types = mix(f.Types, old[f])
		f.AnnTypes = mix(f.AnnTypes, oldAnns[f])
	}
}

func checkExtended(x *X, c *c10) {
	s := newSem(c.Base)
	base := x.mustParse(c.Base, unwrapped)
	ids := c.Base.typeIDs()
	conv := newConverters()
	conf := func(d *Dumper) {
		d.pos = false
		d.skip["DefinedBy"], d.skip["Uses"] = true, true
	}
	type kept struct {
		text, plain, full, parsed string
		rec                       bool
	}
	key := func(ann bool, id TypeID) string { return fmt.Sprint(ann, id.File, "#", id.Name) }
	all := func(m *Model, visit func(key string, n *SN, sh *raml.BaseShape)) {
		for _, id := range ids {
			visit(key(false, id), s.id(id), x.shape(m, id))
		}
		re := c.Base.reachable()
		for _, f := range c.Base.Files {
			if l, ok := m.frag(f.Path).(*raml.Library); ok && re[f.Path] {
				for _, d := range f.AnnTypes {
					a, ok := l.AnnotationTypes.Get(d.Name)
					if !ok {
						x.Fail("declared annotation type is missing", "%s %s\n%s", f.Path, d.Name, dumpFiles(c.W.render()))
					}
					visit(key(true, TypeID{f.Path, d.Name}), s.node(f, d.T), a)
				}
			}
		}
	}
	want := map[string]kept{}
	all(base, func(k string, n *SN, sh *raml.BaseShape) {
		cy, _ := s.recursive([]*SN{n})
		p, f := conv.texts(x, sh)
		want[k] = kept{text: shapeText(base.Dir, sh, conf), plain: string(p), full: string(f), rec: len(cy) > 0}
	})
	parsed := map[string]string{}
	pm := x.mustParse(c.Base, parseOnly)
	all(pm, func(k string, n *SN, sh *raml.BaseShape) { parsed[k] = shapeText(pm.Dir, sh, conf) })

	verdict := func(what string, m *Model) (yes, no bool) {
		for _, i := range c.Vals {
			w := s.accept(goValue(i.V, i.Ints), s.id(i.ID))
			err := x.shape(m, i.ID).Validate(goValue(i.V, i.Ints))
			if w != (err == nil) {
				x.Fail("further declarations change which values a type accepts", "%s: %v value %s: %v instead of %v: %v\n%s", what, i.ID, i.V, err == nil, w, x.errText(err), dumpFiles(c.W.render()))
			}
			yes, no = yes || w, no || !w
		}
		return
	}
	verdict("without further declarations", base)
	yes, no := false, false
	pm = x.mustParse(c.W, parseOnly)
	all(pm, func(k string, n *SN, sh *raml.BaseShape) {
		if t := shapeText(pm.Dir, sh, conf); t != parsed[k] {
			x.Fail("further declarations change the parsed type", "%s: %s\n--- before\n%s--- after\n%s", k, firstDiff(parsed[k], t), dumpFiles(c.Base.render()), dumpFiles(c.W.render()))
		}
	})
	for _, mode := range []Mode{unwrapped, full} {
		m := x.mustParse(c.W, mode)
		all(m, func(k string, n *SN, sh *raml.BaseShape) {
			w := want[k]
			// Where a recursive type is cut depends on where the recursion is entered first.
			if w.rec {
				x.Label("recursive")
				return
			}
			if t := shapeText(m.Dir, sh, conf); t != w.text {
				x.Fail("further declarations change the type", "%s: %s\n--- before\n%s--- after\n%s", k, firstDiff(w.text, t), dumpFiles(c.Base.render()), dumpFiles(c.W.render()))
			}
			if p, f := conv.texts(x, sh); string(p) != w.plain || string(f) != w.full {
				x.Fail("further declarations change the schema", "%s:\n%s\n%s\n%s\n%s\n%s", k, w.plain, p, w.full, f, dumpFiles(c.W.render()))
			}
		})
		yes, no = verdict("with further declarations", m)
		newMC(x, c.W, m, true).all()
		for _, i := range c.Vals {
			w := s.accept(goValue(i.V, i.Ints), s.id(i.ID))
			p, _ := conv.texts(x, x.shape(m, i.ID))
			d, err := newSchemaDoc(p)
			if err != nil {
				x.Fail("schema is not JSON", "%v: %v", i.ID, err)
			}
			if cy, _ := s.recursive([]*SN{s.id(i.ID)}); len(cy) > 0 {
				if got := d.valid(d.root, exact(goValue(i.V, i.Ints)), 0); got != w && len(d.errs) == 0 {
					x.Fail("further declarations change the schema", "%v value %s: %v instead of %v\n%s\n%s", i.ID, i.V, got, w, p, dumpFiles(c.W.render()))
				}
			}
		}
	}
	// The further declarations themselves must refer to the existing ones.
	refs := false
	ws := newSem(c.W)
	mine := map[*SN]bool{}
	for _, id := range ids {
		mine[ws.id(id).deref()] = true
	}
	for _, id := range c.W.typeIDs() {
		if s.id(id) != nil {
			continue
		}
		n := ws.id(id)
		if n.Alias != nil && mine[n.deref()] {
			refs = true
			x.Label("alias")
		}
		for _, p := range n.Parents {
			if mine[p.deref()] {
				refs = true
				x.Label("heir")
			}
		}
		for _, e := range ws.edges(n) {
			if mine[e.deref()] {
				refs = true
			}
		}
	}
	if refs && yes && no {
		x.NonTrivial()
	}
}

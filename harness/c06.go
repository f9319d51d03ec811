package main

import (
	"fmt"
	"strings"
)

type c06 struct {
	W     *World `json:"w"`
	Fault *Fault `json:"fault,omitempty"`
	Vals  []Inst `json:"vals,omitempty"`
	Refs  int    `json:"refs,omitempty"`
	Odd   bool   `json:"odd,omitempty"` // with facets that do not pass validation
}

// clash declares types and annotation types of the same names in several libraries, each of which accepts a value of
// its own, and refers to them from everywhere.
func (w *WG) clash() (refs int, vals []Inst) {
	g := w.g
	libs := w.libs()
	names := pickSome(g, []string{"A", "a", "Clash", "l", "lib", "common", "q1"}, 1, 3)
	type own struct {
		f    *File
		name string
		v    V
	}
	var owns []own
	n := 0
	for _, f := range libs {
		for _, name := range names {
			if f.typ(name) != nil || !g.P(12) {
				continue
			}
			n++
			v := V(fmt.Sprintf("%q", fmt.Sprintf("own%d", n)))
			d := &Decl{name, &Type{Expr: en("string"), Enum: []V{v}}}
			if g.Bool() {
				f.Types = append(f.Types, d)
			} else {
				f.Types = append([]*Decl{d}, f.Types...)
			}
			owns = append(owns, own{f, name, v})
		}
	}
	if len(owns) == 0 {
		return 0, nil
	}
	annName := pick(g, []string{"A", "mark", "l", names[0]})
	anns := map[*File]bool{}
	shadow := map[*File]string{}
	for _, f := range libs {
		if f.annType(annName) == nil && g.P(10) {
			f.AnnTypes = append(f.AnnTypes, &Decl{annName, &Type{Expr: en("any")}})
			anns[f] = true
		}
	}
	// Names with dots come before the ones of the imported libraries.
	for _, f := range libs {
		if len(f.Uses) == 0 || !g.P(5) {
			continue
		}
		u := pick(g, f.Uses).Name
		if name := u + "." + pick(g, names); f.typ(name) == nil && !strings.Contains(dumpFiles(w.w.render()), name) {
			n++
			v := V(fmt.Sprintf("%q", fmt.Sprintf("own%d", n)))
			f.Types = append(f.Types, &Decl{name, &Type{Expr: en("string"), Enum: []V{v}}})
			owns = append(owns, own{f, name, v})
		}
		if name := u + "." + annName; f.annType(name) == nil && !strings.Contains(dumpFiles(w.w.render()), "("+name+")") {
			f.AnnTypes = append(f.AnnTypes, &Decl{name, &Type{Expr: en("any")}})
			shadow[f] = name
		}
	}
	refTo := func(f *File, o own) string {
		if o.f == f {
			return o.name
		}
		return w.use(f, o.f) + "." + o.name
	}
	one := func(f *File) own {
		for {
			// Only the fragment itself can refer to names with dots.
			if o := owns[g.Idx(len(owns))]; o.f == f || !strings.Contains(o.name, ".") {
				return o
			}
			if g.P(5) {
				return owns[0]
			}
		}
	}
	for i, k := 0, g.Int(2, 8); i < k; i++ {
		var f *File
		var id TypeID
		if g.P(4) {
			w.fileN++
			f = w.addFile(&File{Path: fmt.Sprintf("%sclash%d.raml", pick(g, []string{"", "types/", "libs/"}), w.fileN), Kind: "DataType"})
			id = TypeID{f.Path, ""}
		} else {
			f = pick(g, libs)
			id = TypeID{f.Path, f.freeName("Ref")}
		}
		o := one(f)
		name := refTo(f, o)
		t := &Type{Expr: en(name)}
		wrap := func(v V) V { return v }
		switch g.Idx(8) {
		case 0:
			t.Scalar = id.Name != ""
		case 1:
			t.Desc = ptr("heir")
		case 2:
			t = &Type{Parents: []string{name}, Desc: ptr("heir")}
		case 3:
			t = &Type{Expr: en("array"), Items: &Type{Expr: en(name), Scalar: g.Bool()}}
			wrap = func(v V) V { return mustJSON([]any{v}) }
		case 4:
			t = &Type{Expr: ea(en(name)), Scalar: id.Name != "" && g.Bool()}
			wrap = func(v V) V { return mustJSON([]any{v}) }
		case 5:
			p := one(f)
			t = &Type{Expr: eu(en(name), en(refTo(f, p))), Scalar: id.Name != "" && g.Bool()}
		case 6:
			p := &PropDecl{Name: "p", Opt: g.Bool(), T: &Type{Expr: en(name), Scalar: g.Bool()}}
			t = &Type{Expr: en("object"), Props: []*PropDecl{p}}
			wrap = func(v V) V { return mustJSON(map[string]any{"p": v}) }
		default:
			p := &PropDecl{Name: "^p", Pattern: true, T: &Type{Expr: eo(en(name)), Scalar: g.Bool()}}
			t = &Type{Expr: en("object"), Props: []*PropDecl{p}}
			wrap = func(v V) V { return mustJSON(map[string]any{"p": v}) }
		}
		if shadow[f] != "" && !t.Scalar && g.P(6) {
			t.Anns = append(t.Anns, Named{shadow[f], Data{V: V("true")}})
		}
		for _, l := range libs {
			if anns[l] && !t.Scalar && g.P(6) {
				a := annName
				if l != f {
					a = w.use(f, l) + "." + a
				}
				if len(t.Anns) > 0 && t.Anns[0].Name == a {
					continue // The imported one is shadowed.
				}
				t.Anns = append(t.Anns, Named{a, Data{V: V("true")}})
			}
		}
		if id.Name == "" {
			f.Body = t
			u := pick(g, libs)
			u.Types = append(u.Types, &Decl{u.freeName("Inc"), &Type{Include: relPath(u, f.Path), Scalar: g.Bool()}})
		} else {
			f.Types = append(f.Types, &Decl{id.Name, t})
		}
		refs++
		for _, p := range owns {
			vals = append(vals, Inst{ID: id, V: wrap(p.v)})
		}
	}
	return refs, vals
}

func init() {
	register("C06", 6000, 100000,
		"types of the same name in several libraries are referred to, or an invalid reference was injected",
		func(g G) *c06 {
			wg := newWG(g, GO{Libs: 3, DTs: 3, Types: 6, Rec: g.P(3), Ex: g.P(2), Custom: g.P(2), Anns: g.P(8), Overlap: true})
			c := &c06{W: wg.world()}
			if g.P(10) {
				c.Refs, c.Vals = wg.clash()
			}
			if g.P(6) {
				c.Fault = wg.inject(class("unknown type", "unknown annotation", "circular definition", "missing type file", "missing data file",
					"missing library", "wrong kind of fragment"))
			}
			if c.Fault == nil && g.P(4) {
				c.Odd = true
				scramble(g, c.W)
			}
			if c.Fault == nil && c.Vals == nil && !c.Odd {
				s := newSem(c.W)
				c.Vals = instances(g, s, c.W.typeIDs(), g.Int(1, 6))
			}
			return c
		},
		func(x *X, c *c06) {
			if c.Odd {
				md, err := x.parse(c.W, parseOnly)
				if (err != nil) != (c.Fault != nil) {
					x.Fail("wrong verdict on references", "fault %v: %v\n%s", c.Fault, x.errText(err), dumpFiles(c.W.render()))
				}
				if err == nil {
					newMC(x, c.W, md, false).all()
				}
				x.nontrivial = c.Fault != nil || c.Refs > 0
				return
			}
			x.verdict(c.W, c.Fault)
			if c.Fault != nil {
				x.NonTrivial()
				return
			}
			newMC(x, c.W, x.mustParse(c.W, parseOnly), false).all()
			m := x.mustParse(c.W, unwrapped)
			newMC(x, c.W, m, true).all()
			s := newSem(c.W)
			for _, i := range c.Vals {
				v := goValue(i.V, i.Ints)
				want := s.accept(v, s.id(i.ID))
				if err := x.shape(m, i.ID).Validate(v); want != (err == nil) {
					x.Fail("name denotes another type", "%v, value %s: accepted %v instead of %v: %v\n%s", i.ID, i.V, err == nil, want, x.errText(err), dumpFiles(c.W.render()))
				}
			}
			if c.Refs > 0 {
				x.NonTrivial()
			}
			x.Label("references %d", min(c.Refs, 8))
		})
}

package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// c07 is the same world in two layouts.
type c07 struct {
	Base  *World   `json:"base"`
	W     *World   `json:"w"`
	IDs   []TypeID `json:"ids"`
	New   []TypeID `json:"new"` // the same types in the other layout
	Vals  []Inst   `json:"vals"`
	Moved []string `json:"moved"`
}

// refNames visits the names of types and annotation types that the file mentions.
func (f *File) refNames(visit func(*string)) {
	named := func(ns []Named) {
		for i := range ns {
			visit(&ns[i].Name)
		}
	}
	ex := func(e *Ex) {
		if e != nil {
			named(e.Anns)
		}
	}
	named(f.Anns)
	for _, e := range f.Examples {
		ex(e)
	}
	f.walk(func(t *Type) {
		t.Expr.walk(func(e *Expr) {
			if e.Op == "" && !builtins[e.Name] {
				visit(&e.Name)
			}
		})
		for i := range t.Parents {
			if !builtins[t.Parents[i]] {
				visit(&t.Parents[i])
			}
		}
		named(t.Anns)
		ex(t.Example)
		for _, e := range t.Examples {
			ex(e)
		}
	})
}

// refPaths visits the paths of included files.
func (f *File) refPaths(visit func(*string)) {
	file := func(p *string) {
		if *p != "" {
			visit(p)
		}
	}
	f.walk(func(t *Type) {
		file(&t.Include)
		file(&t.ExInc)
		for i := range t.EnumInc {
			file(&t.EnumInc[i])
		}
	})
	f.data(func(d *Data) { file(&d.Inc) })
}

// layout moves declarations between the files of a world.
type layout struct {
	g     G
	w     *World
	n     int
	moved []string
	ids   map[TypeID]TypeID
}

func absKey(file, name string) string { return "@" + file + "#" + name }

// absolute replaces names and paths by ones that do not depend on the file.
func (l *layout) absolute() {
	for _, f := range l.w.Files {
		f.refNames(func(s *string) {
			alias, name, ok := strings.Cut(*s, ".")
			if !ok {
				*s = absKey(f.Path, *s)
				return
			}
			lib := f.use(alias)
			if lib == "" {
				bug("%s: %s is not imported", f.Path, *s)
			}
			*s = absKey(lib, name)
		})
		f.refPaths(func(s *string) { *s = f.rel(*s) })
		for i := range f.Uses {
			f.Uses[i].Path = f.rel(f.Uses[i].Path)
		}
	}
}

// spell writes a path relative to the file in one of several ways.
func (l *layout) spell(f *File, p string) string {
	r := relPath(f, p)
	switch l.g.W(12, 2, 2) {
	case 1:
		return "./" + r
	case 2:
		if d := path.Dir(f.Path); d != "." {
			return "../" + path.Base(d) + "/" + r
		}
		return "sub/../" + r
	}
	return r
}

// relative writes names and paths as the files need them.
func (l *layout) relative() {
	for _, f := range l.w.Files {
		seen := map[string]string{}
		for _, u := range f.Uses {
			seen[u.Path] = u.Name
		}
		f.refNames(func(s *string) {
			lib, name, _ := strings.Cut((*s)[1:], "#")
			if lib == f.Path {
				*s = name
				return
			}
			if seen[lib] == "" {
				l.n++
				seen[lib] = fmt.Sprintf("%s%d", pick(l.g, []string{"m", "lib-", "x_"}), l.n)
				f.Uses = append(f.Uses, Use{seen[lib], lib})
			}
			*s = seen[lib] + "." + name
		})
		for i := range f.Uses {
			f.Uses[i].Path = l.spell(f, f.Uses[i].Path)
		}
		f.refPaths(func(s *string) { *s = l.spell(f, *s) })
	}
}

// includable reports whether a declaration may become the body of a data type.
func includable(t *Type) bool {
	if t.Scalar || t.Include != "" || t.JSON != "" || t.bare() {
		return false
	}
	// What heirs do not take over.
	if t.Display != nil || t.Default != nil || t.Example != nil || t.Examples != nil || t.ExInc != "" || t.Required != nil || t.Anns != nil || t.DiscrVal != nil {
		return false
	}
	for _, p := range t.Facets {
		if p.required() {
			return false // finding c13-include
		}
	}
	// The facets of unions are ignored.
	return t.Expr.isName() || t.Expr == nil || t.Expr.Op == "a"
}

// dataTypes moves declarations to data types.
func (l *layout) dataTypes(cyclic map[*Type]bool) {
	g := l.g
	same := g.P(8)
	for _, f := range append([]*File{}, l.w.Files...) {
		f := f
		if f.Kind != "Library" && f.Kind != "DataType" {
			continue
		}
		move := func(t *Type) {
			if t == f.Body || !includable(t) || !g.P(9) {
				return
			}
			l.n++
			dirs := []string{"", "dts/", "libs/types/", "api/"}
			nf := &File{Path: fmt.Sprintf("%sdt-%d.raml", pick(g, dirs), l.n), Kind: "DataType"}
			if same {
				nf.Path = l.w.freePath(g, dirs, "dt")
			}
			body := *t
			nf.Body = &body
			*t = Type{Include: nf.Path, Scalar: g.Bool()}
			l.w.Files = append(l.w.Files, nf)
			l.moved = append(l.moved, nf.Path)
		}
		// Recursion goes through parentless types only (finding c20-heir).
		for _, d := range f.Types {
			if !cyclic[d.T] {
				var visit func(t *Type)
				visit = func(t *Type) {
					if t == nil {
						return
					}
					visit(t.Items)
					for _, p := range t.Props {
						visit(p.T)
					}
					move(t)
				}
				visit(d.T)
			}
		}
	}
}

// libraries moves declarations to other libraries.
func (l *layout) libraries() {
	g := l.g
	keys := map[string]string{}
	same := g.P(8)
	var news []*File
	for _, f := range append([]*File{}, l.w.Files...) {
		if f.Kind != "Library" {
			continue
		}
		var keep []*Decl
		for _, d := range f.Types {
			if !g.P(8) {
				keep = append(keep, d)
				continue
			}
			var to *File
			for _, n := range news {
				if n.typ(d.Name) == nil && g.Bool() {
					to = n
				}
			}
			if to == nil {
				l.n++
				dirs := []string{"", "libs/", "libs/deep/er/", "zz/"}
				to = &File{Path: fmt.Sprintf("%snew-%d.raml", pick(g, dirs), l.n), Kind: "Library", Usage: "moved"}
				if same {
					to.Path = l.w.freePath(g, dirs, "lib")
				}
				news = append(news, to)
				l.w.Files = append(l.w.Files, to)
			}
			to.Types = append(to.Types, d)
			keys[absKey(f.Path, d.Name)] = absKey(to.Path, d.Name)
			l.ids[TypeID{f.Path, d.Name}] = TypeID{to.Path, d.Name}
			l.moved = append(l.moved, to.Path+" "+d.Name)
			used := false
			for _, u := range f.Uses {
				used = used || u.Path == to.Path
			}
			if !used {
				l.n++
				f.Uses = append(f.Uses, Use{fmt.Sprintf("n%d", l.n), to.Path})
			}
		}
		f.Types = keep
		if len(f.Types) == 0 && f.Usage == "" {
			f.Usage = "all types are elsewhere"
		}
	}
	for _, f := range l.w.Files {
		f.refNames(func(s *string) {
			if k, ok := keys[*s]; ok {
				*s = k
			}
		})
	}
}

// cyclic reports whether a declaration may reach a recursive type.
func (s *Sem) cyclic(t *Type) bool {
	for n := range s.w.Files {
		f := s.w.Files[n]
		for _, d := range f.Types {
			if d.T == t {
				cy, _ := s.recursive([]*SN{s.node(f, t)})
				return len(cy) > 0
			}
		}
	}
	return true
}

// sharedFragments checks that every file is loaded once.
func (x *X) sharedFragments(m *Model, w *World) {
	byPath := map[string]raml.Fragment{}
	var visit func(f raml.Fragment, why string)
	seenShape := map[*raml.BaseShape]bool{}
	var shape func(s *raml.BaseShape)
	note := func(p string, f raml.Fragment, why string) bool {
		old, ok := byPath[p]
		if ok && old != f {
			x.Fail("a file is loaded more than once", "%s, again through %s\n%s", p, why, dumpFiles(w.render()))
		}
		byPath[p] = f
		if g := m.R.GetFragment(p); g != f {
			x.Fail("a reference leads to another fragment than the one that is loaded", "%s through %s\n%s", p, why, dumpFiles(w.render()))
		}
		return !ok
	}
	uses := func(from string, us map[string]*raml.LibraryLink) {
		for n, u := range us {
			if u.Link == nil {
				x.Fail("library is not linked", "%s in %s\n%s", n, from, dumpFiles(w.render()))
			}
			visit(u.Link, from+" uses "+n)
		}
	}
	visit = func(f raml.Fragment, why string) {
		if !note(f.GetLocation(), f, why) {
			return
		}
		us := map[string]*raml.LibraryLink{}
		switch f := f.(type) {
		case *raml.Library:
			for p := f.Uses.Oldest(); p != nil; p = p.Next() {
				us[p.Key] = p.Value
			}
			for p := f.Types.Oldest(); p != nil; p = p.Next() {
				shape(p.Value)
			}
			for p := f.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
				shape(p.Value)
			}
		case *raml.DataType:
			for p := f.Uses.Oldest(); p != nil; p = p.Next() {
				us[p.Key] = p.Value
			}
			shape(f.Shape)
		}
		uses(f.GetLocation(), us)
	}
	shape = func(s *raml.BaseShape) {
		if s == nil || seenShape[s] {
			return
		}
		seenShape[s] = true
		if s.Link != nil {
			visit(s.Link, "a type in "+s.Location)
		}
		if s.Examples != nil && s.Examples.Link != nil {
			note(s.Examples.Link.Location, s.Examples.Link, "examples in "+s.Location)
		}
		shape(s.Alias)
		for _, p := range s.Inherits {
			shape(p)
		}
		for _, n := range nestedShapes(s) {
			shape(n)
		}
		for _, n := range facetShapes(s) {
			shape(n)
		}
	}
	visit(m.R.EntryPoint(), "the entry point")
	re := w.reachable()
	for p := range re {
		f := w.file(p)
		if f.Kind == "raw" {
			continue
		}
		if m.frag(p) == nil {
			x.Fail("a file is not loaded under its path", "%s\n%s", p, dumpFiles(w.render()))
		}
	}
}

func init() {
	register("C07", 4000, 80000,
		"at least two declarations are moved, and some value is accepted and some is rejected",
		func(g G) *c07 {
			wg := newWG(g, GO{Libs: 2, DTs: 1, Types: 6, Rec: g.P(5), Ex: g.P(8), Custom: g.P(6), Anns: g.P(7)})
			c := &c07{Base: wg.world()}
			c.IDs = c.Base.typeIDs()
			c.Vals = instances(g, newSem(c.Base), c.IDs, g.Int(3, 10))
			c.W = clone(c.Base)
			l := &layout{g: g, w: c.W, ids: map[TypeID]TypeID{}}
			s := newSem(c.W)
			for _, id := range c.W.typeIDs() {
				s.id(id)
			}
			cyclic := map[*Type]bool{}
			for _, f := range c.W.Files {
				for _, d := range f.Types {
					cyclic[d.T] = s.cyclic(d.T)
				}
			}
			l.absolute()
			if g.P(12) {
				l.dataTypes(cyclic)
			}
			if g.P(12) {
				l.libraries()
			}
			l.relative()
			if g.P(6) {
				scatter(g, c.W)
			}
			c.Moved = l.moved
			for _, id := range c.IDs {
				n, ok := l.ids[id]
				if !ok {
					n = id
				}
				c.New = append(c.New, n)
			}
			return c
		},
		checkLayouts)
}

// unqualified is a schema whose annotations have no prefixes, without definitions of facets.
func unqualified(text []byte) string {
	var visit func(v any)
	visit = func(v any) {
		switch v := v.(type) {
		case []any:
			for _, e := range v {
				visit(e)
			}
		case map[string]any:
			for k, e := range v {
				if as, ok := e.(map[string]any); ok && k == "x-annotations" {
					names := map[string]any{}
					for n, a := range as {
						_, bare, ok := strings.Cut(n, ".")
						if !ok {
							bare = n
						}
						names[bare+" "+string(mustJSON(a))] = 1
					}
					v[k] = names
				}
				if k == "x-facet-definitions" {
					delete(v, k) // heirs do not take them over
				}
				visit(v[k])
			}
		}
	}
	doc := canon(text)
	visit(doc)
	return string(mustJSON(doc))
}

func checkLayouts(x *X, c *c07) {
	s := newSem(c.Base)
	conv := newConverters()
	// The effective content of types, apart from where it comes from.
	conf := func(d *Dumper) {
		d.pos, d.numbers = false, true
		for _, k := range []string{"DefinedBy", "Uses", "Inherits", "TypeLabel", "Link", "Alias", "Examples", "CustomDomainProperties", "CustomShapeFacetDefinitions"} {
			d.skip[k] = true
		}
	}
	files := func() string {
		return "=== before\n" + dumpFiles(c.Base.render()) + "=== after\n" + dumpFiles(c.W.render())
	}
	for _, mode := range []Mode{unwrapped, full} {
		b := x.mustParse(c.Base, mode)
		type eff struct {
			text, plain, full string
			rec               bool
		}
		want := map[TypeID]eff{}
		for _, id := range c.IDs {
			sh := x.shape(b, id)
			p, f := conv.texts(x, sh)
			cy, _ := s.recursive([]*SN{s.id(id)})
			want[id] = eff{shapeText(b.Dir, sh, conf), unqualified(p), unqualified(f), len(cy) > 0}
		}
		m, err := x.parse(c.W, mode)
		if err != nil {
			x.Fail("another layout is rejected", "%s\n%s", x.errText(err), files())
		}
		for i, id := range c.IDs {
			sh := x.shape(m, c.New[i])
			w := want[id]
			if w.rec {
				continue // where recursion is cut depends on the order
			}
			if t := shapeText(m.Dir, sh, conf); t != w.text {
				x.Fail("another layout changes the effective type", "%v: %s\n%s", id, firstDiff(w.text, t), files())
			}
			if p, f := conv.texts(x, sh); unqualified(p) != w.plain || unqualified(f) != w.full {
				x.Fail("another layout changes the schema", "%v:\n%s\n%s\n%s\n%s\n%s", id, w.plain, p, w.full, f, files())
			}
		}
		yes, no := false, false
		for _, v := range c.Vals {
			id := v.ID
			for i := range c.IDs {
				if c.IDs[i] == v.ID {
					id = c.New[i]
				}
			}
			w := s.accept(goValue(v.V, v.Ints), s.id(v.ID))
			sh := x.shape(m, id)
			if err := sh.Validate(goValue(v.V, v.Ints)); (err == nil) != w {
				x.Fail("another layout changes which values a type accepts", "%v value %s: %s instead of %v\n%s", v.ID, v.V, x.errText(err), w, files())
			}
			if want[v.ID].rec {
				p, _ := conv.texts(x, sh)
				d, err := newSchemaDoc(p)
				if err != nil {
					x.Fail("schema is not JSON", "%v: %v", v.ID, err)
				}
				if got := d.valid(d.root, exact(goValue(v.V, v.Ints)), 0); got != w && len(d.errs) == 0 {
					x.Fail("another layout changes the schema", "%v value %s: %v instead of %v\n%s\n%s", v.ID, v.V, got, w, p, files())
				}
			}
			yes, no = yes || w, no || !w
		}
		x.nontrivial = yes && no && len(c.Moved) >= 2
		newMC(x, c.W, m, true).all()
		x.sharedFragments(m, c.W)
	}
	m, err := x.parse(c.W, parseOnly)
	if err != nil {
		x.Fail("another layout is rejected", "%s\n%s", x.errText(err), files())
	}
	x.sharedFragments(m, c.W)
	newMC(x, c.W, m, false).all()
	x.sources(c)
	x.Label("moved %d", min(len(c.Moved), 12))
}

// sources parses fragments from a string, and by a relative path.
func (x *X) sources(c *c07) {
	files := c.W.render()
	dir := x.writeFiles("w", files)
	ids := func(d *Dumper) { d.ids = true }
	for i, f := range c.W.Files {
		if f.Kind == "raw" || f.Kind == "NamedExample" || i > 0 && f.Kind == "Library" {
			continue
		}
		for _, mode := range []Mode{parseOnly, full} {
			m, err := parseDir(dir, f.Path, mode)
			if err != nil {
				x.Fail("valid fragment is rejected as the entry point", "%s: %s\n%s", f.Path, x.errText(err), dumpFiles(files))
			}
			want := m.text(ids)
			full := filepath.Join(dir, filepath.FromSlash(f.Path))
			check := func(how string, r *raml.RAML, err error) {
				if err != nil {
					x.Fail("valid fragment is rejected", "%s %s: %s\n%s", f.Path, how, x.errText(err), dumpFiles(files))
				}
				if got := (&Model{r, dir}).text(ids); got != want {
					x.Fail("the way to pass a fragment changes its meaning", "%s %s: %s\n%s", f.Path, how, firstDiff(want, got), dumpFiles(files))
				}
			}
			r, err := raml.ParseFromString(files[f.Path], filepath.Base(full), filepath.Dir(full), mode.opts()...)
			check("from a string", r, err)
			r, err = raml.ParseFromString(files[f.Path], filepath.FromSlash(f.Path), dir, mode.opts()...)
			check("from a string with a path", r, err)
			wd, err := os.Getwd()
			if err != nil {
				bug("%v", err)
			}
			if err := os.Chdir(dir); err != nil {
				bug("%v", err)
			}
			r, err = raml.ParseFromPath(filepath.FromSlash(f.Path), mode.opts()...)
			odd, e2 := raml.ParseFromPath("./../"+filepath.Base(dir)+"/./"+f.Path, mode.opts()...)
			if e := os.Chdir(wd); e != nil {
				bug("%v", e)
			}
			check("by a relative path", r, err)
			check("by a relative path with dots", odd, e2)
			r, err = raml.ParseFromPath(dir+"/./../"+filepath.Base(dir)+"//"+f.Path, mode.opts()...)
			check("by a path with dots", r, err)
			r, err = raml.ParseFromString(files[f.Path], filepath.Base(full), filepath.Dir(full)+"/./../"+filepath.Base(filepath.Dir(full)), mode.opts()...)
			check("from a string with dots in the directory", r, err)
		}
	}
}

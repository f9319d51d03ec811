package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

type c09 struct {
	W     *World `json:"w"`
	Fault *Fault `json:"fault,omitempty"`
	Vals  []Inst `json:"vals,omitempty"`
}

// heirs lists the declared types and the declared types that they inherit from.
func (s *Sem) heirs(ids []TypeID) map[TypeID][]TypeID {
	byNode := map[*SN]TypeID{}
	for _, id := range ids {
		byNode[s.id(id)] = id
	}
	out := map[TypeID][]TypeID{}
	for _, id := range ids {
		for i, l := range s.id(id).layers() {
			if p, ok := byNode[l]; ok && i > 0 {
				out[id] = append(out[id], p)
			}
		}
	}
	return out
}

// confined reports whether an object without additional properties or with pattern properties belongs to the declaration:
// an heir may add properties that these do not accept.
func (s *Sem) confined(n *SN) bool {
	seen := map[*SN]bool{}
	var visit func(n *SN) bool
	visit = func(n *SN) bool {
		if seen[n] {
			return false
		}
		seen[n] = true
		if n.T != nil && n.T.Additional != nil && !*n.T.Additional {
			return true
		}
		for _, p := range n.Props {
			if p.Pattern != nil {
				return true
			}
		}
		for _, m := range s.edges(n) {
			if visit(m) {
				return true
			}
		}
		return false
	}
	return visit(n)
}

// EC compares the facets of unwrapped types with the conjunction of their declarations.
type EC struct {
	x    *X
	w    *World
	s    *Sem
	m    *Model
	mc   *MC
	seen map[string]bool
	n    int
}

func (c *EC) bad(at, what string, want, got any) {
	c.x.Fail("inherited facet differs: "+what, "%s: want %v, got %v\n%s", at, deref(want), deref(got), dumpFiles(c.w.render()))
}

func (c *EC) count(at, what string, want, got *uint64) {
	if (want == nil) != (got == nil) || want != nil && *want != *got {
		c.bad(at, what, want, got)
	}
	if want != nil {
		c.n++
	}
}

func (c *EC) limit(at, what string, want *big.Rat, got any) {
	var have *big.Rat
	switch g := got.(type) {
	case *big.Int:
		if g != nil {
			have = new(big.Rat).SetInt(g)
		}
	case *float64:
		if g != nil {
			have = rat(*g)
		}
		if want != nil {
			f, _ := want.Float64()
			want = rat(f)
		}
	}
	if (want == nil) != (have == nil) || want != nil && want.Cmp(have) != 0 {
		c.bad(at, what, want, have)
	}
	if want != nil {
		c.n++
	}
}

func (c *EC) text(at, what, want string, got *string) {
	if want == "" && got != nil || want != "" && (got == nil || *got != want) {
		c.bad(at, what, want, got)
	}
	if want != "" {
		c.n++
	}
}

func (c *EC) nodes(at, what string, want []V, set bool, got raml.Nodes) {
	if !set {
		if got != nil {
			c.bad(at, what, "none", got.String())
		}
		return
	}
	c.n++
	contains := func(v any) bool {
		for _, n := range got {
			if equal(v, n.Value) {
				return true
			}
		}
		return false
	}
	for _, v := range want {
		if !contains(goValue(v, true)) {
			c.bad(at, what, want, got.String())
		}
	}
	for _, n := range got {
		if !inEnum(want, n.Value) {
			c.bad(at, what, want, got.String())
		}
	}
}

// nearest returns the first value of the declarations from the heir to its ancestors.
func nearest[T any](ls []*SN, f func(*Type) *T) *T {
	for _, l := range ls {
		if l.T != nil {
			if v := f(l.T); v != nil {
				return v
			}
		}
	}
	return nil
}

func textOf(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

// check compares the shape with the conjunction of declarations.
func (c *EC) check(at string, sh *raml.BaseShape, ns []*SN, depth int) {
	key := fmt.Sprintf("%p", sh)
	for _, n := range ns {
		key += fmt.Sprintf(" %p", n)
	}
	if depth > 12 || c.seen[key] {
		return
	}
	c.seen[key] = true
	e := c.s.eff(ns...)
	if e.Conflict || len(e.Unions) > 0 || e.Any {
		if len(e.Unions) == 1 && e.Kind == "" {
			c.members(at, sh, ns, e, depth)
		}
		return
	}
	if shapeKind(sh.Shape) == "recursive" {
		return // compared where the type is declared
	}
	if sh.Type != e.Kind {
		c.bad(at, "type", e.Kind, sh.Type)
	}
	switch k := sh.Shape.(type) {
	case *raml.StringShape:
		c.count(at, "minLength", e.MinLen, k.MinLength)
		c.count(at, "maxLength", e.MaxLen, k.MaxLength)
		var p *string
		if k.Pattern != nil {
			p = ptr(k.Pattern.String())
		}
		c.text(at, "pattern", textOf(nearest(e.Layers, func(t *Type) *string { return t.Pattern })), p)
		c.nodes(at, "enum", e.Enum, e.Enum != nil, k.Enum)
	case *raml.FileShape:
		c.count(at, "minLength", e.MinLen, k.MinLength)
		c.count(at, "maxLength", e.MaxLen, k.MaxLength)
		var types []V
		for _, t := range e.FileTypes {
			types = append(types, V(quote(t)))
		}
		c.nodes(at, "fileTypes", types, e.FileTypes != nil, k.FileTypes)
	case *raml.IntegerShape:
		c.limit(at, "minimum", e.Min, k.Minimum)
		c.limit(at, "maximum", e.Max, k.Maximum)
		c.multiple(at, e, k.MultipleOf)
		c.text(at, "format", e.Format, k.Format)
		c.nodes(at, "enum", e.Enum, e.Enum != nil, k.Enum)
	case *raml.NumberShape:
		c.limit(at, "minimum", e.Min, k.Minimum)
		c.limit(at, "maximum", e.Max, k.Maximum)
		c.multiple(at, e, k.MultipleOf)
		c.text(at, "format", e.Format, k.Format)
		c.nodes(at, "enum", e.Enum, e.Enum != nil, k.Enum)
	case *raml.BooleanShape:
		c.nodes(at, "enum", e.Enum, e.Enum != nil, k.Enum)
	case *raml.DateTimeShape:
		c.text(at, "format", e.Format, k.Format)
	case *raml.ArrayShape:
		c.count(at, "minItems", e.MinItems, k.MinItems)
		c.count(at, "maxItems", e.MaxItems, k.MaxItems)
		if got := k.UniqueItems != nil && *k.UniqueItems; got != e.Unique {
			c.bad(at, "uniqueItems", e.Unique, got)
		}
		if (k.Items == nil) != (e.Items == nil) {
			c.bad(at, "items", e.Items != nil, k.Items != nil)
		}
		if k.Items != nil {
			c.check(at+"[]", k.Items, e.Items, depth+1)
		}
	case *raml.ObjectShape:
		c.count(at, "minProperties", e.MinProps, k.MinProperties)
		c.count(at, "maxProperties", e.MaxProps, k.MaxProperties)
		if (k.AdditionalProperties == nil) != (e.Additional == nil) || e.Additional != nil && *e.Additional != *k.AdditionalProperties {
			c.bad(at, "additionalProperties", e.Additional, k.AdditionalProperties)
		}
		c.text(at, "discriminator", e.Discr, k.Discriminator)
		if len(ns) == 1 && k.DiscriminatorValue == nil && ns[0].deref().T != nil && ns[0].deref().T.DiscrVal != nil {
			c.bad(at, "discriminatorValue", string(ns[0].deref().T.DiscrVal), nil)
		}
		var want, got []string
		for _, p := range e.Props {
			want = append(want, fmt.Sprintf("%s %v", p.Name, p.Required))
		}
		for _, p := range e.Pats {
			want = append(want, "/"+p.Name+"/")
		}
		props := map[string]*raml.BaseShape{}
		if k.Properties != nil {
			for p := k.Properties.Oldest(); p != nil; p = p.Next() {
				got = append(got, fmt.Sprintf("%s %v", p.Key, p.Value.Required))
				props[p.Key] = p.Value.Base
			}
		}
		if k.PatternProperties != nil {
			for p := k.PatternProperties.Oldest(); p != nil; p = p.Next() {
				got = append(got, p.Key)
				props[p.Key] = p.Value.Base
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			c.bad(at, "properties", want, got)
		}
		for _, p := range e.Props {
			c.n++
			c.check(at+"."+p.Name, props[p.Name], p.Ns, depth+1)
		}
		for _, p := range e.Pats {
			c.n++
			c.check(at+"./"+p.Name+"/", props["/"+p.Name+"/"], p.Ns, depth+1)
		}
	}
	// Facets that belong to the heir alone are covered by other checks, an inherited description and custom facets remain.
	if len(ns) == 1 && ns[0].Alias == nil {
		ls := ns[0].layers()
		c.text(at, "description", textOf(nearest(ls, func(t *Type) *string { return t.Desc })), sh.Description)
		set := map[string]Data{}
		for i := len(ls) - 1; i >= 0; i-- {
			if ls[i].T == nil {
				continue
			}
			for _, k := range ls[i].T.Custom {
				set[k.Name] = k.D
			}
		}
		if got := sh.CustomShapeFacets.Len(); got != len(set) {
			c.bad(at, "number of custom facets", len(set), got)
		}
		for k, d := range set {
			n, ok := sh.CustomShapeFacets.Get(k)
			if !ok || !equal(goValue(d.V, true), plainValue(c.mc, n.Value, at)) {
				c.bad(at, "custom facet "+k, string(d.V), n)
			}
			c.n++
		}
	}
}

func (c *EC) multiple(at string, e *Eff, got *float64) {
	var want *float64
	if p := nearest(e.Layers, func(t *Type) *string { return t.MultipleOf }); p != nil {
		f, _ := ratOf(*p).Float64()
		want = &f
	}
	if (want == nil) != (got == nil) || want != nil && *want != *got {
		c.bad(at, "multipleOf", want, got)
	}
}

// members compares the members of a union that is not narrowed.
func (c *EC) members(at string, sh *raml.BaseShape, ns []*SN, e *Eff, depth int) {
	u, ok := sh.Shape.(*raml.UnionShape)
	if !ok {
		return
	}
	if len(u.AnyOf) != len(e.Unions[0]) {
		c.bad(at, "number of union members", len(e.Unions[0]), len(u.AnyOf))
	}
	for i, m := range e.Unions[0] {
		c.check(fmt.Sprintf("%s|%d", at, i), u.AnyOf[i], []*SN{m}, depth+1)
	}
}

func init() {
	register("C09", 6000, 100000,
		"a declared type inherits from another declared type and accepts a value, or an heir widens its parent",
		func(g G) *c09 {
			wg := newWG(g, GO{Libs: 2, DTs: 2, Types: 7, Rec: g.P(3), Ex: g.P(3), Custom: g.P(5), Anns: g.P(2), Overlap: g.P(3), Heirs: true})
			c := &c09{W: wg.world()}
			switch g.W(8, 5, 3) {
			case 1:
				c.Fault = wg.inject(class("widening"))
			case 2:
				wg.injectValid([]string{"widening"})
			}
			if c.Fault == nil {
				s := newSem(c.W)
				var ids []TypeID
				h := s.heirs(c.W.typeIDs())
				for _, id := range c.W.typeIDs() {
					if h[id] != nil {
						ids = append(ids, id)
					}
				}
				if ids != nil {
					c.Vals = instances(g, s, ids, g.Int(3, 10))
				}
			}
			if g.P(3) {
				scatter(g, c.W)
			}
			return c
		},
		func(x *X, c *c09) {
			x.verdict(c.W, c.Fault)
			if c.Fault != nil {
				x.NonTrivial()
				return
			}
			m := x.mustParse(c.W, unwrapped)
			s := newSem(c.W)
			ids := c.W.typeIDs()
			h := s.heirs(ids)
			for _, i := range c.Vals {
				v := goValue(i.V, i.Ints)
				if x.shape(m, i.ID).Validate(v) != nil {
					continue
				}
				for _, p := range h[i.ID] {
					err := x.shape(m, p).Validate(v)
					x.Label("accepted by heir")
					x.NonTrivial()
					if err == nil || s.confined(s.id(p)) && !s.accept(v, s.id(p)) {
						continue
					}
					x.Fail("heir accepts what its parent rejects", "%v of %v, value %s: %v\n%s", i.ID, p, i.V, x.errText(err), dumpFiles(c.W.render()))
				}
			}
			ec := &EC{x: x, w: c.W, s: s, m: m, mc: newMC(x, c.W, m, true), seen: map[string]bool{}}
			for _, id := range ids {
				ec.check(id.File+" "+id.Name, x.shape(m, id), []*SN{s.id(id)}, 0)
			}
			x.Label("inheriting types %d", min(len(h), 6))
		})
}

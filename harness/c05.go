package main

import (
	"fmt"
	"slices"
)

// c05 is the same world twice: types that the facets imply are written out, or left out.
type c05 struct {
	Explicit *World `json:"explicit"`
	Implied  *World `json:"implied"`
	Conflict string `json:"conflict,omitempty"` // position of a declaration whose facets imply different types
	N        int    `json:"n"`                  // number of declarations that differ
	Vals     []Inst `json:"vals,omitempty"`
}

// telling are facets with the types that they allow and a value for each.
var telling = []struct {
	key   string
	kinds []string
	vals  []string
}{
	{"minLength", []string{"string", "file"}, []string{"1", "0"}},
	{"maxLength", []string{"string", "file"}, []string{"5", "1"}},
	{"pattern", []string{"string"}, []string{`"^a"`, `".*"`}},
	{"minimum", []string{"number"}, []string{"1", "-2.5"}},
	{"maximum", []string{"number"}, []string{"10", "2.5"}},
	{"multipleOf", []string{"number"}, []string{"2", "0.5"}},
	{"minItems", []string{"array"}, []string{"0", "2"}},
	{"maxItems", []string{"array"}, []string{"3"}},
	{"uniqueItems", []string{"array"}, []string{"true", "false"}},
	{"items", []string{"array"}, []string{"string", "{minimum: 1}", "integer[]"}},
	{"properties", []string{"object"}, []string{"{a: string}", "{}", `{"a?": {minimum: 1}, b: {items: string}}`}},
	{"minProperties", []string{"object"}, []string{"0", "1"}},
	{"maxProperties", []string{"object"}, []string{"4"}},
	{"additionalProperties", []string{"object"}, []string{"true", "false"}},
	{"discriminator", []string{"object"}, []string{"a", "kind"}},
	{"fileTypes", []string{"file"}, []string{"[image/png]", "['*/*', text/plain]"}},
}

// neutral are facets that tell nothing.
var neutral = []struct {
	key  string
	vals []string
}{
	{"displayName", []string{"items", `"5"`}},
	{"description", []string{"text", "minLength"}},
	{"default", []string{"a", "1", "[]", "{a: b}", "true"}},
	{"example", []string{"a", "ab", "1", "2.5", "[]", "[a, b]", "{a: b}", "{}", "false"}},
	{"examples", []string{"{x: a, y: aa}", "{x: 2}", "{x: [b]}", "{x: {a: v}}"}},
	{"enum", []string{"[a, aa]", "[2, 4]"}},
	{"facets", []string{"{'xyz?': integer}", "{'minimum2?': string}"}},
	{"discriminatorValue", []string{"a"}},
	{"format", []string{"float", "int8", "rfc2616"}},
	{"xyz", []string{"5"}},
	{"(note)", []string{"text"}},
}

// combination draws facets in any order, and the type that they imply, "" if there is none.
func combination(g G) ([]KV, string) {
	var kvs []KV
	family := -1
	if g.P(7) {
		family = g.Idx(5)
	}
	// The types that have facets in common.
	near := family < 0 && g.P(3)
	kinds := []string{"string", "number", "array", "object", "file"}
	var pool []int
	for i, t := range telling {
		if near && (slices.Contains(t.kinds, "string") || slices.Contains(t.kinds, "file")) ||
			!near && (family < 0 || slices.Contains(t.kinds, kinds[family])) {
			pool = append(pool, i)
		}
	}
	allowed := kinds
	lo, hi := 0, min(4, len(pool))
	if family < 0 && !near && g.Bool() {
		lo, hi = 2, 2 // a pair that may be contradictory
	}
	for _, i := range pickSome(g, pool, lo, hi) {
		t := telling[i]
		kvs = append(kvs, KV{t.key, pick(g, t.vals)})
		allowed = slices.DeleteFunc(slices.Clone(allowed), func(k string) bool { return !slices.Contains(t.kinds, k) })
	}
	for _, n := range pickSome(g, neutral, 0, 3) {
		kvs = append(kvs, KV{n.key, pick(g, n.vals)})
	}
	out := make([]KV, 0, len(kvs))
	for _, i := range g.perm(len(kvs)) {
		out = append(out, kvs[i])
	}
	switch {
	case len(allowed) == 0:
		return out, ""
	case allowed[0] == "string":
		return out, "string"
	}
	return out, allowed[0]
}

func (c *c05) style(g G, e *Expr, scalar bool) {
	e.Style = "hide"
	if scalar {
		e.Style = "null"
	} else if g.P(4) {
		e.Style = "empty"
	}
	c.N++
}

// combos is a world of declarations with arbitrary facets.
func (c *c05) combos(g G) {
	main := &File{Path: "main.raml", Kind: "Library"}
	main.AnnTypes = append(main.AnnTypes, &Decl{"note", &Type{Expr: en("string"), Scalar: true}})
	c.Implied = &World{Files: []*File{main}}
	decl := func(n int, t *Type) string {
		name := fmt.Sprintf("D%d", n)
		main.Types = append(main.Types, &Decl{name, t})
		return name
	}
	for i, n := 0, g.Int(1, 4); i < n && c.Conflict == ""; i++ {
		kvs, kind := combination(g)
		t := &Type{Raw: kvs, Expr: en(kind)}
		t.Shuf = uint32(g.Int(1, 9))
		at := ""
		switch g.Idx(9) {
		case 0, 1, 2:
			at = decl(i, t)
		case 3:
			at = decl(i, &Type{Props: []*PropDecl{{Name: "p", Opt: g.Bool(), T: t}}}) + " property"
		case 4:
			at = decl(i, &Type{Props: []*PropDecl{{Name: "^p", Pattern: true, T: t}}}) + " pattern property"
		case 5:
			at = decl(i, &Type{Items: t}) + " items"
		case 6:
			p := fmt.Sprintf("types/dt%d.raml", i)
			for k := range kvs {
				if kvs[k].K == "(note)" {
					kvs[k] = KV{"description", "text"}
				}
			}
			seen := map[string]bool{}
			t.Raw = slices.DeleteFunc(t.Raw, func(kv KV) bool {
				old := seen[kv.K]
				seen[kv.K] = true
				return old
			})
			c.Implied.Files = append(c.Implied.Files, &File{Path: p, Kind: "DataType", Body: t})
			at = decl(i, &Type{Include: p, Scalar: g.Bool()}) + " data type"
		case 7:
			name := fmt.Sprintf("note%d", i)
			main.AnnTypes = append(main.AnnTypes, &Decl{name, t})
			at = name + " annotation type"
		default:
			at = decl(i, &Type{Expr: en("string"), Facets: []*PropDecl{{Name: "f", Opt: true, T: t}}}) + " facet"
		}
		if kind == "" {
			c.Conflict = at
		}
	}
	c.Explicit = clone(c.Implied)
	for _, f := range c.Implied.Files {
		f.walk(func(t *Type) {
			if t.Shuf != 0 {
				c.style(g, t.Expr, false)
				if f.Body == t && len(t.Raw) == 0 {
					// A fragment needs a body.
					t.Expr.Style = "empty"
				}
			}
		})
	}
}

func init() {
	register("C05", 6000, 120000,
		"at least two declarations differ, or a declaration whose facets imply different types is rejected",
		func(g G) *c05 {
			c := &c05{}
			if g.Bool() {
				c.combos(g)
				return c
			}
			wg := newWG(g, GO{Libs: 2, DTs: 2, Types: 6, Rec: g.P(5), Ex: g.P(8), Custom: g.P(6), Anns: g.P(7), Overlap: g.Bool()})
			w := wg.world()
			if g.P(4) {
				scramble(g, w)
			} else {
				c.Vals = instances(g, newSem(w), w.typeIDs(), g.Int(2, 8))
			}
			if g.P(3) {
				scatter(g, w)
			}
			// All implied types are written out, and some of the others can be left out.
			var flips []*Type
			for _, f := range w.Files {
				f.walk(func(t *Type) {
					switch {
					case t.Expr == nil && t.Parents == nil && t.Include == "" && t.JSON == "":
						t.Expr = en(t.implied())
						flips = append(flips, t)
					case t.Expr.isName() && t.Expr.Name == t.implied() && t.Raw == nil:
						if f.Kind == "DataType" && t == f.Body && t.bare() && len(f.Uses) == 0 {
							return
						}
						flips = append(flips, t)
					}
				})
			}
			c.Explicit = clone(w)
			for _, t := range flips {
				if g.P(12) {
					c.style(g, t.Expr, t.Scalar)
				}
			}
			c.Implied = w
			return c
		},
		func(x *X, c *c05) {
			files := c.Implied.render()
			if c.Conflict != "" {
				for _, mode := range []Mode{parseOnly, full} {
					if _, err := x.parse(c.Implied, mode); err == nil {
						x.Fail("facets that imply different types are accepted", "%s\n%s", c.Conflict, dumpFiles(files))
					}
				}
				x.NonTrivial()
				x.Label("conflict")
				return
			}
			for _, mode := range []Mode{parseOnly, unwrapped, validated, full} {
				e, errE := x.parse(c.Explicit, mode)
				i, errI := x.parse(c.Implied, mode)
				if (errE == nil) != (errI == nil) {
					x.Fail("different verdicts", "unwrap %v validate %v\nwritten out: %s\nimplied: %s\n%s", mode.Unwrap, mode.Validate, x.errText(errE), x.errText(errI), dumpFiles(files))
				}
				if errE != nil {
					x.Label("rejected")
					continue
				}
				conf := func(d *Dumper) { d.ids = true; d.pos = false }
				if a, b := e.text(conf), i.text(conf); a != b {
					x.Fail("an implied type differs from the same type written out", "unwrap %v validate %v\n%s\n%s", mode.Unwrap, mode.Validate, firstDiff(a, b), dumpFiles(files))
				}
				for _, v := range c.Vals {
					if !mode.Unwrap {
						break
					}
					a, b := x.shape(e, v.ID), x.shape(i, v.ID)
					errA, errB := a.Validate(goValue(v.V, v.Ints)), b.Validate(goValue(v.V, v.Ints))
					if (errA == nil) != (errB == nil) {
						x.Fail("an implied type accepts other values", "%v value %s\nwritten out: %s\nimplied: %s\n%s", v.ID, v.V, x.errText(errA), x.errText(errB), dumpFiles(files))
					}
				}
			}
			x.nontrivial = c.N >= 2
			x.Label("%d0s", min(c.N/10, 5))
		})
}

package main

import (
	"encoding/json"
	"fmt"
	"time"

	raml "github.com/acronis/go-raml/v2"
)

type c15 struct {
	W    *World `json:"w"`
	Vals []Inst `json:"vals"`
}

func init() {
	register("C15", 4000, 80000,
		"some type with properties, items or members has both an accepted and a rejected value, or a type carries metadata (title, description, default, example, annotation, custom facet)",
		func(g G) *c15 {
			wg := newWG(g, GO{Libs: 1, DTs: 1, Types: 5, Rec: g.P(5), Ex: g.P(6), Custom: g.P(5), Anns: g.P(5)})
			w := wg.world()
			s := newSem(w)
			return &c15{w, instances(g, s, w.typeIDs(), g.Int(3, 10))}
		},
		func(x *X, c *c15) {
			m := x.mustParse(c.W, unwrapped)
			checkSchemas(x, c.W, m, c.Vals)
		})
}

// converters holds one converter of each flavour that is used for many types.
type converters struct {
	plain *raml.JSONSchemaConverter[*raml.JSONSchema]
	full  *raml.JSONSchemaConverter[*raml.JSONSchemaRAML]
}

func newConverters() *converters {
	p, err := raml.NewJSONSchemaConverter[*raml.JSONSchema]()
	if err != nil {
		bug("%v", err)
	}
	f, err := raml.NewJSONSchemaConverter(raml.WithWrapper(raml.JSONSchemaWrapper))
	if err != nil {
		bug("%v", err)
	}
	return &converters{p, f}
}

// texts converts the type with both flavours to JSON.
func (c *converters) texts(x *X, s *raml.BaseShape) (plain, full []byte) {
	p, err := c.plain.Convert(s.Shape)
	if err != nil {
		x.Fail("type cannot be converted", "%s: %v", s.Name, err)
	}
	plain, err = json.Marshal(p)
	if err != nil {
		x.Fail("schema cannot be serialised", "%s: %v", s.Name, err)
	}
	f, err := c.full.Convert(s.Shape)
	if err != nil {
		x.Fail("type cannot be converted", "%s: %v", s.Name, err)
	}
	full, err = json.Marshal(f)
	if err != nil {
		x.Fail("schema cannot be serialised", "%s: %v", s.Name, err)
	}
	return plain, full
}

// checkSchemas checks the JSON schemas of all types of an unwrapped model.
func checkSchemas(x *X, w *World, m *Model, vals []Inst) {
	conv := newConverters()
	docs := map[TypeID][]*schemaDoc{}
	texts := map[TypeID]string{}
	for _, id := range w.typeIDs() {
		s := x.shape(m, id)
		before := shapeText(m.Dir, s, func(d *Dumper) { d.ids = true })
		plain, full := conv.texts(x, s)
		if after := shapeText(m.Dir, s, func(d *Dumper) { d.ids = true }); after != before {
			x.Fail("conversion modifies the type", "%v: %s", id, firstDiff(before, after))
		}
		p2, f2 := newConverters().texts(x, s)
		if string(p2) != string(plain) || string(f2) != string(full) {
			x.Fail("conversion depends on earlier conversions", "%v: %s\n%s\n%s\n%s", id, plain, p2, full, f2)
		}
		texts[id] = string(full)
		for i, t := range [][]byte{plain, full} {
			d, err := newSchemaDoc(t)
			if err != nil {
				x.Fail("schema is not JSON", "%v: %v", id, err)
			}
			if root, ok := d.root.(map[string]any); !ok || root["$schema"] != "http://json-schema.org/draft-07/schema" {
				x.Fail("schema is not a draft-07 schema", "%v: %s", id, t)
			}
			d.lint(d.root, "#")
			if len(d.errs) > 0 {
				x.Fail("malformed schema", "%v: %v\n%s\n%s", id, d.errs, t, dumpFiles(w.render()))
			}
			docs[id] = append(docs[id], d)
			checkMeta(x, d, s, i == 1, w)
		}
	}
	yes, no := map[TypeID]bool{}, map[TypeID]bool{}
	for _, i := range vals {
		s := x.shape(m, i.ID)
		err := s.Validate(goValue(i.V, i.Ints))
		want := err == nil
		for k, d := range docs[i.ID] {
			got := d.valid(d.root, exact(goValue(i.V, i.Ints)), 0)
			if len(d.errs) > 0 {
				x.Fail("schema cannot be evaluated", "%v: %v", i.ID, d.errs)
			}
			if got != want {
				x.Fail("schema and type disagree", "%v value %s: the type says %v (%v), the schema %d says %v\n%s\n%s", i.ID, i.V, want, x.errText(err), k, got, mustJSON(d.root), dumpFiles(w.render()))
			}
		}
		if jsonKind(i.V) == wantedKind(s.Type) || s.Type == "union" {
			yes[i.ID], no[i.ID] = yes[i.ID] || want, no[i.ID] || !want
		}
		x.Label("%s/%v", s.Type, want)
		if yes[i.ID] && no[i.ID] && (s.Type == "object" || s.Type == "array" || s.Type == "union") {
			x.NonTrivial()
		}
	}
}

// checkMeta checks that metadata is carried over at every shape.
func checkMeta(x *X, d *schemaDoc, top *raml.BaseShape, full bool, w *World) {
	done := map[string]bool{}
	var visit func(s *raml.BaseShape, sc any, at string)
	visit = func(s *raml.BaseShape, sc any, at string) {
		bad := func(what string, want, got any) {
			x.Fail("metadata is not carried over", "%s of %s at %s: %v instead of %v\n%s\n%s", what, s.Name, at, got, want, mustJSON(d.root), dumpFiles(w.render()))
		}
		m, ok := sc.(map[string]any)
		if !ok {
			bad("schema", "a schema", sc)
		}
		if r, ok := s.Shape.(*raml.RecursiveShape); ok {
			ref, ok := m["$ref"].(string)
			if !ok {
				bad("reference", "$ref", m)
			}
			t, err := d.pointer(ref)
			if err != nil {
				bad("reference", ref, err)
			}
			key := fmt.Sprintf("%p %s", r.Head, ref)
			if !done[key] {
				done[key] = true
				visit(r.Head, t, ref)
			}
			return
		}
		if _, ok := m["$ref"]; ok {
			bad("reference", "none", m)
		}
		str := func(key string, p *string) {
			want := any(nil)
			if p != nil && *p != "" {
				want = *p
			}
			if m[key] != want {
				bad(key, want, m[key])
			}
			if want != nil {
				x.NonTrivial()
				x.Label("meta %s", key)
			}
		}
		data := func(what string, got any, n any) {
			if !jequal(tree(mustJSON(n)), got) {
				bad(what, string(mustJSON(n)), got)
			}
			x.NonTrivial()
			x.Label("meta %s", what)
		}
		str("title", s.DisplayName)
		str("description", s.Description)
		if s.Default != nil && s.Default.Value != nil {
			data("default", m["default"], s.Default.Value)
		} else if _, ok := m["default"]; ok {
			bad("default", "none", m["default"])
		}
		var ex []any
		switch {
		case s.Example != nil:
			ex = []any{s.Example.Data.Value}
		case s.Examples != nil:
			mp := s.Examples.Map
			if s.Examples.Link != nil {
				mp = s.Examples.Link.Map
			}
			for p := mp.Oldest(); p != nil; p = p.Next() {
				ex = append(ex, p.Value.Data.Value)
			}
		}
		if ex != nil {
			data("examples", m["examples"], ex)
		} else if _, ok := m["examples"]; ok {
			bad("examples", "none", m["examples"])
		}
		// The facets that do not decide about instances.
		if e := enumOf(s); e != nil && len(e) > 0 {
			var l []any
			for _, n := range e {
				l = append(l, n.Value)
			}
			if !jequal(tree(mustJSON(l)), m["enum"]) {
				bad("enum", string(mustJSON(l)), m["enum"])
			}
		}
		if f := multipleOf(s); f != nil {
			if r := jrat(m["multipleOf"]); r == nil || r.Cmp(rat(*f)) != 0 {
				bad("multipleOf", *f, m["multipleOf"])
			}
		} else if _, ok := m["multipleOf"]; ok {
			bad("multipleOf", "none", m["multipleOf"])
		}
		anns, defs, vals := map[string]any{}, map[string]any{}, map[string]any{}
		if full {
			for p := s.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
				anns[p.Key] = p.Value.Extension.Value
			}
			for p := s.CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
				vals[p.Key] = p.Value.Value
			}
			for p := s.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
				defs[p.Key] = p.Value.Base
			}
		}
		same := func(key string, want map[string]any) {
			got, _ := m[key].(map[string]any)
			if _, ok := m[key]; ok && len(want) == 0 || len(got) != len(want) {
				bad(key, want, m[key])
			}
			for k, v := range want {
				if b, ok := v.(*raml.BaseShape); ok {
					visit(b, got[k], at+"/"+key+"/"+k)
					x.NonTrivial()
					x.Label("meta %s", key)
					continue
				}
				if _, ok := got[k]; !ok {
					bad(key+" "+k, v, "nothing")
				}
				data(key, got[k], v)
			}
		}
		same("x-annotations", anns)
		same("x-facet-data", vals)
		same("x-facet-definitions", defs)
		switch t := s.Shape.(type) {
		case *raml.ObjectShape:
			sub := func(key string, n int) map[string]any {
				got, _ := m[key].(map[string]any)
				if len(got) != n {
					bad(key, n, m[key])
				}
				return got
			}
			got := sub("properties", t.Properties.Len())
			for p := t.Properties.Oldest(); p != nil; p = p.Next() {
				visit(p.Value.Base, got[p.Key], at+"/properties/"+p.Key)
			}
			got = sub("patternProperties", t.PatternProperties.Len())
			for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
				k := p.Key[1 : len(p.Key)-1]
				visit(p.Value.Base, got[k], at+"/patternProperties/"+k)
			}
		case *raml.ArrayShape:
			if t.Items != nil {
				visit(t.Items, m["items"], at+"/items")
			} else if _, ok := m["items"]; ok {
				bad("items", "none", m["items"])
			}
		case *raml.UnionShape:
			l := list(m["anyOf"])
			if len(l) != len(t.AnyOf) {
				bad("anyOf", len(t.AnyOf), m["anyOf"])
			}
			for i, a := range t.AnyOf {
				visit(a, l[i], fmt.Sprintf("%s/anyOf/%d", at, i))
			}
		}
	}
	root := d.root.(map[string]any)
	ref, ok := root["$ref"].(string)
	if !ok {
		x.Fail("schema without an entry", "%s", mustJSON(root))
	}
	t, err := d.pointer(ref)
	if err != nil {
		x.Fail("schema without an entry", "%v", err)
	}
	visit(top, t, ref)
}

func enumOf(s *raml.BaseShape) raml.Nodes {
	switch t := s.Shape.(type) {
	case *raml.StringShape:
		return t.Enum
	case *raml.IntegerShape:
		return t.Enum
	case *raml.NumberShape:
		return t.Enum
	case *raml.BooleanShape:
		return t.Enum
	}
	return nil
}

func multipleOf(s *raml.BaseShape) *float64 {
	switch t := s.Shape.(type) {
	case *raml.IntegerShape:
		return t.MultipleOf
	case *raml.NumberShape:
		return t.MultipleOf
	}
	return nil
}

// formatOK evaluates the formats that the conversion of date types yields.
func formatOK(format, s string) bool {
	switch format {
	case "date-time":
		return parseable(time.RFC3339, s)
	case "date":
		return parseable("2006-01-02", s)
	case "time":
		return parseable("15:04:05", s)
	}
	return true
}

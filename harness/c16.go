package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// c16 is a JSON schema, and what a RAML type says about it.
type c16 struct {
	Schema string  `json:"schema"`
	Extra  string  `json:"extra,omitempty"` // the schema with annotations and facets
	File   bool    `json:"file,omitempty"`  // the schema is in a file
	T      *Type   `json:"t"`               // title, description, default, examples of the type
	Heir   *Type   `json:"heir"`
	W      *World  `json:"w,omitempty"` // further types whose schemas are copied
	Deep   int     `json:"deep"`        // number of schema objects
	Keys   int     `json:"keys"`        // number of keywords
}

type schemaGen struct {
	g     G
	extra bool
	n     int
	keys  int
}

func (s *schemaGen) value(depth int) any {
	g := s.g
	switch g.W(4, 3, 2, 1, 2, 2) {
	case 0:
		return pick(g, []string{"a", "", "text", "5", "null", "äöü", "<&>", "$ref"})
	case 1:
		return pick(g, []json.Number{"0", "1", "-3", "2.5", "100000", "1e3", "0.125"})
	case 2:
		return g.Bool()
	case 3:
		return nil
	case 4:
		if depth <= 0 {
			return []any{}
		}
		var out []any
		for i, n := 0, g.Int(0, 3); i < n; i++ {
			out = append(out, s.value(depth-1))
		}
		if out == nil {
			return []any{}
		}
		return out
	}
	out := jobj{}
	if depth > 0 {
		for _, k := range pickSome(g, []string{"a", "b", "type", "properties", "", "ключ"}, 0, 3) {
			out = append(out, jkv{k, s.value(depth - 1)})
		}
	}
	return out
}

func (s *schemaGen) some(depth int) any {
	for {
		if v := s.value(depth); v != nil {
			return v
		}
	}
}

// jobj is a JSON object with an order.
type jobj []jkv

type jkv struct {
	K string
	V any
}

func (o jobj) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	b.WriteByte('{')
	for i, kv := range o {
		if i > 0 {
			b.WriteByte(',')
		}
		b.Write(mustJSON(kv.K))
		b.WriteByte(':')
		b.Write(mustJSON(kv.V))
	}
	b.WriteByte('}')
	return b.Bytes(), nil
}

func (s *schemaGen) schema(depth int) jobj {
	g := s.g
	s.n++
	sub := func() any { return s.schema(depth - 1) }
	list := func() any {
		var out []any
		for i, n := 0, g.Int(1, 3); i < n; i++ {
			out = append(out, sub())
		}
		return out
	}
	names := []string{"a", "b", "type", "properties", "$ref", "x-y", "ключ", "with space", "a/b", "", "required"}
	object := func(lo int, names []string) func() any {
		return func() any {
			o := jobj{}
			for _, k := range pickSome(g, names, lo, 4) {
				o = append(o, jkv{k, sub()})
			}
			return o
		}
	}
	str := func(vs ...string) func() any { return func() any { return pick(g, vs) } }
	number := func() any {
		return pick(g, []json.Number{"0", "1", "-7", "2.5", "18446744073709551616", "1e3", "0.1", "-0.001", "12345678901234567890.5"})
	}
	count := func() any {
		return pick(g, []json.Number{"0", "1", "7", "9007199254740993", "18446744073709551615"})
	}
	values := func() any {
		var out []any
		for i, n := 0, g.Int(1, 3); i < n; i++ {
			out = append(out, s.value(2))
		}
		return out
	}
	boolean := func() any { return g.Bool() }
	scalar := []jgen{
		{"$schema", str("http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-07/schema")},
		{"$id", str("http://example.com/a.json", "#foo")},
		{"$comment", str("comment", "äöü <b>")},
		{"type", str("string", "object", "array", "null", "integer")},
		{"enum", values},
		{"const", func() any { return s.some(2) }},
		{"multipleOf", func() any { return pick(g, []json.Number{"1", "0.01", "3"}) }},
		{"maximum", number}, {"minimum", number},
		{"maxLength", count}, {"minLength", count}, {"maxItems", count}, {"minItems", count}, {"maxContains", count},
		{"minContains", count}, {"maxProperties", count}, {"minProperties", count},
		{"pattern", str("^a$", `\d+`, `"<&>`)},
		{"uniqueItems", boolean}, {"additionalProperties", boolean},
		{"required", func() any { return pickSome(g, names, 1, 4) }},
		{"contentEncoding", str("base64")}, {"contentMediaType", str("image/png")},
		{"format", str("date", "email", "double")},
		{"title", str("Title", "<t>")}, {"description", str("text", "two\nlines")},
		{"default", func() any { return s.some(2) }},
		{"examples", values},
	}
	nested := []jgen{
		{"definitions", object(0, names)}, {"properties", object(0, names)},
		{"patternProperties", object(0, []string{"^a", ".*", "[0-9]+$", ""})},
		{"propertyNames", sub}, {"items", sub}, {"not", sub}, {"if", sub}, {"then", sub}, {"else", sub},
		{"allOf", list}, {"anyOf", list}, {"oneOf", list},
	}
	if s.extra {
		data := func() any {
			o := jobj{}
			for _, k := range pickSome(g, names, 0, 3) {
				o = append(o, jkv{k, s.value(3)})
			}
			return o
		}
		nested = append(nested, jgen{"x-annotations", data}, jgen{"x-facet-data", data}, jgen{"x-facet-definitions", object(0, names)})
	}
	var o jobj
	if g.P(2) {
		return jobj{{"$ref", pick(g, []string{"#", "#/definitions/a", "other.json#/x"})}}
	}
	for _, i := range pickSome(g, scalar, 0, 6) {
		o = append(o, jkv{i.k, i.v()})
	}
	if depth > 0 {
		for _, i := range pickSome(g, nested, 0, 4) {
			o = append(o, jkv{i.k, i.v()})
		}
	}
	out := jobj{}
	for _, i := range g.perm(len(o)) {
		out = append(out, o[i])
	}
	s.keys += len(out)
	return out
}

type jgen struct {
	k string
	v func() any
}

// canon decodes a JSON text. Numbers become exact, empty objects of properties are left out.
func canon(text []byte) any {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		bug("%v in %s", err, text)
	}
	return canonValue(v)
}

func canonValue(v any) any {
	switch v := v.(type) {
	case json.Number:
		r, ok := new(big.Rat).SetString(string(v))
		if !ok {
			bug("bad number %s", v)
		}
		return "number " + r.RatString()
	case string:
		return "string " + v
	case []any:
		for i := range v {
			v[i] = canonValue(v[i])
		}
	case map[string]any:
		for k := range v {
			v[k] = canonValue(v[k])
		}
	}
	return v
}

// emptyable are keywords that mean nothing without members.
var emptyable = map[string]bool{"properties": true, "patternProperties": true, "definitions": true, "x-annotations": true,
	"x-facet-data": true, "x-facet-definitions": true}

// withoutEmpty removes objects without content that mean nothing.
func withoutEmpty(v any) any {
	switch v := v.(type) {
	case []any:
		for i := range v {
			v[i] = withoutEmpty(v[i])
		}
	case map[string]any:
		for k := range v {
			v[k] = withoutEmpty(v[k])
			if o, ok := v[k].(map[string]any); ok && len(o) == 0 && emptyable[k] {
				delete(v, k)
			}
		}
	}
	return v
}

func sameDoc(a, b any) bool { return reflect.DeepEqual(withoutEmpty(a), withoutEmpty(b)) }

// keyOrder lists the members of the properties and patternProperties of all schemas in order.
func keyOrder(text []byte) []string {
	var out []string
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	const (
		data = iota
		schema
		list   // a list of schemas
		object // schemas by name
		ordered
	)
	inside := map[string]int{"items": schema, "not": schema, "if": schema, "then": schema, "else": schema, "propertyNames": schema,
		"allOf": list, "anyOf": list, "oneOf": list, "definitions": object, "x-facet-definitions": object,
		"properties": ordered, "patternProperties": ordered}
	var value func(at string, kind int)
	value = func(at string, kind int) {
		t, err := d.Token()
		if err != nil {
			bug("%v", err)
		}
		switch t {
		case json.Delim('{'):
			var keys []string
			for d.More() {
				k, _ := d.Token()
				keys = append(keys, k.(string))
				next := data
				switch kind {
				case schema:
					next = inside[k.(string)]
				case object, ordered:
					next = schema
				}
				value(at+"/"+k.(string), next)
			}
			_, _ = d.Token()
			if kind == ordered && len(keys) > 0 {
				out = append(out, fmt.Sprintf("%s %q", at, keys))
			}
		case json.Delim('['):
			next := data
			if kind == list {
				next = schema
			}
			for i := 0; d.More(); i++ {
				value(fmt.Sprintf("%s/%d", at, i), next)
			}
			_, _ = d.Token()
		}
	}
	value("", schema)
	sort.Strings(out)
	return out
}

// refs collects the addresses of all mutable parts: pointers, maps and slices with a capacity.
func refs(v reflect.Value, at string, out map[uintptr]string) {
	refsOnce(v, at, out, map[visit]bool{})
}

type visit struct {
	p uintptr
	t reflect.Type
}

func refsOnce(v reflect.Value, at string, out map[uintptr]string, seen map[visit]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := visit{v.Pointer(), v.Type()}
		if seen[k] {
			return
		}
		seen[k] = true
		out[v.Pointer()] = at
		if strings.HasPrefix(v.Type().String(), "*orderedmap.OrderedMap") {
			// The values in order.
			oldest := v.MethodByName("Oldest").Call(nil)[0]
			for n := oldest; !n.IsNil(); n = n.MethodByName("Next").Call(nil)[0] {
				refsOnce(n.Elem().FieldByName("Value"), at+"/"+n.Elem().FieldByName("Key").String(), out, seen)
			}
			return
		}
		refsOnce(v.Elem(), at, out, seen)
	case reflect.Interface:
		if !v.IsNil() {
			refsOnce(v.Elem(), at, out, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			refsOnce(v.Field(i), at+"."+v.Type().Field(i).Name, out, seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		out[v.Pointer()] = at
		for it := v.MapRange(); it.Next(); {
			refsOnce(it.Value(), at+"/"+fmt.Sprint(it.Key()), out, seen)
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			out[v.Pointer()] = at
		}
		for i := 0; i < v.Len(); i++ {
			refsOnce(v.Index(i), fmt.Sprintf("%s/%d", at, i), out, seen)
		}
	}
}

type schemaObject[T any] interface {
	raml.Copyable[T]
	comparable
}

// checkSchema checks copies and maps of a schema object.
func checkSchemaObject[T schemaObject[T]](x *X, what string, s T) {
	text, err := json.Marshal(s)
	if err != nil {
		x.Fail("schema cannot be serialised", "%s: %v", what, err)
	}
	if len(text) > 300_000 {
		return // takes too long
	}
	m, err := json.Marshal(s.Map())
	if err != nil {
		x.Fail("map of a schema cannot be serialised", "%s: %v\n%s", what, err, text)
	}
	if !sameDoc(canon(text), canon(m)) {
		x.Fail("Map describes another schema than marshalling", "%s\n%s\n%s", what, text, m)
	}
	c := s.DeepCopy()
	ct, err := json.Marshal(c)
	if err != nil || !bytes.Equal(ct, text) {
		x.Fail("deep copy differs", "%s: %v\n%s\n%s", what, err, text, ct)
	}
	orig, copied := map[uintptr]string{}, map[uintptr]string{}
	refs(reflect.ValueOf(s), "", orig)
	refs(reflect.ValueOf(c), "", copied)
	for p, at := range copied {
		if o, ok := orig[p]; ok {
			x.Fail("deep copy shares a part with the original", "%s: %s and %s\n%s", what, at, o, text)
		}
	}
	sh := s.ShallowCopy()
	st, err := json.Marshal(sh)
	if err != nil || !bytes.Equal(st, text) || sh == s {
		x.Fail("shallow copy differs", "%s: %v\n%s\n%s", what, err, text, st)
	}
	if after, _ := json.Marshal(s); !bytes.Equal(after, text) {
		x.Fail("copying changes the original", "%s\n%s\n%s", what, text, after)
	}
}

// overridden is the document of a type with a schema.
func overridden(doc any, ts ...*Type) map[string]any {
	out := map[string]any{}
	for k, v := range doc.(map[string]any) {
		out[k] = v
	}
	delete(out, "$schema")
	for i, t := range ts {
		own := i == len(ts)-1
		if t.Desc != nil {
			out["description"] = "string " + *t.Desc
		}
		if !own {
			continue
		}
		if t.Display != nil {
			out["title"] = "string " + *t.Display
		}
		if t.Default != nil {
			out["default"] = canon(t.Default.V)
		}
		var exs []any
		if t.Example != nil {
			exs = append(exs, canon(t.Example.D.V))
		}
		for _, e := range t.Examples {
			exs = append(exs, canon(e.D.V))
		}
		if exs != nil {
			out["examples"] = exs
		}
	}
	return out
}

// marks draws what a type may say about its schema.
func (s *schemaGen) marks(t *Type) *Type {
	g := s.g
	if g.P(5) {
		t.Display = ptr(pick(g, []string{"Display", "ä"}))
	}
	if g.P(5) {
		t.Desc = ptr(pick(g, []string{"described", "zwei\nZeilen"}))
	}
	data := func() Data { return Data{V: mustJSON(s.some(2))} }
	if g.P(5) {
		t.Default = ptr(data())
	}
	switch g.W(6, 2, 2) {
	case 1:
		t.Example = &Ex{D: data()}
	case 2:
		for _, n := range pickSome(g, []string{"x", "y", "z"}, 1, 3) {
			t.Examples = append(t.Examples, &Ex{Name: n, D: data()})
		}
	}
	t.Shuf = uint32(g.Int(0, 9))
	return t
}

func init() {
	register("C16", 6000, 120000,
		"the schema has at least five keywords in at least two nested schemas",
		func(g G) *c16 {
			s := &schemaGen{g: g}
			c := &c16{Schema: string(mustJSON(s.schema(g.Int(0, 3)))), File: g.P(4)}
			c.Deep, c.Keys = s.n, s.keys
			s.extra = true
			c.Extra = string(mustJSON(s.schema(g.Int(0, 3))))
			c.T, c.Heir = s.marks(&Type{JSON: c.Schema}), s.marks(&Type{Expr: en("A")})
			if c.File {
				c.T.JSON, c.T.Include = "", "schema.json"
			}
			if g.P(4) {
				wg := newWG(g, GO{Libs: 1, DTs: 1, Types: 4, Rec: g.P(5), Ex: g.P(6), Custom: g.P(8), Anns: g.P(8)})
				c.W = wg.world()
			}
			return c
		},
		func(x *X, c *c16) {
			var s *raml.JSONSchema
			if err := json.Unmarshal([]byte(c.Schema), &s); err != nil {
				x.Fail("schema cannot be read", "%v\n%s", err, c.Schema)
			}
			text, err := json.Marshal(s)
			if err != nil || !sameDoc(canon([]byte(c.Schema)), canon(text)) {
				x.Fail("schema changes when it is read and written", "%v\n%s\n%s", err, c.Schema, text)
			}
			if a, b := keyOrder([]byte(c.Schema)), keyOrder(text); !reflect.DeepEqual(a, b) {
				x.Fail("order of properties changes", "%v\n%v", a, b)
			}
			checkSchemaObject(x, "plain", s)
			var e *raml.JSONSchemaRAML
			if err := json.Unmarshal([]byte(c.Extra), &e); err != nil {
				x.Fail("schema cannot be read", "%v\n%s", err, c.Extra)
			}
			text, err = json.Marshal(e)
			if err != nil || !sameDoc(canon([]byte(c.Extra)), canon(text)) {
				x.Fail("schema changes when it is read and written", "%v\n%s\n%s", err, c.Extra, text)
			}
			checkSchemaObject(x, "extended", e)
			c.passThrough(x)
			if c.W != nil {
				m := x.mustParse(c.W, unwrapped)
				conv := newConverters()
				for _, id := range c.W.typeIDs() {
					shape := x.shape(m, id).Shape
					p, err := conv.plain.Convert(shape)
					if err != nil {
						x.Fail("type cannot be converted", "%v: %v", id, err)
					}
					checkSchemaObject(x, fmt.Sprint(id), p)
					f, err := conv.full.Convert(shape)
					if err != nil {
						x.Fail("type cannot be converted", "%v: %v", id, err)
					}
					checkSchemaObject(x, fmt.Sprint(id), f)
				}
				x.Label("converted")
			}
			x.nontrivial = c.Keys >= 5 && c.Deep >= 2
			x.Label("%d0s keywords", min(c.Keys/10, 9))
		})
}

// passThrough checks the conversion of types that are given as a schema.
func (c *c16) passThrough(x *X) {
	main := &File{Path: "main.raml", Kind: "Library", Types: []*Decl{
		{"A", c.T},
		{"Alias", &Type{Expr: en("A"), Scalar: true}},
		{"Heir", c.Heir},
		{"Object", &Type{Props: []*PropDecl{{Name: "a", T: &Type{Expr: en("A"), Scalar: true}}, {Name: "b", Opt: true, T: clone(c.Heir)}, {Name: "c", T: clone(c.T)}}}},
		{"Array", &Type{Expr: en("array"), Items: &Type{Expr: en("A"), Scalar: true}}},
		{"Union", &Type{Expr: eu(en("nil"), en("A")), Scalar: true}},
	}}
	w := &World{Files: []*File{main}}
	parents := []*Type{c.T}
	if c.File {
		w.Files = append(w.Files, &File{Path: "schema.json", Kind: "raw", Raw: c.Schema})
	}
	m := x.mustParse(w, full)
	doc := canon([]byte(c.Schema))
	want := map[string]map[string]any{
		"A":          overridden(doc, c.T),
		"Alias":      overridden(doc, c.T),
		"Heir":       overridden(doc, append(parents, c.Heir)...),
		"Object/a":   overridden(doc, c.T),
		"Object/b":   overridden(doc, append(parents, c.Heir)...),
		"Object/c":   overridden(doc, c.T),
		"Array/item": overridden(doc, c.T),
		"Union/1":    overridden(doc, c.T),
	}
	conv := newConverters()
	for round := 0; round < 2; round++ {
		for _, d := range main.Types {
			plain, full := conv.texts(x, x.shape(m, TypeID{"main.raml", d.Name}))
			for flavour, text := range map[string][]byte{"plain": plain, "extended": full} {
				defs, _ := canon(text).(map[string]any)["definitions"].(map[string]any)
				def, _ := defs[d.Name].(map[string]any)
				at := func(keys ...string) any {
					var v any = def
					for _, k := range keys {
						switch o := v.(type) {
						case map[string]any:
							v = o[k]
						case []any:
							v = o[1]
						}
					}
					return v
				}
				got := map[string]any{d.Name: def}
				switch d.Name {
				case "Object":
					got = map[string]any{"Object/a": at("properties", "a"), "Object/b": at("properties", "b"), "Object/c": at("properties", "c")}
				case "Array":
					got = map[string]any{"Array/item": at("items")}
				case "Union":
					got = map[string]any{"Union/1": at("anyOf", "1")}
				}
				for k, v := range got {
					if !sameDoc(v, want[k]) {
						x.Fail("a schema is not passed through", "%s, %s, round %d\nwant %s\ngot  %s\n%s", k, flavour, round, mustJSON(want[k]), mustJSON(v), dumpFiles(w.render()))
					}
				}
			}
		}
	}
}

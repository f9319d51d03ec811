package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

// A small draft-07 evaluator over schemas decoded with UseNumber. Formats of date types are evaluated as the types do.

type schemaDoc struct {
	root any
	errs []string
	re   map[string]*regexp.Regexp
}

func newSchemaDoc(text []byte) (*schemaDoc, error) {
	d := json.NewDecoder(strings.NewReader(string(text)))
	d.UseNumber()
	var root any
	if err := d.Decode(&root); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return &schemaDoc{root: root, re: map[string]*regexp.Regexp{}}, nil
}

// pointer resolves a reference inside of the document.
func (d *schemaDoc) pointer(ref string) (any, error) {
	if !strings.HasPrefix(ref, "#") {
		return nil, fmt.Errorf("%q is not inside of the document", ref)
	}
	p, err := url.PathUnescape(ref[1:])
	if err != nil {
		return nil, err
	}
	cur := d.root
	if p == "" {
		return cur, nil
	}
	if p[0] != '/' {
		return nil, fmt.Errorf("%q is not a pointer", ref)
	}
	for _, tok := range strings.Split(p[1:], "/") {
		tok = strings.NewReplacer("~1", "/", "~0", "~").Replace(tok)
		m, ok := cur.(map[string]any)
		if !ok {
			return nil, fmt.Errorf("%q leads nowhere", ref)
		}
		if cur, ok = m[tok]; !ok {
			return nil, fmt.Errorf("%q leads nowhere", ref)
		}
	}
	if _, ok := cur.(map[string]any); !ok {
		return nil, fmt.Errorf("%q does not lead to a schema", ref)
	}
	return cur, nil
}

// schemaKeys are the keywords that hold schemas.
var (
	schemaOne  = []string{"not", "if", "then", "else", "items", "propertyNames"}
	schemaList = []string{"allOf", "anyOf", "oneOf"}
	schemaMap  = []string{"definitions", "properties", "patternProperties", "x-facet-definitions"}
	intKeys    = []string{"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties", "minContains", "maxContains"}
	numKeys    = []string{"minimum", "maximum", "multipleOf"}
)

// lint checks that the document is well-formed and that all references resolve.
func (d *schemaDoc) lint(s any, at string) {
	m, ok := s.(map[string]any)
	if !ok {
		d.errs = append(d.errs, fmt.Sprintf("%s: not a schema: %v", at, s))
		return
	}
	bad := func(format string, args ...any) { d.errs = append(d.errs, at+": "+fmt.Sprintf(format, args...)) }
	if r, ok := m["$ref"]; ok {
		ref, ok := r.(string)
		if !ok {
			bad("bad $ref")
		} else if _, err := d.pointer(ref); err != nil {
			bad("%v", err)
		}
	}
	for _, k := range schemaOne {
		if v, ok := m[k]; ok {
			d.lint(v, at+"/"+k)
		}
	}
	for _, k := range schemaList {
		if v, ok := m[k]; ok {
			l, ok := v.([]any)
			if !ok || len(l) == 0 {
				bad("%s is not a list", k)
			}
			for i, e := range l {
				d.lint(e, fmt.Sprintf("%s/%s/%d", at, k, i))
			}
		}
	}
	for _, k := range schemaMap {
		if v, ok := m[k]; ok {
			o, ok := v.(map[string]any)
			if !ok {
				bad("%s is not a map", k)
			}
			for _, n := range keysOf(o) {
				d.lint(o[n], at+"/"+k+"/"+n)
			}
		}
	}
	for _, k := range intKeys {
		if v, ok := m[k]; ok {
			if n, ok := v.(json.Number); !ok || strings.ContainsAny(string(n), ".eE-") {
				bad("%s is %v", k, v)
			}
		}
	}
	for _, k := range numKeys {
		if v, ok := m[k]; ok {
			if _, ok := v.(json.Number); !ok {
				bad("%s is %v", k, v)
			}
		}
	}
	if v, ok := m["type"]; ok {
		switch v {
		case "object", "array", "string", "number", "integer", "boolean", "null":
		default:
			bad("unknown type %v", v)
		}
	}
	if v, ok := m["additionalProperties"]; ok {
		if _, ok := v.(bool); !ok {
			d.lint(v, at+"/additionalProperties")
		}
	}
	if v, ok := m["pattern"]; ok {
		p, ok := v.(string)
		if !ok {
			bad("pattern is %v", v)
		} else if _, err := regexp.Compile(p); err != nil {
			bad("%v", err)
		}
	}
	if v, ok := m["enum"]; ok {
		if l, ok := v.([]any); !ok || len(l) == 0 {
			bad("enum is %v", v)
		}
	}
	if v, ok := m["required"]; ok {
		l, ok := v.([]any)
		if !ok {
			bad("required is %v", v)
		}
		seen := map[any]bool{}
		for _, e := range l {
			if _, ok := e.(string); !ok || seen[e] {
				bad("required is %v", v)
				break
			}
			seen[e] = true
		}
	}
}

func (d *schemaDoc) compile(p string) *regexp.Regexp {
	if d.re[p] == nil {
		d.re[p] = regexp.MustCompile(p)
	}
	return d.re[p]
}

func jrat(v any) *big.Rat {
	if r, ok := v.(*big.Rat); ok {
		return r
	}
	n, ok := v.(json.Number)
	if !ok {
		return nil
	}
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		return nil
	}
	return r
}

// jequal compares values decoded with UseNumber.
func jequal(a, b any) bool {
	if x, y := jrat(a), jrat(b); x != nil || y != nil {
		return x != nil && y != nil && x.Cmp(y) == 0
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jequal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !jequal(x[k], v) {
				return false
			}
		}
		return true
	}
	return a == b
}

// exact returns the value with exact numbers, as the library sees it.
func exact(v any) any {
	switch v := v.(type) {
	case []any:
		c := make([]any, len(v))
		for i := range v {
			c[i] = exact(v[i])
		}
		return c
	case map[string]any:
		c := make(map[string]any, len(v))
		for k := range v {
			c[k] = exact(v[k])
		}
		return c
	}
	if r := rat(v); r != nil {
		return r
	}
	return v
}

// valid evaluates the schema. The depth bounds references.
func (d *schemaDoc) valid(s any, v any, depth int) bool {
	if b, ok := s.(bool); ok {
		return b
	}
	m := s.(map[string]any)
	if depth > 400 {
		d.errs = append(d.errs, "references do not end")
		return false
	}
	if r, ok := m["$ref"].(string); ok {
		t, err := d.pointer(r)
		if err != nil {
			d.errs = append(d.errs, err.Error())
			return false
		}
		return d.valid(t, v, depth+1)
	}
	if t, ok := m["type"].(string); ok && !d.isType(t, v) {
		return false
	}
	if e, ok := m["enum"].([]any); ok {
		found := false
		for _, x := range e {
			found = found || jequal(x, v)
		}
		if !found {
			return false
		}
	}
	if c, ok := m["const"]; ok && !jequal(c, v) {
		return false
	}
	for _, x := range list(m["allOf"]) {
		if !d.valid(x, v, depth+1) {
			return false
		}
	}
	if l := list(m["anyOf"]); l != nil {
		ok := false
		for _, x := range l {
			ok = ok || d.valid(x, v, depth+1)
		}
		if !ok {
			return false
		}
	}
	if l := list(m["oneOf"]); l != nil {
		n := 0
		for _, x := range l {
			if d.valid(x, v, depth+1) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	if x, ok := m["not"]; ok && d.valid(x, v, depth+1) {
		return false
	}
	if c, ok := m["if"]; ok {
		k := "else"
		if d.valid(c, v, depth+1) {
			k = "then"
		}
		if x, ok := m[k]; ok && !d.valid(x, v, depth+1) {
			return false
		}
	}
	switch v := v.(type) {
	case string:
		if f, ok := m["format"].(string); ok && !formatOK(f, v) {
			return false
		}
		n := utf8.RuneCountInString(v)
		if m["contentEncoding"] != nil {
			n = len(v) // the size of a file is in bytes
		}
		return d.within(m, "minLength", "maxLength", n) && (m["pattern"] == nil || d.compile(m["pattern"].(string)).MatchString(v))
	case json.Number, *big.Rat:
		r := jrat(v)
		if x := jrat(m["minimum"]); x != nil && r.Cmp(x) < 0 {
			return false
		}
		if x := jrat(m["maximum"]); x != nil && r.Cmp(x) > 0 {
			return false
		}
	case []any:
		if !d.within(m, "minItems", "maxItems", len(v)) {
			return false
		}
		if u, _ := m["uniqueItems"].(bool); u {
			for i := range v {
				for j := 0; j < i; j++ {
					if jequal(v[i], v[j]) {
						return false
					}
				}
			}
		}
		if it, ok := m["items"]; ok {
			for _, e := range v {
				if !d.valid(it, e, depth+1) {
					return false
				}
			}
		}
	case map[string]any:
		return d.object(m, v, depth)
	}
	return true
}

func (d *schemaDoc) object(m, v map[string]any, depth int) bool {
	if !d.within(m, "minProperties", "maxProperties", len(v)) {
		return false
	}
	for _, r := range list(m["required"]) {
		if _, ok := v[r.(string)]; !ok {
			return false
		}
	}
	props, _ := m["properties"].(map[string]any)
	pats, _ := m["patternProperties"].(map[string]any)
	for k, x := range v {
		if n, ok := m["propertyNames"]; ok && !d.valid(n, k, depth+1) {
			return false
		}
		known := false
		if p, ok := props[k]; ok {
			known = true
			if !d.valid(p, x, depth+1) {
				return false
			}
		}
		for re, p := range pats {
			if d.compile(re).MatchString(k) {
				known = true
				if !d.valid(p, x, depth+1) {
					return false
				}
			}
		}
		if a, ok := m["additionalProperties"]; ok && !known && !d.valid(a, x, depth+1) {
			return false
		}
	}
	return true
}

func list(v any) []any { l, _ := v.([]any); return l }

func (d *schemaDoc) within(m map[string]any, lo, hi string, n int) bool {
	r := new(big.Rat).SetInt64(int64(n))
	if x := jrat(m[lo]); x != nil && r.Cmp(x) < 0 {
		return false
	}
	x := jrat(m[hi])
	return x == nil || r.Cmp(x) <= 0
}

func (d *schemaDoc) isType(t string, v any) bool {
	switch t {
	case "object":
		_, ok := v.(map[string]any)
		return ok
	case "array":
		_, ok := v.([]any)
		return ok
	case "string":
		_, ok := v.(string)
		return ok
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "null":
		return v == nil
	case "number":
		return jrat(v) != nil
	case "integer":
		r := jrat(v)
		return r != nil && r.IsInt()
	}
	d.errs = append(d.errs, "unknown type "+t)
	return false
}

// walkSchema visits all schemas of the document in a fixed order.
func walkSchema(s any, at string, f func(m map[string]any, at string)) {
	m, ok := s.(map[string]any)
	if !ok {
		return
	}
	f(m, at)
	for _, k := range schemaOne {
		walkSchema(m[k], at+"/"+k, f)
	}
	for _, k := range schemaList {
		for i, e := range list(m[k]) {
			walkSchema(e, fmt.Sprintf("%s/%s/%d", at, k, i), f)
		}
	}
	for _, k := range schemaMap {
		if o, ok := m[k].(map[string]any); ok {
			ks := keysOf(o)
			sort.Strings(ks)
			for _, n := range ks {
				walkSchema(o[n], at+"/"+k+"/"+n, f)
			}
		}
	}
}

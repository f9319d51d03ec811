package main

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"
)

// V is a JSON value as text.
type V = json.RawMessage

// Data is a value in the source, written in place or included from a raw file.
type Data struct {
	V   V      `json:"v,omitempty"`
	Inc string `json:"inc,omitempty"` // path relative to the file that contains the value
}

type Named struct {
	Name string `json:"n"`
	D    Data   `json:"d"`
}

type Ex struct {
	Name    string  `json:"n,omitempty"`
	D       Data    `json:"d"`
	Wrapped bool    `json:"w,omitempty"` // written as a map with the key "value"
	Display *string `json:"dn,omitempty"`
	Desc    *string `json:"ds,omitempty"`
	Strict  *bool   `json:"st,omitempty"`
	Anns    []Named `json:"an,omitempty"`
}

// Expr is a type expression. Op: "" name, "a" array, "o" nullable, "u" union, "g" group.
type Expr struct {
	Op   string  `json:"op,omitempty"`
	Name string  `json:"name,omitempty"`
	Args []*Expr `json:"args,omitempty"`
	Src  string  `json:"src,omitempty"` // how the whole expression is written
	Bad  bool    `json:"bad,omitempty"` // Src is not a type expression
	// Style is how a type that the facets imply is written: "hide" leaves it out, "empty" is an empty string, "null" is
	// no text at all.
	Style string `json:"style,omitempty"`
}

func en(name string) *Expr   { return &Expr{Name: name} }
func ea(e *Expr) *Expr       { return &Expr{Op: "a", Args: []*Expr{e}} }
func eo(e *Expr) *Expr       { return &Expr{Op: "o", Args: []*Expr{e}} }
func eu(es ...*Expr) *Expr   { return &Expr{Op: "u", Args: es} }
func (e *Expr) isName() bool { return e != nil && e.Op == "" }
func (e *Expr) String() string {
	switch e.Op {
	case "":
		return e.Name
	case "g":
		return "(" + e.Args[0].String() + ")"
	case "a", "o":
		suffix := "[]"
		if e.Op == "o" {
			suffix = "?"
		}
		a := e.Args[0]
		if a.Op == "" || a.Op == "g" {
			return a.String() + suffix
		}
		return "(" + a.String() + ")" + suffix
	case "u":
		parts := make([]string, len(e.Args))
		for i, a := range e.Args {
			if a.Op == "u" {
				parts[i] = "(" + a.String() + ")"
			} else {
				parts[i] = a.String()
			}
		}
		return strings.Join(parts, " | ")
	}
	bug("bad expression op %q", e.Op)
	return ""
}

func (e *Expr) walk(f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, a := range e.Args {
		a.walk(f)
	}
}

// Type is a type declaration.
type Type struct {
	// Scalar declarations consist of the type only (a scalar, a sequence of parents, an include).
	Scalar bool `json:"scalar,omitempty"`
	// One of the following, none for an implied type.
	Expr    *Expr    `json:"expr,omitempty"`
	Parents []string `json:"parents,omitempty"`
	Include string   `json:"include,omitempty"`
	JSON    string   `json:"json,omitempty"`

	MinLength  *uint64  `json:"minLength,omitempty"`
	MaxLength  *uint64  `json:"maxLength,omitempty"`
	Pattern    *string  `json:"pattern,omitempty"`
	Minimum    *string  `json:"minimum,omitempty"`
	Maximum    *string  `json:"maximum,omitempty"`
	MultipleOf *string  `json:"multipleOf,omitempty"`
	Format     *string  `json:"format,omitempty"`
	Enum       []V      `json:"enum,omitempty"`
	EnumInc    []string `json:"enumInc,omitempty"`
	FileTypes  []string `json:"fileTypes,omitempty"`

	Items    *Type   `json:"items,omitempty"`
	MinItems *uint64 `json:"minItems,omitempty"`
	MaxItems *uint64 `json:"maxItems,omitempty"`
	Unique   *bool   `json:"unique,omitempty"`

	Props      []*PropDecl `json:"props,omitempty"`
	PropsSet   bool        `json:"propsSet,omitempty"` // write "properties" even if there are none
	Additional *bool       `json:"additional,omitempty"`
	MinProps   *uint64     `json:"minProps,omitempty"`
	MaxProps   *uint64     `json:"maxProps,omitempty"`
	Discr      *string     `json:"discr,omitempty"`
	DiscrVal   V           `json:"discrVal,omitempty"`

	Required *bool       `json:"required,omitempty"`
	Display  *string     `json:"display,omitempty"`
	Desc     *string     `json:"desc,omitempty"`
	Default  *Data       `json:"default,omitempty"`
	Example  *Ex         `json:"example,omitempty"`
	Examples []*Ex       `json:"examples,omitempty"`
	ExInc    string      `json:"exInc,omitempty"` // included NamedExample
	Facets   []*PropDecl `json:"facets,omitempty"`
	Custom   []Named     `json:"custom,omitempty"`
	Anns     []Named     `json:"anns,omitempty"`

	Raw []KV `json:"raw,omitempty"` // further keys with the YAML text of their values

	Shuf uint32 `json:"shuf,omitempty"` // order of keys, 0 is canonical
}

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

// PropDecl is a property, a pattern property (the name is written between slashes) or the definition of a custom facet.
type PropDecl struct {
	Name    string `json:"n"`
	Opt     bool   `json:"o,omitempty"` // the name is followed by '?'
	Pattern bool   `json:"p,omitempty"`
	T       *Type  `json:"t"`
}

type Decl struct {
	Name string `json:"n"`
	T    *Type  `json:"t"`
}

type Use struct {
	Name string `json:"n"`
	Path string `json:"p"` // relative to the file
}

// File is a fragment or a raw data file.
type File struct {
	Path     string  `json:"path"`
	Kind     string  `json:"kind"` // Library, DataType, NamedExample, raw
	Raw      string  `json:"raw,omitempty"`
	Usage    string  `json:"usage,omitempty"`
	Uses     []Use   `json:"uses,omitempty"`
	AnnTypes []*Decl `json:"annTypes,omitempty"`
	Types    []*Decl `json:"types,omitempty"`
	Anns     []Named `json:"anns,omitempty"`
	Body     *Type   `json:"body,omitempty"`
	Examples []*Ex   `json:"examples,omitempty"`
	Shuf     uint32  `json:"shuf,omitempty"`
}

// World is a set of files, the first one is the entry point.
type World struct {
	Files []*File `json:"files"`
}

func (w *World) file(p string) *File {
	for _, f := range w.Files {
		if f.Path == p {
			return f
		}
	}
	return nil
}

func (f *File) rel(p string) string { return path.Join(path.Dir(f.Path), p) }

func (f *File) typ(name string) *Type {
	for _, d := range f.Types {
		if d.Name == name {
			return d.T
		}
	}
	return nil
}

func (f *File) annType(name string) *Type {
	for _, d := range f.AnnTypes {
		if d.Name == name {
			return d.T
		}
	}
	return nil
}

func shuffle[T any](s []T, seed uint32) {
	if seed == 0 {
		return
	}
	x := uint64(seed)*0x9E3779B97F4A7C15 + 1
	for i := len(s) - 1; i > 0; i-- {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		j := int(x % uint64(i+1))
		s[i], s[j] = s[j], s[i]
	}
}

func yData(d Data) *Y {
	if d.Inc != "" {
		return ys("!include " + d.Inc)
	}
	return ys(string(d.V))
}

func yEx(e *Ex, label string) *Y {
	if !e.Wrapped {
		return yData(e.D).label(label)
	}
	y := ym()
	if e.Display != nil {
		y.add("displayName", yq(*e.Display))
	}
	if e.Desc != nil {
		y.add("description", yq(*e.Desc))
	}
	if e.Strict != nil {
		y.add("strict", ys(fmt.Sprint(*e.Strict)))
	}
	for i, a := range e.Anns {
		y.add("("+a.Name+")", yData(a.D).label(fmt.Sprintf("%s/anns/%d", label, i)))
	}
	y.add("value", yData(e.D))
	return y.label(label)
}

func typeScalar(s string) *Y {
	if strings.HasPrefix(s, "{") || s == "" || strings.ContainsAny(s, ":#'\"\\&*!%@`,\t\n\"$<é\u00a0") || strings.HasSuffix(s, " ") ||
		strings.HasPrefix(s, " ") || strings.HasPrefix(s, "|") || strings.HasPrefix(s, "[") || strings.HasPrefix(s, "?") ||
		strings.HasPrefix(s, "]") || strings.HasPrefix(s, "-") || strings.HasPrefix(s, ".") || numeric(s) {
		return yq(s)
	}
	return ys(s)
}

func numeric(s string) bool { return s[0] >= '0' && s[0] <= '9' }

func (t *Type) yType() *Y {
	switch {
	case t.Expr != nil:
		switch t.Expr.Style {
		case "hide":
			return &Y{Kind: -1}
		case "empty":
			return ys(`""`)
		case "null":
			return ys("")
		}
		if t.Expr.Src != "" || t.Expr.Bad {
			return typeScalar(t.Expr.Src)
		}
		return typeScalar(t.Expr.String())
	case t.Parents != nil:
		parts := make([]string, len(t.Parents))
		for i, p := range t.Parents {
			parts[i] = quote(p)
		}
		return ys("[" + strings.Join(parts, ", ") + "]")
	case t.Include != "":
		return ys("!include " + t.Include)
	case t.JSON != "":
		return yq(t.JSON)
	}
	return nil
}

func u64(y *Y, k string, v *uint64) {
	if v != nil {
		y.add(k, ys(fmt.Sprint(*v)))
	}
}

// yaml renders the declaration.
func (t *Type) yaml(label string) *Y {
	if t.Scalar {
		return t.yType().label(label)
	}
	y := ym()
	t.fill(y, label)
	return y.label(label)
}

func (t *Type) fill(y *Y, label string) {
	start := len(y.Map)
	if ty := t.yType(); ty != nil {
		y.add("type", ty)
	}
	str := func(k string, v *string) {
		if v != nil {
			y.add(k, yq(*v))
		}
	}
	raw := func(k string, v *string) {
		if v != nil {
			y.add(k, ys(*v))
		}
	}
	boolean := func(k string, v *bool) {
		if v != nil {
			y.add(k, ys(fmt.Sprint(*v)))
		}
	}
	str("displayName", t.Display)
	str("description", t.Desc)
	boolean("required", t.Required)
	u64(y, "minLength", t.MinLength)
	u64(y, "maxLength", t.MaxLength)
	str("pattern", t.Pattern)
	raw("minimum", t.Minimum)
	raw("maximum", t.Maximum)
	raw("multipleOf", t.MultipleOf)
	str("format", t.Format)
	if t.Enum != nil {
		e := &Y{Kind: 2}
		for i, v := range t.Enum {
			d := Data{V: v}
			if i < len(t.EnumInc) {
				d.Inc = t.EnumInc[i]
			}
			e.Seq = append(e.Seq, yData(d).label(fmt.Sprintf("%s/enum/%d", label, i)))
		}
		y.add("enum", e)
	}
	if t.FileTypes != nil {
		e := &Y{Kind: 2}
		for _, v := range t.FileTypes {
			e.Seq = append(e.Seq, yq(v))
		}
		y.add("fileTypes", e)
	}
	if t.Items != nil {
		y.add("items", t.Items.yaml(label+"/items"))
	}
	u64(y, "minItems", t.MinItems)
	u64(y, "maxItems", t.MaxItems)
	boolean("uniqueItems", t.Unique)
	if len(t.Props) > 0 || t.PropsSet {
		y.add("properties", yProps(t.Props, label+"/props"))
	}
	boolean("additionalProperties", t.Additional)
	u64(y, "minProperties", t.MinProps)
	u64(y, "maxProperties", t.MaxProps)
	str("discriminator", t.Discr)
	if t.DiscrVal != nil {
		y.add("discriminatorValue", ys(string(t.DiscrVal)))
	}
	if t.Default != nil {
		y.add("default", yData(*t.Default).label(label+"/default"))
	}
	if t.Example != nil {
		y.add("example", yEx(t.Example, label+"/example"))
	}
	if t.ExInc != "" {
		y.add("examples", ys("!include "+t.ExInc))
	} else if t.Examples != nil {
		e := ym()
		for _, x := range t.Examples {
			e.add(x.Name, yEx(x, label+"/examples/"+x.Name))
		}
		y.add("examples", e)
	}
	if t.Facets != nil {
		y.add("facets", yProps(t.Facets, label+"/facets"))
	}
	for _, c := range t.Custom {
		y.add(c.Name, yData(c.D).label(label+"/custom/"+c.Name))
	}
	for i, a := range t.Anns {
		y.add("("+a.Name+")", yData(a.D).label(fmt.Sprintf("%s/anns/%d", label, i)))
	}
	for _, kv := range t.Raw {
		y.add(kv.K, ys(kv.V))
	}
	shuffle(y.Map[start:], t.Shuf)
	for i := start; i < len(y.Map); i++ {
		if y.Map[i].V.Kind == -1 {
			y.Map = append(y.Map[:i], y.Map[i+1:]...)
			break
		}
	}
}

func yProps(ps []*PropDecl, label string) *Y {
	y := ym()
	for _, p := range ps {
		y.add(p.key(), p.T.yaml(label+"/"+p.key()))
	}
	return y
}

// key is the name as written in the source.
func (p *PropDecl) key() string {
	k := p.Name
	if p.Pattern {
		k = "/" + k + "/"
	}
	if p.Opt {
		k += "?"
	}
	return k
}

// name is the name of the property: an explicit required facet keeps the trailing '?'.
func (p *PropDecl) name() string {
	if p.Opt && p.T.Required != nil && !p.Pattern {
		return p.Name + "?"
	}
	return p.Name
}

func (p *PropDecl) required() bool {
	if p.T.Required != nil {
		return *p.T.Required
	}
	return !p.Opt
}

func (f *File) render(lines map[string]Lines) string {
	switch f.Kind {
	case "raw":
		return f.Raw
	case "NamedExample":
		y := ym()
		for _, e := range f.Examples {
			y.add(e.Name, yEx(e, "examples/"+e.Name))
		}
		return renderDoc("#%RAML 1.0 NamedExample", y, lines)
	}
	y := ym()
	if f.Usage != "" {
		y.add("usage", yq(f.Usage))
	}
	if f.Uses != nil {
		u := ym()
		for _, x := range f.Uses {
			u.add(x.Name, ys(x.Path).label("uses/"+x.Name))
		}
		y.add("uses", u)
	}
	if f.Kind == "DataType" {
		f.Body.fill(y, "body")
		y.Label = "body"
		return renderDoc("#%RAML 1.0 DataType", y, lines)
	}
	for i, a := range f.Anns {
		y.add("("+a.Name+")", yData(a.D).label(fmt.Sprintf("anns/%d", i)))
	}
	decls := func(key string, ds []*Decl) {
		if len(ds) == 0 {
			return
		}
		m := ym()
		for _, d := range ds {
			m.add(d.Name, d.T.yaml(key+"/"+d.Name))
		}
		y.add(key, m)
	}
	decls("annotationTypes", f.AnnTypes)
	decls("types", f.Types)
	shuffle(y.Map, f.Shuf)
	return renderDoc("#%RAML 1.0 Library", y, lines)
}

// render returns the content of all files.
func (w *World) render() map[string]string {
	out := map[string]string{}
	for _, f := range w.Files {
		out[f.Path] = f.render(nil)
	}
	return out
}

func clone[T any](v *T) *T {
	c := new(T)
	if err := json.Unmarshal(mustJSON(v), c); err != nil {
		bug("clone: %v", err)
	}
	return c
}

// walk visits the declaration and all declarations nested in it.
func (t *Type) walk(f func(*Type)) {
	if t == nil {
		return
	}
	f(t)
	t.Items.walk(f)
	for _, p := range t.Props {
		p.T.walk(f)
	}
	for _, p := range t.Facets {
		p.T.walk(f)
	}
}

// bare reports whether the declaration has nothing but a type.
func (t *Type) bare() bool {
	c := *t
	c.Expr, c.Parents, c.Include, c.JSON, c.Scalar, c.Shuf = nil, nil, "", "", false, 0
	return string(mustJSON(&c)) == "{}"
}

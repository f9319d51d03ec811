package main

import (
	"bytes"
	"encoding/json"
	"math"
	"math/big"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// The reference semantics of declarations: a declaration accepts what its own facets and all of its parents accept.

var builtins = map[string]bool{
	"any": true, "string": true, "integer": true, "number": true, "boolean": true, "datetime": true,
	"datetime-only": true, "date-only": true, "time-only": true, "array": true, "object": true, "file": true, "nil": true,
}

// SN is the meaning of one declaration site.
type SN struct {
	Kind    string // built-in type, "union" or "json"
	T       *Type  // own facets, may be nil
	F       *File
	Name    string
	Alias   *SN
	Parents []*SN
	Items   *SN
	Members []*SN
	Props   []*SProp // including pattern properties
	Facets  []*SProp
	ready   bool
}

type SProp struct {
	Name     string
	Required bool
	Pattern  *regexp.Regexp
	N        *SN
	D        *PropDecl
}

// Sem resolves the declarations of a world.
type Sem struct {
	w     *World
	cache map[*Type]*SN
	base  map[string]*SN
	err   string // first reference that cannot be resolved
	bad   map[*Type]string
}

func newSem(w *World) *Sem {
	return &Sem{w: w, cache: map[*Type]*SN{}, base: map[string]*SN{}, bad: map[*Type]string{}}
}

func (s *Sem) builtin(name string) *SN {
	if s.base[name] == nil {
		s.base[name] = &SN{Kind: name, Name: name, ready: true}
	}
	return s.base[name]
}

func (f *File) use(name string) string {
	for _, u := range f.Uses {
		if u.Name == name {
			return f.rel(u.Path)
		}
	}
	return ""
}

// lookup finds the declaration that a name denotes in a file.
func (s *Sem) lookup(f *File, name string, ann bool) (*Type, *File) {
	get := func(f *File, name string) *Type {
		if ann {
			return f.annType(name)
		}
		return f.typ(name)
	}
	if f.Kind == "Library" {
		if t := get(f, name); t != nil {
			return t, f
		}
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil, nil
	}
	p := f.use(name[:i])
	lib := s.w.file(p)
	if lib == nil || lib.Kind != "Library" {
		return nil, nil
	}
	if t := get(lib, name[i+1:]); t != nil {
		return t, lib
	}
	return nil, nil
}

func (s *Sem) fail(msg string) *SN {
	if s.err == "" {
		s.err = msg
	}
	return &SN{Kind: "unresolved", ready: true}
}

func (s *Sem) ref(f *File, name string) *SN {
	if builtins[name] {
		return s.builtin(name)
	}
	t, file := s.lookup(f, name, false)
	if t == nil {
		return s.fail("unresolved " + name)
	}
	n := s.node(file, t)
	if n.Name == "" {
		n.Name = name
	}
	return n
}

func (s *Sem) include(f *File, p string) *SN {
	inc := s.w.file(f.rel(p))
	if inc == nil {
		return s.fail("missing file " + p)
	}
	if path.Ext(inc.Path) == ".json" {
		return &SN{Kind: "json", ready: true}
	}
	if inc.Kind != "DataType" {
		return s.fail("not a data type " + p)
	}
	return s.node(inc, inc.Body)
}

func (s *Sem) expr(f *File, e *Expr) *SN {
	switch e.Op {
	case "":
		return s.ref(f, e.Name)
	case "g":
		return s.expr(f, e.Args[0])
	case "a":
		return &SN{Kind: "array", F: f, Items: s.expr(f, e.Args[0]), ready: true}
	case "o":
		return &SN{Kind: "union", F: f, Members: []*SN{s.expr(f, e.Args[0]), s.builtin("nil")}, ready: true}
	case "u":
		n := &SN{Kind: "union", F: f, ready: true}
		for _, a := range e.Args {
			n.Members = append(n.Members, s.expr(f, a))
		}
		return n
	}
	bug("bad op %q", e.Op)
	return nil
}

// node returns the meaning of the declaration in the file.
func (s *Sem) node(f *File, t *Type) *SN {
	if n := s.cache[t]; n != nil {
		return n
	}
	// The kind is known before the ancestors are, whose properties may refer to the declaration.
	n := &SN{T: t, F: f, Kind: s.kindOnly(f, t, 0)}
	s.cache[t] = n
	switch {
	case t.Include != "":
		p := s.include(f, t.Include)
		n.Parents = []*SN{p}
		n.Kind = s.kindOf(p)
	case t.Parents != nil:
		for _, p := range t.Parents {
			n.Parents = append(n.Parents, s.ref(f, p))
		}
		n.Kind = s.kindOf(n.Parents[0])
	case t.JSON != "":
		n.Kind = "json"
	case t.Expr != nil:
		e := t.Expr
		for e.Op == "g" {
			e = e.Args[0]
		}
		if e.Op == "" {
			if builtins[e.Name] {
				n.Kind = e.Name
				break
			}
			p := s.ref(f, e.Name)
			if t.Scalar {
				n.Alias = p
			} else {
				n.Parents = []*SN{p}
			}
			n.Kind = s.kindOf(p)
			break
		}
		n.Kind = "union" // known before the members are, which may refer to the declaration
		if e.Op == "a" {
			n.Kind = "array"
		}
		x := s.expr(f, e)
		n.Kind, n.Items, n.Members = x.Kind, x.Items, x.Members
	default:
		n.Kind = t.implied()
	}
	if t.Items != nil && n.Items == nil {
		n.Items = s.node(f, t.Items)
	}
	for _, p := range t.Props {
		sp := &SProp{Name: p.name(), Required: p.required(), N: s.node(f, p.T), D: p}
		if p.Pattern {
			sp.Required = false
			sp.Pattern = regexp.MustCompile(p.Name)
		}
		n.Props = append(n.Props, sp)
	}
	for _, p := range t.Facets {
		n.Facets = append(n.Facets, &SProp{Name: p.name(), Required: p.required(), N: s.node(f, p.T), D: p})
	}
	n.ready = true
	return n
}

// kindOnly returns the kind of a declaration without the meaning of its parts, or nothing for a circular one.
func (s *Sem) kindOnly(f *File, t *Type, depth int) string {
	if depth > 60 || f == nil || t == nil {
		return ""
	}
	named := func(name string) string {
		if builtins[name] {
			return name
		}
		p, pf := s.lookup(f, name, false)
		return s.kindOnly(pf, p, depth+1)
	}
	switch {
	case t.Include != "":
		inc := s.w.file(f.rel(t.Include))
		switch {
		case inc == nil:
			return ""
		case path.Ext(inc.Path) == ".json":
			return "json"
		case inc.Kind != "DataType":
			return ""
		}
		return s.kindOnly(inc, inc.Body, depth+1)
	case t.Parents != nil:
		return named(t.Parents[0])
	case t.JSON != "":
		return "json"
	case t.Expr != nil:
		e := t.Expr
		for e.Op == "g" {
			e = e.Args[0]
		}
		switch e.Op {
		case "":
			return named(e.Name)
		case "a":
			return "array"
		}
		return "union"
	}
	return t.implied()
}

// kindOf returns the kind of a parent, which is not ready if the types are circular.
func (s *Sem) kindOf(n *SN) string {
	if n.Kind == "" {
		s.fail("circular type")
		return "unresolved"
	}
	return n.Kind
}

// implied is the type that the facets imply.
func (t *Type) implied() string {
	switch {
	case t.FileTypes != nil:
		return "file"
	case t.Minimum != nil || t.Maximum != nil || t.MultipleOf != nil:
		return "number"
	case t.Items != nil || t.MinItems != nil || t.MaxItems != nil || t.Unique != nil:
		return "array"
	case len(t.Props) > 0 || t.PropsSet || t.MinProps != nil || t.MaxProps != nil || t.Additional != nil || t.Discr != nil:
		return "object"
	}
	return "string"
}

func (n *SN) deref() *SN {
	for n.Alias != nil {
		n = n.Alias
	}
	return n
}

// layers returns the declaration and all of its ancestors in depth-first order.
func (n *SN) layers() []*SN {
	n = n.deref()
	out := []*SN{n}
	for _, p := range n.Parents {
		out = append(out, p.layers()...)
	}
	return out
}

// goValue decodes a JSON value. Numbers are decoded as by encoding/json or, if ints is set, as by yaml.
func goValue(v V, ints bool) any {
	d := json.NewDecoder(bytes.NewReader(v))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		bug("bad value %s: %v", v, err)
	}
	return conv(x, ints)
}

func conv(x any, ints bool) any {
	switch x := x.(type) {
	case json.Number:
		if ints && !strings.ContainsAny(string(x), ".eE") {
			if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
				return int(i)
			}
			if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
				return u
			}
		}
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil {
			bug("bad number %s", x)
		}
		return f
	case []any:
		for i := range x {
			x[i] = conv(x[i], ints)
		}
	case map[string]any:
		for k := range x {
			x[k] = conv(x[k], ints)
		}
	}
	return x
}

func rat(v any) *big.Rat {
	switch v := v.(type) {
	case int:
		return new(big.Rat).SetInt64(int64(v))
	case uint64:
		return new(big.Rat).SetUint64(v)
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return nil
		}
		return new(big.Rat).SetFloat64(v)
	}
	return nil
}

// equal compares JSON values.
func equal(a, b any) bool {
	if x, y := rat(a), rat(b); x != nil || y != nil {
		return x != nil && y != nil && x.Cmp(y) == 0
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !equal(x[k], v) {
				return false
			}
		}
		return true
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case nil:
		return b == nil
	}
	bug("unexpected value %T", a)
	return false
}

func ratOf(s string) *big.Rat {
	f, ok := new(big.Rat).SetString(s)
	if !ok {
		bug("bad number %q", s)
	}
	return f
}

func inEnum(enum []V, v any) bool {
	for _, e := range enum {
		if equal(goValue(e, true), v) {
			return true
		}
	}
	return false
}

func parseable(layout string, s string) bool {
	_, err := time.Parse(layout, s)
	return err == nil
}

const rfc2616 = "Mon, 02 Jan 2006 15:04:05 GMT"

// own reports whether the value conforms to the own facets of a declaration of a scalar type.
func (n *SN) own(kind string, v any, format string) bool {
	t := n.T
	if t == nil {
		t = &Type{}
	}
	switch kind {
	case "string", "file":
		s, ok := v.(string)
		if !ok {
			return false
		}
		l := uint64(utf8.RuneCountInString(s))
		if kind == "file" {
			l = uint64(len(s)) // the size of a file is in bytes
		}
		if t.MinLength != nil && l < *t.MinLength || t.MaxLength != nil && l > *t.MaxLength {
			return false
		}
		if t.Pattern != nil && !regexp.MustCompile(*t.Pattern).MatchString(s) {
			return false
		}
	case "integer", "number":
		r := rat(v)
		if r == nil || kind == "integer" && !r.IsInt() {
			return false
		}
		if t.Minimum != nil && r.Cmp(ratOf(*t.Minimum)) < 0 || t.Maximum != nil && r.Cmp(ratOf(*t.Maximum)) > 0 {
			return false
		}
	case "boolean":
		if _, ok := v.(bool); !ok {
			return false
		}
	case "nil":
		return v == nil
	case "datetime", "datetime-only", "date-only", "time-only":
		s, ok := v.(string)
		if !ok {
			return false
		}
		switch kind {
		case "datetime-only":
			return parseable("2006-01-02T15:04:05", s)
		case "date-only":
			return parseable("2006-01-02", s)
		case "time-only":
			return parseable("15:04:05", s)
		}
		// Without a format of its own a declaration has the format of its parent.
		if format == "rfc2616" {
			return parseable(rfc2616, s)
		}
		return parseable(time.RFC3339, s)
	}
	if t.Enum != nil && !inEnum(t.Enum, v) {
		return false
	}
	return true
}

// accept reports whether the value conforms to the conjunction of declarations.
func (s *Sem) accept(v any, ns ...*SN) bool {
	var layers []*SN
	for _, n := range ns {
		layers = append(layers, n.layers()...)
	}
	return s.acceptLayers(distinct(layers), v)
}

// distinct drops repeated declarations.
func distinct(ns []*SN) []*SN {
	seen := make(map[*SN]bool, len(ns))
	var out []*SN
	for _, n := range ns {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

func (s *Sem) acceptLayers(layers []*SN, v any) bool {
	var objects, arrays, scalars []*SN
	for i, l := range layers {
		switch l.Kind {
		case "any", "json":
		case "union":
			if len(l.Members) == 0 {
				continue
			}
			rest := append(append([]*SN{}, layers[:i]...), layers[i+1:]...)
			for _, m := range l.Members {
				if s.acceptLayers(distinct(append(append([]*SN{}, rest...), m.layers()...)), v) {
					return true
				}
			}
			return false
		case "object":
			objects = append(objects, l)
		case "array":
			arrays = append(arrays, l)
		case "unresolved":
			bug("accept of an unresolved type")
		default:
			scalars = append(scalars, l)
		}
	}
	format := ""
	for _, l := range scalars {
		if l.Kind == "datetime" && l.T != nil && l.T.Format != nil && format == "" {
			format = *l.T.Format
		}
	}
	for _, l := range scalars {
		// An heir of a union keeps the members of its own kind.
		if l.Kind != scalars[0].Kind || !l.own(l.Kind, v, format) {
			return false
		}
	}
	if arrays != nil && !s.acceptArray(arrays, v) {
		return false
	}
	return objects == nil || s.acceptObject(objects, v)
}

func (s *Sem) acceptArray(layers []*SN, v any) bool {
	a, ok := v.([]any)
	if !ok {
		return false
	}
	var items []*SN
	for _, n := range layers {
		if n.Items != nil {
			items = append(items, n.Items)
		}
		t := n.T
		if t == nil {
			continue
		}
		l := uint64(len(a))
		if t.MinItems != nil && l < *t.MinItems || t.MaxItems != nil && l > *t.MaxItems {
			return false
		}
		if t.Unique != nil && *t.Unique {
			for i := range a {
				for j := 0; j < i; j++ {
					if equal(a[i], a[j]) {
						return false
					}
				}
			}
		}
	}
	if items != nil {
		for _, e := range a {
			if !s.accept(e, items...) {
				return false
			}
		}
	}
	return true
}

func (s *Sem) acceptObject(layers []*SN, v any) bool {
	m, ok := v.(map[string]any)
	if !ok {
		return false
	}
	l := uint64(len(m))
	closed, set := false, false
	explicit := map[string][]*SProp{}
	patterns := map[string][]*SProp{}
	for _, n := range layers {
		if n.T != nil {
			if n.T.MinProps != nil && l < *n.T.MinProps || n.T.MaxProps != nil && l > *n.T.MaxProps {
				return false
			}
			if n.T.Additional != nil && !set {
				closed, set = !*n.T.Additional, true
			}
		}
		for _, p := range n.Props {
			if p.Pattern != nil {
				patterns[p.Pattern.String()] = append(patterns[p.Pattern.String()], p)
				continue
			}
			if p.Required {
				if _, ok := m[p.Name]; !ok {
					return false
				}
			}
			explicit[p.Name] = append(explicit[p.Name], p)
		}
	}
	all := func(ps []*SProp, v any) bool {
		ns := make([]*SN, len(ps))
		for i, p := range ps {
			ns[i] = p.N
		}
		return s.accept(v, ns...)
	}
	for k, v := range m {
		if ps := explicit[k]; ps != nil {
			if !all(ps, v) {
				return false
			}
			continue
		}
		if closed {
			return false
		}
		matched, accepted := false, false
		for _, ps := range patterns {
			if ps[0].Pattern.MatchString(k) {
				matched = true
				accepted = accepted || all(ps, v)
			}
		}
		if matched && !accepted {
			return false
		}
	}
	return true
}

// EProp is a property with all of its declarations in a conjunction of declarations.
type EProp struct {
	Name     string
	Required bool
	Ns       []*SN
}

// Eff holds the effective constraints of a conjunction of declarations of one kind.
type Eff struct {
	Kind             string
	MinLen, MaxLen   *uint64
	Patterns         []string
	Min, Max         *big.Rat
	Enum             []V
	Format           string
	FileTypes        []string
	Items            []*SN
	MinItems         *uint64
	MaxItems         *uint64
	Unique           bool
	Props            []*EProp
	Pats             []*EProp
	Closed           bool
	Additional       *bool
	MinProps         *uint64
	MaxProps         *uint64
	Members          []*SN
	Discr            string
	Layers           []*SN
	Unions           [][]*SN
	Any              bool
	Conflict         bool
	UniqueSet        *bool
	IntFormat        string
	RequiredFacets   []*SProp
	Custom           map[string]bool
	CustomDefs       []*SProp
	ParentFacetNames map[string]bool
}

func maxU(a, b *uint64) *uint64 {
	if a == nil || b != nil && *b > *a {
		return b
	}
	return a
}

func minU(a, b *uint64) *uint64 {
	if a == nil || b != nil && *b < *a {
		return b
	}
	return a
}

// eff computes the effective constraints of a conjunction.
func (s *Sem) eff(ns ...*SN) *Eff {
	e := &Eff{}
	byName := map[string]*EProp{}
	byPat := map[string]*EProp{}
	seen := map[*SN]bool{}
	for _, n := range ns {
		for _, l := range n.layers() {
			if seen[l] {
				continue
			}
			seen[l] = true
			switch l.Kind {
			case "any":
				continue
			case "union":
				if len(l.Members) > 0 {
					e.Unions = append(e.Unions, l.Members)
				}
				continue
			}
			if e.Kind == "" {
				e.Kind = l.Kind
			} else if e.Kind != l.Kind {
				e.Conflict = true
				continue
			}
			e.Layers = append(e.Layers, l)
			if l.Items != nil {
				e.Items = append(e.Items, l.Items)
			}
			for _, p := range l.Props {
				m, list := byName, &e.Props
				if p.Pattern != nil {
					m, list = byPat, &e.Pats
				}
				ep := m[p.Name]
				if ep == nil {
					ep = &EProp{Name: p.Name}
					m[p.Name] = ep
					*list = append(*list, ep)
				}
				ep.Required = ep.Required || p.Required
				ep.Ns = append(ep.Ns, p.N)
			}
			t := l.T
			if t == nil {
				continue
			}
			e.MinLen, e.MaxLen = maxU(e.MinLen, t.MinLength), minU(e.MaxLen, t.MaxLength)
			e.MinItems, e.MaxItems = maxU(e.MinItems, t.MinItems), minU(e.MaxItems, t.MaxItems)
			e.MinProps, e.MaxProps = maxU(e.MinProps, t.MinProps), minU(e.MaxProps, t.MaxProps)
			if t.Pattern != nil {
				e.Patterns = append(e.Patterns, *t.Pattern)
			}
			if t.Minimum != nil {
				if r := ratOf(*t.Minimum); e.Min == nil || r.Cmp(e.Min) > 0 {
					e.Min = r
				}
			}
			if t.Maximum != nil {
				if r := ratOf(*t.Maximum); e.Max == nil || r.Cmp(e.Max) < 0 {
					e.Max = r
				}
			}
			if t.Enum != nil && (e.Enum == nil || len(t.Enum) < len(e.Enum)) {
				e.Enum = t.Enum
			}
			if t.FileTypes != nil && (e.FileTypes == nil || len(t.FileTypes) < len(e.FileTypes)) {
				e.FileTypes = t.FileTypes
			}
			if t.Format != nil && e.Format == "" {
				e.Format = *t.Format
			}
			if t.Unique != nil {
				e.Unique = e.Unique || *t.Unique
			}
			if t.Additional != nil && e.Additional == nil {
				e.Additional = t.Additional
				e.Closed = !*t.Additional
			}
			if t.Discr != nil && e.Discr == "" {
				e.Discr = *t.Discr
			}
		}
	}
	if e.Kind == "" && e.Unions == nil {
		e.Any = true
	}
	return e
}

// customDefs returns the custom facets that the ancestors of a declaration define.
func (n *SN) customDefs() []*SProp {
	var out []*SProp
	for _, p := range n.deref().Parents {
		for _, l := range p.layers() {
			out = append(out, l.Facets...)
		}
	}
	return out
}

// customSet returns the custom facets that the ancestors of a declaration set.
func (n *SN) customSet() map[string]bool {
	out := map[string]bool{}
	for _, p := range n.deref().Parents {
		for _, l := range p.layers() {
			if l.T != nil {
				for _, c := range l.T.Custom {
					out[c.Name] = true
				}
			}
		}
	}
	return out
}

// reaches returns all nodes that values of the declaration are checked against, through all edges.
func (s *Sem) edges(n *SN) []*SN {
	var out []*SN
	if n.Alias != nil {
		out = append(out, n.Alias)
	}
	out = append(out, n.Parents...)
	if n.Items != nil {
		out = append(out, n.Items)
	}
	out = append(out, n.Members...)
	for _, p := range n.Props {
		out = append(out, p.N)
	}
	return out
}

// recursiveNodes returns the nodes on cycles and whether any of them inherits.
func (s *Sem) recursive(roots []*SN) (cyclic map[*SN]bool, inherits bool) {
	// Tarjan's algorithm.
	index := map[*SN]int{}
	low := map[*SN]int{}
	on := map[*SN]bool{}
	var stack []*SN
	cyclic = map[*SN]bool{}
	var visit func(n *SN)
	visit = func(n *SN) {
		index[n] = len(index) + 1
		low[n] = index[n]
		stack = append(stack, n)
		on[n] = true
		self := false
		for _, m := range s.edges(n) {
			if m == n {
				self = true
			}
			if index[m] == 0 {
				visit(m)
				low[n] = min(low[n], low[m])
			} else if on[m] {
				low[n] = min(low[n], index[m])
			}
		}
		if low[n] == index[n] {
			var comp []*SN
			for {
				m := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[m] = false
				comp = append(comp, m)
				if m == n {
					break
				}
			}
			if len(comp) > 1 || self {
				for _, m := range comp {
					cyclic[m] = true
					if len(m.Parents) > 0 {
						inherits = true
					}
				}
			}
		}
	}
	for _, r := range roots {
		if index[r] == 0 {
			visit(r)
		}
	}
	return cyclic, inherits
}

func keysOf[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

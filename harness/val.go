package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"unicode/utf8"
)

// Values are trees of nil, bool, string, json.Number, []any and map[string]any.

func num(format string, args ...any) json.Number { return json.Number(fmt.Sprintf(format, args...)) }

type patSample struct {
	Re      string
	Matches []string
}

var stringPatterns = []patSample{
	{"^[a-z]+$", []string{"a", "abc", "hello", "zz", "abcdefghij"}},
	{`^\d{2,4}$`, []string{"12", "123", "1234"}},
	{"x", []string{"x", "axb", "xx", "xyzzy"}},
	{"^(foo|bar)", []string{"foo", "barbaz", "bar"}},
	{"^.{3}$", []string{"abc", "äöü", "日本語"}},
	{`^[A-Z][A-Za-z ]*$`, []string{"A", "Abc Def", "Zz"}},
}

var keyPatterns = []patSample{
	{"^k_", []string{"k_", "k_1", "k_abc"}},
	{"^[0-9]+$", []string{"1", "42", "007"}},
	{"_x$", []string{"a_x", "zz_x", "_x"}},
	{"^k_[a-z]", []string{"k_a", "k_bc"}},
	{"^[A-Z]{2}$", []string{"AB", "ZZ", "QQ"}},
	{`^k\/[0-9]`, []string{"k/1", "k/22"}},
}

var stringPool = []string{
	"", "a", "abc", "foo", "hello", "äöü", "日本語", "naïve", "x", "12", "1234", "A", "Abc Def", "true", "null", "1.5", "with space",
	"2020-01-02", "longer than all of the others, really", "tab\tquote\"", "😀", "😀😀😀", "~", "no", "0x10", "barbaz", "- dash", "a: b", "# c",
}

var dateSamples = map[string][]string{
	"datetime":      {"2016-02-28T16:41:41.090Z", "2020-12-31T23:59:59Z", "1999-01-01T00:00:00+02:00"},
	"rfc2616":       {"Sun, 28 Feb 2016 16:41:41 GMT", "Thu, 31 Dec 2020 23:59:59 GMT"},
	"datetime-only": {"2015-07-04T21:00:00", "1999-12-31T23:59:59"},
	"date-only":     {"2015-05-23", "2020-02-29", "0001-01-01"},
	"time-only":     {"12:30:00", "00:00:00", "23:59:59"},
}

var dateBad = []string{"2015-13-01", "2019-02-29", "24:00:01", "12:60:00", "yesterday", "", "2015-05-23T", "12:30", "2016-02-28 16:41:41", "20150523"}

var letters = []string{"a", "b", "z", "Q", "é", "日", "😀", "_", "7", " "}

func randString(g G, n int, ascii bool) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if ascii {
			b.WriteString(pick(g, letters[:4]))
		} else {
			b.WriteString(pick(g, letters))
		}
	}
	s := b.String()
	if s == "" {
		return s
	}
	if s[0] == ' ' {
		return "b" + s[1:]
	}
	return s
}

// anyValue draws an arbitrary value.
func anyValue(g G, depth int) any {
	switch w := g.W(4, 3, 3, 2, 2, 2, 2); {
	case w == 0:
		return pick(g, stringPool)
	case w == 1:
		return num("%d", g.Int(-5, 20))
	case w == 2:
		return pick(g, []json.Number{"1.5", "-0.25", "0", "100000", "3.0", "1e3", "2147483648", "9007199254740993", "-1"})
	case w == 3:
		return g.Bool()
	case w == 4:
		return nil
	case w == 5:
		n := 0
		if depth > 0 {
			n = g.Int(0, 3)
		}
		a := make([]any, 0, n)
		for i := 0; i < n; i++ {
			a = append(a, anyValue(g, depth-1))
		}
		return a
	default:
		m := map[string]any{}
		if depth > 0 {
			for i, n := 0, g.Int(0, 3); i < n; i++ {
				m[pick(g, append([]string{"extra", "k_1", "42", "AB"}, propNames...))] = anyValue(g, depth-1)
			}
		}
		return m
	}
}

// VG draws values for conjunctions of declarations.
type VG struct {
	g    G
	s    *Sem
	viol int // chance out of 16 that a constraint is violated at a node
	size int // remaining nodes
}

func (v *VG) bad() bool { return v.viol > 0 && v.g.P(v.viol) }

func (v *VG) value(depth int, ns ...*SN) any {
	g := v.g
	v.size--
	if depth < -5 {
		return nil // the type may have no finite values
	}
	if v.viol > 0 && g.P(1) {
		return anyValue(g, 1)
	}
	e := v.s.eff(ns...)
	if e.Kind == "" && len(e.Unions) > 0 {
		ms := e.Unions[0]
		order := g.perm(len(ms))
		var out any
		for _, i := range order {
			out = v.value(depth, append([]*SN{ms[i]}, e.rest(0)...)...)
			if v.viol > 0 || v.s.all(ns, out) {
				return out
			}
		}
		return out
	}
	switch e.Kind {
	case "", "json":
		return anyValue(g, 2)
	case "string", "file":
		return v.str(e)
	case "integer", "number":
		return v.number(e)
	case "boolean":
		if e.Enum != nil && !v.bad() {
			return tree(pick(g, e.Enum))
		}
		return g.Bool()
	case "nil":
		if v.bad() {
			return pick(g, []any{"", false, num("0"), "null"})
		}
		return nil
	case "datetime", "datetime-only", "date-only", "time-only":
		if v.bad() {
			return pick(g, dateBad)
		}
		k := e.Kind
		if k == "datetime" && e.Format == "rfc2616" {
			k = "rfc2616"
		}
		return pick(g, dateSamples[k])
	case "array":
		return v.array(depth, e)
	case "object":
		return v.object(depth, e)
	}
	return nil
}

// rest returns declarations that are equivalent to the unions of the conjunction except for one.
func (e *Eff) rest(skip int) []*SN {
	var out []*SN
	for i, u := range e.Unions {
		if i != skip {
			out = append(out, &SN{Kind: "union", Members: u, ready: true})
		}
	}
	return out
}

func (s *Sem) all(ns []*SN, v any) bool {
	return s.accept(conv(copyTree(v), true), ns...)
}

func copyTree(v any) any {
	switch v := v.(type) {
	case []any:
		c := make([]any, len(v))
		for i := range v {
			c[i] = copyTree(v[i])
		}
		return c
	case map[string]any:
		c := make(map[string]any, len(v))
		for k := range v {
			c[k] = copyTree(v[k])
		}
		return c
	}
	return v
}

// tree decodes JSON keeping numbers as text.
func tree(v V) any {
	d := json.NewDecoder(strings.NewReader(string(v)))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		bug("bad value %s: %v", v, err)
	}
	return x
}

func (v *VG) str(e *Eff) any {
	g := v.g
	if v.bad() {
		switch g.W(2, 2, 2, 1) {
		case 0:
			if e.MinLen != nil && *e.MinLen > 0 {
				return randString(g, int(*e.MinLen)-1, e.Kind == "file")
			}
		case 1:
			if e.MaxLen != nil && *e.MaxLen < 100 {
				return randString(g, int(*e.MaxLen)+1, e.Kind == "file")
			}
		case 2:
			return num("%d", g.Int(0, 12))
		}
		return pick(g, stringPool)
	}
	if e.Enum != nil {
		return tree(pick(g, e.Enum))
	}
	lo, hi := uint64(0), uint64(6)
	if e.MinLen != nil {
		lo = *e.MinLen
		hi = lo + 4
	}
	if e.MaxLen != nil {
		hi = *e.MaxLen
	}
	if len(e.Patterns) > 0 {
		var fit []string
		for _, s := range patternPool {
			if l := uint64(utf8.RuneCountInString(s)); l < lo || e.MaxLen != nil && l > hi {
				continue
			}
			ok := true
			for _, p := range e.Patterns {
				ok = ok && regexp.MustCompile(p).MatchString(s)
			}
			if ok {
				fit = append(fit, s)
			}
		}
		if len(fit) > 0 {
			return pick(g, fit)
		}
		return pick(g, patternPool)
	}
	if e.MinLen == nil && e.MaxLen == nil && e.Kind == "string" {
		if g.P(1) {
			return strings.Repeat(pick(g, []string{"long ", "é", "0123456789"}), g.Int(1, 40)) + randString(g, 1, true)
		}
		return pick(g, stringPool)
	}
	if hi > lo+40 {
		hi = lo + 40
	}
	n := int(lo)
	switch g.W(2, 2, 1) {
	case 1:
		n = int(hi)
	case 2:
		n = g.Int(int(lo), int(hi))
	}
	return randString(g, n, e.Kind == "file")
}

var patternPool = func() []string {
	var out []string
	for _, p := range stringPatterns {
		out = append(out, p.Matches...)
	}
	return append(out, "ax", "foox", "fox1", "bar-")
}()

func ratNum(r *big.Rat) json.Number {
	if r.IsInt() {
		return json.Number(r.Num().String())
	}
	s := r.FloatString(12)
	s = strings.TrimRight(s, "0")
	return json.Number(s)
}

var (
	one  = big.NewRat(1, 1)
	half = big.NewRat(1, 2)
)

func (v *VG) number(e *Eff) any {
	g := v.g
	if v.bad() {
		switch g.W(2, 2, 1, 1) {
		case 0:
			if e.Min != nil {
				return v.boundary(e, e.Min, -1)
			}
		case 1:
			if e.Max != nil {
				return v.boundary(e, e.Max, 1)
			}
		case 2:
			return json.Number("2.5")
		}
		return pick(g, []any{"5", num("7"), num("-100"), num("1000000"), true, num("0.5")})
	}
	if e.Enum != nil {
		return tree(pick(g, e.Enum))
	}
	var cands []json.Number
	add := func(r *big.Rat) {
		if e.Kind == "integer" && !r.IsInt() || r.IsInt() && !r.Num().IsInt64() {
			return
		}
		if e.Min != nil && r.Cmp(e.Min) < 0 || e.Max != nil && r.Cmp(e.Max) > 0 {
			return
		}
		cands = append(cands, ratNum(r))
	}
	if e.Min != nil {
		add(e.Min)
		add(new(big.Rat).Add(e.Min, one))
		add(new(big.Rat).Add(e.Min, half))
	}
	if e.Max != nil {
		add(e.Max)
		add(new(big.Rat).Sub(e.Max, one))
	}
	for _, s := range []string{"0", "5", "-1", "3", "12", "1.5"} {
		add(ratOf(s))
	}
	if len(cands) == 0 {
		return num("0")
	}
	return pick(g, cands)
}

func (v *VG) boundary(e *Eff, b *big.Rat, dir int64) json.Number {
	d := big.NewRat(dir, 1)
	if e.Kind == "number" && v.g.Bool() {
		d = big.NewRat(dir, 2)
	}
	r := new(big.Rat).Add(b, d)
	if r.IsInt() && !r.Num().IsInt64() {
		return num("5") // cannot be told from its neighbours as a float
	}
	return ratNum(r)
}

func (v *VG) array(depth int, e *Eff) any {
	g := v.g
	if v.bad() && g.P(3) {
		return pick(g, []any{map[string]any{}, "[]", nil})
	}
	lo, hi := 0, 3
	if e.MinItems != nil {
		lo = int(*e.MinItems)
		hi = lo + 2
	}
	if e.MaxItems != nil && int(*e.MaxItems) < hi {
		hi = int(*e.MaxItems)
	}
	if depth <= 0 || v.size <= 0 {
		hi = lo
	}
	n := lo
	switch g.W(1, 1, 1) {
	case 1:
		n = hi
	case 2:
		n = g.Int(lo, hi)
	}
	if v.bad() {
		if e.MaxItems != nil && g.Bool() {
			n = int(*e.MaxItems) + 1
		} else if e.MinItems != nil && *e.MinItems > 0 {
			n = int(*e.MinItems) - 1
		}
	}
	dup := e.Unique && v.bad()
	if e.Unique && v.viol == 0 && n >= 2 && g.P(4) {
		// Different items of the same size that agree in most of their content.
		base := strings.Repeat("item ", g.Int(1, 60))
		out := []any{}
		for i := 0; i < n; i++ {
			x := any(base + fmt.Sprint(i))
			if g.P(5) {
				x = map[string]any{"a": base, "b": num("%d", i)}
			}
			if len(e.Items) > 0 && !v.s.all(e.Items, x) {
				x = base + fmt.Sprint(i)
			}
			out = append(out, x)
		}
		if len(e.Items) == 0 || v.s.all(e.Items, out[0]) {
			return out
		}
	}
	out := make([]any, 0, n)
	for i := 0; i < n; i++ {
		var x any
		for try := 0; try < 4; try++ {
			if len(e.Items) > 0 {
				x = v.value(depth-1, e.Items...)
			} else {
				x = anyValue(g, 1)
			}
			if len(out) > 0 && g.P(2) {
				x = v.near(out[len(out)-1])
			}
			if !e.Unique || !contains(out, x) {
				break
			}
		}
		out = append(out, x)
	}
	if dup && len(out) > 0 {
		out[len(out)-1] = copyTree(out[0])
		if len(out) == 1 {
			out = append(out, copyTree(out[0]))
		}
	}
	return out
}

// near draws a value that differs from another one in a detail.
func (v *VG) near(x any) any {
	g := v.g
	switch x := x.(type) {
	case string:
		if g.Bool() {
			return x + pick(g, letters)
		}
		return pick(g, letters) + x
	case []any:
		c := copyTree(x).([]any)
		if len(c) > 0 && g.Bool() {
			i := g.Idx(len(c))
			c[i] = v.near(c[i])
			return c
		}
		return append(c, nil)
	case map[string]any:
		c := copyTree(x).(map[string]any)
		if ks := keysOf(c); len(ks) > 0 && g.P(12) {
			k := pick(g, ks)
			c[k] = v.near(c[k])
			return c
		}
		c["zzz"] = true
		return c
	case json.Number:
		return json.Number(pick(g, []string{"1", "0", "2.5", "10", "100000000001"}))
	case bool:
		return !x
	}
	return pick(g, []any{false, num("0"), "", "null", []any{}, map[string]any{}})
}

func contains(vs []any, x any) bool {
	gx := conv(copyTree(x), true)
	for _, v := range vs {
		if equal(conv(copyTree(v), true), gx) {
			return true
		}
	}
	return false
}

var extraKeys = []string{"extra", "other", "zzz", "Extra 1", "ключ", "a?", "prop.x"}

func (v *VG) object(depth int, e *Eff) any {
	g := v.g
	if v.bad() && g.P(3) {
		return pick(g, []any{[]any{}, "{}", nil})
	}
	m := map[string]any{}
	maxN := 100
	if e.MaxProps != nil {
		maxN = int(*e.MaxProps)
	}
	drop := v.bad()
	for _, p := range e.Props {
		if !p.Required {
			continue
		}
		if drop && g.P(6) {
			drop = false
			continue
		}
		m[p.Name] = v.value(depth-1, p.Ns...)
	}
	if v.bad() {
		maxN++
	}
	for _, p := range e.Props {
		if p.Required || len(m) >= maxN {
			continue
		}
		minN := 0
		if e.MinProps != nil {
			minN = int(*e.MinProps)
		}
		if (depth > 0 && v.size > 0 && g.P(9)) || len(m) < minN {
			m[p.Name] = v.value(depth-1, p.Ns...)
		}
	}
	if !e.Closed || v.bad() {
		for _, p := range e.Pats {
			if len(m) < maxN && v.size > 0 && g.P(8) {
				k := v.key(p.Name)
				if len(e.Pats) > 1 && g.P(6) {
					k = pick(g, sharedKeys)
				}
				m[k] = v.value(depth-1, p.Ns...)
			}
		}
		if len(m) < maxN && g.P(4) {
			m[pick(g, extraKeys)] = anyValue(g, 1)
		}
		if e.MinProps != nil && !v.bad() {
			for i := 0; len(m) < int(*e.MinProps) && i < 20; i++ {
				m[fmt.Sprintf("%s%d", extraKeys[0], i)] = anyValue(g, 0)
			}
		}
		if maxN < 100 && v.viol > 0 {
			for i := 0; len(m) < maxN && i < 8; i++ {
				m[fmt.Sprintf("%s%d", extraKeys[1], i)] = num("1")
			}
		}
	}
	return m
}

// sharedKeys match several of the patterns.
var sharedKeys = []string{"k_x", "k_abc", "k_b_x", "k_1_x"}

func (v *VG) key(re string) string {
	for _, p := range keyPatterns {
		if p.Re == re {
			return pick(v.g, p.Matches)
		}
	}
	return "k_x"
}

// valid draws a value that conforms to all declarations, if it finds one.
func (s *Sem) valid(g G, depth int, ns ...*SN) (V, bool) {
	for i := 0; i < 4; i++ {
		v := &VG{g: g, s: s, size: 24}
		x := v.value(depth, ns...)
		if s.all(ns, x) {
			return mustJSON(x), true
		}
		depth++
	}
	return nil, false
}

// invalid draws a value that does not conform, if it finds one.
func (s *Sem) invalid(g G, depth int, ns ...*SN) (V, bool) {
	for i := 0; i < 6; i++ {
		v := &VG{g: g, s: s, size: 24, viol: 4 + i}
		x := v.value(depth, ns...)
		if !s.all(ns, x) {
			return mustJSON(x), true
		}
	}
	for _, x := range []any{"", num("-7"), true, map[string]any{}, []any{}, nil, num("0.3")} {
		if !s.all(ns, x) {
			return mustJSON(x), true
		}
	}
	return nil, false
}

// sample draws a value that is about as often conforming as not.
func (s *Sem) sample(g G, depth int, ns ...*SN) V {
	v := &VG{g: g, s: s, size: 30}
	if g.P(11) {
		v.viol = g.Int(1, 6)
	}
	return mustJSON(v.value(depth, ns...))
}

// spine draws a value that nests a recursive type in itself n times along one path, and small values elsewhere.
func (v *VG) spine(n int, cyclic map[*SN]bool, ns ...*SN) any {
	g := v.g
	if n <= 0 {
		v.size = 10
		return v.value(1, ns...)
	}
	leads := func(ns []*SN) bool {
		for _, n := range ns {
			for _, l := range n.layers() {
				if cyclic[l] {
					return true
				}
			}
		}
		return false
	}
	e := v.s.eff(ns...)
	bad := v.viol
	v.viol, v.size = 0, 6
	defer func() { v.viol = bad }()
	switch {
	case e.Kind == "" && len(e.Unions) > 0:
		var to []*SN
		for _, m := range e.Unions[0] {
			if leads([]*SN{m}) {
				to = append(to, m)
			}
		}
		if len(to) == 0 {
			to = e.Unions[0]
		}
		v.viol = bad
		return v.spine(n, cyclic, append([]*SN{pick(g, to)}, e.rest(0)...)...)
	case e.Kind == "object":
		m, ok := v.object(0, e).(map[string]any)
		if !ok {
			return m
		}
		var to []EProp
		for _, p := range e.Props {
			if leads(p.Ns) {
				to = append(to, *p)
			}
		}
		for _, p := range e.Pats {
			if leads(p.Ns) {
				to = append(to, EProp{Name: v.key(p.Name), Ns: p.Ns})
			}
		}
		if len(to) == 0 {
			return m
		}
		p := pick(g, to)
		v.viol = bad
		if m[p.Name] = v.spine(n-1, cyclic, p.Ns...); e.MaxProps != nil && len(m) > int(*e.MaxProps) {
			for _, q := range e.Props {
				if !q.Required && q.Name != p.Name {
					delete(m, q.Name)
				}
			}
		}
		return m
	case e.Kind == "array" && leads(e.Items):
		a, ok := v.array(0, e).([]any)
		if !ok {
			return a
		}
		v.viol = bad
		x := v.spine(n-1, cyclic, e.Items...)
		if len(a) == 0 {
			return []any{x}
		}
		a[g.Idx(len(a))] = x
		return a
	}
	v.viol = bad
	return v.value(1, ns...)
}

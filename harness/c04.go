package main

import (
	"fmt"
	"strings"
)

// c04 is a library, fragments it uses, and declarations with type expressions.
type c04 struct {
	W *World `json:"w"`
	// Bad is the position of the string that is not a type expression or names something that does not exist.
	Bad  string `json:"bad,omitempty"`
	Text string `json:"text,omitempty"`
	Vals []Inst `json:"vals,omitempty"`
	Big  int    `json:"big,omitempty"` // number of tokens of the longest expression
}

var exprSpaces = []string{"", " ", "  ", "\t", " \t "}

// maxGroups bounds how deeply groups are nested: the time to read nested groups grows exponentially (finding
// c01-groups).
const maxGroups = 4

// groupDepth is the number of groups that are open at once.
func groupDepth(s string) int {
	n, most := 0, 0
	for _, c := range s {
		switch c {
		case '(':
			n++
		case ')':
			n--
		}
		most = max(most, n)
	}
	return most
}

// spell writes the tokens of an expression with random groups and white space.
func (e *Expr) spell(g G, out *[]string) {
	add := func(s ...string) { *out = append(*out, s...) }
	group := func(a *Expr, must bool) {
		n := 0
		if must {
			n = 1
		}
		for g.P(1) && n < 4 {
			n++
		}
		for i := 0; i < n; i++ {
			add("(")
		}
		a.spell(g, out)
		for i := 0; i < n; i++ {
			add(")")
		}
	}
	switch e.Op {
	case "":
		add(e.Name)
	case "a", "o":
		a := e.Args[0]
		group(a, a.Op != "")
		add(map[string]string{"a": "[]", "o": "?"}[e.Op])
	case "u":
		for i, a := range e.Args {
			if i > 0 {
				add("|")
			}
			group(a, a.Op == "u")
		}
	default:
		bug("bad op %s", e.Op)
	}
}

func joinTokens(g G, tokens []string, spaced bool) string {
	var b strings.Builder
	for i, t := range tokens {
		if spaced && g.P(5) {
			b.WriteString(pick(g, exprSpaces))
		} else if !spaced && t == "|" || i > 0 && !spaced && tokens[i-1] == "|" {
			b.WriteByte(' ')
		}
		b.WriteString(t)
	}
	if spaced && g.P(5) {
		b.WriteString(pick(g, exprSpaces))
	}
	return b.String()
}

// lexExpr splits a text into tokens, nil if it contains other characters.
func lexExpr(s string) ([]string, bool) {
	var out []string
	ident := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '-' || c == '.'
	}
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == ' ' || c == '\t':
			i++
		case c == '(' || c == ')' || c == '|' || c == '?':
			out = append(out, string(c))
			i++
		case c == '[' && strings.HasPrefix(s[i:], "[]"):
			out = append(out, "[]")
			i += 2
		case ident(c):
			j := i
			for j < len(s) && ident(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			return nil, false
		}
	}
	return out, true
}

// parseExpr is a parser of the grammar of type expressions.
func parseExpr(s string) (*Expr, bool) {
	ts, ok := lexExpr(s)
	if !ok {
		return nil, false
	}
	p := 0
	at := func(t string) bool { return p < len(ts) && ts[p] == t }
	var union func() (*Expr, bool)
	atom := func() (*Expr, bool) {
		if p >= len(ts) {
			return nil, false
		}
		t := ts[p]
		p++
		switch t {
		case "(":
			e, ok := union()
			if !ok || !at(")") {
				return nil, false
			}
			p++
			return &Expr{Op: "g", Args: []*Expr{e}}, true
		case ")", "|", "?", "[]", ".":
			return nil, false
		}
		if !builtins[t] && at(".") && p+1 < len(ts) && !strings.Contains("()|?[].", ts[p+1]) && !builtins[ts[p+1]] {
			t += "." + ts[p+1]
			p += 2
		}
		return en(t), true
	}
	union = func() (*Expr, bool) {
		var ms []*Expr
		for {
			e, ok := atom()
			if !ok {
				return nil, false
			}
			if at("[]") {
				p++
				e = ea(e)
			} else if at("?") {
				p++
				e = eo(e)
			}
			ms = append(ms, e)
			if !at("|") {
				break
			}
			p++
		}
		if len(ms) == 1 {
			return ms[0], true
		}
		return eu(ms...), true
	}
	e, ok := union()
	return e, ok && p == len(ts)
}

// strip removes groups.
func (e *Expr) strip() *Expr {
	for e.Op == "g" {
		e = e.Args[0]
	}
	c := &Expr{Op: e.Op, Name: e.Name}
	for _, a := range e.Args {
		c.Args = append(c.Args, a.strip())
	}
	return c
}

// mutateTokens changes an expression so that it may be malformed.
func mutateTokens(g G, ts []string, names []string) string {
	all := append([]string{"(", ")", "|", "?", "[]", "[", "]", ".", "||", "()", "?[]", "[]?", "[][]", "??", "[ ]", "*", ",", "&", "é", "|)", "(|", "\n", "$", "<", "string", "nil", "json", "composite", "recursive", "null[]", "Missing", "l.Missing", "no.such"}, names...)
	ts = append([]string{}, ts...)
	for i, n := 0, g.Int(1, 2); i < n; i++ {
		switch k := g.Idx(len(ts) + 1); {
		case k < len(ts) && g.P(5):
			ts = append(ts[:k:k], ts[k+1:]...)
		case k < len(ts) && g.P(6):
			ts[k] = pick(g, all)
		case k+1 < len(ts) && g.P(4):
			ts[k], ts[k+1] = ts[k+1], ts[k]
		default:
			ts = append(ts[:k:k], append([]string{pick(g, all)}, ts[k:]...)...)
		}
	}
	s := joinTokens(g, ts, g.Bool())
	if g.P(2) && s != "" {
		k := g.Idx(len(s))
		s = s[:k] + pick(g, []string{"", "[", "(", "?", "|", " ", "-", "\u00a0", "\""}) + s[k+1:]
	}
	return s
}

func genExprCase(g G) *c04 {
	c := &c04{}
	lib := &File{Path: "libs/lib.raml", Kind: "Library"}
	main := &File{Path: "main.raml", Kind: "Library", Uses: []Use{{pick(g, []string{"l", "my-lib", "string1", "x_1"}), "libs/lib.raml"}}}
	c.W = &World{Files: []*File{main, lib}}
	use := main.Uses[0].Name
	var names []string
	pool := []string{"A", "b", "Type-1", "x_y", "9lives", "stringy", "any-thing", "nils", "unions", "object1", "array-", "_", "0", "-", "Strings", "nil-", "integer_"}
	bodies := []*Type{{Expr: en("string")}, {Expr: en("integer"), Maximum: ptr("10")}, {Expr: en("object")}, {Expr: en("boolean")}, {Expr: eu(en("nil"), en("boolean"))}, {Expr: ea(en("number")), MaxItems: ptr(uint64(2))}}
	for i, n := range pickSome(g, pool, 1, 5) {
		main.Types = append(main.Types, &Decl{n, clone(bodies[(i+g.Idx(len(bodies)))%len(bodies)])})
		names = append(names, n)
	}
	for _, n := range pickSome(g, pool, 1, 3) {
		lib.Types = append(lib.Types, &Decl{n, clone(pick(g, bodies))})
		names = append(names, use+"."+n)
	}
	prims := []string{"string", "integer", "number", "boolean", "nil", "any", "datetime", "datetime-only", "date-only", "time-only", "file", "array", "object"}
	var rnd func(depth int) *Expr
	rnd = func(depth int) *Expr {
		if depth <= 0 || g.P(3) {
			if g.Bool() {
				return en(pick(g, prims))
			}
			return en(pick(g, names))
		}
		switch g.Idx(3) {
		case 0:
			return ea(rnd(depth - 1))
		case 1:
			return eo(rnd(depth - 1))
		}
		e := &Expr{Op: "u"}
		for i, n := 0, g.Int(2, 5); i < n; i++ {
			e.Args = append(e.Args, rnd(depth-1-g.Idx(2)))
		}
		return e
	}
	known := func(e *Expr) bool {
		ok := true
		e.walk(func(e *Expr) {
			if e.Op == "" && !builtins[e.Name] {
				found := false
				for _, n := range names {
					found = found || n == e.Name
				}
				ok = ok && found
			}
		})
		return ok
	}
	// text draws the text of an expression and its structure, nil if it is malformed.
	text := func(bad bool) (string, *Expr) {
		var ts []string
		e := rnd(g.Int(0, 4))
		for e.spell(g, &ts); groupDepth(strings.Join(ts, "")) > maxGroups; e.spell(g, &ts) {
			e, ts = rnd(2), nil
		}
		c.Big = max(c.Big, len(ts))
		s := joinTokens(g, ts, g.P(10))
		if bad {
			// An empty string is like a missing type.
			if s = mutateTokens(g, ts, names); s == "" || groupDepth(s) > maxGroups {
				s = "()"
			}
		}
		p, ok := parseExpr(s)
		if !bad && (!ok || p.strip().String() != e.String()) {
			bug("%q is read as %v instead of %v", s, p, e)
		}
		if ok {
			union := false
			p.walk(func(e *Expr) { union = union || e.Op == "" && e.Name == "union" })
			if union {
				return "union | Missing", nil
			}
		}
		if !ok || !known(p) {
			return s, nil
		}
		p = p.strip()
		return s, p
	}
	place := func(e *Expr, n int) string {
		name := fmt.Sprintf("Decl%d", n)
		decl := func(t *Type) string {
			main.Types = append(main.Types, &Decl{name, t})
			return "types/" + name
		}
		t := &Type{Expr: e, Scalar: true}
		if g.P(6) {
			t = &Type{Expr: e}
			if g.Bool() {
				t.Desc = ptr("text")
			}
		}
		switch g.Idx(10) {
		case 0, 1, 2:
			return decl(t)
		case 3:
			return decl(&Type{Props: []*PropDecl{{Name: "p", Opt: g.Bool(), T: t}}}) + "/props/p"
		case 4:
			return decl(&Type{Props: []*PropDecl{{Name: "^p", Pattern: true, T: t}}}) + "/props/^p"
		case 5:
			return decl(&Type{Items: t}) + "/items"
		case 6:
			p := fmt.Sprintf("types/dt%d.raml", n)
			t.Scalar = false
			c.W.Files = append(c.W.Files, &File{Path: p, Kind: "DataType", Uses: []Use{{use, "../libs/lib.raml"}}, Body: t})
			return decl(&Type{Include: p, Scalar: g.Bool()})
		case 7:
			main.AnnTypes = append(main.AnnTypes, &Decl{name, t})
			return "annotationTypes/" + name
		case 8:
			return decl(&Type{Expr: en("string"), Facets: []*PropDecl{{Name: "f", Opt: true, T: t}}}) + "/facets/f"
		default:
			// A library of its own that declares the same names for other types.
			lib.Types = append(lib.Types, &Decl{name, t})
			return "types/" + name
		}
	}
	isLib := func(e *Expr) bool {
		lib := false
		e.walk(func(e *Expr) { lib = lib || strings.Contains(e.Name, ".") })
		return lib
	}
	for i, n := 0, g.Int(1, 4); i < n; i++ {
		s, e := text(false)
		e.Src = s
		k := len(lib.Types)
		at := place(e, i)
		if len(lib.Types) > k && !lib.resolves(e) {
			lib.Types = lib.Types[:k]
			continue
		}
		if strings.Contains(at, "types/Decl") && len(c.W.Files) > 2 {
			// Data types only see the library.
			last := c.W.Files[len(c.W.Files)-1]
			if strings.HasSuffix(last.Path, fmt.Sprintf("dt%d.raml", i)) {
				local := false
				e.walk(func(e *Expr) { local = local || e.Op == "" && !builtins[e.Name] && !isLib(e) })
				if local {
					c.W.Files = c.W.Files[:len(c.W.Files)-1]
					main.Types = main.Types[:len(main.Types)-1]
				}
			}
		}
	}
	if g.P(9) {
		s, e := text(true)
		if e != nil {
			// Still a type expression.
			e.Src = s
			main.Types = append(main.Types, &Decl{"Mutant", &Type{Expr: e, Scalar: true}})
		} else {
			c.Text = s
			k := len(lib.Types)
			c.Bad = place(&Expr{Name: "?", Src: s, Bad: true}, 9)
			if p, ok := parseExpr(s); ok && len(lib.Types) > k && lib.resolves(p) {
				main.Types = append(main.Types, lib.Types[k])
				lib.Types = lib.Types[:k]
			}
		}
	}
	if c.Bad == "" {
		c.Vals = instances(g, newSem(c.W), c.W.typeIDs(), g.Int(1, 6))
	}
	return c
}

func (f *File) resolves(e *Expr) bool {
	ok := true
	e.walk(func(e *Expr) {
		ok = ok && (e.Op != "" || builtins[e.Name] || f.typ(e.Name) != nil)
	})
	return ok
}

func init() {
	register("C04", 10000, 200000,
		"an expression has at least six tokens, or a string that is not a type expression is rejected",
		genExprCase,
		func(x *X, c *c04) {
			if c.Bad != "" {
				for _, mode := range []Mode{parseOnly, full} {
					if _, err := x.parse(c.W, mode); err == nil {
						x.Fail("malformed type expression is accepted", "%q at %s\n%s", c.Text, c.Bad, dumpFiles(c.W.render()))
					}
				}
				x.NonTrivial()
				x.Label("malformed")
				return
			}
			m := x.mustParse(c.W, parseOnly)
			newMC(x, c.W, m, false).all()
			u := x.mustParse(c.W, full)
			s := newSem(c.W)
			for _, i := range c.Vals {
				want := s.accept(goValue(i.V, i.Ints), s.id(i.ID))
				if err := x.shape(u, i.ID).Validate(goValue(i.V, i.Ints)); (err == nil) != want {
					x.Fail("wrong verdict on a value", "%v value %s: %v instead of %v\n%s", i.ID, i.V, x.errText(err), want, dumpFiles(c.W.render()))
				}
			}
			x.nontrivial = c.Big >= 6
			x.Label("%d0s tokens", min(c.Big/10, 10))
		})
}

package main

import (
	"encoding/json"
	"fmt"
	"maps"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"time"
	"unicode/utf8"

	raml "github.com/acronis/go-raml/v2"

	"gopkg.in/yaml.v3"
)

// c01 is a set of files of any content.
type c01 struct {
	Files []blob `json:"files"`
	Entry string `json:"entry"`
	How   int    `json:"how"` // 0 from the path, 1 from a string, 2 from a string with a path
	Vals  []V    `json:"vals,omitempty"`
	From  string `json:"from"` // where the files come from
	Edits int    `json:"edits"`
}

// blob is a file: text, or bytes that are not text.
type blob struct {
	Path string `json:"path"`
	Text string `json:"text,omitempty"`
	Bin  []byte `json:"bin,omitempty"`
}

func newBlob(p, s string) blob {
	if utf8.ValidString(s) {
		return blob{Path: p, Text: s}
	}
	return blob{Path: p, Bin: []byte(s)}
}

func (b blob) content() string {
	if b.Bin != nil {
		return string(b.Bin)
	}
	return b.Text
}

var heads = []string{"#%RAML 1.0 Library", "#%RAML 1.0 DataType", "#%RAML 1.0 NamedExample"}

var facetWords = []string{"type", "properties", "items", "enum", "facets", "example", "examples", "default", "required", "description", "displayName",
	"minimum", "maximum", "multipleOf", "minLength", "maxLength", "pattern", "format", "fileTypes", "minItems", "maxItems", "uniqueItems",
	"minProperties", "maxProperties", "additionalProperties", "discriminator", "discriminatorValue", "allowedTargets", "strict", "value",
	"(note)", "(lib.note)", "()", "(", "cf", "cf?", "xml", "schema", "anyOf"}

var fragmentWords = []string{"types", "uses", "annotationTypes", "usage", "(note)", "schemas", "traits", "type", "properties"}

// oddScalars are texts of YAML nodes that may be anywhere.
var oddScalars = []string{"", "null", "~", "{}", "[]", "''", "\"\"", "[null]", "{a: null}", "{a: }", "{? : }", "[[]]", "[{}]", "5", "-1", "1.5", "1e400", ".nan", ".inf", "-.inf",
	"99999999999999999999", "true", "string", "[string]", "[string, integer]", "[object, [object]]", "object", "array", "union", "any", "nil", "!!null", "!!int x", "!!float {}", "!!binary x", "!!str", "!!map {}", "!!seq []",
	"!foo bar", "!include", "!include .", "!include ''", "!include /", "!include missing.raml", "!include {a: b}", "!include [x]", "&a x", "*a", "&a [*a]", "&a {a: *a}", "<<", "{<<: {a: b}}", "{<<: *a}",
	"'{}'", "'{'", "'{\"$ref\": \"#\"}'", "'{\"type\": 5}'", "'{\"allOf\": [null]}'", "'{\"properties\": {\"a\": null}}'", "'{\"items\": []}'", "'{\"a\": 1}'", "'{} x'", "'{\"definitions\": null}'",
	"'['", "'[]'", "' '", "'|'", "string |", "string | ", "string[]", "string?", "(string)", "A", "A[]", "A | B", "lib.A", "lib.", ".A", "lib.lib.A", "lib . A", "é", "'\\'", "\"\\0\"", "\"\\ud800\"", "2020-01-01", "0x", "{a: {b: {c: {}}}}", "'/^a/'", "'//'", "'/[/'", "'a?'", "'?'", "'??'"}

// soup draws a tree of words that may look like declarations.
func soup(g G, depth int, names []string) *Y {
	odd := func() *Y { return ys(pick(g, oddScalars)) }
	if depth <= 0 || g.P(2) {
		return odd()
	}
	if g.P(2) {
		y := &Y{Kind: 2}
		for i, n := 0, g.Int(0, 3); i < n; i++ {
			y.Seq = append(y.Seq, soup(g, depth-1, names))
		}
		return y
	}
	y := &Y{Kind: 1}
	seen := map[string]bool{}
	for i, n := 0, g.Int(1, 4); i < n; i++ {
		k := pick(g, facetWords)
		if g.P(3) {
			k = pick(g, append([]string{"a", "a?", "/a/", "b", ""}, names...))
		}
		if seen[k] && !g.P(1) {
			continue
		}
		seen[k] = true
		var v *Y
		switch k {
		case "type":
			v = ys(pick(g, append([]string{"string", "object", "array", "integer", "union", "A[]", "A | B", "A?", "(A | B)[]", "[A, B]"}, names...)))
			if g.P(3) {
				v = soup(g, depth-1, names)
			}
		case "properties", "facets", "examples":
			v = &Y{Kind: 1}
			for _, p := range pickSome(g, []string{"a", "b?", "/^x/", "/", "type", "c"}, 0, 3) {
				v.add(p, soup(g, depth-1, names))
			}
		case "items":
			v = soup(g, depth-1, names)
			if g.Bool() {
				v = ys(pick(g, append([]string{"string"}, names...)))
			}
		default:
			v = odd()
			if g.P(4) {
				v = soup(g, depth-1, names)
			}
		}
		y.add(k, v)
	}
	return y
}

// soupFiles draws files with declarations that make little sense.
func soupFiles(g G) map[string]string {
	names := []string{"A", "B", "C", "lib.A", "lib.B", "!include dt.raml", "!include main.raml", "!include s.json", "!include lib.raml"}
	files := map[string]string{}
	lib := func(p, other string) {
		y := &Y{Kind: 1}
		if g.P(8) {
			y.add("uses", ym(KY{"lib", ys(other)}))
		}
		if g.P(5) {
			y.add("annotationTypes", ym(KY{"note", soup(g, 2, names)}))
		}
		if g.P(2) {
			y.add("(note)", soup(g, 2, names))
		}
		ts := &Y{Kind: 1}
		for _, n := range pickSome(g, []string{"A", "B", "C", "x.y", "D?"}, 1, 4) {
			ts.add(n, soup(g, 4, names))
		}
		y.add("types", ts)
		if g.P(2) {
			y.add(pick(g, fragmentWords), soup(g, 2, names))
		}
		files[p] = renderDoc(heads[0], y, nil)
	}
	lib("main.raml", pick(g, []string{"lib.raml", "lib.raml", "lib.raml", "main.raml", "dt.raml", "missing.raml"}))
	lib("lib.raml", pick(g, []string{"main.raml", "lib.raml"}))
	y := soup(g, 3, names)
	if y.Kind == 1 && g.P(5) {
		y.add("uses", ym(KY{"lib", ys("lib.raml")}))
	}
	files["dt.raml"] = renderDoc(heads[1], y, nil)
	sg := &schemaGen{g: g}
	files["s.json"] = string(mustJSON(sg.schema(2)))
	files["ex.raml"] = renderDoc(heads[2], soup(g, 2, names), nil)
	return files
}

// editor changes texts.
type editor struct {
	g     G
	files map[string]string
	paths []string
}

func (e *editor) lines(p string) []string { return strings.SplitAfter(e.files[p], "\n") }

// transplant replaces a node of a file, with all that is in it, by another one.
func (e *editor) transplant(p string) {
	g := e.g
	head, body, ok := strings.Cut(e.files[p], "\n")
	var doc yaml.Node
	if !ok || yaml.Unmarshal([]byte(body), &doc) != nil || len(doc.Content) == 0 {
		return
	}
	type place struct {
		n   *yaml.Node
		key bool
	}
	var all []place
	facets := map[string][]place{}
	var visit func(n *yaml.Node, key bool)
	visit = func(n *yaml.Node, key bool) {
		all = append(all, place{n, key})
		for i, c := range n.Content {
			visit(c, n.Kind == yaml.MappingNode && i%2 == 0)
			if n.Kind == yaml.MappingNode && i%2 == 1 && slices.Contains(facetWords, n.Content[i-1].Value) {
				k := n.Content[i-1].Value
				facets[k] = append(facets[k], place{n: c})
			}
		}
	}
	visit(doc.Content[0], false)
	at := pick(g, all)
	for i := 0; i < 4 && at.key; i++ {
		at = pick(g, all)
	}
	if len(facets) > 0 && g.Bool() {
		at = pick(g, facets[pick(g, keysOf(facets))])
	}
	parse := func(s string) *yaml.Node {
		var d yaml.Node
		if yaml.Unmarshal([]byte(s), &d) != nil || len(d.Content) == 0 {
			return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s}
		}
		return d.Content[0]
	}
	seq := func(n int) *yaml.Node {
		s := &yaml.Node{Kind: yaml.SequenceNode}
		for i := 0; i < n; i++ {
			switch g.W(2, 2, 2) {
			case 0:
				s.Content = append(s.Content, parse(pick(g, oddScalars)))
			case 1:
				c := *pick(g, all).n
				s.Content = append(s.Content, &c)
			default:
				s.Content = append(s.Content, parse("a"))
			}
		}
		return s
	}
	old := *at.n
	var n yaml.Node
	switch g.W(4, 5, 2, 2, 2, 2, 2) {
	case 0:
		n = *parse(pick(g, oddScalars))
	case 1:
		n = *seq(g.Int(0, 3))
	case 2: // the same parts in another kind of node
		n = old
		switch n.Kind {
		case yaml.MappingNode:
			n.Kind = yaml.SequenceNode
		case yaml.SequenceNode:
			n.Kind = yaml.MappingNode
			if len(n.Content)%2 == 1 {
				n.Content = n.Content[1:]
			}
		default:
			n = *parse(pick(g, oddScalars))
		}
		n.Tag = ""
	case 3: // in a sequence or a map
		n = yaml.Node{Kind: yaml.SequenceNode, Content: []*yaml.Node{&old}}
		if g.Bool() {
			n = yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{parse(pick(g, facetWords)), &old}}
		}
	case 4: // a part of it in its place
		if len(old.Content) == 0 {
			return
		}
		n = *pick(g, old.Content)
	case 5: // another node of the file
		n = *pick(g, all).n
	default: // one part less, or in another order
		if len(old.Content) == 0 {
			return
		}
		n = old
		n.Content = nil
		for _, i := range g.perm(len(old.Content)) {
			n.Content = append(n.Content, old.Content[i])
		}
		if g.Bool() {
			n.Content = n.Content[1:]
		}
		if n.Kind == yaml.MappingNode && len(n.Content)%2 == 1 {
			n.Content = n.Content[1:]
		}
	}
	if at.key && n.Kind != yaml.ScalarNode && g.P(9) {
		return
	}
	*at.n = *cloneNode(&n) // nodes must not contain themselves
	var b strings.Builder
	enc := yaml.NewEncoder(&b)
	enc.SetIndent(2)
	if enc.Encode(doc.Content[0]) != nil || enc.Close() != nil {
		return
	}
	e.files[p] = head + "\n" + b.String()
}

func cloneNode(n *yaml.Node) *yaml.Node {
	if n.Alias != nil {
		return &yaml.Node{Kind: yaml.ScalarNode, Value: "alias"}
	}
	c := *n
	c.Content = nil
	for _, k := range n.Content {
		c.Content = append(c.Content, cloneNode(k))
	}
	return &c
}

// edit changes one file.
func (e *editor) edit() {
	g := e.g
	p := pick(g, e.paths)
	if g.P(5) {
		e.transplant(p)
		return
	}
	old := e.files[p]
	ls := e.lines(p)
	i := g.Idx(len(ls))
	join := func() { e.files[p] = strings.Join(ls, "") }
	value := func() (string, string, bool) {
		k, _, ok := strings.Cut(ls[i], ":")
		return k, ls[i], ok && !strings.HasPrefix(strings.TrimSpace(k), "#")
	}
	switch g.W(8, 3, 3, 3, 2, 3, 3, 2, 2, 2, 2, 2, 2, 1) {
	case 0: // another value
		k, _, ok := value()
		if !ok {
			return
		}
		ls[i] = k + ": " + pick(g, append(append([]string{}, oddScalars...), e.include(p)...)) + "\n"
		join()
	case 1: // a line less
		ls = append(ls[:i:i], ls[i+1:]...)
		join()
	case 2: // a line twice, or a line from elsewhere
		from := pick(g, e.paths)
		src := e.lines(from)
		l := src[g.Idx(len(src))]
		ls = append(ls[:i:i], append([]string{l}, ls[i:]...)...)
		join()
	case 3: // another indentation
		t := strings.TrimLeft(ls[i], " ")
		ls[i] = strings.Repeat(" ", g.Int(0, 10)) + t
		join()
	case 4: // cut
		e.files[p] = old[:g.Int(0, len(old))]
	case 5: // another key
		_, v, ok := strings.Cut(ls[i], ":")
		if !ok {
			return
		}
		ind := len(ls[i]) - len(strings.TrimLeft(ls[i], " "))
		k := pick(g, append(append([]string{}, facetWords...), fragmentWords...))
		if g.P(3) {
			k = pick(g, []string{"''", "? a", "5", "[a]", "{a: b}", "null", "*a", "<<", "\"\\0\"", "!include x", "/a/", "/[/", "a?"})
		}
		ls[i] = strings.Repeat(" ", ind) + k + ":" + v
		join()
	case 6: // another declared line: keys and values swap places
		j := g.Idx(len(ls))
		ki, vi, ok1 := strings.Cut(ls[i], ":")
		kj, vj, ok2 := strings.Cut(ls[j], ":")
		if ok1 && ok2 {
			ls[i], ls[j] = ki+":"+vj, kj+":"+vi
			join()
		}
	case 7: // a word of the files for another one
		ws := strings.Fields(strings.NewReplacer(":", " ", "\"", " ", "|", " ").Replace(e.files[pick(g, e.paths)]))
		mine := strings.Fields(strings.NewReplacer(":", " ", "\"", " ", "|", " ").Replace(old))
		if len(ws) > 0 && len(mine) > 0 {
			e.files[p] = strings.Replace(old, pick(g, mine), pick(g, ws), 1)
		}
	case 8: // bytes
		k := g.Int(0, len(old))
		s := pick(g, []string{"\x00", "\xff", "\xef\xbb\xbf", "\t", "\r", "\n", "\u0085", "\u2028", "\xc3", ":", "{", "}", "[", "]", "'", "\"", "|", ">", "-", "?", "%", "@", "`", "!", "&", "*", "#", "---\n", "...\n", ",", "\\"})
		e.files[p] = old[:k] + s + old[min(len(old), k+g.Int(0, 3)):]
	case 9: // another head
		if len(ls) > 0 {
			ls[0] = pick(g, append([]string{"#%RAML 1.0", "#%RAML 1.0 \n", "#%RAML 0.8", "#%RAML 1.0 Overlay", "#%RAML 1.0 Trait", "", "# comment", "---", "#%RAML 1.0 library", "  #%RAML 1.0 Library"}, heads...)) + pick(g, []string{"\n", "\n", "\n", "\r\n", "", " \n", "\n---\n"})
			join()
		}
	case 10: // line breaks
		e.files[p] = strings.ReplaceAll(old, "\n", pick(g, []string{"\r\n", "\r", "\n\n", "\n\t"}))
	case 11: // a block in place of a line
		ind := len(ls[i]) - len(strings.TrimLeft(ls[i], " "))
		y := soup(g, 2, []string{"A", "B", "lib.A"})
		r := &yr{}
		if y.Kind == 1 {
			r.m(y, ind)
			ls[i] = r.b.String()
			join()
		}
	case 12: // the content of another file
		e.files[p] = e.files[pick(g, e.paths)]
	case 13: // an empty file
		e.files[p] = pick(g, []string{"", "\n", "null", "{}", "[]", "#%RAML 1.0 Library", "#%RAML 1.0 DataType\n", "#%RAML 1.0 NamedExample\nnull", "#%RAML 1.0 DataType\n[]\n", "#%RAML 1.0 DataType\nstring", "---\n---\n", "\"\"", "5"})
	}
}

func (e *editor) include(p string) []string {
	var out []string
	for _, t := range e.paths {
		r := relPath(&File{Path: p}, t)
		out = append(out, "!include "+r, "!include "+r, r)
	}
	return append(out, "!include "+path.Dir(p), "!include ../"+p, "!include ./")
}

// deepGroups reports whether parsing types of the text may take exponential time (finding c01-groups).
func deepGroups(s string) bool { return strings.Count(s, "(") > 0 && groupDepth(s) > maxGroups }

func genAnything(g G) *c01 {
	c := &c01{}
	files := map[string]string{}
	entry := "main.raml"
	k := 0
	switch g.W(6, 5, 2, 2, 1) {
	case 0:
		c.From = "declarations"
		wg := newWG(g, GO{Libs: 2, DTs: 2, Types: 6, Rec: g.P(8), RecAll: g.P(4), RecDT: g.P(4), Ex: g.P(8), Custom: g.P(8), Anns: g.P(8), Overlap: g.P(3)})
		w := wg.world()
		if g.P(4) {
			wg.inject(nil)
		}
		if g.P(4) {
			scatter(g, w)
		}
		files, entry = w.render(), w.Files[0].Path
		k = g.Int(0, 4)
	case 1:
		c.From = "soup"
		files = soupFiles(g)
		k = g.Int(0, 2)
	case 2:
		c.From = "values"
		files = props["C21"].Gen(g.t).(*c21).Files
		k = g.Int(1, 4)
	case 3:
		c.From = "expressions"
		ec := genExprCase(g)
		files, entry = ec.W.render(), ec.W.Files[0].Path
		k = g.Int(1, 3)
	case 4:
		c.From = "bytes"
		n := g.Int(0, 40)
		s := pick(g, append([]string{""}, heads...))
		if g.Bool() {
			s += "\n"
		}
		for i := 0; i < n; i++ {
			s += pick(g, append([]string{" ", "\n", ": ", "  ", "- ", "a", "types:", "string", "\n  A: "}, oddScalars...))
		}
		files[entry] = s
		files["dt.raml"] = pick(g, oddScalars)
	}
	e := &editor{g: g, files: files}
	e.paths = keysOf(files)
	c.Edits = k
	for i := 0; i < k; i++ {
		p := maps.Clone(e.files)
		e.edit()
		for n := range e.files {
			if deepGroups(e.files[n]) && !deepGroups(p[n]) {
				e.files = p
				break
			}
		}
	}
	files = e.files
	for _, p := range keysOf(files) {
		c.Files = append(c.Files, newBlob(p, files[p]))
	}
	c.Entry = entry
	if g.P(4) {
		c.Entry = pick(g, keysOf(files))
	}
	c.How = g.W(5, 2, 1)
	for i, n := 0, g.Int(0, 3); i < n; i++ {
		c.Vals = append(c.Vals, mustJSON(anyValue(g, 3)))
	}
	return c
}

// slow is the CPU time after which an operation counts as endless.
const slow = 4 * time.Second

// limited measures an operation.
func (x *X) limited(what string, f func()) {
	start := cpuTime()
	f()
	if d := cpuTime() - start; d > slow {
		x.Fail("takes too long", "%s takes %v", what, d)
	}
}

func init() {
	register("C01", 12000, 400000,
		"the files are changed at least once, or make little sense, and either some mode accepts them or the error is found behind the head of the entry file",
		genAnything, checkAnything)
}

func checkAnything(x *X, c *c01) {
	files := map[string]string{}
	for _, b := range c.Files {
		files[b.Path] = b.content()
	}
	dir := x.writeFiles("w", files)
	x.Label("from %s", c.From)
	fixed := []any{nil, true, "", "a", 5, 1.5, json.Number("7"), []any{}, []any{nil, "a", map[string]any{}}, map[string]any{}, map[string]any{"a": nil, "b": []any{map[string]any{"a": map[string]any{}}}}}
	for _, v := range c.Vals {
		fixed = append(fixed, goValue(v, true), goValue(v, false))
	}
	for _, mode := range []Mode{parseOnly, unwrapped, validated, full} {
		var r *raml.RAML
		var err error
		x.limited("parsing", func() {
			full := filepath.Join(dir, filepath.FromSlash(c.Entry))
			switch c.How {
			case 0:
				r, err = raml.ParseFromPath(full, mode.opts()...)
			case 1:
				r, err = raml.ParseFromString(files[c.Entry], filepath.Base(full), filepath.Dir(full), mode.opts()...)
			case 2:
				r, err = raml.ParseFromString(files[c.Entry], filepath.FromSlash(c.Entry), dir, mode.opts()...)
			}
		})
		if err != nil {
			if s := x.errText(err); strings.TrimSpace(s) == "" {
				x.Fail("error without a text", "%T\n%s", err, dumpFiles(files))
			}
			x.nontrivial = x.nontrivial || !strings.Contains(err.Error(), "head") && (c.Edits > 0 || c.From != "declarations")
			x.Label("mode %v: error", mode)
			continue
		}
		x.Label("mode %v: model", mode)
		if r == nil || r.EntryPoint() == nil {
			x.Fail("neither a model nor an error", "%s\n%s", c.Entry, dumpFiles(files))
		}
		x.nontrivial = x.nontrivial || c.Edits > 0 || c.From != "declarations"
		if !mode.Unwrap {
			continue
		}
		x.use(r, fixed)
	}
}

// use does what is possible with a model.
func (x *X) use(r *raml.RAML, vals []any) {
	var shapes []*raml.BaseShape
	seen := map[*raml.BaseShape]bool{}
	add := func(s *raml.BaseShape) {
		if s != nil && !seen[s] && len(shapes) < 60 {
			seen[s] = true
			shapes = append(shapes, s)
		}
	}
	switch f := r.EntryPoint().(type) {
	case *raml.Library:
		for p := f.Types.Oldest(); p != nil; p = p.Next() {
			add(p.Value)
		}
		for p := f.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
			add(p.Value)
		}
	case *raml.DataType:
		add(f.Shape)
	}
	for _, s := range r.GetShapes() {
		add(s)
	}
	conv := newConverters()
	for _, s := range shapes {
		s := s
		x.limited("using a type", func() {
			for _, v := range vals {
				if err := s.Validate(v); err != nil && err.Error() == "" {
					x.Fail("error without a text", "%v", v)
				}
			}
			_ = s.Check()
			for _, t := range []*raml.BaseShape{s, s.CloneDetached()} {
				_ = t.String()
				p, err := conv.plain.Convert(t.Shape)
				if err == nil {
					if _, err := json.Marshal(p); err != nil && !strings.Contains(err.Error(), "unsupported value") {
						x.Fail("schema cannot be written", "%v", err)
					}
				}
				f, err := conv.full.Convert(t.Shape)
				if err == nil {
					if _, err := json.Marshal(f); err != nil && !strings.Contains(err.Error(), "unsupported value") {
						x.Fail("schema cannot be written", "%v", err)
					}
				}
			}
		})
	}
	_ = fmt.Sprint(len(shapes))
}

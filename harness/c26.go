package main

import (
	"fmt"
	"path/filepath"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// c26Ref is a place that refers to the fragment.
type c26Ref struct {
	Place int  `json:"place"`
	Dot   bool `json:"dot,omitempty"` // the path has superfluous parts
}

type c26 struct {
	Entry  bool     `json:"entry,omitempty"` // the fragment is the entry point
	String bool     `json:"string,omitempty"`
	Refs   []c26Ref `json:"refs,omitempty"`
	Kind   string   `json:"kind"` // of the content
	Head   string   `json:"head"` // including the end of the line
	CRLF   bool     `json:"crlf,omitempty"`
	Name   string   `json:"name"`
}

var fragmentBody = map[string]string{
	"Library":      "usage: u\ntypes:\n  A: string\nannotationTypes:\n  N: string\n",
	"DataType":     "type: string\nminLength: 2\n",
	"NamedExample": "one:\n  value: abc\ntwo: abcd\n",
}

// c26Places are the places that refer to fragments and the kinds that they take. The text follows the name of a file.
var c26Places = []struct {
	kind string
	key  string // of the file that refers to the fragment
	text string
}{
	{"Library", "uses", "  %s: PATH\n"},
	{"DataType", "types", "  T%s:\n    type: !include PATH\n"},
	{"DataType", "types", "  T%s: !include PATH\n"},
	{"DataType", "types", "  T%s:\n    properties:\n      p: !include PATH\n"},
	{"DataType", "types", "  T%s:\n    properties:\n      p?:\n        type: !include PATH\n"},
	{"DataType", "types", "  T%s:\n    type: array\n    items: !include PATH\n"},
	{"DataType", "types", "  T%s:\n    type: array\n    items:\n      type: !include PATH\n"},
	{"DataType", "types", "  T%s:\n    properties:\n      /^p/: !include PATH\n"},
	{"DataType", "types", "  T%s:\n    facets:\n      f?: !include PATH\n"},
	{"DataType", "annotationTypes", "  T%s: !include PATH\n"},
	{"NamedExample", "types", "  T%s:\n    type: string\n    examples: !include PATH\n"},
	{"NamedExample", "annotationTypes", "  T%s:\n    type: string\n    examples: !include PATH\n"},
}

func init() {
	register("C26", 12000, 200000,
		"the fragment is rejected for its first line or kind, or several places refer to it",
		func(g G) *c26 {
			c := &c26{Entry: g.P(2), CRLF: g.P(2), Name: pick(g, []string{"f.raml", "f.yaml", "f", "sub/f.raml", "a b.raml", "f.raml.bak"})}
			c.String = c.Entry && g.Bool()
			c.Kind = pick(g, []string{"Library", "DataType", "NamedExample"})
			if !c.Entry {
				for i, n := 0, g.W(5, 3, 2)+1; i < n; i++ {
					c.Refs = append(c.Refs, c26Ref{g.Idx(len(c26Places)), g.P(3)})
				}
				if g.P(7) {
					c.Kind = c26Places[c.Refs[0].Place].kind
				}
				if g.P(6) {
					for i := range c.Refs {
						for c26Places[c.Refs[i].Place].kind != c26Places[c.Refs[0].Place].kind {
							c.Refs[i].Place = g.Idx(len(c26Places))
						}
					}
				}
			}
			head := "#%RAML 1.0 " + c.Kind
			switch g.W(12, 2, 2, 2, 1, 1, 1, 1, 2, 1) {
			case 1: // one character is another one
				i := g.Idx(len(head))
				head = head[:i] + pick(g, []string{"", " ", "\t", "x", "1", "#", ".", "L"}) + head[i+1:]
			case 2: // one more character
				i := g.Idx(len(head) + 1)
				head = head[:i] + pick(g, []string{" ", "\t", "x", "0", "#", ".", "\ufeff", "\u00a0"}) + head[i:]
			case 3:
				i := g.Idx(len(head))
				r := head[i : i+1]
				if up := strings.ToUpper(r); up != r {
					r = up
				} else {
					r = strings.ToLower(r)
				}
				head = head[:i] + r + head[i+1:]
			case 4:
				head = "\n" + head
			case 5:
				head = pick(g, []string{"", "# comment", "---", "%YAML 1.2\n---", "usage: x", "{}"})
			case 6:
				head = pick(g, []string{"#%RAML 0.8", "#%RAML 1.0", "#%RAML 1.1 " + c.Kind, "#%RAML 1 " + c.Kind})
			case 7:
				head = "#%RAML 1.0 " + pick(g, []string{"Trait", "ResourceType", "Overlay", "Extension", "SecurityScheme", "DocumentationItem", "AnnotationTypeDeclaration"})
			case 8:
				head += pick(g, []string{" # comment", " Library", ":", " DataType", "s"})
			case 9:
				head = head[:g.Idx(len(head))]
			}
			c.Head = head + pick(g, []string{"\n", "\n", "\n", "\r\n", " \n", "  \r\n", "\r\r\n", "\t\n"})
			return c
		},
		checkFragments)
}

func checkFragments(x *X, c *c26) {
	kind := ""
	// NOTE: The first line may end with spaces.
	first := strings.TrimRight(strings.SplitN(c.Head, "\n", 2)[0], " \r")
	if k := strings.TrimPrefix(first, "#%RAML 1.0 "); k != first && fragmentBody[k] != "" {
		kind = k
	}
	text := fragmentBody[c.Kind]
	if c.CRLF {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	files := map[string]string{c.Name: c.Head + text}
	entry := c.Name
	// The content of another kind may be rejected for its keys only.
	ok := kind == c.Kind
	if kind != "" && kind != c.Kind {
		x.Discard("the first line names another kind than that of the content")
	}
	if !c.Entry {
		keys := map[string]string{}
		for i, r := range c.Refs {
			p := c26Places[r.Place]
			path := c.Name
			if r.Dot {
				path = pick2(i, []string{"./" + path, "sub/../" + path, "sub//../" + path})
			}
			ok = ok && p.kind == kind
			keys[p.key] += strings.ReplaceAll(fmt.Sprintf(p.text, fmt.Sprint("r", i)), "PATH", path)
		}
		b := "#%RAML 1.0 Library\n"
		for _, k := range keysOf(keys) {
			b += k + ":\n" + keys[k]
		}
		entry = "main.raml"
		files[entry] = b
	}
	dir := x.writeFiles("w", files)
	for _, mode := range []Mode{parseOnly, unwrapped, validated, full} {
		var r *raml.RAML
		var err error
		if c.String {
			r, err = raml.ParseFromString(files[entry], entry, dir, mode.opts()...)
		} else {
			r, err = raml.ParseFromPath(filepath.Join(dir, entry), mode.opts()...)
		}
		if (err == nil) != ok {
			x.Fail("wrong verdict on the kind of a fragment", "accepted %v instead of %v: %v\n%q", err == nil, ok, x.errText(err), files)
		}
		if err != nil {
			continue
		}
		loc := filepath.Join(dir, c.Name)
		f := r.GetFragment(loc)
		if f == nil || f.GetLocation() != loc {
			x.Fail("fragment is missing", "%v\n%q", f, files)
		}
		if c.Entry && r.EntryPoint() != f {
			x.Fail("entry point is another fragment", "%v\n%q", r.EntryPoint(), files)
		}
		got := ""
		switch f := f.(type) {
		case *raml.Library:
			if _, is := f.Types.Get("A"); is && f.Types.Len() == 1 && f.AnnotationTypes.Len() == 1 && f.Usage == "u" {
				got = "Library"
			}
		case *raml.DataType:
			if s, is := f.Shape.Shape.(*raml.StringShape); is && s.MinLength != nil && *s.MinLength == 2 {
				got = "DataType"
			}
		case *raml.NamedExample:
			if f.Map.Len() == 2 {
				got = "NamedExample"
			}
		}
		if got != kind {
			x.Fail("fragment has another content", "%T instead of %s\n%q", f, kind, files)
		}
	}
	x.nontrivial = !ok || len(c.Refs) > 1
	x.Label("%s, entry %v, accepted %v", c.Kind, c.Entry, ok)
}

func pick2(i int, s []string) string { return s[i%len(s)] }

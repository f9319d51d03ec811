package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"
)

var texts = []string{"text", "A: title", "日本語", "", "multi\nline", "# no comment", " padded ", "null", "true", "12", "1.5", "2020-01-01", "'", "\"", "a\tb", "~", "- x", "?", "!include x", "&a", "*a", "😀"}

// safe replaces strings that the data syntax reserves for JSON.
func safe(v any) any {
	switch x := v.(type) {
	case string:
		if strings.HasPrefix(x, "{") {
			return "_" + x
		}
	case []any:
		for i := range x {
			x[i] = safe(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = safe(x[k])
		}
	}
	return v
}

func data(g G, depth int) V { return mustJSON(safe(anyValue(g, depth))) }

// kindAt is the kind of a declaration.
func (s *Sem) kindAt(f *File, t *Type) string { return s.node(f, t).deref().Kind }

// scramble sets facets of declarations to arbitrary values: the model must hold these even if they make no sense.
func scramble(g G, w *World) {
	s := newSem(w)
	num := func() *uint64 {
		return ptr(pick(g, []uint64{0, 1, 2, 7, 100, 4294967296, 18446744073709551615}))
	}
	type site struct {
		f *File
		t *Type
	}
	var sites []site
	for _, f := range w.Files {
		f.walk(func(t *Type) {
			if !t.Scalar && t.JSON == "" {
				sites = append(sites, site{f, t})
			}
		})
	}
	if len(sites) == 0 {
		return
	}
	for i, n := 0, g.Int(1, 4); i < n; i++ {
		x := pick(g, sites)
		f, t := x.f, x.t
		kind := s.kindAt(f, t)
		for j, k := 0, g.Int(1, 4); j < k; j++ {
			switch g.W(2, 2, 2, 2, 8, 2) {
			case 0:
				t.Display = ptr(pick(g, texts))
			case 1:
				t.Desc = ptr(pick(g, texts))
			case 2:
				t.Default = &Data{V: data(g, 2)}
			case 3:
				if t.Examples == nil && t.ExInc == "" {
					t.Example = &Ex{D: Data{V: data(g, 2)}, Wrapped: true}
					if g.Bool() {
						t.Example.Strict = ptr(g.Bool())
					}
				}
			case 4:
				switch kind {
				case "string", "file":
					switch g.Idx(3) {
					case 0:
						t.MinLength = num()
					case 1:
						t.MaxLength = num()
					default:
						if kind == "file" {
							t.FileTypes = []string{pick(g, []string{"x", "image/png", "*/*"}), "b/c"}
						} else {
							t.Pattern = ptr(pick(g, []string{"^a+$", "x|y", "\\d{2}", ""}))
						}
					}
				case "integer":
					switch g.Idx(4) {
					case 0:
						t.Minimum = ptr(pick(g, []string{"9223372036854775807", "-1", "0", "7"}))
					case 1:
						t.Maximum = ptr(pick(g, []string{"-9223372036854775808", "18446744073709551615", "0", "8"}))
					case 2:
						t.MultipleOf = ptr(pick(g, []string{"3", "1e2", "0.5"}))
					default:
						t.Format = ptr(pick(g, []string{"int8", "int", "int64"}))
					}
				case "number":
					switch g.Idx(4) {
					case 0:
						t.Minimum = ptr(pick(g, []string{"1e300", "-1.25", "0", "7", "0.1"}))
					case 1:
						t.Maximum = ptr(pick(g, []string{"-1e-7", "12345678901234567890", "0", "8.5"}))
					case 2:
						t.MultipleOf = ptr(pick(g, []string{"3", "1e2", "0.5"}))
					default:
						t.Format = ptr(pick(g, []string{"float", "double"}))
					}
				case "datetime":
					t.Format = ptr(pick(g, []string{"rfc3339", "rfc2616"}))
				case "array":
					switch g.Idx(3) {
					case 0:
						t.MinItems = num()
					case 1:
						t.MaxItems = num()
					default:
						t.Unique = ptr(g.Bool())
					}
				case "object":
					switch g.Idx(5) {
					case 0:
						t.MinProps = num()
					case 1:
						t.MaxProps = num()
					case 2:
						t.Additional = ptr(g.Bool())
					case 3:
						t.Discr = ptr(pick(g, []string{"kind", "a", "日本"}))
					default:
						t.DiscrVal = mustJSON(pick(g, []any{"x", 5, true, 1.5}))
					}
				}
				if g.P(4) && (kind == "string" || kind == "integer" || kind == "number" || kind == "boolean") {
					t.Enum, t.EnumInc = nil, nil
					for e, ne := 0, g.Int(1, 3); e < ne; e++ {
						t.Enum = append(t.Enum, data(g, 1))
					}
				}
			case 5:
				if kind == "union" {
					continue // the facets of unions are not decoded
				}
				name := fmt.Sprintf("custom-%d", g.Int(1, 3))
				dup := false
				for _, c := range t.Custom {
					dup = dup || c.Name == name
				}
				if !dup {
					t.Custom = append(t.Custom, Named{name, Data{V: data(g, 2)}})
				}
			}
		}
	}
}

// bigInt matches integers that floating point numbers may not hold.
var bigInt = regexp.MustCompile(`[0-9]{16}`)

// scatter moves values and examples to files of their own.
func scatter(g G, w *World) {
	n := 0
	dirs := []string{"", "data/", "libs/", "examples/"}
	for _, f := range w.Files {
		if f.Kind == "raw" || f.Kind == "NamedExample" {
			continue
		}
		file := func(v V) string {
			n++
			p := fmt.Sprintf("%sv%d", pick(g, dirs), n)
			raw := string(v)
			if s, ok := tree(v).(string); ok && g.Bool() && !strings.HasPrefix(s, "\xef\xbb\xbf") {
				p += pick(g, []string{".txt", ".md"})
				raw = s
			} else {
				if g.Bool() || strings.HasPrefix(raw, "{") || bigInt.MatchString(raw) {
					p += ".yaml"
				} else {
					p += ".json"
				}
				if g.P(4) {
					raw += "\n"
				}
			}
			w.Files = append(w.Files, &File{Path: p, Kind: "raw", Raw: raw})
			return relPath(f, p)
		}
		f.data(func(d *Data) {
			if d.Inc == "" && g.P(4) {
				d.Inc = file(d.V)
			}
		})
		f.walk(func(t *Type) {
			for i, v := range t.Enum {
				if g.P(2) && (i >= len(t.EnumInc) || t.EnumInc[i] == "") {
					for len(t.EnumInc) <= i {
						t.EnumInc = append(t.EnumInc, "")
					}
					t.EnumInc[i] = file(v)
				}
			}
			if len(t.Examples) > 0 && g.P(6) {
				ok := true
				for _, e := range t.Examples {
					ok = ok && len(e.Anns) == 0
				}
				if !ok {
					return
				}
				n++
				ne := &File{Path: fmt.Sprintf("%smoved%d.raml", pick(g, dirs), n), Kind: "NamedExample", Examples: t.Examples}
				for _, e := range t.Examples {
					if e.D.Inc != "" {
						e.D.Inc = relPath(ne, path.Join(path.Dir(f.Path), e.D.Inc))
					}
				}
				w.Files = append(w.Files, ne)
				t.ExInc, t.Examples = relPath(f, ne.Path), nil
			}
		})
	}
}

package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/acronis/go-stacktrace"
)

type c19 struct {
	W      *World   `json:"w"`
	Faults []*Fault `json:"faults"`
}

// entry is a place that an error names.
type traceEntry struct {
	File    string // relative to the directory of the model
	Line    int    // 0 if there is none
	Col     int
	Message string
}

func (e traceEntry) String() string { return fmt.Sprintf("%s:%d: %s", e.File, e.Line, e.Message) }

// trace lists all places that an error names.
func (x *X) trace(err error, dir string) []traceEntry {
	var out []traceEntry
	seen := map[*stacktrace.StackTrace]bool{}
	var visit func(st *stacktrace.StackTrace)
	visit = func(st *stacktrace.StackTrace) {
		if st == nil || seen[st] {
			return
		}
		seen[st] = true
		e := traceEntry{Message: st.Message}
		if st.Location != nil {
			e.File = strings.TrimPrefix(string(*st.Location), dir+"/")
		}
		if st.Position != nil {
			e.Line, e.Col = st.Position.Line, st.Position.Column
		}
		if e.File != "" || e.Line != 0 {
			out = append(out, e)
		}
		visit(st.Wrapped)
		for _, l := range st.List {
			visit(l)
		}
	}
	var st *stacktrace.StackTrace
	if !errors.As(err, &st) {
		x.Fail("error is no stack trace", "%T %v", err, err)
	}
	visit(st)
	return out
}

// points checks that the entries lie in existing lines and that each fault is named.
func (x *X) points(w *World, faults []*Fault, err error, dir, how string) {
	entries := x.trace(err, dir)
	show := func() string {
		var b strings.Builder
		for _, e := range entries {
			fmt.Fprintf(&b, "  %s\n", e)
		}
		return b.String()
	}
	for _, e := range entries {
		if e.Line == 0 {
			continue
		}
		data, err := os.ReadFile(dir + "/" + e.File)
		n := 1 + strings.Count(strings.TrimSuffix(string(data), "\n"), "\n")
		if err != nil || e.Line < 1 || e.Line > n {
			x.Fail("position outside of the named file", "%s: %s\n%s%s", how, e, show(), dumpFiles(w.render()))
		}
	}
	for _, f := range faults {
		lines := map[string]Lines{}
		w.file(f.File).render(lines)
		l, ok := lines[f.Label]
		if !ok {
			bug("no label %s in %s", f.Label, f.File)
		}
		text := strings.Join(strings.Split(w.file(f.File).render(nil), "\n")[l.From-1:l.To], "\n")
		found := false
		for _, e := range entries {
			found = found || e.File == f.File && e.Line >= l.From && e.Line <= l.To
			if d := w.file(e.File); d != nil && d.Kind == "raw" && strings.Contains(text, "!include") {
				found = true // the faulty value is included
			}
		}
		if !found {
			x.Fail("error does not point at the fault", "%s: %s in %s, lines %d to %d (%s)\n%s%s", how, f.Kind, f.File, l.From, l.To, f.Label, show(), dumpFiles(w.render()))
		}
	}
}

func init() {
	register("C19", 6000, 100000,
		"at least one fault was injected (and rejected)",
		func(g G) *c19 {
			wg := newWG(g, GO{Libs: 3, DTs: 2, Types: 5, Rec: g.P(3), Ex: g.P(4), Custom: g.P(4), Anns: g.P(4), Overlap: true})
			c := &c19{W: wg.world()}
			add := func(kinds func(faultClass) bool) {
				if f := wg.inject(kinds); f != nil {
					c.Faults = append(c.Faults, f)
				}
			}
			if g.P(4) {
				add(class("bad facet value"))
			} else if g.P(11) {
				add(nil)
			} else {
				// Several faults of the same stage in different declarations.
				wg.separate = true
				var kinds func(faultClass) bool
				switch g.Idx(4) {
				case 0:
					kinds = class("unknown type", "malformed expression")
				case 3: // annotations are resolved after types
					kinds = class("unknown annotation")
				case 1:
					kinds = class("widening")
				default:
					kinds = func(c faultClass) bool { return c.stage == "validate" && c.kind != "example of an existing type" }
					if g.Bool() {
						// All of the same kind.
						var cs []string
						for _, f := range faultClasses {
							if kinds(f) {
								cs = append(cs, f.kind)
							}
						}
						kinds = class(pick(g, cs))
					}
				}
				for i, n := 0, g.Int(2, 4); i < n; i++ {
					add(kinds)
				}
			}
			if g.P(4) {
				scatter(g, c.W)
			}
			return c
		},
		func(x *X, c *c19) {
			if len(c.Faults) == 0 {
				x.mustParse(c.W, full)
				return
			}
			stage := c.Faults[0].Stage
			for _, m := range []Mode{parseOnly, unwrapped, validated, full} {
				want := stage == "parse" || stage == "unwrap" && (m.Unwrap || m.Validate) || stage == "validate" && m.Validate
				if !want {
					continue
				}
				_, err := x.parse(c.W, m)
				if err == nil {
					x.Fail("fault is accepted", "%s in %s at %s, unwrap %v validate %v\n%s", c.Faults[0].Kind, c.Faults[0].File, c.Faults[0].Label, m.Unwrap, m.Validate, dumpFiles(c.W.render()))
				}
				x.points(c.W, c.Faults, err, x.dir+"/w", fmt.Sprintf("unwrap %v validate %v", m.Unwrap, m.Validate))
			}
			x.NonTrivial()
			for _, f := range c.Faults {
				x.Label("%s", strings.SplitN(f.Kind, ":", 2)[0])
			}
			x.Label("%d faults", len(c.Faults))
		})
}

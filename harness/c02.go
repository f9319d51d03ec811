package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

type c02 struct {
	W      *World   `json:"w"`
	Faults []*Fault `json:"faults,omitempty"`
	Odd    bool     `json:"odd,omitempty"` // facets and values are arbitrary
	Vals   []Inst   `json:"vals,omitempty"`
	Order  uint32   `json:"order"`           // of the reordered files
	Child  bool     `json:"child,omitempty"` // another process parses the files as well
}

// reorder shuffles the declarations, imports and keys of all fragments.
func (w *World) reorder(seed uint32) {
	next := func() uint32 {
		seed = seed*1664525 + 1013904223
		return seed>>8 | 1
	}
	for _, f := range w.Files {
		shuffle(f.Types, next())
		shuffle(f.AnnTypes, next())
		shuffle(f.Uses, next())
		f.Shuf = next()
		f.walk(func(t *Type) { t.Shuf = next() })
	}
}

// digest renders everything that parsing the files in all modes yields.
type digest struct {
	Dir   string `json:"dir"`
	Entry string `json:"entry"`
	Vals  []Inst `json:"vals"`
}

func (d digest) text() string {
	var b strings.Builder
	for _, mode := range []Mode{parseOnly, unwrapped, validated, full} {
		fmt.Fprintf(&b, "=== unwrap %v validate %v\n", mode.Unwrap, mode.Validate)
		m, err := parseDir(d.Dir, d.Entry, mode)
		if err != nil {
			// The whole error, with all positions and values.
			fmt.Fprintf(&b, "error: %s\n", (&X{dir: d.Dir}).errText(err))
			continue
		}
		b.WriteString(m.text(func(d *Dumper) { d.ids = true }))
		b.WriteByte('\n')
		if !mode.Unwrap {
			continue
		}
		conv := newConverters()
		var types []*raml.BaseShape
		switch f := m.R.EntryPoint().(type) {
		case *raml.Library:
			for p := f.Types.Oldest(); p != nil; p = p.Next() {
				types = append(types, p.Value)
			}
			for p := f.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
				types = append(types, p.Value)
			}
		case *raml.DataType:
			types = append(types, f.Shape)
		}
		for _, s := range types {
			p, q, err := conv.try(s)
			fmt.Fprintf(&b, "schema %s: %s %s %v\n", s.Name, p, q, err)
		}
		for _, i := range d.Vals {
			s := m.shape(i.ID)
			if s == nil {
				continue
			}
			fmt.Fprintf(&b, "validate %v %s: %s\n", i.ID, i.V, (&X{dir: d.Dir}).errText(s.Validate(goValue(i.V, i.Ints))))
		}
	}
	return b.String()
}

// childDigest renders the digest in another process.
func (d digest) child() string {
	exe, err := os.Executable()
	if err != nil {
		bug("%v", err)
	}
	file := filepath.Join(scratch, "digest.json")
	if err := os.WriteFile(file, mustJSON(d), 0o644); err != nil {
		bug("%v", err)
	}
	cmd := exec.Command(exe, "digest", "-file", file)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		return "the process ends with " + err.Error() + "\n" + trim(errs.String(), 2000)
	}
	return out.String()
}

// runDigest is the main function of the other process.
func runDigest(file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		bug("%v", err)
	}
	var d digest
	if err := json.Unmarshal(data, &d); err != nil {
		bug("%v", err)
	}
	fmt.Print(d.text())
}

func init() {
	register("C02", 3000, 60000,
		"reordering changes a fragment with at least three declarations, or the files are rejected",
		func(g G) *c02 {
			wg := newWG(g, GO{Libs: 2, DTs: 2, Types: 6, Rec: g.P(5), Ex: g.P(8), Custom: g.P(6), Anns: g.P(7), Overlap: g.Bool()})
			c := &c02{W: wg.world(), Order: uint32(g.Int(1, 1<<20)), Child: g.P(2)}
			add := func(kinds func(faultClass) bool) {
				defer func() {
					// Values for types that contain an earlier fault cannot be generated.
					if r := recover(); r != nil {
						if _, ok := r.(harnessBug); !ok || len(c.Faults) == 0 {
							panic(r)
						}
					}
				}()
				if f := wg.inject(kinds); f != nil {
					c.Faults = append(c.Faults, f)
				}
			}
			switch g.W(6, 3, 3, 3) {
			case 1:
				add(nil)
			case 2:
				wg.separate = true
				first := func(f faultClass) bool { return f.stage != "parse" }
				if g.P(6) {
					first = class("unknown type", "malformed expression", "unknown annotation")
				}
				for i, n := 0, g.Int(1, 4); i < n; i++ {
					add(first)
				}
				if g.P(8) {
					first = nil
				}
				add(first)
			case 3:
				c.Odd = true
				scramble(g, c.W)
			}
			if c.Faults == nil && !c.Odd {
				c.Vals = instances(g, newSem(c.W), c.W.typeIDs(), g.Int(2, 8))
			}
			if g.P(3) {
				scatter(g, c.W)
			}
			return c
		},
		func(x *X, c *c02) {
			files := c.W.render()
			d := digest{x.writeFiles("w", files), c.W.Files[0].Path, c.Vals}
			first := d.text()
			for i := 0; i < 3; i++ {
				if again := d.text(); again != first {
					x.Fail("parsing again yields something else", "%s\n%s", firstDiff(first, again), dumpFiles(files))
				}
			}
			if c.Child {
				if other := d.child(); other != first {
					x.Fail("another process yields something else", "%s\n%s", firstDiff(first, other), dumpFiles(files))
				}
				x.Label("child process")
			}
			// The verdicts do not depend on the order of declarations.
			w := clone(c.W)
			w.reorder(c.Order)
			files2 := w.render()
			dir2 := x.writeFiles("w2", files2)
			for _, mode := range []Mode{parseOnly, unwrapped, validated, full} {
				m1, err1 := parseDir(d.Dir, d.Entry, mode)
				m2, err2 := parseDir(dir2, d.Entry, mode)
				if (err1 == nil) != (err2 == nil) {
					x.Fail("acceptance depends on the order of declarations", "unwrap %v validate %v: %s or %s\n%s\nREORDERED\n%s", mode.Unwrap, mode.Validate, x.errText(err1), x.errText(err2), dumpFiles(files), dumpFiles(files2))
				}
				if err1 != nil || !mode.Unwrap {
					continue
				}
				for _, i := range c.Vals {
					e1, e2 := x.shape(m1, i.ID).Validate(goValue(i.V, i.Ints)), x.shape(m2, i.ID).Validate(goValue(i.V, i.Ints))
					if (e1 == nil) != (e2 == nil) {
						x.Fail("instances depend on the order of declarations", "%v %s: %s or %s\n%s\nREORDERED\n%s", i.ID, i.V, x.errText(e1), x.errText(e2), dumpFiles(files), dumpFiles(files2))
					}
				}
			}
			for p, t := range files {
				if f := c.W.file(p); files2[p] != t && len(f.Types)+len(f.AnnTypes) >= 3 {
					x.NonTrivial()
				}
			}
			if strings.Contains(first, "\nerror: ") {
				x.NonTrivial()
				x.Label("rejected, %d faults, odd %v", len(c.Faults), c.Odd)
			} else {
				x.Label("accepted, %d faults, odd %v", len(c.Faults), c.Odd)
			}
		})
}

package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sync"
	"time"
)

type c25Step struct {
	W   int `json:"w"`
	Dir int `json:"dir"` // worlds overwrite each other in the same directory
}

type c25 struct {
	Worlds  []*World  `json:"worlds"`
	Vals    [][]Inst  `json:"vals"`
	Steps   []c25Step `json:"steps"`
	Threads [][]int   `json:"threads"` // the worlds that each goroutine parses
}

func init() {
	register("C25", 260, 12000,
		"a directory is parsed again after its files were changed, and goroutines parse different files",
		func(g G) *c25 {
			c := &c25{}
			var wg *WG
			fresh := func() *World {
				wg = newWG(g, GO{Libs: 2, DTs: 2, Types: 4, Rec: g.P(4), Ex: g.P(6), Custom: g.P(5), Anns: g.P(6), Overlap: g.Bool()})
				w := wg.world()
				if g.P(7) {
					scatter(g, w)
				}
				if f := w.Files[0]; f.Kind == "Library" && g.P(6) {
					p := "data/included" + pick(g, []string{".txt", ".md", ".json", ".yaml"})
					w.Files = append(w.Files, &File{Path: p, Kind: "raw", Raw: string(mustJSON(pick(g, texts)))})
					f.Types = append(f.Types, &Decl{"includer", &Type{Expr: en("any"), Example: &Ex{D: Data{V: V("5"), Inc: relPath(f, p)}}}})
				}
				return w
			}
			add := func(w *World, vals bool) {
				c.Worlds = append(c.Worlds, w)
				var vs []Inst
				if vals {
					vs = instances(g, newSem(w), w.typeIDs(), g.Int(1, 4))
				}
				c.Vals = append(c.Vals, vs)
			}
			w := fresh()
			add(clone(w), true)
			// The same files with other contents.
			raw := rewrite(g, clone(w))
			k := g.W(3, 4, 3, 8)
			if k == 3 && raw == nil {
				k = 0
			}
			switch k {
			case 3:
				add(raw, false)
			case 0:
				w.reorder(uint32(g.Int(1, 1<<20)))
				add(clone(w), true)
			case 1:
				scramble(g, w)
				add(clone(w), false)
			default:
				if wg.inject(nil) != nil {
					add(clone(w), false)
				}
			}
			for len(c.Worlds) < 2 || len(c.Worlds) < 4 && g.P(6) {
				w := fresh()
				if g.P(3) {
					scramble(g, w)
					add(w, false)
				} else {
					add(w, true)
				}
			}
			if g.P(8) { // the second world in place of the first one
				c.Steps = append(c.Steps, c25Step{0, 0}, c25Step{1, 0})
			}
			for i, n := len(c.Steps), g.Int(2, 5); i < n; i++ {
				c.Steps = append(c.Steps, c25Step{g.Idx(len(c.Worlds)), g.W(3, 1)})
			}
			for i, n := 0, g.Int(2, 4); i < n; i++ {
				var ws []int
				for j, k := 0, g.Int(1, 3); j < k; j++ {
					ws = append(ws, g.Idx(len(c.Worlds)))
				}
				c.Threads = append(c.Threads, ws)
			}
			return c
		},
		checkSeparate)
}

// rewrite changes the contents of included files; it returns nil if there are none.
func rewrite(g G, w *World) *World {
	n := 0
	for i, f := range w.Files {
		if f.Kind != "raw" {
			continue
		}
		switch ext := path.Ext(f.Path); {
		case n > 0 && g.P(3):
			continue
		case ext == ".json" || ext == ".yaml":
			f.Raw = string(data(g, 2))
		default:
			f.Raw += fmt.Sprintf("changed %d", i)
		}
		n++
	}
	if n == 0 {
		return nil
	}
	return w
}

func checkSeparate(x *X, c *c25) {
	all := func() string {
		s := ""
		for i, w := range c.Worlds {
			s += fmt.Sprintf("WORLD %d\n%s", i, dumpFiles(w.render()))
		}
		return s
	}
	old := time.Unix(1500000000, 0)
	place := func(dir string, i int) digest {
		files := c.Worlds[i].render()
		d := digest{x.writeFiles(dir, files), c.Worlds[i].Files[0].Path, c.Vals[i]}
		for p := range files {
			// The times of the files say nothing about their contents.
			if err := os.Chtimes(filepath.Join(d.Dir, filepath.FromSlash(p)), old, old); err != nil {
				bug("%v", err)
			}
		}
		return d
	}
	// Another process parses the same files with nothing else before.
	truth := map[c25Step]string{}
	type held struct {
		m    *Model
		text string
		step int
	}
	var keep []held
	opt := func(d *Dumper) { d.ids = true }
	used := map[int]int{}
	for i, s := range c.Steps {
		d := place(fmt.Sprintf("s%d", s.Dir), s.W)
		if _, ok := truth[s]; !ok {
			truth[s] = d.child()
		}
		if got := d.text(); got != truth[s] {
			x.Fail("earlier models change the result", "steps %+v, step %d: %s\n%s", c.Steps, i, firstDiff(truth[s], got), all())
		}
		for _, mode := range []Mode{parseOnly, full} {
			if m, err := parseDir(d.Dir, d.Entry, mode); err == nil {
				keep = append(keep, held{m, m.text(opt), i})
			}
		}
		if o, ok := used[s.Dir]; ok && o != s.W {
			x.nontrivial = true
		}
		used[s.Dir] = s.W
	}
	// Several goroutines parse at once.
	digests := make([]digest, len(c.Worlds))
	want := make([]string, len(c.Worlds))
	seen := map[int]bool{}
	for _, ws := range c.Threads {
		for _, i := range ws {
			if !seen[i] {
				seen[i] = true
				digests[i] = place(fmt.Sprintf("p%d", i), i)
				want[i] = digests[i].child()
			}
		}
	}
	x.nontrivial = x.nontrivial && len(seen) > 1
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make([]any, len(c.Threads))
	for t, ws := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[t] = r
				}
			}()
			<-start
			for _, i := range ws {
				if got := digests[i].text(); got != want[i] {
					errs[t] = &Failure{"models that are parsed at the same time change the result",
						fmt.Sprintf("threads %v, world %d: %s\n%s", c.Threads, i, firstDiff(want[i], got), all())}
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if f, ok := e.(*Failure); ok {
			panic(f)
		}
		if e != nil {
			x.Fail("panic in a goroutine", "%v\n%s", e, all())
		}
	}
	for _, k := range keep {
		if t := k.m.text(opt); t != k.text {
			x.Fail("later models change an earlier one", "steps %+v, step %d: %s\n%s", c.Steps, k.step, firstDiff(k.text, t), all())
		}
	}
	x.Label("worlds %d", len(c.Worlds))
}

package main

type c20 struct {
	W    *World `json:"w"`
	Vals []Inst `json:"vals"`
}

func init() {
	register("C20", 6000, 120000,
		"some recursive type has both an accepted and a rejected value that nests the type in itself at least once",
		func(g G) *c20 {
			wg := newWG(g, GO{Libs: 2, DTs: 1, Types: 4, Rec: true, RecAll: true, RecDT: true, RecHeirs: true, Ex: g.P(4), Custom: g.P(4), Anns: g.P(4)})
			w := wg.world()
			s := newSem(w)
			ids := w.typeIDs()
			c := &c20{W: w}
			var roots []*SN
			for _, id := range ids {
				roots = append(roots, s.id(id))
			}
			cyclic, _ := s.recursive(roots)
			for i, n := 0, g.Int(5, 12); i < n && len(ids) > 0; i++ {
				id := pick(g, ids)
				v := &VG{g: g, s: s, size: 40}
				if g.P(10) {
					v.viol = g.Int(1, 5)
				}
				if g.P(3) {
					if v.viol > 0 {
						v.viol = 12
					}
					c.Vals = append(c.Vals, Inst{id, mustJSON(v.spine(g.Int(4, 40), cyclic, s.id(id))), g.Bool()})
					continue
				}
				c.Vals = append(c.Vals, Inst{id, mustJSON(v.value(g.Int(2, 7), s.id(id))), g.Bool()})
			}
			return c
		},
		func(x *X, c *c20) {
			m := x.mustParse(c.W, unwrapped)
			s := newSem(c.W)
			var roots []*SN
			for _, id := range c.W.typeIDs() {
				roots = append(roots, s.id(id))
			}
			cyclic, _ := s.recursive(roots)
			yes, no := false, false
			for _, i := range c.Vals {
				sh := x.shape(m, i.ID)
				n := s.id(i.ID)
				want := s.accept(goValue(i.V, i.Ints), n)
				err := sh.Validate(goValue(i.V, i.Ints))
				if want && err != nil {
					x.Fail("value of the unrolled type is rejected", "type %s %s value %s (ints %v): %v\n%s", i.ID.File, i.ID.Name, i.V, i.Ints, x.errText(err), dumpFiles(c.W.render()))
				}
				if !want && err == nil {
					x.Fail("value that the unrolled type rejects is accepted", "type %s %s value %s (ints %v)\n%s", i.ID.File, i.ID.Name, i.V, i.Ints, dumpFiles(c.W.render()))
				}
				if cyclic[n.deref()] {
					d := nesting(goValue(i.V, true))
					if d > 10 {
						x.Label("recursive depth %d0s/%v", d/10, want)
					} else {
						x.Label("recursive depth %d/%v", d, want)
					}
					if d >= 2 {
						yes, no = yes || want, no || !want
					}
				}
			}
			checkSchemas(x, c.W, m, c.Vals)
			x.nontrivial = yes && no
		})
}

func nesting(v any) int {
	d := 0
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			d = max(d, nesting(e))
		}
		return d + 1
	case map[string]any:
		for _, e := range v {
			d = max(d, nesting(e))
		}
		return d + 1
	}
	return 0
}

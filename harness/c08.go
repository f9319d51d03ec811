package main

type c08 struct {
	W    *World `json:"w"`
	Vals []Inst `json:"vals"`
}

func init() {
	register("C08", 9000, 120000,
		"at least one value whose verdict is not decided by its JSON type alone: the set has an accepted value and a rejected one of the JSON type that the declared type expects",
		func(g G) *c08 {
			wg := newWG(g, GO{Libs: 1, DTs: 1, Types: 6, Rec: g.P(4), Ex: g.P(5), Custom: g.P(3), Anns: g.P(3), Overlap: true})
			w := wg.world()
			s := newSem(w)
			return &c08{w, instances(g, s, w.typeIDs(), g.Int(4, 12))}
		},
		func(x *X, c *c08) {
			m := x.mustParse(c.W, unwrapped)
			s := newSem(c.W)
			yes, no := false, false
			for _, i := range c.Vals {
				sh := x.shape(m, i.ID)
				n := s.id(i.ID)
				want := s.accept(goValue(i.V, i.Ints), n)
				err := sh.Validate(goValue(i.V, i.Ints))
				if want && err != nil {
					x.Fail("conforming value is rejected", "type %s %s value %s (ints %v): %v\n%s", i.ID.File, i.ID.Name, i.V, i.Ints, x.errText(err), dumpFiles(c.W.render()))
				}
				if !want && err == nil {
					x.Fail("non-conforming value is accepted", "type %s %s value %s (ints %v)\n%s", i.ID.File, i.ID.Name, i.V, i.Ints, dumpFiles(c.W.render()))
				}
				k := n.deref().Kind
				x.Label("%s/%v", k, want)
				if jsonKind(i.V) == wantedKind(k) {
					yes, no = yes || want, no || !want
				}
			}
			if yes && no {
				x.NonTrivial()
			}
		})
}

func jsonKind(v V) string {
	switch v[0] {
	case '{':
		return "object"
	case '[':
		return "array"
	case '"':
		return "string"
	case 't', 'f':
		return "boolean"
	case 'n':
		return "nil"
	}
	return "number"
}

func wantedKind(k string) string {
	switch k {
	case "integer":
		return "number"
	case "datetime", "datetime-only", "date-only", "time-only", "file":
		return "string"
	}
	return k
}

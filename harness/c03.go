package main

type c03 struct {
	W *World `json:"w"`
}

func init() {
	register("C03", 16000, 100000,
		"at least 30 facets, references and values are compared",
		func(g G) *c03 {
			wg := newWG(g, GO{Libs: 2, DTs: 2, Types: 6, Rec: g.P(5), Ex: g.P(10), Custom: g.P(8), Anns: g.P(8), Overlap: true})
			w := wg.world()
			if g.P(8) {
				scramble(g, w)
			}
			if g.P(5) {
				scatter(g, w)
			}
			return &c03{w}
		},
		func(x *X, c *c03) {
			m := x.mustParse(c.W, parseOnly)
			mc := newMC(x, c.W, m, false)
			mc.all()
			if mc.n >= 30 {
				x.NonTrivial()
			}
			x.Label("facets %d0+", min(mc.n/10, 10))
			if un, err := x.parse(c.W, unwrapped); err == nil {
				mc := newMC(x, c.W, un, true)
				mc.all()
				x.Label("unwrapped")
			}
		})
}

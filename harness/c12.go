package main

// faulty is a valid set of fragments, or one with a single fault.
type faulty struct {
	W     *World `json:"w"`
	Fault *Fault `json:"fault,omitempty"`
	Insts []Inst `json:"insts,omitempty"`
}

// genFaulty injects a fault of the kinds with a probability of n in 16.
func genFaulty(g G, o GO, n int, kinds ...string) *faulty {
	wg := newWG(g, o)
	c := &faulty{W: wg.world()}
	if g.P(n) {
		c.Fault = wg.inject(class(kinds...))
	} else if len(kinds) > 0 && g.Bool() {
		// Conforming declarations of the kind.
		wg.injectValid(kinds)
	}
	return c
}

func init() {
	register("C12", 6000, 100000,
		"the model has an example, default, enum, discriminator value or bounds, all of which conform, or exactly one fault was injected",
		func(g G) *faulty {
			c := genFaulty(g, GO{Libs: 2, DTs: 2, Types: 5, Rec: g.P(3), Ex: true, Custom: g.P(4), Anns: g.P(4), Overlap: true}, 12,
				"example", "default", "example of an existing type", "enum value", "minimum above maximum", "discriminator value")
			if g.P(6) {
				scatter(g, c.W)
			}
			return c
		},
		func(x *X, c *faulty) {
			x.verdict(c.W, c.Fault)
			n := 0
			for _, s := range c.W.allSites() {
				t := s.T
				if t.Default != nil || t.Example != nil || t.Examples != nil || t.ExInc != "" || t.Enum != nil || t.DiscrVal != nil {
					n++
				}
			}
			if c.Fault != nil || n > 0 {
				x.NonTrivial()
			}
		})

	register("C13", 6000, 100000,
		"a custom facet is set to a conforming value or a required one is inherited, or exactly one fault was injected",
		func(g G) *faulty {
			c := genFaulty(g, GO{Libs: 2, DTs: 2, Types: 6, Rec: g.P(3), Ex: g.P(3), Custom: true, Anns: g.P(2), Overlap: true}, 10,
				"unknown custom facet", "custom facet set by its definer", "custom facet value", "missing custom facet", "redefined custom facet")
			if g.P(3) {
				scatter(g, c.W)
			}
			return c
		},
		func(x *X, c *faulty) {
			x.verdict(c.W, c.Fault)
			n := 0
			for _, s := range c.W.allSites() {
				n += len(s.T.Custom)
			}
			if c.Fault != nil || n > 0 {
				x.NonTrivial()
			}
			x.Label("facets set %d", min(n, 5))
		})
}

package main

import (
	"encoding/json"
	"fmt"
	"maps"
	"reflect"
	"sync"

	raml "github.com/acronis/go-raml/v2"
)

type c22Op struct {
	Kind int `json:"k"` // 0 validate, 1 convert, 2 convert with the wrapper, 3 check, 4 clone, 5 describe, 6 validate with a clone
	I    int `json:"i"` // value or type
}

type c22 struct {
	W       *World    `json:"w"`
	Vals    []Inst    `json:"vals"`
	Full    bool      `json:"full"`
	Threads [][]c22Op `json:"threads"`
}

func init() {
	register("C22", 700, 20000,
		"several goroutines use the same types, and values are accepted and rejected",
		func(g G) *c22 {
			wg := newWG(g, GO{Libs: 1, DTs: 1, Types: 5, Rec: g.P(4), RecDT: g.P(8), Ex: g.P(6), Custom: g.P(6), Anns: g.P(6), Overlap: g.P(3)})
			w := wg.world()
			s := newSem(w)
			c := &c22{W: w, Vals: instances(g, s, w.typeIDs(), g.Int(3, 10)), Full: g.Bool()}
			for i, n := 0, g.Int(2, 4); i < n; i++ {
				var ops []c22Op
				for j, k := 0, g.Int(3, 10); j < k; j++ {
					ops = append(ops, c22Op{g.W(8, 3, 3, 1, 2, 1, 1), g.Int(0, 20)})
				}
				c.Threads = append(c.Threads, ops)
			}
			return c
		},
		checkShared)
}

func checkShared(x *X, c *c22) {
	w := c.W
	mode := unwrapped
	if c.Full {
		mode = full
	}
	ids := func(d *Dumper) { d.ids = true }
	files := func() string { return dumpFiles(w.render()) }
	types := w.typeIDs()
	if len(types) == 0 || len(c.Vals) == 0 {
		x.Discard("no types")
	}
	// do performs an operation and renders its answer.
	do := func(m *Model, op c22Op, conv *converters) (answer string, changed string) {
		sh := m.shape(types[op.I%len(types)])
		inst := c.Vals[op.I%len(c.Vals)]
		switch op.Kind {
		case 0, 6:
			sh = m.shape(inst.ID)
			if op.Kind == 6 {
				sh = sh.CloneDetached()
			}
			v, keep := goValue(inst.V, inst.Ints), goValue(inst.V, inst.Ints)
			err := sh.Validate(v)
			if !reflect.DeepEqual(v, keep) {
				changed = fmt.Sprintf("%v value %s becomes %#v", inst.ID, inst.V, v)
			}
			if err == nil {
				return "accepted", changed
			}
			return "rejected: " + x.errText(err), changed
		case 1, 2:
			p, f, err := conv.try(sh)
			if err != nil {
				return "error: " + err.Error(), ""
			}
			if op.Kind == 1 {
				return string(p), ""
			}
			return string(f), ""
		case 3:
			return x.errText(sh.Check()), ""
		case 4:
			return joint(m.Dir, sh.CloneDetached()), ""
		default:
			return sh.String(), ""
		}
	}
	m := x.mustParse(w, mode)
	before := m.text(ids)
	want := map[c22Op]string{}
	shared := newConverters()
	yes, no := false, false
	for round := 0; round < 2; round++ {
		for _, ops := range c.Threads {
			for _, op := range ops {
				conv := shared
				if round == 1 {
					conv = newConverters()
				}
				a, changed := do(m, op, conv)
				if changed != "" {
					x.Fail("validation modifies the instance", "%s\n%s", changed, files())
				}
				if after := m.text(ids); after != before {
					x.Fail("use of a type changes the model", "operation %+v: %s\n%s", op, firstDiff(before, after), files())
				}
				if old, ok := want[op]; ok && a != old {
					x.Fail("same call gives another answer", "operation %+v: %s\n%s", op, firstDiff(old, a), files())
				}
				want[op] = a
				yes = yes || a == "accepted"
				no = no || len(a) > 8 && a[:8] == "rejected"
			}
		}
	}
	// Any value for any type.
	for _, inst := range c.Vals {
		for _, alt := range variants(goValue(inst.V, inst.Ints)) {
			for _, id := range types {
				v := deepCopy(alt)
				_ = m.shape(id).Validate(v)
				if !reflect.DeepEqual(v, alt) {
					x.Fail("validation modifies the instance", "%v value %s becomes %s\n%s", id, mustJSON(alt), mustJSON(v), files())
				}
			}
		}
	}
	if after := m.text(ids); after != before {
		x.Fail("use of a type changes the model", "validation of many values: %s\n%s", firstDiff(before, after), files())
	}
	// A fresh model, so that nothing has been computed in advance.
	m = x.mustParse(w, mode)
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make([]any, len(c.Threads))
	for i, ops := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = r
				}
			}()
			<-start
			for round := 0; round < 3; round++ {
				conv := newConverters()
				for j := range ops {
					op := ops[(j+i*round)%len(ops)]
					a, changed := do(m, op, conv)
					if changed != "" {
						errs[i] = &Failure{"validation modifies the instance", changed + "\n" + files()}
						return
					}
					if a != want[op] {
						errs[i] = &Failure{"goroutine gets another answer", fmt.Sprintf("operation %+v: %s\n%s", op, firstDiff(want[op], a), files())}
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if f, ok := e.(*Failure); ok {
			panic(f)
		}
		if e != nil {
			x.Fail("panic in a goroutine", "%v\n%s", e, files())
		}
	}
	if after := m.text(ids); after != before {
		x.Fail("use of a type changes the model", "concurrently: %s\n%s", firstDiff(before, after), files())
	}
	if yes && no {
		x.NonTrivial()
	}
	for _, ops := range c.Threads {
		for _, op := range ops {
			x.Label("op %d", op.Kind)
		}
	}
}

// try converts the type with both flavours to JSON.
func (c *converters) try(s *raml.BaseShape) (plain, full []byte, err error) {
	p, err := c.plain.Convert(s.Shape)
	if err != nil {
		return nil, nil, err
	}
	if plain, err = json.Marshal(p); err != nil {
		return nil, nil, err
	}
	f, err := c.full.Convert(s.Shape)
	if err != nil {
		return nil, nil, err
	}
	full, err = json.Marshal(f)
	return plain, full, err
}

func deepCopy(v any) any {
	switch v := v.(type) {
	case []any:
		out := make([]any, len(v))
		for i := range v {
			out[i] = deepCopy(v[i])
		}
		return out
	case map[string]any:
		out := make(map[string]any, len(v))
		for k, i := range v {
			out[k] = deepCopy(i)
		}
		return out
	}
	return v
}

// variants lists the value, and the values in which one part is null or missing.
func variants(v any) []any {
	out := []any{v}
	switch v := v.(type) {
	case []any:
		for i := range v {
			if i > 2 {
				break
			}
			for _, alt := range append(variants(v[i])[1:], nil) {
				c := append([]any{}, v...)
				c[i] = alt
				out = append(out, c)
			}
		}
	case map[string]any:
		for _, k := range keysOf(v) {
			for _, alt := range append(variants(v[k])[1:], nil) {
				c := maps.Clone(v)
				c[k] = alt
				out = append(out, c)
			}
			c := maps.Clone(v)
			delete(c, k)
			out = append(out, c)
		}
	}
	return out[:min(len(out), 40)]
}

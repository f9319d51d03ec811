package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path/filepath"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-stacktrace"
	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"
)

// hookOp changes the hooks of a key. Hook -1 is the nil hook.
type hookOp struct {
	Op    string `json:"op"` // append, prepend, remove or clear
	Key   int    `json:"key"`
	Hook  int    `json:"hook"`
	Shape bool   `json:"shape,omitempty"` // through the methods of a shape
	At    int    `json:"at,omitempty"`    // for operations that hooks do: at the At-th call of any hook
}

// forkOp is an operation on one of several stores that share a context.
type forkOp struct {
	hookOp
	R    int  `json:"r"`
	Fork bool `json:"fork,omitempty"` // creates another store with the context that a hook of store R gets
}

type c18 struct {
	W *World `json:"w"`
	F *Fault `json:"f,omitempty"`
	M Mode   `json:"m"`
	// Steps parses without options first, and unwraps and validates then.
	Steps bool     `json:"steps,omitempty"`
	Ops   []hookOp `json:"ops"`
	After []hookOp `json:"after,omitempty"` // between parsing and the other steps
	Live  []hookOp `json:"live,omitempty"`
	// Err is the number of a call among all calls of the key ErrKey (counted in per mille) whose hook at ErrPos fails.
	Err    int      `json:"err"`
	ErrKey int      `json:"errkey"`
	ErrPos int      `json:"errpos"`
	Forks  []forkOp `json:"forks,omitempty"`
}

var hookKeys = []raml.HookKey{
	raml.HookBeforeBaseShapeInherit, raml.HookBeforeBaseShapeInheritUnionSource, raml.HookBeforeBaseShapeInheritUnionTarget,
	raml.HookBeforeRAMLMakeConcreteShapeYAML, raml.HookBeforeRAMLMakeNewShapeYAML, raml.HookBeforeParseDataType,
	raml.HookBeforeValidateTypes, raml.HookBeforeValidateLibrary, raml.HookBeforeValidateDataType, raml.HookBeforeValidateFragments,
	raml.HookBeforeValidateDomainExtensions, raml.HookBeforeValidateShapes, raml.HookBeforeValidateObjectShape, raml.HookBeforeValidateShapeCommons,
	raml.HookBeforeValidateExamples, raml.HookBeforeValidateShapeFacets, raml.HookBeforeFindAndMarkRecursion, raml.HookBeforeUnwrapShape,
}

const hookCount = 6

func genHookOp(g G, ops *[]hookOp, keys []int) {
	// Operations that follow up an earlier one: the same hook of the same key, once more or removed.
	if n := len(*ops); n > 0 && g.P(4) {
		o := (*ops)[g.Idx(n)]
		o.Op = pick(g, []string{"append", "prepend", "remove", "remove"})
		o.At = 0
		*ops = append(*ops, o)
		return
	}
	*ops = append(*ops, hookOp{
		Op:  pick(g, []string{"append", "append", "append", "prepend", "prepend", "remove", "remove", "clear"}),
		Key: pick(g, keys), Hook: g.Int(-1, hookCount-1), Shape: g.P(6),
	})
}

func init() {
	register("C18", 6000, 60000,
		"hooks that were registered by at least three operations on one key run at least once, or a hook fails at a point that is reached",
		func(g G) *c18 {
			wg := newWG(g, GO{Libs: 2, DTs: 2, Types: 5, Rec: g.P(5), Ex: g.P(6), Custom: g.P(5), Anns: g.P(6)})
			c := &c18{W: wg.world(), M: Mode{g.P(10), g.P(10)}, Steps: g.P(5)}
			if g.P(4) {
				c.F = wg.inject(nil)
			}
			keys := []int{g.Idx(len(hookKeys)), g.Idx(len(hookKeys)), g.Idx(len(hookKeys))}
			if g.P(4) {
				keys = nil
				for i := range hookKeys {
					keys = append(keys, i)
				}
			}
			for i, n := 0, g.Int(0, 10); i < n; i++ {
				genHookOp(g, &c.Ops, keys)
			}
			if c.Steps {
				for i, n := 0, g.Int(0, 5); i < n; i++ {
					genHookOp(g, &c.After, keys)
				}
			}
			if g.P(5) {
				for i, n := 0, g.Int(1, 3); i < n; i++ {
					genHookOp(g, &c.Live, keys)
					c.Live[i].At = g.Int(0, 12)
				}
			}
			c.Err, c.ErrKey, c.ErrPos = -1, g.Idx(len(hookKeys)), g.Int(0, 3)
			if g.P(9) {
				c.Err = g.Int(0, 999)
			}
			if g.P(4) {
				n := 1
				for i, m := 0, g.Int(3, 14); i < m; i++ {
					f := forkOp{R: g.Idx(n), Fork: g.P(4)}
					if f.Fork {
						n++
					} else {
						var o []hookOp
						genHookOp(g, &o, []int{0, 1})
						f.hookOp = o[0]
					}
					c.Forks = append(c.Forks, f)
				}
			}
			return c
		}, checkHooks)
}

// hookCall is what a hook observes.
type hookCall struct {
	Key  raml.HookKey
	Hook int
	What string
}

func (h hookCall) String() string { return fmt.Sprintf("%s: hook %d of %s", h.Key, h.Hook, h.What) }

func describeParam(dir string, p any) string {
	switch p := p.(type) {
	case *raml.BaseShape:
		return fmt.Sprintf("shape %d %s", p.ID, p.Name)
	case *raml.UnionShape:
		return fmt.Sprintf("union %d %s", p.ID, p.Name)
	case *raml.ObjectShape:
		return fmt.Sprintf("object %d %s", p.ID, p.Name)
	case string:
		return strings.ReplaceAll(p, dir, "$DIR")
	case *yaml.Node:
		return fmt.Sprintf("node %d:%d", p.Line, p.Column)
	case raml.Fragment:
		return fmt.Sprintf("%T %s", p, strings.ReplaceAll(p.GetLocation(), dir, "$DIR"))
	case *orderedmap.OrderedMap[string, *raml.BaseShape]:
		var b strings.Builder
		for e := p.Oldest(); e != nil; e = e.Next() {
			fmt.Fprintf(&b, " %s", e.Key)
		}
		return "types" + b.String()
	}
	return fmt.Sprintf("%T", p)
}

// hookModel is the expected list of hooks of each key.
type hookModel map[raml.HookKey][]int

func (m hookModel) apply(o hookOp) {
	k := hookKeys[o.Key%len(hookKeys)]
	old := m[k]
	switch o.Op {
	case "append":
		m[k] = append(append([]int{}, old...), o.Hook)
	case "prepend":
		m[k] = append([]int{o.Hook}, old...)
	case "remove":
		for i, h := range old {
			if h == o.Hook {
				m[k] = append(append([]int{}, old[:i]...), old[i+1:]...)
				break
			}
		}
	case "clear":
		m[k] = nil
	}
}

// hookRun is a run of the library with hooks.
type hookRun struct {
	x     *X
	dir   string
	r     *raml.RAML
	trace []hookCall
	fns   []raml.HookFunc
	fail  func(key raml.HookKey, hook int) error
	live  func(n int)
	seen  map[raml.HookKey][][]any // with a probe
	probe bool
}

type ctxMark struct{}

func (h *hookRun) called(i int, ctx context.Context, r *raml.RAML, key raml.HookKey, params []any) error {
	if ctx == nil || ctx.Value(ctxMark{}) != "mark" {
		h.x.Fail("hook gets another context", "%s hook %d: %v", key, i, ctx)
	}
	if r != h.r {
		h.x.Fail("hook gets another store", "%s hook %d: %p", key, i, r)
	}
	var b []string
	for _, p := range params {
		b = append(b, describeParam(h.dir, p))
	}
	h.trace = append(h.trace, hookCall{key, i, strings.Join(b, ", ")})
	if h.probe {
		h.seen[key] = append(h.seen[key], append([]any{}, params...))
	}
	n := len(h.trace) - 1
	if h.live != nil {
		h.live(n)
	}
	if h.fail != nil {
		return h.fail(key, i)
	}
	return nil
}

// hook returns a hook function. Functions for different numbers have different code, by which the library tells them apart.
func (h *hookRun) hook(i int, key raml.HookKey) raml.HookFunc {
	switch i {
	case 0:
		return func(ctx context.Context, r *raml.RAML, ps ...any) error { return h.called(0, ctx, r, key, ps) }
	case 1:
		return func(ctx context.Context, r *raml.RAML, ps ...any) error { return h.called(1, ctx, r, key, ps) }
	case 2:
		return func(ctx context.Context, r *raml.RAML, ps ...any) error { return h.called(2, ctx, r, key, ps) }
	case 3:
		return func(ctx context.Context, r *raml.RAML, ps ...any) error { return h.called(3, ctx, r, key, ps) }
	case 4:
		return func(ctx context.Context, r *raml.RAML, ps ...any) error { return h.called(4, ctx, r, key, ps) }
	case 5:
		return func(ctx context.Context, r *raml.RAML, ps ...any) error { return h.called(5, ctx, r, key, ps) }
	case 6:
		return func(ctx context.Context, r *raml.RAML, ps ...any) error { return h.called(6, ctx, r, key, ps) }
	}
	return nil
}

const failingHook = 6

func (h *hookRun) apply(o hookOp, via *raml.BaseShape) {
	k := hookKeys[o.Key%len(hookKeys)]
	f := h.hook(o.Hook, k)
	if o.Shape && via != nil {
		switch o.Op {
		case "append":
			via.AppendRAMLHook(k, f)
		case "prepend":
			via.PrepenRAMLHook(k, f)
		case "remove":
			via.RemoveRAMLHook(k, f)
		case "clear":
			via.ClearRAMLHooks(k)
		}
		return
	}
	switch o.Op {
	case "append":
		h.r.AppendHook(k, f)
	case "prepend":
		h.r.PrependHook(k, f)
	case "remove":
		h.r.RemoveHook(k, f)
	case "clear":
		h.r.ClearHooks(k)
	}
}

func newHookRun(x *X, dir string) *hookRun {
	return &hookRun{x: x, dir: dir, r: raml.New(context.WithValue(context.Background(), ctxMark{}, "mark")), seen: map[raml.HookKey][][]any{}}
}

// run parses the entry file and does the steps.
func (h *hookRun) run(c *c18, between func()) error {
	m := c.M
	if c.Steps {
		m = parseOnly
	}
	if err := h.r.ParseFromPath(filepath.Join(h.dir, filepath.FromSlash(c.W.Files[0].Path)), m.opts()...); err != nil {
		return err
	}
	if !c.Steps {
		return nil
	}
	if between != nil {
		between()
	}
	if c.M.Unwrap {
		if err := h.r.UnwrapShapes(); err != nil {
			return err
		}
	}
	if c.M.Validate {
		return h.r.ValidateShapes()
	}
	return nil
}

func (h *hookRun) anyShape() *raml.BaseShape {
	if ss := h.r.GetShapes(); len(ss) > 0 {
		return ss[0]
	}
	return nil
}

var errHook = errors.New("hook-error-4711")

// hookErrors are errors that hooks return.
var hookErrors = []error{
	errHook, fmt.Errorf("%w: %w", errHook, context.Canceled), fmt.Errorf("%w: %w", errHook, context.DeadlineExceeded),
	fmt.Errorf("%w: %w", io.EOF, errHook), fmt.Errorf("%w: %w", fs.ErrNotExist, errHook), fmt.Errorf("%w: %w", raml.ErrValueKeyNotFound, errHook),
	raml.StacktraceNew("hook-error-4711", "/nowhere"),
}

func checkHooks(x *X, c *c18) {
	dir := x.writeFiles("w", c.W.render())
	outcome := func(h *hookRun, err error) string {
		if err != nil {
			return "error: " + x.errText(err)
		}
		return (&Model{h.r, dir}).text(func(d *Dumper) { d.ids = true })
	}
	// Without hooks.
	plain := newHookRun(x, dir)
	want := outcome(plain, plain.run(c, nil))
	if c.F == nil && strings.HasPrefix(want, "error: ") {
		x.Fail("valid declarations are rejected", "%s\n%s", want, dumpFiles(c.W.render()))
	}
	// With a hook for every key that records all calls.
	probe := newHookRun(x, dir)
	probe.probe = true
	for _, k := range hookKeys {
		probe.r.AppendHook(k, probe.hook(0, k))
	}
	parsed := -1
	perr := probe.run(c, func() { parsed = len(probe.trace) })
	if got := outcome(probe, perr); got != want {
		x.Fail("hooks influence the result", "%s\n%s", firstDiff(want, got), dumpFiles(c.W.render()))
	}
	if perr == nil {
		checkPoints(x, c, probe)
	}
	calls := probe.trace

	// With the hooks of the case.
	h := newHookRun(x, dir)
	model := hookModel{}
	ops := map[raml.HookKey]int{}
	for _, o := range c.Ops {
		h.apply(o, nil)
		model.apply(o)
		ops[hookKeys[o.Key%len(hookKeys)]]++
	}
	live := func(n int, do func(o hookOp)) {
		for _, o := range c.Live {
			if o.At == n {
				do(o)
			}
		}
	}
	h.live = func(n int) { live(n, func(o hookOp) { h.apply(o, nil) }) }
	herr := h.run(c, func() {
		via := h.anyShape()
		for _, o := range c.After {
			h.apply(o, via)
		}
	})
	if got := outcome(h, herr); got != want {
		x.Fail("hooks influence the result", "%s\n%s", firstDiff(want, got), dumpFiles(c.W.render()))
	}
	n := 0
	for i, p := range calls {
		if i == parsed {
			for _, o := range c.After {
				model.apply(o)
				ops[hookKeys[o.Key%len(hookKeys)]]++
			}
		}
		list := model[p.Key]
		for _, id := range list {
			if id < 0 {
				continue
			}
			if n >= len(h.trace) {
				x.Fail("hook does not run", "%s of %s (list %v), operations %s", p.Key, p.What, list, mustJSON(c))
			}
			if got, exp := h.trace[n], (hookCall{p.Key, id, p.What}); got != exp {
				x.Fail("another hook runs", "%v instead of %v (list %v)\nops %s after %s live %s\n%s", got, exp, list, mustJSON(c.Ops), mustJSON(c.After), mustJSON(c.Live), dumpFiles(c.W.render()))
			}
			live(n, func(o hookOp) { model.apply(o) })
			n++
			if ops[p.Key] >= 3 {
				x.NonTrivial()
			}
		}
	}
	if n < len(h.trace) {
		x.Fail("hook runs although it is not registered", "%v", h.trace[n])
	}
	x.Label("calls of hooks %d", min(n, 50)/10*10)

	c.failAt(x, dir, calls)
	c.forks(x)
}

// failAt lets a hook fail at one of the calls.
func (c *c18) failAt(x *X, dir string, calls []hookCall) {
	if c.Err < 0 {
		return
	}
	var key raml.HookKey
	total := 0
	for i := 0; i < len(hookKeys) && total == 0; i++ {
		key = hookKeys[(c.ErrKey+i)%len(hookKeys)]
		for _, p := range calls {
			if p.Key == key {
				total++
			}
		}
	}
	if total == 0 {
		return
	}
	target := c.Err * total / 1000
	// Hook 0 counts the calls, and hook 6 fails.
	h := newHookRun(x, dir)
	list := []int{0}
	for i := 0; i < c.ErrPos; i++ {
		list = append(list, 1+i)
	}
	list = append(list, failingHook, 4, 5)
	for _, id := range list {
		h.r.AppendHook(key, h.hook(id, key))
	}
	count, failed := -1, 0
	h.fail = func(_ raml.HookKey, hook int) error {
		if hook == 0 {
			count++
		}
		if hook == failingHook && count == target {
			failed++
			return hookErrors[(c.ErrKey+c.ErrPos+target)%len(hookErrors)]
		}
		return nil
	}
	err := h.run(c, nil)
	where := fmt.Sprintf("%s call %d of %d\n%s", key, target, total, dumpFiles(c.W.render()))
	if failed == 0 {
		x.Fail("hook does not run", "%s", where)
	}
	if failed > 1 {
		x.Fail("hook runs again in the same call", "%s", where)
	}
	if err == nil {
		x.Fail("the error of a hook is lost", "%s", where)
	}
	if !carries(err, errHook) {
		x.Fail("the error does not carry the error of the hook", "%s: %s", x.errText(err), where)
	}
	// The hooks after the failing hook do not run, and all other calls run all hooks.
	for i := 0; i < len(h.trace); {
		what := h.trace[i].What
		n := len(list)
		if failed == 1 && h.trace[i].Hook == 0 {
			target--
			if target == -1 {
				n -= 2
			}
		}
		for j := 0; j < n; j++ {
			if i+j >= len(h.trace) || h.trace[i+j].Hook != list[j] || h.trace[i+j].What != what {
				x.Fail("hooks do not run in order around an error", "%v\n%s", h.trace[i:min(i+j+1, len(h.trace))], where)
			}
		}
		i += n
	}
	x.NonTrivial()
	x.Label("error at %s", key)
}

// carries reports whether the error wraps or reports the other one.
func carries(err, target error) bool {
	if errors.Is(err, target) {
		return true
	}
	var st *stacktrace.StackTrace
	return errors.As(err, &st) && strings.Contains(st.Error(), target.Error()) || strings.Contains(err.Error(), target.Error())
}

// checkPoints checks that the hooks of each key ran for everything that the key stands for.
func checkPoints(x *X, c *c18, h *hookRun) {
	m := &Model{h.r, h.dir}
	has := func(k raml.HookKey, what any) bool {
		for _, ps := range h.seen[k] {
			for _, p := range ps {
				if p == what || describeParam(h.dir, p) == describeParam(h.dir, what) {
					return true
				}
			}
		}
		return false
	}
	need := func(k raml.HookKey, p any) {
		if !has(k, p) {
			x.Fail("hook does not run at a point", "%s for %s\n%s", k, describeParam(h.dir, p), dumpFiles(c.W.render()))
		}
	}
	once := func(k raml.HookKey, n int) {
		if got := len(h.seen[k]); got != n {
			x.Fail("hook does not run at a point", "%s runs %d times instead of %d\n%s", k, got, n, dumpFiles(c.W.render()))
		}
	}
	for p := range c.W.reachable() {
		f := m.frag(p)
		if dt, ok := f.(*raml.DataType); ok {
			if p != c.W.Files[0].Path {
				need(raml.HookBeforeParseDataType, any(filepath.Join(h.dir, filepath.FromSlash(p))))
			}
			if c.M.Validate {
				need(raml.HookBeforeValidateDataType, dt)
			}
		}
		if l, ok := f.(*raml.Library); ok && c.M.Validate {
			need(raml.HookBeforeValidateLibrary, l)
			need(raml.HookBeforeValidateTypes, l.Types)
			need(raml.HookBeforeValidateTypes, l.AnnotationTypes)
		}
	}
	one := 0
	if c.M.Validate {
		one = 1
	}
	for _, k := range []raml.HookKey{raml.HookBeforeValidateShapes, raml.HookBeforeValidateFragments, raml.HookBeforeValidateDomainExtensions} {
		once(k, one)
	}
	shapes := map[*raml.BaseShape]bool{}
	for _, s := range m.declared(c.W) {
		below(s, shapes)
	}
	for s := range shapes {
		if _, ok := s.Shape.(*raml.RecursiveShape); ok {
			continue
		}
		if !c.M.Unwrap {
			continue
		}
		need(raml.HookBeforeFindAndMarkRecursion, s)
		if c.M.Validate {
			need(raml.HookBeforeValidateShapeCommons, s)
			need(raml.HookBeforeValidateExamples, s)
			need(raml.HookBeforeValidateShapeFacets, s)
			if o, ok := s.Shape.(*raml.ObjectShape); ok {
				need(raml.HookBeforeValidateObjectShape, o)
			}
		}
	}
	// Each marker of a recursion stems from a call for its head, while the call that entered the head is going on.
	marks, calls := map[*raml.BaseShape]int{}, map[any]int{}
	for _, ps := range h.seen[raml.HookBeforeFindAndMarkRecursion] {
		calls[ps[0]]++
	}
	for s := range shapes {
		if r, ok := s.Shape.(*raml.RecursiveShape); ok {
			marks[r.Head]++
		}
	}
	for head, n := range marks {
		if calls[head] <= n {
			x.Fail("hook does not run at a point", "%s runs %d times for %s with %d markers\n%s", raml.HookBeforeFindAndMarkRecursion, calls[head], describeParam(h.dir, head), n, dumpFiles(c.W.render()))
		}
	}
	sem := newSem(c.W)
	for _, id := range c.W.typeIDs() {
		if !c.M.Unwrap {
			continue
		}
		s := m.shape(id)
		need(raml.HookBeforeUnwrapShape, s)
		if len(sem.id(id).Parents) > 0 {
			need(raml.HookBeforeBaseShapeInherit, s)
		}
	}
	for _, ps := range h.seen[raml.HookBeforeBaseShapeInherit] {
		pu, source := ps[1].(*raml.BaseShape).Shape.(*raml.UnionShape)
		tu, target := ps[0].(*raml.BaseShape).Shape.(*raml.UnionShape)
		_, any := ps[1].(*raml.BaseShape).Shape.(*raml.AnyShape)
		if source && !target {
			need(raml.HookBeforeBaseShapeInheritUnionSource, pu)
		}
		if target && !source && !any {
			need(raml.HookBeforeBaseShapeInheritUnionTarget, tu)
		}
	}
	for k, n := range h.seen {
		x.Label("points %s %d", k, min(len(n), 20)/5*5)
	}
}

// below collects the shapes below declared types.
func below(s *raml.BaseShape, seen map[*raml.BaseShape]bool) {
	if s == nil || seen[s] {
		return
	}
	seen[s] = true
	for _, n := range nestedShapes(s) {
		below(n, seen)
	}
}

// forks applies operations to several stores whose contexts derive from each other.
func (c *c18) forks(x *X) {
	keys := []raml.HookKey{raml.HookBeforeValidateFragments, raml.HookBeforeValidateDomainExtensions}
	type store struct {
		h     *hookRun
		model [2][]int
	}
	stores := []*store{{h: newHookRun(x, x.dir)}}
	for _, f := range c.Forks {
		s := stores[f.R%len(stores)]
		if f.Fork {
			var ctx context.Context
			s.h.r.AppendHook(raml.HookBeforeValidateShapes, func(c context.Context, _ *raml.RAML, _ ...any) error {
				ctx = c
				return errHook
			})
			_ = s.h.r.ValidateShapes()
			s.h.r.ClearHooks(raml.HookBeforeValidateShapes)
			n := &store{h: &hookRun{x: x, dir: x.dir, r: raml.New(ctx)}, model: s.model}
			n.h.r.ClearHooks(raml.HookBeforeValidateShapes)
			stores = append(stores, n)
			continue
		}
		i := f.Key % 2
		m := hookModel{hookKeys[0]: s.model[i]}
		o := f.hookOp
		o.Key = 0
		m.apply(o)
		s.model[i] = m[hookKeys[0]]
		o.Key = indexOf(hookKeys, keys[i])
		o.Shape = false
		s.h.apply(o, nil)
	}
	// The functions that a derived store shares with its origin record their calls in the trace of the store that registered them.
	for n, s := range stores {
		for _, t := range stores {
			t.h.trace = nil
		}
		var order []string
		rec := func(k raml.HookKey, hook int) error {
			order = append(order, fmt.Sprintf("%s %d", k, hook))
			return nil
		}
		own := make([]*raml.RAML, len(stores))
		for i, t := range stores {
			own[i] = t.h.r
		}
		target := s.h.r
		for _, t := range stores {
			t.h.fail = rec
			t.h.r = target
		}
		if err := target.ValidateShapes(); err != nil {
			x.Fail("validating an empty store fails", "%v", err)
		}
		for i, t := range stores {
			t.h.r = own[i]
		}
		var exp []string
		for i, k := range keys {
			for _, id := range s.model[i] {
				if id >= 0 {
					exp = append(exp, fmt.Sprintf("%s %d", k, id))
				}
			}
		}
		if strings.Join(order, "\n") != strings.Join(exp, "\n") {
			x.Fail("another hook runs in a store with a derived context", "store %d runs %v instead of %v, operations %s", n, order, exp, mustJSON(c.Forks))
		}
	}
}

func indexOf[T comparable](s []T, v T) int {
	for i, e := range s {
		if e == v {
			return i
		}
	}
	return -1
}

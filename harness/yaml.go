package main

import (
	"regexp"
	"strings"
)

// Y is a YAML node to be rendered. The renderer tracks the lines of labelled nodes.
type Y struct {
	Sc    string // rendered scalar or flow text
	Map   []KY
	Seq   []*Y
	Kind  int // 0 scalar, 1 map, 2 sequence, 3 block literal, -1 left out
	Label string
}

type KY struct {
	K string
	V *Y
}

func ys(s string) *Y            { return &Y{Sc: s} }
func ym(kv ...KY) *Y            { return &Y{Kind: 1, Map: kv} }
func yq(s string) *Y            { return &Y{Sc: quote(s)} }
func (y *Y) add(k string, v *Y) { y.Map = append(y.Map, KY{k, v}) }
func (y *Y) label(l string) *Y  { y.Label = l; return y }

func quote(s string) string { return string(mustJSON(s)) }

var plainKey = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_-]*$`)

func yamlKey(k string) string {
	if plainKey.MatchString(k) {
		return k
	}
	if strings.HasPrefix(k, "(") && plainAnn.MatchString(k) {
		return k
	}
	return quote(k)
}

var plainAnn = regexp.MustCompile(`^\([A-Za-z_][A-Za-z0-9_.-]*\)$`)

// Lines is a range of lines.
type Lines struct{ From, To int }

type yr struct {
	b     strings.Builder
	line  int
	lines map[string]Lines
}

func (r *yr) w(s string) {
	r.b.WriteString(s)
	r.line += strings.Count(s, "\n")
}

// val renders the value of a key: the cursor is right behind "key:" or "-".
func (r *yr) val(y *Y, indent int) {
	start := r.line
	switch {
	case y.Kind == 1 && len(y.Map) > 0:
		r.w("\n")
		r.m(y, indent)
	case y.Kind == 1:
		r.w(" {}\n")
	case y.Kind == 2 && len(y.Seq) > 0:
		r.w("\n")
		for _, e := range y.Seq {
			r.w(strings.Repeat(" ", indent) + "-")
			r.val(e, indent+2)
		}
	case y.Kind == 2:
		r.w(" []\n")
	case y.Kind == 3:
		r.w(" |-\n")
		for _, l := range strings.Split(y.Sc, "\n") {
			r.w(strings.Repeat(" ", indent) + l + "\n")
		}
	default:
		r.w(" " + y.Sc + "\n")
	}
	if y.Label != "" && r.lines != nil {
		r.lines[y.Label] = Lines{start, r.line - 1}
	}
}

func (r *yr) m(y *Y, indent int) {
	for _, kv := range y.Map {
		r.w(strings.Repeat(" ", indent) + yamlKey(kv.K) + ":")
		r.val(kv.V, indent+2)
	}
}

// renderDoc renders a document with the given head line and returns the text and the lines of labelled nodes.
func renderDoc(head string, y *Y, lines map[string]Lines) string {
	r := &yr{line: 1, lines: lines}
	if head != "" {
		r.w(head + "\n")
	}
	start := r.line
	if y.Kind == 1 {
		r.m(y, 0)
	} else {
		r.val(y, 0)
	}
	if y.Label != "" && lines != nil {
		lines[y.Label] = Lines{start, r.line - 1}
	}
	return r.b.String()
}

package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	raml "github.com/acronis/go-raml/v2"
)

// c21 is a set of files with values in many places.
type c21 struct {
	Files map[string]string `json:"files"`
	Slots []slot            `json:"slots"`
	Valid bool              `json:"valid"` // the values suit the types
	Rich  int               `json:"rich"`  // number of nodes that are not plainly written
	Bad   string            `json:"bad"`   // the file with a malformed value
	In    string            `json:"in"`    // the file that includes it
}

// malformed stands for a value that is written in a wrong way.
type malformed struct{}

// slot is a place with a value.
type slot struct {
	File string          `json:"file"`
	Type string          `json:"type,omitempty"`
	Prop string          `json:"prop,omitempty"`
	What string          `json:"what"`
	Want json.RawMessage `json:"want"`
	In   string          `json:"in"`            // the file that holds the value
	Line int             `json:"line"`          // 0 if unknown
	Own  int             `json:"own,omitempty"` // line of the example or of the annotation
}

// emitter writes a file and knows the current line.
type emitter struct {
	g     G
	b     strings.Builder
	line  int
	path  string
	ann   string
	files map[string]string
	n     *int
	rich  *int
	bad   *breaker
}

// breaker makes one of the values malformed.
type breaker struct {
	left int    // values to go, negative for none
	file string // where it is
	in   string // the file that includes it
}

func (e *emitter) w(s string) {
	e.b.WriteString(s)
	e.line += strings.Count(s, "\n")
}

func (e *emitter) wf(format string, args ...any) { e.w(fmt.Sprintf(format, args...)) }

func newEmitter(g G, p string, files map[string]string, n, rich *int) *emitter {
	return &emitter{g: g, line: 1, path: p, ann: "(note):", files: files, n: n, rich: rich}
}

var c21ints = []json.Number{"0", "1", "-1", "7", "255", "4096", "2147483648", "9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615"}
var c21floats = []json.Number{"1.5", "-0.25", "1e3", "0.1", "1e-7", "123456789012345678901234567890", "2.0", "1.7976931348623157e308", "-1E+2"}

var c21strings = []string{"text", "two words", "and three words", "", "5", "1.5", "true", "null", "~", "2020-01-01", "2001-12-14T21:59:43Z", "2001-12-14 21:59:43.10 -5",
	"yes", "No", "a: b", "a #b", "# c", "- x", "[1]", "]", "{\"a\": 1}", "{", "!include x", "&a", "*a", "'", "\"", "\\", "\\n", "a\tb", "line\nbreak", "line\n\nbreak\n", "word\n", "two words\n", "two words\n\n",
	"\n", "  lead", "trail ", "trail\n\n", "äöü", "日本語", "😀", "\u2028", "\u00a0", "\x01", "\x7f", "a\r\nb", "http://x.y/z?a=b#c", "12:30:45", "0x", "1.2.3", ".inf", ".NaN", "-",
	"<b>&amp;</b>", "%", "@", "`", "?", "k: v\nl: w", "--- a", "...", "é", "1_000", "0b2", "+", "=", "<<", "value"}

var c21keys = []string{"a", "b", "key", "with space", "5", "true", "null", "", "1.5", "a.b", "ключ", "$ref", "x-y", "(note)", "{", "2020-01-01", "-", "a: b", "\n", "strict"}

// omap is a map with an order.
type omap []jkv

func (e *emitter) draw(depth int, root bool) any {
	g := e.g
	if e.bad != nil {
		if e.bad.left--; e.bad.left == -1 {
			return malformed{}
		}
	}
	switch g.W(8, 4, 3, 2, 2, 4, 5) {
	case 0:
		s := pick(g, c21strings)
		if root && strings.HasPrefix(s, "{") {
			s = "_" + s // a string that starts with a brace is JSON
		}
		return s
	case 1:
		return pick(g, c21ints)
	case 2:
		return pick(g, c21floats)
	case 3:
		return g.Bool()
	case 4:
		return nil
	case 5:
		var out = []any{}
		if depth > 0 {
			for i, n := 0, g.Int(0, 3); i < n; i++ {
				out = append(out, e.draw(depth-1, false))
			}
		}
		return out
	}
	out := omap{}
	if depth > 0 {
		keys := c21keys
		if !root {
			keys = append([]string{"value"}, keys...)
		}
		for _, k := range pickSome(g, keys, 0, 4) {
			out = append(out, jkv{k, e.draw(depth-1, false)})
		}
	}
	return out
}

// double is the double nearest to the number.
func double(n json.Number) string {
	f, err := strconv.ParseFloat(string(n), 64)
	if err != nil {
		bug("%v", err)
	}
	return "n" + new(big.Rat).SetFloat64(f).RatString()
}

func isInt(n json.Number) bool { return !strings.ContainsAny(string(n), ".eE") && len(n) < 24 }

// jsonWant is the value after reading JSON.
func jsonWant(v any) any {
	switch v := v.(type) {
	case json.Number:
		return double(v)
	case string:
		return "s" + v
	case []any:
		out := []any{}
		for _, i := range v {
			out = append(out, jsonWant(i))
		}
		return out
	case omap:
		out := map[string]any{}
		for _, kv := range v {
			out[kv.K] = jsonWant(kv.V)
		}
		return out
	}
	return v
}

// found is the value of the model in the same form.
func found(v any) any {
	switch v := v.(type) {
	case nil, bool:
		return v
	case string:
		return "s" + v
	case int:
		return "n" + strconv.Itoa(v)
	case int64:
		return "n" + strconv.FormatInt(v, 10)
	case uint64:
		return "n" + strconv.FormatUint(v, 10)
	case float64:
		if r := new(big.Rat).SetFloat64(v); r != nil {
			return "n" + r.RatString()
		}
	case []any:
		out := []any{}
		for _, i := range v {
			out = append(out, found(i))
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, i := range v {
			out[k] = found(i)
		}
		return out
	}
	return fmt.Sprintf("other %T %v", v, v)
}

// jsonString writes a string in JSON.
func (e *emitter) jsonString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteString("\\" + string(r))
		case r < 0x20 || r == 0x7f || e.g.P(1) && r < 0x10000:
			fmt.Fprintf(&b, "\\u%04x", r)
		case r == '/' && e.g.Bool():
			b.WriteString("\\/")
		case r > 0xffff && e.g.P(4):
			r -= 0x10000
			fmt.Fprintf(&b, "\\u%04X\\u%04x", 0xd800+r>>10, 0xdc00+r&0x3ff)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// jsonText writes a value in JSON.
func (e *emitter) jsonText(v any, pretty bool, ind string) string {
	nl, sp := "", ""
	if pretty {
		nl, sp = "\n"+ind+"  ", " "
	}
	switch v := v.(type) {
	case malformed:
		e.bad.file = e.path
		return pick(e.g, []string{"tru", "'x'", "{a: 1}", "[1,]", "{\"a\": 1,}", "{\"a\"}", "0x5", "+1", ".5", "1.", "nul", "[1", "{", "\"a", "\"\\x\"", "1 2", "NaN", "undefined"})
	case string:
		return e.jsonString(v)
	case []any:
		var ps []string
		for _, i := range v {
			ps = append(ps, nl+e.jsonText(i, pretty, ind+"  "))
		}
		if pretty && len(ps) > 0 {
			ps[len(ps)-1] += "\n" + ind
		}
		return "[" + strings.Join(ps, ",") + "]"
	case omap:
		var ps []string
		for _, kv := range v {
			ps = append(ps, nl+e.jsonString(kv.K)+sp+":"+sp+e.jsonText(kv.V, pretty, ind+"  "))
		}
		if pretty && len(ps) > 0 {
			ps[len(ps)-1] += "\n" + ind
		}
		return "{" + strings.Join(ps, ",") + "}"
	}
	return string(mustJSON(v))
}

// doubleQuoted writes a string in double quotes.
func (e *emitter) doubleQuoted(s string, ind int) string {
	g := e.g
	var b strings.Builder
	b.WriteByte('"')
	broken := false
	rs := []rune(s)
	for i, r := range rs {
		switch {
		case r == '"' || r == '\\':
			b.WriteString("\\" + string(r))
		case r == '\n':
			b.WriteString("\\n")
		case r == '\t' && g.Bool():
			b.WriteString("\\t")
		case r == 0x1b:
			b.WriteString("\\e")
		case r == 0x2028 && g.Bool():
			b.WriteString("\\L")
		case r == 0xa0 && g.Bool():
			b.WriteString("\\_")
		case r < 0x20 || r == 0x7f || r == 0x2028 || r == 0x85:
			if r < 0x100 && g.Bool() {
				fmt.Fprintf(&b, "\\x%02x", r)
			} else {
				fmt.Fprintf(&b, "\\u%04X", r)
			}
		case r > 0x7f && g.P(3):
			fmt.Fprintf(&b, "\\U%08x", r)
		case r == ' ' && !broken && i > 0 && i+1 < len(rs) && rs[i-1] > ' ' && rs[i+1] > ' ' && ind > 0 && g.P(3):
			b.WriteString("\n" + strings.Repeat(" ", ind)) // folded
			broken = true
		case r > ' ' && !broken && i > 0 && ind > 0 && g.P(1):
			b.WriteString("\\\n" + strings.Repeat(" ", ind) + string(r)) // an escaped line break
			broken = true
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func plainWords(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if !(r == ' ' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r > 0xbf && r < 0x2000) {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "null", "true", "false", "y", "n":
		return false
	}
	return !strings.HasPrefix(s, " ") && !strings.HasSuffix(s, " ") && !strings.Contains(s, "  ")
}

// plainStrings may be written without quotes in blocks, though they look special.
var plainStrings = map[string]bool{"2020-01-01": true, "2001-12-14T21:59:43Z": true, "2001-12-14 21:59:43.10 -5": true, "http://x.y/z?a=b#c": true, "12:30:45": true,
	"0x": true, "1.2.3": true, "<b>&amp;</b>": true, "0b2": true, "+": true, "\\n": true, "\\": true, "日本語": true, "yes": true, "No": true, "...a": true, "😀": true}

// scalar writes a string: it returns the text, which may be a block.
func (e *emitter) str(s string, ind int, flow bool) (text string, block bool) {
	g := e.g
	printable := utf8.ValidString(s)
	for _, r := range s {
		if r < 0x20 && r != '\n' && r != '\t' || r == 0x7f || r == 0x2028 || r == 0x85 || r == 0xfeff {
			printable = false
		}
	}
	line := !strings.Contains(s, "\n")
	fold := func(s string) string {
		if i := strings.Index(s, " "); i > 0 && i+1 < len(s) && s[i+1] > ' ' && ind > 0 && g.P(4) {
			return s[:i] + "\n" + strings.Repeat(" ", ind) + s[i+1:]
		}
		return s
	}
	for {
		switch g.W(4, 3, 3, 3, 1, 1) {
		case 0:
			if plainWords(s) {
				if i := strings.Index(s, " "); i > 0 && ind > 0 && g.P(3) {
					*e.rich++
					return s[:i] + "\n" + strings.Repeat(" ", ind) + s[i+1:], false
				}
				return s, false
			}
			if plainStrings[s] && !flow {
				*e.rich++
				return s, false
			}
		case 1:
			return e.doubleQuoted(s, ind), false
		case 2:
			if printable && line && !strings.Contains(s, "\t") {
				*e.rich++
				return "'" + fold(strings.ReplaceAll(s, "'", "''")) + "'", false
			}
		case 3:
			if flow || !printable || s == "" || strings.Trim(s, "\n ") == "" || ind == 0 {
				continue
			}
			*e.rich++
			return e.literal(s, ind), true
		case 4:
			// Folded: single line breaks stand for spaces, and the final ones are kept or dropped.
			body := strings.TrimRight(s, "\n")
			trail := len(s) - len(body)
			if flow || !plainWords(body) || ind == 0 || strings.HasPrefix(s, " ") || trail > 2 {
				continue
			}
			*e.rich++
			head := []string{">-", ">", ">+"}[trail]
			if trail == 1 && g.P(4) {
				head = ">+"
			}
			return head + "\n" + strings.Repeat(" ", ind) + strings.Replace(body, " ", "\n"+strings.Repeat(" ", ind), 1) + strings.Repeat("\n", max(0, trail-1)), true
		case 5:
			if plainWords(s) || printable && line && !strings.Contains(s, "\t") {
				*e.rich++
				return "!!str " + "'" + strings.ReplaceAll(s, "'", "''") + "'", false
			}
			if _, err := strconv.Atoi(s); err == nil {
				return "!!str " + s, false
			}
		}
	}
}

// literal writes a literal block.
func (e *emitter) literal(s string, ind int) string {
	body := strings.TrimRight(s, "\n")
	trail := len(s) - len(body)
	head := "|"
	if body[0] == ' ' || body[0] == '\n' || e.g.P(3) {
		head += "2"
	}
	switch {
	case trail == 0:
		head += "-"
	case trail > 1 || e.g.P(4):
		head += "+"
	}
	out := head
	for _, l := range strings.Split(body, "\n") {
		out += "\n"
		if l != "" {
			out += strings.Repeat(" ", ind) + l
		}
	}
	for i := 1; i < trail; i++ {
		out += "\n"
	}
	return out
}

// number writes a number and its value.
func (e *emitter) number(n json.Number) (string, string) {
	g := e.g
	if !isInt(n) {
		switch g.W(6, 1, 1) {
		case 1:
			return "!!float '" + string(n) + "'", double(n)
		case 2:
			if !strings.HasPrefix(string(n), "-") {
				return "+" + string(n), double(n)
			}
		}
		return string(n), double(n)
	}
	want := "n" + string(n)
	v, _ := new(big.Int).SetString(string(n), 10)
	switch g.W(8, 1, 1, 1, 1, 1) {
	case 1:
		if v.Sign() >= 0 && v.IsInt64() {
			return "+" + string(n), want
		}
	case 2:
		if v.Sign() >= 0 && v.IsInt64() {
			return "0x" + v.Text(16), want
		}
	case 3:
		if v.Sign() >= 0 && v.IsInt64() {
			return "0o" + v.Text(8), want
		}
	case 4:
		return "!!int \"" + string(n) + "\"", want
	case 5:
		if v.IsInt64() && v.Int64() < 1000 && v.Int64() > -1000 {
			return "!!float " + string(n), want
		}
	}
	return string(n), want
}

// key writes the key of a map.
func (e *emitter) key(k string, flow bool) string {
	switch e.g.W(5, 3, 2) {
	case 0:
		if plainWords(k) {
			return k
		}
		switch k {
		case "5", "true", "null", "1.5", "2020-01-01", "$ref", "x-y", "a.b", "(note)":
			return k
		}
	case 1:
		if !strings.ContainsAny(k, "\n\t") {
			return "'" + k + "'"
		}
	}
	return quote(k)
}

// value writes a value behind a colon, a dash or, in flow style, at the current position. In block style it ends the line.
// It returns the line and what the value means. inc is the number of nested levels of includes that are possible.
func (e *emitter) value(v any, ind int, flow bool, inc int) (int, any) {
	if inc == 0 || !e.g.P(2) {
		return e.inline(v, ind, flow, inc)
	}
	pre, end := " ", "\n"
	if flow {
		pre, end = "", ""
	}
	*e.rich++
	p, want := e.include(v, inc-1)
	e.w(pre)
	at := e.line
	e.w("!include " + p + end)
	return at, want
}

// inline writes a value that is not included as a whole.
func (e *emitter) inline(v any, ind int, flow bool, inc int) (int, any) {
	g := e.g
	pre := " "
	if flow {
		pre = ""
	}
	next := func() {
		// The value may be on the next line.
		if !flow && ind > 0 && g.P(1) {
			*e.rich++
			e.w("\n" + strings.Repeat(" ", ind))
		} else {
			e.w(pre)
		}
	}
	anchor := func() string {
		if g.P(1) {
			*e.n++
			*e.rich++
			return fmt.Sprintf("&a%d ", *e.n)
		}
		return ""
	}
	done := func() {
		if !flow {
			if g.P(2) {
				e.w(" # it's a \"comment\": {")
			}
			e.w("\n")
		}
	}
	switch v := v.(type) {
	case malformed:
		next()
		e.bad.file = e.path
		switch g.W(6, 2, 2, 2) {
		case 0:
			e.w(pick(g, []string{"!!int abc", "!!float x1", "!!bool maybe", "!!int 1.5", "!!int ''", "!!float \"1,5\"", "!!bool 5", "!!null x", "!!binary '%'"}))
		case 1:
			*e.n++
			e.w(fmt.Sprintf("!include %smissing%d%s", pick(g, []string{"", "data/", "../"}), *e.n, pick(g, []string{".txt", ".json", ".yaml", ""})))
		case 2:
			*e.n++
			sub := newEmitter(g, fmt.Sprintf("bad%d.json", *e.n), e.files, e.n, e.rich)
			sub.bad = e.bad
			e.files[sub.path] = sub.jsonText(v, false, "") + pick(g, []string{"", "\n"})
			e.bad.in = e.path
			e.w("!include " + relPath(&File{Path: e.path}, sub.path))
		case 3:
			*e.n++
			p := fmt.Sprintf("bad%d.%s", *e.n, pick(g, []string{"yaml", "yml"}))
			e.files[p] = pick(g, []string{"[a\n", "{a: b\n", "a: b: c\n", "- a\nb: c\n", "\"a\n", "a: [\n", "!!int x\n", "\ta: 5\n", "*x\n", "%\n"})
			e.bad.file, e.bad.in = p, e.path
			e.w("!include " + relPath(&File{Path: e.path}, p))
		}
		done()
		return 0, nil
	case nil:
		switch g.W(4, 2, 1, 1, 1) {
		case 1:
			next()
			at := e.line
			e.w("~")
			done()
			return at, nil
		case 2:
			if !flow {
				e.w("\n")
				return 0, nil
			}
		case 3:
			next()
			at := e.line
			e.w(pick(g, []string{"Null", "NULL"}))
			done()
			return at, nil
		case 4:
			next()
			at := e.line
			e.w("!!null ''")
			done()
			return at, nil
		}
		next()
		at := e.line
		e.w("null")
		done()
		return at, nil
	case bool:
		next()
		at := e.line
		s := strconv.FormatBool(v)
		e.w(anchor() + pick(g, []string{s, s, strings.ToUpper(s), strings.ToUpper(s[:1]) + s[1:], "!!bool " + s}))
		done()
		return at, v
	case json.Number:
		next()
		at := e.line
		s, want := e.number(v)
		e.w(anchor() + s)
		done()
		return at, want
	case string:
		s, block := e.str(v, ind, flow)
		if block {
			e.w(pre)
		} else {
			next()
		}
		at := e.line
		e.w(anchor() + s)
		if block {
			e.w("\n")
		} else {
			done()
		}
		return at, "s" + v
	case []any:
		out := []any{}
		if !flow && len(v) > 0 && g.P(11) {
			at := 0
			if a := anchor(); a != "" {
				e.w(" " + a)
				at = e.line
			}
			e.w("\n")
			for _, i := range v {
				e.w(strings.Repeat(" ", ind) + "-")
				if at == 0 {
					at = e.line
				}
				_, want := e.value(i, ind+2, false, inc)
				out = append(out, want)
			}
			return at, out
		}
		next()
		at := e.line
		e.w(anchor() + "[")
		for n, i := range v {
			if n > 0 {
				e.w(", ")
				if ind > 0 && g.P(2) {
					e.w("\n" + strings.Repeat(" ", ind))
				}
			}
			_, want := e.value(i, ind, true, inc)
			out = append(out, want)
		}
		e.w("]")
		done()
		return at, out
	case omap:
		out := map[string]any{}
		if !flow && len(v) > 0 && g.P(11) {
			e.w("\n")
			at := e.line
			for _, kv := range v {
				out[kv.K] = e.pair(kv, ind, inc)
			}
			return at, out
		}
		next()
		at := e.line
		e.w(anchor() + "{")
		for n, kv := range v {
			if n > 0 {
				e.w(",")
				if ind > 0 && g.P(2) {
					e.w("\n" + strings.Repeat(" ", ind))
				} else {
					e.w(" ")
				}
			}
			e.w(e.key(kv.K, true) + ": ")
			_, out[kv.K] = e.value(kv.V, ind, true, inc)
		}
		e.w("}")
		done()
		return at, out
	}
	bug("%T", v)
	return 0, nil
}

// pair writes a key and a value in block style.
func (e *emitter) pair(kv jkv, ind, inc int) any {
	e.w(strings.Repeat(" ", ind) + e.key(kv.K, false) + ":")
	_, want := e.value(kv.V, ind+2, false, inc)
	return want
}

// include moves a value to a file of its own and returns the relative path.
func (e *emitter) include(v any, inc int) (string, any) {
	g := e.g
	*e.n++
	p := fmt.Sprintf("%sv%d", pick(g, []string{"", "data/", "libs/", "libs/data/deep/"}), *e.n)
	s, isText := v.(string)
	switch kind := g.W(4, 4, 4); {
	case kind == 0 && isText:
		p += pick(g, []string{".txt", ".md", "", ".xml", ".JSON"})
		e.files[p] = s
		v = "s" + s
	case kind == 1:
		p += ".json"
		was := e.bad.file == ""
		e.files[p] = e.jsonText(v, g.Bool(), "")
		if was && e.bad.file != "" {
			e.bad.file = p
		}
		v = jsonWant(v)
		if g.Bool() {
			e.files[p] += "\n"
		}
	default:
		p += pick(g, []string{".yaml", ".yml"})
		sub := newEmitter(g, p, e.files, e.n, e.rich)
		sub.bad = e.bad
		if g.P(4) {
			sub.w("# a comment\n")
		}
		sub.w(pick(g, []string{"", "", "---\n", "---\n# text\n"}))
		v = sub.document(v, inc)
		e.files[p] = sub.b.String()
	}
	r := relPath(&File{Path: e.path}, p)
	if g.P(3) {
		r = "./" + r
	}
	if d := path.Dir(e.path); g.P(2) && d != "." {
		r = "../" + path.Base(d) + "/" + r
	}
	return r, v
}

// document writes a value as the whole document.
func (e *emitter) document(v any, inc int) any {
	if m, ok := v.(omap); ok && len(m) > 0 && e.g.P(8) {
		out := map[string]any{}
		for _, kv := range m {
			out[kv.K] = e.pair(kv, 0, inc)
		}
		return out
	}
	if s, ok := v.(string); ok {
		e.w(e.doubleQuoted(s, 0) + "\n")
		return "s" + s
	}
	_, want := e.value(v, 0, true, inc)
	e.w("\n")
	return want
}

// slot writes a root value.
func (e *emitter) slot(s slot, v any, ind int) slot {
	g := e.g
	s.In = e.path
	var want any
	if m, ok := v.(omap); ok && g.P(3) {
		// JSON in a string
		*e.rich++
		e.w(" ")
		s.Line = e.line
		t := e.jsonText(m, g.Bool(), "")
		t = strings.NewReplacer("\u2028", `\u2028`, "\x7f", `\u007f`).Replace(t)
		switch g.W(1, 1, 1) {
		case 0:
			e.w("'" + strings.ReplaceAll(strings.ReplaceAll(t, "\n", " "), "'", "''") + "'\n")
		case 1:
			e.w(quote(t) + "\n")
		default:
			e.w("|\n")
			for _, l := range strings.Split(t, "\n") {
				e.w(strings.Repeat(" ", ind) + l + "\n")
			}
		}
		want = jsonWant(m)
	} else if g.P(3) {
		*e.rich++
		var p string
		p, want = e.include(v, 1)
		e.w(" !include " + p + "\n")
		s.In, s.Line = path.Join(path.Dir(e.path), p), 1
	} else {
		s.Line, want = e.inline(v, ind, false, 1)
	}
	s.Want = mustJSON(want)
	return s
}

var c21kinds = []string{"any", "string", "integer", "number", "boolean", "object", "array", "datetime", "date-only", "time-only", "datetime-only", "nil", "file"}

func init() {
	register("C21", 8000, 150000,
		"at least five nodes are written in other than the plain way, and there are values in at least three places",
		func(g G) *c21 {
			c := &c21{Files: map[string]string{}, Valid: g.P(6)}
			var n int
			add := func(s slot) { c.Slots = append(c.Slots, s) }
			bad := &breaker{left: -2}
			if g.P(2) {
				bad.left = g.Int(0, 12)
			}
			open := func(p string) *emitter {
				e := newEmitter(g, p, c.Files, &n, &c.Rich)
				e.bad = bad
				return e
			}
			done := func(e *emitter) { c.Files[e.path] = e.b.String() }
			depth := func() int { return g.Int(0, 3) }
			sp := func(n int) string { return strings.Repeat(" ", n) }
			// An example as the value of a key.
			example := func(e *emitter, at slot, ind int) {
				if !g.P(6) {
					s := e.slot(at, e.draw(depth(), true), ind)
					s.Own = s.Line
					if s.In != e.path {
						s.Own = 0
					}
					add(s)
					return
				}
				e.w("\n")
				own := e.line
				order := g.perm(3)
				for _, i := range order {
					switch i {
					case 0:
						e.w(sp(ind) + "value:")
						s := e.slot(at, e.draw(depth(), true), ind+2)
						s.Own = own
						add(s)
					case 1:
						if g.P(5) {
							e.w(sp(ind) + pick(g, []string{"strict: false", "displayName: d", "description: d", "strict: true"}) + "\n")
						}
					case 2:
						if e.ann != "" && g.P(4) {
							a := at
							a.What += " annotation"
							key := e.line
							e.w(sp(ind) + e.ann)
							s := e.slot(a, e.draw(depth(), true), ind+2)
							s.Own = key
							add(s)
						}
					}
				}
			}
			named := func() string {
				e := open(fmt.Sprintf("%sex%d.raml", pick(g, []string{"", "examples/", "libs/ex/"}), n))
				n++
				e.ann = "" // names cannot be resolved in named examples
				e.w("#%RAML 1.0 NamedExample\n")
				for _, k := range pickSome(g, []string{"a", "b", "c"}, 1, 2) {
					e.w(k + ":")
					example(e, slot{File: e.path, What: "example " + k}, 2)
				}
				done(e)
				return e.path
			}
			// The facets of a type.
			facets := func(e *emitter, at slot, ind int, kind string, custom bool) {
				with := func(what string) slot { a := at; a.What = what; return a }
				for _, i := range g.perm(5) {
					switch {
					case i == 0 && g.P(6):
						e.w(sp(ind) + "default:")
						add(e.slot(with("default"), e.draw(depth(), true), ind+2))
					case i == 1 && g.P(6):
						e.w(sp(ind) + "example:")
						example(e, with("example"), ind+2)
					case i == 1 && g.P(6):
						e.w(sp(ind) + "examples:")
						if g.P(6) {
							e.w(" !include " + relPath(&File{Path: e.path}, named()) + "\n")
							continue
						}
						e.w("\n")
						for _, k := range pickSome(g, []string{"one", "two", "three"}, 1, 3) {
							e.w(sp(ind+2) + k + ":")
							example(e, with("example "+k), ind+4)
						}
					case i == 2 && !c.Valid && g.P(8) && (kind == "string" || kind == "integer" || kind == "number"):
						e.w(sp(ind) + "enum:\n")
						for i, n := 0, g.Int(1, 3); i < n; i++ {
							e.w(sp(ind+2) + "-")
							add(e.slot(with(fmt.Sprintf("enum %d", i)), e.draw(depth(), true), ind+4))
						}
					case i == 3 && g.P(4):
						key := e.line
						e.w(sp(ind) + e.ann)
						s := e.slot(with("annotation"), e.draw(depth(), true), ind+2)
						s.Own = key
						add(s)
					case i == 4 && custom && g.P(8):
						e.w(sp(ind) + "cf:")
						add(e.slot(with("facet"), e.draw(depth(), true), ind+2))
					}
				}
			}
			kind := func() string {
				if c.Valid {
					return "any"
				}
				return pick(g, c21kinds)
			}
			var dts []string
			library := func(p string) *emitter {
				e := open(p)
				e.w("#%RAML 1.0 Library\nannotationTypes:\n  note: any\n")
				if g.P(4) {
					key := e.line
					e.w("(note):")
					s := e.slot(slot{File: p, What: "annotation"}, e.draw(depth(), true), 2)
					s.Own = key
					add(s)
				}
				return e
			}
			types := func(e *emitter, k int) {
				e.w("types:\n")
				for i := 0; i < k; i++ {
					t := fmt.Sprintf("T%d", i)
					kd := kind()
					if g.P(5) {
						e.wf("  %s:\n    type: object\n    properties:\n      p:\n        type: %s\n", t, kd)
						facets(e, slot{File: e.path, Type: t, Prop: "p"}, 8, kd, false)
						continue
					}
					e.wf("  B%d:\n    type: %s\n    facets:\n      cf?: any\n", i, kd)
					e.wf("  %s:\n    type: B%d\n", t, i)
					facets(e, slot{File: e.path, Type: t}, 4, kd, true)
				}
			}
			main := library("main.raml")
			if g.Bool() {
				lib := library("libs/lib.raml")
				types(lib, g.Int(1, 2))
				done(lib)
				main.w("uses:\n  lib: libs/lib.raml\n")
			}
			for i, k := 0, g.Int(0, 1); i < k; i++ {
				e := open(fmt.Sprintf("%sdt%d.raml", pick(g, []string{"", "dts/", "libs/"}), i))
				e.ann = "(m.note):"
				e.w("#%RAML 1.0 DataType\nuses:\n  m: " + relPath(&File{Path: e.path}, "main.raml") + "\n")
				kd := kind()
				e.wf("type: %s\n", kd)
				facets(e, slot{File: e.path}, 0, kd, false)
				done(e)
				dts = append(dts, e.path)
			}
			types(main, g.Int(1, 3))
			for i, p := range dts {
				main.wf("  D%d: !include %s\n", i, p)
			}
			done(main)
			c.Bad, c.In = bad.file, bad.in
			sort.SliceStable(c.Slots, func(i, j int) bool { return c.Slots[i].File < c.Slots[j].File })
			return c
		},
		checkValues)
}

func checkValues(x *X, c *c21) {
	dir := x.writeFiles("w", c.Files)
	modes := []Mode{parseOnly, unwrapped}
	if c.Valid {
		modes = append(modes, full)
	}
	places := map[string]bool{}
	if c.Bad != "" {
		for _, mode := range []Mode{parseOnly, unwrapped, full} {
			_, err := parseDir(dir, "main.raml", mode)
			if err == nil {
				x.Fail("malformed value is accepted", "in %s\n%s", c.Bad, dumpFiles(c.Files))
			}
			named := false
			for _, e := range x.trace(err, dir) {
				named = named || e.File == c.Bad || e.File == c.In
			}
			if !named {
				x.Fail("error does not name the file of a malformed value", "%s: %s\n%s", c.Bad, x.errText(err), dumpFiles(c.Files))
			}
		}
		x.NonTrivial()
		x.Label("malformed value")
		return
	}
	for _, mode := range modes {
		m, err := parseDir(dir, "main.raml", mode)
		if err != nil {
			x.Fail("valid values are rejected", "%s\n%s", x.errText(err), dumpFiles(c.Files))
		}
		for _, s := range c.Slots {
			fail := func(kind, format string, args ...any) {
				x.Fail(kind, "%s of %s %s %s: %s\n%s", s.What, s.File, s.Type, s.Prop, fmt.Sprintf(format, args...), dumpFiles(c.Files))
			}
			n, own := m.at(x, s)
			if n == nil {
				fail("value is missing", "want %s", s.Want)
			}
			var want any
			if err := json.Unmarshal(s.Want, &want); err != nil {
				bug("%v", err)
			}
			if got := found(n.Value); !reflect.DeepEqual(got, want) {
				fail("value changes", "%s instead of %s", mustJSON(got), s.Want)
			}
			if in := m.rel(n.Location); in != s.In {
				fail("value has another location", "%s instead of %s", in, s.In)
			}
			if s.Line > 0 && n.Position.Line != s.Line {
				fail("value has another line", "%d instead of %d", n.Position.Line, s.Line)
			}
			if s.Own > 0 && own != s.Own {
				fail("example or annotation has another line", "%d instead of %d", own, s.Own)
			}
			places[strings.Fields(s.What)[0]] = true
			x.Label("%s", strings.Fields(s.What)[0])
		}
	}
	x.nontrivial = c.Rich >= 5 && len(places) >= 3
}

func (m *Model) rel(p string) string {
	r, ok := strings.CutPrefix(p, m.Dir+"/")
	if !ok {
		return p
	}
	return r
}

// at finds the value of a slot, and the line of the example or annotation that it belongs to.
func (m *Model) at(x *X, s slot) (*raml.Node, int) {
	example := func(e *raml.Example, rest []string) (*raml.Node, int) {
		if e == nil {
			return nil, 0
		}
		if len(rest) == 0 {
			return e.Data, e.Position.Line
		}
		a, _ := e.CustomDomainProperties.Get("note")
		if a == nil {
			a, _ = e.CustomDomainProperties.Get("m.note")
		}
		if a == nil {
			return nil, 0
		}
		if m.rel(a.Location) != s.File {
			x.Fail("annotation has another location", "%s instead of %s", a.Location, s.File)
		}
		return a.Extension, a.Position.Line
	}
	w := strings.Fields(s.What)
	if f, ok := m.frag(s.File).(*raml.NamedExample); ok {
		e, _ := f.Map.Get(w[1])
		return example(e, w[2:])
	}
	if s.Type == "" && s.What == "annotation" {
		if l, ok := m.frag(s.File).(*raml.Library); ok {
			a, _ := l.CustomDomainProperties.Get("note")
			if a == nil {
				return nil, 0
			}
			return a.Extension, a.Position.Line
		}
	}
	b := x.shape(m, TypeID{s.File, s.Type})
	if s.Prop != "" {
		o, _ := b.Shape.(*raml.ObjectShape)
		if o == nil {
			return nil, 0
		}
		p, _ := o.Properties.Get(s.Prop)
		if p.Base == nil {
			return nil, 0
		}
		b = p.Base
	}
	switch w[0] {
	case "default":
		return b.Default, 0
	case "example":
		if len(w) == 1 || w[1] == "annotation" {
			return example(b.Example, w[1:])
		}
		if b.Examples == nil || b.Examples.Map == nil {
			return nil, 0
		}
		e, _ := b.Examples.Map.Get(w[1])
		return example(e, w[2:])
	case "annotation":
		for p := b.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
			if p.Key == "note" || p.Key == "m.note" {
				return p.Value.Extension, p.Value.Position.Line
			}
		}
	case "facet":
		n, _ := b.CustomShapeFacets.Get("cf")
		return n, 0
	case "enum":
		i, _ := strconv.Atoi(w[1])
		var ns raml.Nodes
		switch t := b.Shape.(type) {
		case *raml.StringShape:
			ns = t.Enum
		case *raml.IntegerShape:
			ns = t.Enum
		case *raml.NumberShape:
			ns = t.Enum
		}
		if i < len(ns) {
			return ns[i], 0
		}
	}
	return nil, 0
}

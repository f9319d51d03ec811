package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-stacktrace"
)

// c23 is a call of the command-line tool.
type c23 struct {
	Units []cliUnit `json:"units"`
	Args  []cliArg  `json:"args"`
	Flags []cliFlag `json:"flags,omitempty"`
}

// cliUnit is a directory of files.
type cliUnit struct {
	W     *World `json:"w"`
	Fault *Fault `json:"fault,omitempty"`
}

// cliArg is a path of the call.
type cliArg struct {
	Unit int    `json:"u"` // -1 for none
	Path string `json:"p,omitempty"`
	Abs  bool   `json:"a,omitempty"`
}

type cliFlag struct {
	At   int    `json:"at"`
	Text string `json:"t"`
}

func genCLI(g G) *c23 {
	c := &c23{}
	for i, n := 0, g.W(1, 2, 5, 5, 2); i < n; i++ {
		wg := newWG(g, GO{Libs: 1, DTs: 1, Types: 3, Ex: g.P(3)})
		u := cliUnit{W: wg.world()}
		if g.P(5) {
			u.Fault = wg.inject(nil)
		}
		c.Units = append(c.Units, u)
	}
	for i, n := 0, g.W(1, 3, 5, 8, 5, 3); i < n; i++ {
		a := cliArg{Unit: -1, Path: pick(g, []string{"missing.raml", ".", "unit0", "text.txt", "missing/x.raml"}), Abs: g.P(3)}
		if len(c.Units) > 0 && !g.P(1) {
			a.Unit = g.Idx(len(c.Units))
			a.Path = ""
			if g.P(2) { // another file of the same directory
				a.Path = pick(g, c.Units[a.Unit].W.Files).Path
			}
		}
		c.Args = append(c.Args, a)
	}
	for i, n := 0, g.W(6, 3, 2, 1); i < n; i++ {
		c.Flags = append(c.Flags, cliFlag{At: g.Int(0, len(c.Args)+1), Text: pick(g, []string{"-d", "-d", "--ensure-duplicates", "-v", "-vv", "--verbosity", "-dv"})})
	}
	return c
}

var cliHead = regexp.MustCompile(`(?m)^\[\d\d:\d\d:\d\d\.\d{3}\] ([A-Z]+): (.*?) \{$`)

type cliEntry struct {
	Level, Message string
	Attrs          map[string]any
}

// cliEntries reads the log of the tool.
func (x *X) cliEntries(s string) []cliEntry {
	var out []cliEntry
	for _, m := range cliHead.FindAllStringSubmatchIndex(s, -1) {
		e := cliEntry{Level: s[m[2]:m[3]], Message: s[m[4]:m[5]]}
		d := json.NewDecoder(strings.NewReader(s[m[1]-1:]))
		if err := d.Decode(&e.Attrs); err != nil {
			x.Fail("unreadable log", "%v\n%s", err, s)
		}
		out = append(out, e)
	}
	return out
}

// cliTraces is what the tool should write about an error.
func cliTraces(err error, unique bool) map[string]any {
	st, ok := stacktrace.Unwrap(err)
	if !ok {
		return map[string]any{"error": err.Error()}
	}
	var opts []stacktrace.TracesOpt
	if unique {
		opts = append(opts, stacktrace.WithEnsureDuplicates())
	}
	traces := map[string]any{}
	for i, t := range st.GetTraces(opts...) {
		stack := map[string]any{}
		for j, s := range t.Stack {
			e := map[string]any{"message": s.Message}
			if s.Type != nil {
				e["type"] = s.Type.String()
			}
			if s.Severity != nil {
				e["severity"] = s.Severity.String()
			}
			if s.LinePos != nil {
				e["position"] = *s.LinePos
			}
			stack[strconv.Itoa(j)] = e
		}
		traces[strconv.Itoa(i)] = map[string]any{"stack": stack}
	}
	return map[string]any{"tracebacks": map[string]any{"traces": traces}}
}

func init() {
	register("C23", 1600, 60000,
		"the call names at least two files, valid ones and invalid ones",
		genCLI, checkCLI)
}

func checkCLI(x *X, c *c23) {
	tool := os.Getenv("VERIF_CLI")
	if tool == "" {
		panic("no VERIF_CLI")
	}
	files := map[string]string{"text.txt": "no RAML\n"}
	for i, u := range c.Units {
		for p, t := range u.W.render() {
			files[fmt.Sprintf("unit%d/%s", i, p)] = t
		}
	}
	dir := x.writeFiles("w", files)
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer func() { _ = os.Chdir(old) }()
	var words, paths []string
	words = append(words, "validate")
	for _, a := range c.Args {
		p := a.Path
		if a.Unit >= 0 {
			if p == "" {
				p = c.Units[a.Unit].W.Files[0].Path
			}
			p = fmt.Sprintf("unit%d/%s", a.Unit, p)
		}
		if a.Abs {
			p = filepath.Join(dir, p)
		}
		words = append(words, p)
		paths = append(paths, p)
	}
	unique := false
	for i := len(c.Flags) - 1; i >= 0; i-- {
		f := c.Flags[i]
		at := min(f.At, len(words))
		words = append(words[:at:at], append([]string{f.Text}, words[at:]...)...)
		unique = unique || strings.HasPrefix(f.Text, "-d") || f.Text == "--ensure-duplicates"
	}
	var stdout, stderr bytes.Buffer
	cmd := exec.Command(tool, words...)
	cmd.Dir = dir
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	show := func() string {
		return fmt.Sprintf("raml %s\nexit status %d\n%s%s\n%s", strings.Join(words, " "), code, stdout.String(), stderr.String(), dumpFiles(files))
	}
	entries := x.cliEntries(stderr.String())
	if len(paths) == 0 {
		if code == 0 || len(entries) > 0 {
			x.Fail("a call without files succeeds", "%s", show())
		}
		return
	}
	valid, invalid := 0, 0
	for i, p := range paths {
		take := func() cliEntry {
			if len(entries) == 0 {
				x.Fail("no report of a file", "argument %d, %s\n%s", i+1, p, show())
			}
			e := entries[0]
			entries = entries[1:]
			return e
		}
		_, err := raml.ParseFromPath(p, raml.OptWithUnwrap(), raml.OptWithValidate())
		if e := take(); e.Level != "INFO" || !reflect.DeepEqual(e.Attrs, map[string]any{"path": p}) {
			x.Fail("start of a file not reported", "argument %d, %s: %v\n%s", i+1, p, e, show())
		}
		e := take()
		if err == nil {
			valid++
			if e.Level != "INFO" || e.Message != "RAML is valid" || !reflect.DeepEqual(e.Attrs, map[string]any{"path": p}) {
				x.Fail("valid file not reported as valid", "argument %d, %s: %v\n%s", i+1, p, e, show())
			}
			continue
		}
		invalid++
		if e.Level != "ERROR" || e.Message != "RAML is invalid" {
			x.Fail("invalid file not reported as invalid", "argument %d, %s: %v\n%v\n%s", i+1, p, e, err, show())
		}
		if want := cliTraces(err, unique); !reflect.DeepEqual(e.Attrs, want) {
			x.Fail("report differs from the error", "argument %d, %s\nlibrary %s\ntool    %s\n%s", i+1, p, mustJSON(want), mustJSON(e.Attrs), show())
		}
	}
	if (code != 0) != (invalid > 0) {
		x.Fail("wrong exit status", "%d files are valid, %d are invalid\n%s", valid, invalid, show())
	}
	x.Label("%d valid, %d invalid", min(valid, 2), min(invalid, 2))
	if valid > 0 && invalid > 0 {
		x.NonTrivial()
	}
}

package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-stacktrace"
)

// Mode is a combination of the options of the parser.
type Mode struct{ Unwrap, Validate bool }

func (m Mode) opts() []raml.ParseOpt {
	var o []raml.ParseOpt
	if m.Unwrap {
		o = append(o, raml.OptWithUnwrap())
	}
	if m.Validate {
		o = append(o, raml.OptWithValidate())
	}
	return o
}

var (
	parseOnly = Mode{}
	unwrapped = Mode{Unwrap: true}
	validated = Mode{Validate: true}
	full      = Mode{true, true}
)

// writeFiles writes files below an empty directory of the given name in the scratch directory.
func (x *X) writeFiles(name string, files map[string]string) string {
	dir := filepath.Join(x.dir, name)
	if err := os.RemoveAll(dir); err != nil {
		bug("%v", err)
	}
	for p, content := range files {
		full := filepath.Join(dir, filepath.FromSlash(p))
		if !strings.HasPrefix(full, dir+"/") {
			bug("path %s escapes", p)
		}
		if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			bug("%v", err)
		}
		if err := os.WriteFile(full, []byte(content), 0o644); err != nil {
			bug("%v", err)
		}
	}
	return dir
}

// Model is a parsed world.
type Model struct {
	R   *raml.RAML
	Dir string
}

// parse writes and parses the world.
func (x *X) parse(w *World, m Mode) (*Model, error) {
	dir := x.writeFiles("w", w.render())
	return parseDir(dir, w.Files[0].Path, m)
}

func parseDir(dir, entry string, m Mode) (*Model, error) {
	r, err := raml.ParseFromPath(filepath.Join(dir, filepath.FromSlash(entry)), m.opts()...)
	if err != nil {
		return nil, err
	}
	return &Model{r, dir}, nil
}

// errText renders an error without the scratch directory.
func (x *X) errText(err error) string {
	if err == nil {
		return ""
	}
	var st *stacktrace.StackTrace
	s := err.Error()
	if errors.As(err, &st) {
		s = st.Error()
	}
	return strings.ReplaceAll(s, x.dir, "$DIR")
}

// mustParse parses a world that is valid by construction.
func (x *X) mustParse(w *World, m Mode) *Model {
	md, err := x.parse(w, m)
	if err != nil {
		x.Fail("valid declarations are rejected", "%s\n%s", x.errText(err), dumpFiles(w.render()))
	}
	return md
}

func dumpFiles(files map[string]string) string {
	var b strings.Builder
	for _, p := range keysOf(files) {
		fmt.Fprintf(&b, "--- %s\n%s", p, files[p])
	}
	return b.String()
}

// frag returns the fragment of the file.
func (m *Model) frag(p string) raml.Fragment {
	return m.R.GetFragment(filepath.Join(m.Dir, filepath.FromSlash(p)))
}

// shape returns the shape of the declared type, nil if it does not exist.
func (m *Model) shape(id TypeID) *raml.BaseShape {
	switch f := m.frag(id.File).(type) {
	case *raml.Library:
		s, _ := f.Types.Get(id.Name)
		return s
	case *raml.DataType:
		return f.Shape
	}
	return nil
}

func (x *X) shape(m *Model, id TypeID) *raml.BaseShape {
	s := m.shape(id)
	if s == nil {
		x.Fail("declared type is missing", "%s %s", id.File, id.Name)
	}
	return s
}

// Inst is a value to validate against a declared type.
type Inst struct {
	ID   TypeID `json:"id"`
	V    V      `json:"v"`
	Ints bool   `json:"ints,omitempty"` // numbers are decoded as yaml does
}

// instances draws values for the types.
func instances(g G, s *Sem, ids []TypeID, n int) []Inst {
	var out []Inst
	for i := 0; i < n && len(ids) > 0; i++ {
		id := pick(g, ids)
		out = append(out, Inst{id, s.sample(g, 3, s.id(id)), g.Bool()})
	}
	return out
}

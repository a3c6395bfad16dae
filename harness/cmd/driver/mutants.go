package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/woven-planet/go-zserio/verif/zs"
)

var tokenRE = regexp.MustCompile("\"(?:\\\\.|[^\"\\\\\n])*\"|/\\*(?s:.*?)\\*/|//[^\n]*|[@A-Za-z_][A-Za-z0-9_]*|[0-9][0-9A-Za-z_.]*|<<|&&|\\|\\||[<>=!]=|(?s:.)")

// split gives the tokens of a schema; white space and comments are glued to the
// token before.
func split(src string) []string {
	var out []string
	for _, t := range tokenRE.FindAllString(src, -1) {
		blank := strings.TrimSpace(t) == "" || strings.HasPrefix(t, "/*") || strings.HasPrefix(t, "//")
		if blank && len(out) > 0 {
			out[len(out)-1] += t
			continue
		}
		out = append(out, t)
	}
	return out
}

var tokenPool = strings.Fields(`; { } ( ) [ ] < > , : . = + - * / % & | ^ ~ ! ? == != <= >= << && || "x" 0 1 2 7 8 64 65 255 256 -1 0x7f 101b 017 1.5 2.5f 18446744073709551616
package import const subtype struct choice union enum bitmask on case default function return if optional packed implicit align
instantiate true false isset lengthof valueof numbits @index
int8 uint8 int16 uint16 int32 uint32 int64 uint64 bit:3 int:5 bit:64 bool string float16 float32 float64 varint varint16 varuint varsize varuint32 bytes extern`)

var idRE = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

// mutateSchema changes a few tokens or bytes.
func mutateSchema(r *rand.Rand, src string, ids []string) string {
	toks := split(src)
	word := func(t string) string { return strings.TrimRight(strings.SplitN(t, "/", 2)[0], " \t\r\n") }
	for n := 1 + r.Intn(3)/2; n > 0 && len(toks) > 0; n-- {
		i := r.Intn(len(toks))
		j := r.Intn(len(toks))
		any := tokenPool[r.Intn(len(tokenPool))]
		if r.Intn(2) == 0 && len(ids) > 0 {
			any = ids[r.Intn(len(ids))]
		}
		switch r.Intn(10) {
		case 0:
			toks = append(append([]string{}, toks[:i]...), toks[i+1:]...)
		case 1:
			toks = append(append(append([]string{}, toks[:i]...), toks[i]+" "), toks[i:]...)
		case 2:
			toks[i] = any + " "
		case 3:
			toks = append(append(append([]string{}, toks[:i]...), any+" "), toks[i:]...)
		case 4:
			toks[i], toks[j] = toks[j]+" ", toks[i]+" "
		case 5: // a whole range once more, or not at all
			e := i + 1 + r.Intn(12)
			if e > len(toks) {
				e = len(toks)
			}
			if r.Intn(2) == 0 {
				toks = append(append([]string{}, toks[:i]...), toks[e:]...)
			} else {
				toks = append(append(append([]string{}, toks[:e]...), toks[i:e]...), toks[e:]...)
			}
		case 6: // one byte
			b := []byte(strings.Join(toks, ""))
			if len(b) == 0 {
				break
			}
			p := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b = b[:p]
			case 1:
				b[p] = byte(r.Intn(256))
			case 2:
				b = append(b[:p], b[p+1:]...)
			default:
				b[p] = "\"'`\\\x00{}<>/*@#$"[r.Intn(14)]
			}
			toks = split(string(b))
		default: // a name for a name
			for k := 0; k < len(toks); k++ {
				if p := (i + k) % len(toks); idRE.MatchString(word(toks[p])) {
					if len(ids) > 0 && r.Intn(3) > 0 {
						any = ids[r.Intn(len(ids))]
					}
					toks[p] = any + " "
					break
				}
			}
		}
	}
	return strings.Join(toks, "")
}

// goChecker type checks generated packages.
type goChecker struct {
	mu  sync.Mutex
	imp types.Importer
}

// newGoChecker makes the runtime and the standard library known to the checker.
func newGoChecker(r *Run) *goChecker {
	writeFile(filepath.Join(r.Mod, "deps", "deps.go"), `package deps

import (
	_ "database/sql/driver"
	_ "errors"
	_ "fmt"
	_ "io"
	_ "math"
	_ "math/bits"
	_ "sort"
	_ "strings"

	_ "github.com/woven-planet/go-zserio"
	_ "github.com/woven-planet/go-zserio/zstream"
	_ "github.com/woven-planet/go-zserio/ztype"
)
`)
	out, err := r.goCmd(r.Mod, "list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}", "./deps").Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if p, f, ok := strings.Cut(l, " "); ok {
			exports[p] = f
		}
	}
	return &goChecker{imp: importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
		if f := exports[path]; f != "" {
			return os.Open(f)
		}
		return nil, fmt.Errorf("generated code may not use %s", path)
	})}
}

func (g *goChecker) runtime(path string) (*types.Package, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.imp.Import(path)
}

// around shows where two texts differ.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := 0
	for j < len(a)-i && j < len(b)-i && a[len(a)-1-j] == b[len(b)-1-j] {
		j++
	}
	lo, hi := max(0, i-60), min(len(b), len(b)-j+60)
	return fmt.Sprintf("%q became %q in %q", a[i:len(a)-j], b[i:len(b)-j], b[lo:hi])
}

// genImporter imports generated packages from a tree.
type genImporter struct {
	g    *goChecker
	t    tree
	root string
	done map[string]*types.Package
	errs []error
}

func (im *genImporter) Import(path string) (*types.Package, error) {
	rel, ok := strings.CutPrefix(path, im.root+"/")
	if !ok {
		return im.g.runtime(path)
	}
	if p, ok := im.done[rel]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle or missing package %s", rel)
		}
		return p, nil
	}
	im.done[rel] = nil
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range im.t.files() {
		if filepath.Dir(f) != rel {
			continue
		}
		a, err := parser.ParseFile(fset, f, im.t[f], parser.SkipObjectResolution)
		if err != nil {
			im.errs = append(im.errs, err)
			continue
		}
		files = append(files, a)
	}
	conf := types.Config{Importer: im, Error: func(err error) { im.errs = append(im.errs, err) }}
	p, _ := conf.Check(path, fset, files, nil)
	im.done[rel] = p
	return p, nil
}

// check gives the errors in all generated packages of a tree.
func (g *goChecker) check(t tree, root string) []error {
	im := &genImporter{g: g, t: t, root: root, done: map[string]*types.Package{}}
	for _, f := range t.files() {
		im.Import(root + "/" + filepath.Dir(f))
	}
	return im.errs
}

// mutants feeds changed schemas to the generator.
func mutants(r *Run) {
	type base struct {
		name  string
		files map[string]string
		keys  []string
		ids   []string
	}
	var bases []base
	add := func(name string, files map[string]string) {
		b := base{name: name, files: files}
		ids := map[string]bool{}
		size := 0
		for f, src := range files {
			b.keys = append(b.keys, f)
			size += len(src)
			for _, t := range split(src) {
				if w := strings.TrimSpace(t); idRE.MatchString(w) {
					ids[w] = true
				}
			}
		}
		if size > 12000 {
			return
		}
		for w := range ids {
			b.ids = append(b.ids, w)
		}
		sort.Strings(b.ids)
		sort.Strings(b.keys)
		bases = append(bases, b)
	}
	for _, s := range r.Suites {
		add(s.Name, s.Files)
	}
	var names []string
	for n := range badSchemas {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add(n, expand(badSchemas[n], false))
	}
	n := 6000
	if r.thorough() {
		n = 60000
	}
	root := filepath.Join(r.Scratch, "mutants")
	defer os.RemoveAll(root)
	g := newGoChecker(r)
	parallel(n, 8, func(i int) {
		rng := rand.New(rand.NewSource(r.Seed*1000003 + int64(i)))
		b := bases[rng.Intn(len(bases))]
		files := map[string]string{}
		for f, src := range b.files {
			files[f] = src
		}
		f := b.keys[rng.Intn(len(b.keys))]
		files[f] = mutateSchema(rng, files[f], b.ids)
		dir := filepath.Join(root, fmt.Sprint(i))
		defer os.RemoveAll(dir)
		for p, c := range files {
			writeFile(filepath.Join(dir, "src", p), c)
		}
		out := filepath.Join(dir, "out")
		so, se, code := r.gen(genRun{args: []string{"generate", "--out", out, "--rootpackage", "example.org/x", filepath.Join(dir, "src")}})
		t := readTree(out)
		id := fmt.Sprintf("mutant of %s: %s", b.name, around(b.files[f], files[f]))
		rep := map[string]any{"files": files, "stderr": lastLines(se, 5)}
		r.eval(files[f], files[f] != b.files[f])
		_, perr := zs.ParsePackage(files[f])
		switch {
		case code != 0:
			r.count("mutants_refused", 1)
			if why := refusal(code, so, se); why != "" {
				r.viol("mutant/crash", id+": the generator "+why, rep)
			}
			if len(t) > 0 {
				r.viol("mutant/output", fmt.Sprintf("%s: the refused schema left output: %v", id, t.files()), rep)
			}
		case perr != nil:
			r.viol("mutant/syntax", fmt.Sprintf("%s: a schema with a syntax error is accepted (%v)", id, perr), rep)
		default:
			r.count("mutants_accepted", 1)
			if errs := g.check(t, "example.org/x"); len(errs) > 0 {
				r.viol("mutant/types", fmt.Sprintf("%s: accepted, but the generated code is not valid Go: %v", id, errs[0]), rep)
			}
		}
	})
}

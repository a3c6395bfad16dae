package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

// box is a scratch world for runs of the generator: what is not below out
// must not change.
type box struct {
	r    *Run
	root string
}

func (r *Run) newBox(name string, files map[string]string) *box {
	b := &box{r, filepath.Join(r.Scratch, "c18", name)}
	for _, d := range []string{"cwd", "home", "tmp", "src"} {
		writeFile(filepath.Join(b.root, d, ".keep"), d)
	}
	writeFile(filepath.Join(b.root, "cwd", "a", "notes.go"), "package a // not generated\n")
	for p, c := range files {
		writeFile(filepath.Join(b.src(), p), c)
	}
	return b
}

func (b *box) src() string { return filepath.Join(b.root, "src") }
func (b *box) out() string { return filepath.Join(b.root, "out") }
func (b *box) cwd() string { return filepath.Join(b.root, "cwd") }
func (b *box) env() []string {
	return []string{"HOME=" + b.root + "/home", "TMPDIR=" + b.root + "/tmp"}
}
func (b *box) drop() { os.RemoveAll(b.root) }

// rest is everything but the given output directory, relative to the box.
func (b *box) rest(out string) tree {
	t := tree{}
	for p, c := range readTree(b.root) {
		if p != out && !strings.HasPrefix(p, out+"/") {
			t[p] = c
		}
	}
	return t
}

const c18root = "example.org/x"

func (b *box) gen(out string, args ...string) (so, se string, code int) {
	b.r.count("runs", 1)
	a := append([]string{"generate", "--out", out, "--rootpackage", c18root}, args...)
	return b.r.gen(genRun{dir: b.cwd(), args: a, env: b.env()})
}

// placement checks where the output goes and what failing runs leave.
func placement(r *Run) {
	defer os.RemoveAll(filepath.Join(r.Scratch, "c18"))
	g := newGoChecker(r)
	fulls := make([]tree, len(r.Suites))
	parallel(len(r.Suites), 8, func(i int) {
		s := r.Suites[i]
		fulls[i] = r.layout(g, s)
		if len(fulls[i]) > 0 {
			r.modes(g, s, fulls[i])
			r.lengths(g, s, fulls[i])
		}
	})
	r.packageNames(g)
	r.outSpellings(g)
	r.simultaneous()
	r.staticFaults()
	r.injectedFaults()
}

var pkgNameSets = map[string][]string{
	"single":       {"p"},
	"long":         {"package_with_a_rather_long_name_that_goes_on_and_on_and_on_until_it_is_very_long_indeed"},
	"deep":         {"a.b.c.d.e.f.g.h.i.j.k.l.m.n.o.p"},
	"upper":        {"Foo.BAR.baZ"},
	"nested":       {"a", "a.b", "a.b.c"},
	"nested_gap":   {"a", "a.b.c.d"},
	"suffix":       {"x", "y.x", "z.y.x"},
	"prefix":       {"x", "x.y", "xx", "xx.y", "x_.y", "x_y"},
	"underscores":  {"a_b", "a.b", "ab", "a__b", "a_b_"},
	"digits":       {"p1", "p1.p2", "p12", "p1p2"},
	"repeated":     {"a.a.a", "a.a", "a"},
	"same_leaf":    {"left.leaf", "right.leaf", "leaf"},
	"like_types":   {"pkg", "structs.pkg", "record", "record.record"},
	"like_runtime": {"ztype", "zserio", "zstream", "io", "math.bits"},
	"root_like":    {"x", "example.x", "org"},
	"mixed_case":   {"lower.Upper", "lower2.upper"},
	"many":         nil, // filled below
}

// caseClash are package sets with one directory for two packages.
var caseClash = map[string][]string{
	"case":        {"foo", "Foo"},
	"case_deep":   {"a.Foo", "A.foo"},
	"case_parent": {"A.b", "a.b", "a.B"},
	"case_last":   {"x.y.z", "x.y.Z"},
}

func pkgFiles(pkgs []string, tag string) map[string]string {
	files := map[string]string{}
	for i, p := range pkgs {
		src := "package " + p + ";\n"
		if i > 0 {
			src += "import " + pkgs[i-1] + ".*;\n"
		}
		src += fmt.Sprintf("struct Record%d%s { uint8 a; ", i, tag)
		if i > 0 {
			src += fmt.Sprintf("Record%d%s other; ", i-1, tag)
		}
		src += fmt.Sprintf("};\nenum uint8 Kind%d%s { ONE, TWO };\nconst uint8 NUMBER%d%s = %d;\n", i, tag, i, tag, i)
		files[fmt.Sprintf("f%02d.zs", i)] = src
	}
	return files
}

// inPlace checks the layout of a complete output: directories exactly for the
// packages, in each Go files of that package only.
func (r *Run) inPlace(g *goChecker, t tree, pkgs []string) string {
	want := map[string]bool{}
	have := map[string]int{}
	leaf := map[string]string{}
	for _, p := range pkgs {
		dir := strings.ReplaceAll(strings.ToLower(p), ".", "/")
		if _, ok := leaf[dir]; ok {
			return "two packages have the directory " + dir
		}
		leaf[dir] = strings.ToLower(p[strings.LastIndex(p, ".")+1:])
		for d := dir; d != "."; d = filepath.Dir(d) {
			want[d] = true
		}
	}
	for p, c := range t {
		if c == "<dir>" {
			if !want[p] {
				return "unexpected directory " + p
			}
			continue
		}
		dir := filepath.Dir(p)
		name, ok := leaf[dir]
		if !ok || !strings.HasSuffix(p, ".go") || strings.HasPrefix(c, "<") {
			return "unexpected file " + p
		}
		have[dir]++
		f, err := parser.ParseFile(token.NewFileSet(), p, c, parser.PackageClauseOnly)
		if err != nil {
			return fmt.Sprintf("%s: %v", p, err)
		}
		if f.Name.Name != name && !strings.HasPrefix(f.Name.Name, name) && !strings.HasSuffix(f.Name.Name, name) {
			return fmt.Sprintf("%s is of package %s", p, f.Name.Name)
		}
	}
	for d := range leaf {
		if have[d] == 0 {
			return "no file for the package in " + d
		}
	}
	if errs := g.check(t, c18root); len(errs) > 0 {
		return fmt.Sprintf("the packages do not find each other: %v", errs[0])
	}
	return ""
}

// layout generates a suite and checks that the files are where they belong.
func (r *Run) layout(g *goChecker, s *Suite) tree {
	b := r.newBox("layout_"+s.Name, s.Files)
	defer b.drop()
	before := b.rest("out")
	_, se, code := b.gen(b.out(), b.src())
	r.eval("layout/"+s.Name, true)
	if code != 0 {
		r.viol(s.Name+"/layout", fmt.Sprintf("generation failed (exit %d): %s", code, lastLines(se, 3)), nil)
		return nil
	}
	t := readTree(b.out())
	r.count("files", int64(len(t.files())))
	if why := r.inPlace(g, t, s.Set.Order); why != "" {
		r.viol(s.Name+"/layout", why, nil)
	}
	if d := before.diff(b.rest("out")); d != "" {
		r.viol(s.Name+"/elsewhere", "something outside of the output directory changed: "+d, nil)
	}
	// again, over itself
	if _, se, code := b.gen(b.out(), b.src()); code != 0 {
		r.viol(s.Name+"/layout", fmt.Sprintf("the second run failed (exit %d): %s", code, lastLines(se, 3)), nil)
	} else if d := t.diff(readTree(b.out())); d != "" {
		r.viol(s.Name+"/layout", "the second run gives other files: "+d, nil)
	}
	return t
}

// packageNames checks layouts of sets of package names.
func (r *Run) packageNames(g *goChecker) {
	var many []string
	for i := 0; i < 60; i++ {
		many = append(many, fmt.Sprintf("p%d.q%d.r%d", i%3, i%7, i))
	}
	pkgNameSets["many"] = many
	sets := map[string][]string{}
	for n, p := range pkgNameSets {
		sets[n] = p
	}
	// random ones over a small alphabet, so that names are alike
	for i := 0; i < r.n(20, 300); i++ {
		rng := rand.New(rand.NewSource(r.Seed*31337 + int64(i)))
		var pkgs []string
		seen := map[string]bool{}
		for k := 0; k < 2+rng.Intn(5); k++ {
			var ids []string
			for j := 0; j < 1+rng.Intn(4); j++ {
				ids = append(ids, []string{"a", "b", "ab", "B", "a_b", "A", "a1"}[rng.Intn(7)])
			}
			p := strings.Join(ids, ".")
			if !seen[p] {
				seen[p] = true
				pkgs = append(pkgs, p)
			}
		}
		sets[fmt.Sprintf("random%d", i)] = pkgs
	}
	for n, p := range caseClash {
		sets[n] = p
	}
	var names []string
	for n := range sets {
		names = append(names, n)
	}
	sort.Strings(names)
	parallel(len(names), 8, func(i int) {
		n := names[i]
		pkgs := sets[n]
		clash := false
		dirs := map[string]bool{}
		for _, p := range pkgs {
			clash = clash || dirs[strings.ToLower(p)]
			dirs[strings.ToLower(p)] = true
		}
		b := r.newBox("names_"+n, pkgFiles(pkgs, ""))
		defer b.drop()
		before := b.rest("out")
		so, se, code := b.gen(b.out(), b.src())
		r.eval("names/"+n, true)
		t := readTree(b.out())
		rep := map[string]any{"packages": pkgs, "stderr": lastLines(se, 5)}
		switch {
		case code != 0 && !clash:
			r.viol("names/"+n, fmt.Sprintf("generation failed (exit %d): %s", code, lastLines(se, 3)), rep)
		case code != 0:
			r.count("clashes_refused", 1)
			if why := refusal(code, so, se); why != "" {
				r.viol("names/"+n, "packages with one directory are not refused cleanly: the generator "+why, rep)
			}
			if len(t) > 0 {
				r.viol("names/"+n, fmt.Sprintf("a refused run left output: %v", t.files()), rep)
			}
		default:
			if why := r.inPlace(g, t, pkgs); why != "" {
				r.viol("names/"+n, why, rep)
			}
		}
		if d := before.diff(b.rest("out")); d != "" {
			r.viol("names/"+n+"/elsewhere", "something outside of the output directory changed: "+d, rep)
		}
	})
}

// outSpellings gives the output directory in many ways.
func (r *Run) outSpellings(g *goChecker) {
	pkgs := []string{"top", "top.Sub", "other.deep.er"}
	type spell struct {
		name, arg, at string // argument (relative to cwd), place relative to the box
	}
	cases := []spell{
		{"absolute", "{}/out", "out"},
		{"slash", "{}/out/", "out"},
		{"slashes", "{}//out///", "out"},
		{"dots", "{}/tmp/../out", "out"},
		{"dot", "{}/./out/.", "out"},
		{"relative", "gen", "cwd/gen"},
		{"dot_relative", "./gen", "cwd/gen"},
		{"parent", "../out", "out"},
		{"parents", "../../spell_parents/out", "out"},
		{"nested", "n1/n2/n3", "cwd/n1/n2/n3"},
		{"nested_abs", "{}/m1/m2/m3/", "m1/m2/m3"},
		{"cwd", ".", "cwd"},
		{"space", "o u t", "cwd/o u t"},
		{"unicode", "größe/漢字", "cwd/größe/漢字"},
		{"dotted", "gen.d/v1.0", "cwd/gen.d/v1.0"},
		{"dash_inside", "-x", "cwd/-x"},
		{"percent", "%s%d", "cwd/%s%d"},
		{"under", "_gen_/a_b", "cwd/_gen_/a_b"},
		{"upper", "OUT/Gen", "cwd/OUT/Gen"},
		{"link", "{}/link", "target"},
		{"link_below", "{}/link/sub", "target/sub"},
		{"dollar", "$HOME/x", "cwd/$HOME/x"},
		{"tilde", "~/x", "cwd/~/x"},
		{"star", "*", "cwd/*"},
		{"quote", `a"b'c`, `cwd/a"b'c`},
	}
	roots := []string{c18root}
	parallel(len(cases)+1, 8, func(i int) {
		if i == len(cases) {
			// root packages
			for _, root := range []string{"x", "example.org/x/y/z", "example.org/x-y.v2", "a.b/c_d", "verif.example/UPPER/Mixed", "example.org/top"} {
				b := r.newBox("root", pkgFiles(pkgs, ""))
				_, se, code := r.gen(genRun{dir: b.cwd(), env: b.env(), args: []string{"generate", "--out", b.out(), "--rootpackage", root, b.src()}})
				r.eval("root/"+root, true)
				if code != 0 {
					r.viol("root/"+root, fmt.Sprintf("generation failed (exit %d): %s", code, lastLines(se, 3)), nil)
				} else if errs := g.check(readTree(b.out()), root); len(errs) > 0 {
					r.viol("root/"+root, fmt.Sprintf("the packages do not find each other: %v", errs[0]), nil)
				}
				b.drop()
			}
			for _, root := range []string{"", " ", "\t"} {
				b := r.newBox("root", pkgFiles(pkgs, ""))
				so, se, code := r.gen(genRun{dir: b.cwd(), env: b.env(), args: []string{"generate", "--out", b.out(), "--rootpackage", root, b.src()}})
				r.eval("root/"+root, true)
				if why := refusal(code, so, se); why != "" {
					r.viol("root/empty", "without a root package the generator "+why, nil)
				}
				if t := readTree(b.out()); len(t) > 0 {
					r.viol("root/empty", fmt.Sprintf("without a root package files are written: %v", t.files()), nil)
				}
				b.drop()
			}
			return
		}
		c := cases[i]
		b := r.newBox("spell_"+c.name, pkgFiles(pkgs, ""))
		defer b.drop()
		os.MkdirAll(filepath.Join(b.root, "target"), 0755)
		os.Symlink("target", filepath.Join(b.root, "link"))
		// what is in the output directory stays
		foreign := map[string]string{"README": "x", "top/extra.txt": "y", "top/sub/.hidden": "z", "other/deep/tool.sh": "w", "unrelated/u.go": "package u\n", "top/.1.tmp": "t"}
		for p, src := range foreign {
			writeFile(filepath.Join(b.root, c.at, p), src)
		}
		before := b.rest(c.at)
		inBefore := readTree(filepath.Join(b.root, c.at))
		_, se, code := b.gen(strings.ReplaceAll(c.arg, "{}", b.root), b.src())
		r.eval("spell/"+c.name, true)
		if code != 0 {
			r.viol("spell/"+c.name, fmt.Sprintf("generation to %q failed (exit %d): %s", c.arg, code, lastLines(se, 3)), nil)
			return
		}
		t := readTree(filepath.Join(b.root, c.at))
		if d := before.diff(b.rest(c.at)); d != "" {
			r.viol("spell/"+c.name, "something outside of the output directory changed: "+d, nil)
		}
		gen := tree{}
		for p, src := range t {
			if old, ok := inBefore[p]; !ok || src == "<dir>" {
				gen[p] = src
			} else if old != src {
				r.viol("spell/"+c.name, "a foreign file was changed: "+p, nil)
			}
		}
		for p := range inBefore {
			if _, ok := t[p]; !ok {
				r.viol("spell/"+c.name, "a foreign file is gone: "+p, nil)
			}
			if gen[p] == "<dir>" && !hasBelow(gen, p) {
				delete(gen, p)
			}
		}
		if why := r.inPlace(g, gen, pkgs); why != "" {
			r.viol("spell/"+c.name, why, nil)
		}
	})
	_ = roots
}

// hasBelow says whether there is a file below a directory.
func hasBelow(t tree, dir string) bool {
	for p, c := range t {
		if c != "<dir>" && strings.HasPrefix(p, dir+"/") {
			return true
		}
	}
	return false
}

// decls are the declarations of Go files, and the set of imports.
func decls(srcs ...string) ([]string, error) {
	var out []string
	for _, src := range srcs {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				for _, sp := range gd.Specs {
					var b bytes.Buffer
					printer.Fprint(&b, fset, sp)
					out = append(out, "import "+b.String())
				}
				continue
			}
			var b bytes.Buffer
			if err := printer.Fprint(&b, fset, d); err != nil {
				return nil, err
			}
			out = append(out, b.String())
		}
	}
	sort.Strings(out)
	var u []string
	for i, s := range out {
		if i == 0 || s != out[i-1] || !strings.HasPrefix(s, "import ") {
			u = append(u, s)
		}
	}
	return u, nil
}

func sameDecls(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return "more: " + firstLines(b[i], 2)
		case i >= len(b):
			return "missing: " + firstLines(a[i], 2)
		case a[i] != b[i]:
			return firstDiff(a[i], b[i])
		}
	}
	return ""
}

// modes asks for one package, in files and on standard output.
func (r *Run) modes(g *goChecker, s *Suite, full tree) {
	b := r.newBox("modes_"+s.Name, s.Files)
	defer b.drop()
	before := b.rest("out")
	pkgs := append([]string{}, s.Set.Order...)
	if !r.thorough() && len(pkgs) > 4 {
		pkgs = pkgs[:4]
	}
	for _, p := range pkgs {
		dir := strings.ReplaceAll(strings.ToLower(p), ".", "/")
		want := tree{}
		var srcs []string
		for f, c := range full {
			if filepath.Dir(f) == dir && c != "<dir>" {
				want[f] = c
				srcs = append(srcs, c)
			}
		}
		for d := dir; d != "."; d = filepath.Dir(d) {
			want[d] = "<dir>"
		}
		r.eval("only/"+s.Name+"/"+p, true)
		if _, se, code := b.gen(b.out(), "--only", p, b.src()); code != 0 {
			r.viol(s.Name+"/only", fmt.Sprintf("--only %s failed (exit %d): %s", p, code, lastLines(se, 3)), nil)
		} else if d := want.diff(readTree(b.out())); d != "" {
			r.viol(s.Name+"/only", fmt.Sprintf("--only %s gives other files than a run for all packages: %s", p, d), nil)
		}
		os.RemoveAll(b.out())
		r.eval("stdout/"+s.Name+"/"+p, true)
		so, se, code := b.gen("-", "--only", p, b.src())
		if code != 0 {
			r.viol(s.Name+"/stdout", fmt.Sprintf("--out - --only %s failed (exit %d): %s", p, code, lastLines(se, 3)), nil)
			continue
		}
		a, err := decls(srcs...)
		if err != nil {
			r.viol(s.Name+"/stdout", fmt.Sprintf("package %s: %v", p, err), nil)
			continue
		}
		c, err := decls(so)
		if err != nil {
			r.viol(s.Name+"/stdout", fmt.Sprintf("standard output is not Go: %v", err), nil)
			continue
		}
		r.count("declarations_compared", int64(len(c)))
		if d := sameDecls(a, c); d != "" {
			r.viol(s.Name+"/stdout", fmt.Sprintf("package %s on standard output differs from its files: %s", p, d), nil)
		}
		// it works as the package's only file
		alone := tree{}
		for f, c := range full {
			if filepath.Dir(f) != dir {
				alone[f] = c
			}
		}
		alone[dir+"/pkg.go"] = so
		if errs := g.check(alone, c18root); len(errs) > 0 {
			r.viol(s.Name+"/stdout", fmt.Sprintf("package %s on standard output is not a valid Go file: %v", p, errs[0]), nil)
		}
	}
	for _, args := range [][]string{{"--only", "no.such.package"}, {"--only", s.Set.Order[0] + ".x"}, {"--only", "."}} {
		so, se, code := b.gen(b.out(), append(args, b.src())...)
		if why := refusal(code, so, se); why != "" {
			r.viol(s.Name+"/only", fmt.Sprintf("asked for an unknown package (%v) the generator %s", args, why), nil)
		}
		so, se, code = b.gen("-", append(args, b.src())...)
		if why := refusal(code, so, se); why != "" {
			r.viol(s.Name+"/stdout", fmt.Sprintf("asked for an unknown package (%v) on standard output the generator %s", args, why), nil)
		} else if strings.Contains(so, "package ") {
			r.viol(s.Name+"/stdout", "code for an unknown package is printed", nil)
		}
	}
	so, se, code := b.gen("-", b.src())
	if len(s.Set.Order) > 1 || code != 0 {
		if why := refusal(code, so, se); why != "" {
			r.viol(s.Name+"/stdout", "asked for no package on standard output the generator "+why, nil)
		}
	}
	if t := readTree(b.out()); len(t) > 0 {
		r.viol(s.Name+"/only", fmt.Sprintf("output of refused runs: %v", t.files()), nil)
	}
	if d := before.diff(b.rest("out")); d != "" {
		r.viol(s.Name+"/elsewhere", "something outside of the output directory changed: "+d, nil)
	}
}

// lengths limits the length of paths.
func (r *Run) lengths(g *goChecker, s *Suite, full tree) {
	b := r.newBox("len_"+s.Name, s.Files)
	defer b.drop()
	rng := rand.New(rand.NewSource(r.Seed*77 + int64(len(s.Name))))
	maxFile, maxDir, perDir := 0, 0, map[string]int{}
	for _, p := range full.files() {
		maxFile = max(maxFile, len(p))
		maxDir = max(maxDir, len(filepath.Dir(p)))
		perDir[filepath.Dir(p)]++
	}
	most := 0
	for _, n := range perDir {
		most = max(most, n)
	}
	want, err := declsByDir(full)
	if err != nil {
		return
	}
	for _, out := range []string{b.out(), "gen"} {
		abs := out
		if out == "gen" {
			abs = filepath.Join(b.cwd(), out)
		}
		lo, hi := len(out)+1+maxDir-3, len(out)+1+maxFile+8
		var ls []int
		if r.thorough() {
			for l := lo; l <= hi; l++ {
				ls = append(ls, l)
			}
		} else {
			ls = []int{hi - 3 - rng.Intn(4), lo + 11 + rng.Intn(max(1, hi-lo-11)), lo + rng.Intn(12)}
		}
		ls = append(ls, 0, 1)
		for _, l := range ls {
			so, se, code := b.gen(out, "--max-path-length", fmt.Sprint(l), b.src())
			id := fmt.Sprintf("length/%s/%s/%d", s.Name, out[:1], l-lo)
			r.eval(id, true)
			t := readTree(abs)
			files := t.files()
			rep := map[string]any{"limit": l, "longest": len(out) + 1 + maxFile, "directory": len(out) + 1 + maxDir, "files": files, "stderr": lastLines(se, 5)}
			must := l == 0 || l >= len(out)+1+maxFile+5 || l >= len(out)+1+maxDir+12 && most < 50
			switch {
			case code != 0:
				r.count("limits_refused", 1)
				if must {
					r.viol(s.Name+"/length", fmt.Sprintf("a limit of %d where %d is the longest path is refused: %s", l, len(out)+1+maxFile, lastLines(se, 3)), rep)
				}
				if why := refusal(code, so, se); why != "" {
					r.viol(s.Name+"/length", fmt.Sprintf("a limit of %d is not refused cleanly: the generator %s", l, why), rep)
				}
				if len(t) > 0 {
					r.viol(s.Name+"/length", fmt.Sprintf("a refused run left output: %v", files), rep)
				}
			default:
				for _, f := range files {
					if p := filepath.Join(out, f); l > 0 && len(p) > l {
						r.viol(s.Name+"/length", fmt.Sprintf("%s has length %d with a limit of %d", p, len(p), l), rep)
					}
				}
				if got, err := declsByDir(t); err != nil {
					r.viol(s.Name+"/length", fmt.Sprintf("limit %d: %v", l, err), rep)
				} else {
					for d := range want {
						if x := sameDecls(want[d], got[d]); x != "" {
							r.viol(s.Name+"/length", fmt.Sprintf("with a limit of %d (longest %d) the code in %s differs: %s", l, len(out)+1+maxFile, d, x), rep)
							break
						}
					}
					if len(got) != len(want) {
						r.viol(s.Name+"/length", fmt.Sprintf("with a limit of %d there are other directories", l), rep)
					}
				}
				for _, f := range files {
					if !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") || strings.ContainsAny(filepath.Base(f)[:1], "._") {
						r.viol(s.Name+"/length", fmt.Sprintf("with a limit of %d there is a file %s", l, f), rep)
					}
				}
				if l == 0 || l >= len(out)+1+maxFile+5 {
					if d := full.diff(t); d != "" {
						r.viol(s.Name+"/length", fmt.Sprintf("a limit of %d, longer than any path (%d), changes the output: %s", l, len(out)+1+maxFile, d), rep)
					}
				}
			}
			os.RemoveAll(abs)
		}
	}
}

func declsByDir(t tree) (map[string][]string, error) {
	by := map[string][]string{}
	for _, f := range t.files() {
		by[filepath.Dir(f)] = append(by[filepath.Dir(f)], t[f])
	}
	out := map[string][]string{}
	for d, srcs := range by {
		x, err := decls(srcs...)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", d, err)
		}
		out[d] = x
	}
	return out, nil
}

// faultSet is a schema set with an output of an earlier version of it.
type faultSet struct {
	files    map[string]string
	old, new tree
}

func (r *Run) faultSet(pkgs []string) *faultSet {
	fs := &faultSet{files: pkgFiles(pkgs, "")}
	b := r.newBox("faultset_"+pkgs[0], fs.files)
	defer b.drop()
	if _, se, code := b.gen(b.out(), b.src()); code != 0 {
		r.viol("faults/setup", "generation failed: "+lastLines(se, 3), nil)
		return nil
	}
	fs.new = readTree(b.out())
	fs.old = tree{}
	for p, c := range fs.new {
		if c != "<dir>" {
			c = c + strings.Repeat("// an earlier version\n", 1+len(p)%3)
		}
		fs.old[p] = c
	}
	fs.old["notes.txt"] = "not generated"
	return fs
}

var tempFile = regexp.MustCompile(`(^|/)\.[^/]*\.tmp$|(^|/)\.?[^/]*tmp[^/]*$`)

// judge checks what a run left, whatever the fault was. start is what there
// was; litter says whether a temporary file may be left.
func (fs *faultSet) judge(start, t tree, code int, blocked map[string]bool, litter bool) string {
	for p, c := range start {
		got, ok := t[p]
		if !ok {
			return p + " is gone"
		}
		if blocked[p] || c == "<dir>" {
			continue
		}
		if got != c && got != fs.new[p] {
			return fmt.Sprintf("%s is neither what it was nor the new version: %d bytes, had %d, the new version %d", p, len(got), len(c), len(fs.new[p]))
		}
	}
	for p, c := range t {
		if _, ok := start[p]; ok {
			continue
		}
		want, ok := fs.new[p]
		switch {
		case !ok && litter && tempFile.MatchString(p):
		case !ok:
			return "there is a new file " + p
		case c != want:
			return fmt.Sprintf("the new file %s is not complete: %d bytes of %d", p, len(c), len(want))
		}
	}
	if code == 0 {
		for p, c := range fs.new {
			if t[p] != c {
				return "the run succeeds, but " + p + " is not the new version"
			}
		}
	}
	return ""
}

var faultPkgs = [][]string{{"one"}, {"aa", "aa.bb", "zz.y"}, {"m1", "m2", "m3", "m4"}}

// simultaneous runs several generators at a time for the same directory.
func (r *Run) simultaneous() {
	parallel(len(faultPkgs)*r.n(3, 30), 2, func(i int) {
		pkgs := faultPkgs[i%len(faultPkgs)]
		fs := r.faultSet(append([]string{fmt.Sprintf("sim%d", i)}, pkgs...))
		if fs == nil {
			return
		}
		b := r.newBox(fmt.Sprintf("sim%d", i), fs.files)
		defer b.drop()
		if i%2 == 0 {
			copyTree(fs.old, b.out())
		}
		start := readTree(b.out())
		const n = 6
		codes, errs := make([]int, n), make([]string, n)
		parallel(n, n, func(k int) {
			args := []string{b.src()}
			if k%3 == 2 {
				args = append([]string{"--only", pkgs[k%len(pkgs)]}, args...)
			}
			_, errs[k], codes[k] = b.gen(b.out(), args...)
		})
		r.eval(fmt.Sprintf("simultaneous/%d", i), true)
		for k := range codes {
			if codes[k] != 0 {
				r.viol("simultaneous", fmt.Sprintf("one of %d simultaneous runs to one directory failed: %s", n, lastLines(errs[k], 3)), nil)
				return
			}
		}
		if why := fs.judge(start, readTree(b.out()), 0, nil, false); why != "" {
			r.viol("simultaneous", fmt.Sprintf("after %d simultaneous runs to one directory %s", n, why), nil)
		}
	})
}

// staticFaults makes the file system refuse.
func (r *Run) staticFaults() {
	// the generator where another user can run it
	dir, err := os.MkdirTemp("/tmp", "verif-c18-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0755)
	r.public = filepath.Join(dir, "go-zserio")
	bin, err := os.ReadFile(r.CLI)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(r.public, bin, 0755); err != nil {
		fatal("%v", err)
	}
	type fault struct {
		name string
		prep func(b *box, fs *faultSet) (blocked map[string]bool)
		run  func(b *box) (so, se string, code int)
		may  bool // the run may succeed
	}
	var jobs []func()
	add := func(fs *faultSet, f fault, old bool) {
		jobs = append(jobs, func() {
			n := f.name
			if old {
				n += "/old"
			}
			b := r.newBox("fault_"+strings.NewReplacer("/", "_", " ", "_").Replace(n), fs.files)
			defer b.drop()
			if old {
				copyTree(fs.old, b.out())
			}
			blocked := map[string]bool{}
			if f.prep != nil {
				blocked = f.prep(b, fs)
			}
			start := readTree(b.out())
			before := b.rest("out")
			run := f.run
			if run == nil {
				run = func(b *box) (string, string, int) { return b.gen(b.out(), b.src()) }
			}
			so, se, code := run(b)
			r.eval("fault/"+n, true)
			r.count("static_faults", 1)
			rep := map[string]any{"fault": n, "exit": code, "stderr": lastLines(se, 4)}
			if code == 0 && !f.may {
				r.viol("fault/"+f.name, "the run succeeds", rep)
			}
			if code != 0 {
				if why := refusal(code, so, se); why != "" && !strings.HasPrefix(f.name, "limit") {
					r.viol("fault/"+f.name, "the failure is not reported: the generator "+why, rep)
				}
			}
			if why := fs.judge(start, readTree(b.out()), code, blocked, strings.HasPrefix(f.name, "limit")); why != "" {
				r.viol("fault/"+f.name, why, rep)
			}
			if d := before.diff(b.rest("out")); d != "" {
				r.viol("fault/"+f.name, "something outside of the output directory changed: "+d, rep)
			}
		})
	}
	for si, pkgs := range faultPkgs {
		fs := r.faultSet(pkgs)
		if fs == nil {
			return
		}
		for _, file := range fs.new.files() {
			file := file
			for _, full := range []bool{false, true} {
				full := full
				add(fs, fault{name: fmt.Sprintf("directory %d %s %v", si, file, full), prep: func(b *box, fs *faultSet) map[string]bool {
					p := filepath.Join(b.out(), file)
					os.Remove(p)
					os.MkdirAll(p, 0755)
					if full {
						writeFile(filepath.Join(p, "precious"), "p")
					}
					return map[string]bool{file: true}
				}}, true)
			}
			add(fs, fault{name: fmt.Sprintf("directory %d %s", si, file), prep: func(b *box, fs *faultSet) map[string]bool {
				os.MkdirAll(filepath.Join(b.out(), file), 0755)
				return map[string]bool{file: true}
			}}, false)
		}
		for p, c := range fs.new {
			p := p
			if c == "<dir>" {
				add(fs, fault{name: fmt.Sprintf("file for directory %d %s", si, p), prep: func(b *box, fs *faultSet) map[string]bool {
					writeFile(filepath.Join(b.out(), p), "a file")
					return nil
				}}, false)
				add(fs, fault{name: fmt.Sprintf("dangling link for directory %d %s", si, p), prep: func(b *box, fs *faultSet) map[string]bool {
					os.MkdirAll(filepath.Dir(filepath.Join(b.out(), p)), 0755)
					os.Symlink("/nonexistent/x", filepath.Join(b.out(), p))
					return nil
				}}, false)
			}
		}
		add(fs, fault{name: fmt.Sprintf("out is a file %d", si), prep: func(b *box, fs *faultSet) map[string]bool {
			writeFile(b.out(), "precious")
			return nil
		}, run: func(b *box) (string, string, int) {
			so, se, code := b.gen(b.out(), b.src())
			if c, _ := os.ReadFile(b.out()); string(c) != "precious" {
				return so, se, -100
			}
			os.Remove(b.out())
			return so, se, code
		}}, false)
		add(fs, fault{name: fmt.Sprintf("out is below a file %d", si), run: func(b *box) (string, string, int) {
			return b.gen(filepath.Join(b.src(), "f00.zs", "out"), b.src())
		}}, false)
		add(fs, fault{name: fmt.Sprintf("out is below a device %d", si), run: func(b *box) (string, string, int) {
			return b.gen("/dev/null/out", b.src())
		}}, false)
		// standard output
		full := func(f func(c *exec.Cmd)) func(b *box) (string, string, int) {
			return func(b *box) (string, string, int) {
				c := exec.Command(r.CLI, "generate", "--out", "-", "--only", pkgs[0], "--rootpackage", c18root, b.src())
				c.Dir = b.cwd()
				c.Env = append(os.Environ(), b.env()...)
				f(c)
				var se bytes.Buffer
				c.Stderr = &se
				err := c.Run()
				if c.Stdout != nil {
					if f, ok := c.Stdout.(*os.File); ok {
						f.Close()
					}
				}
				if err == nil {
					return "", se.String(), 0
				}
				if c.ProcessState.ExitCode() < 0 { // by SIGPIPE: reported
					return "", "Error: " + se.String(), 1
				}
				return "", se.String(), c.ProcessState.ExitCode()
			}
		}
		if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
			f.Close()
			add(fs, fault{name: fmt.Sprintf("full standard output %d", si), run: full(func(c *exec.Cmd) {
				c.Stdout, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
			})}, false)
		}
		add(fs, fault{name: fmt.Sprintf("standard output only for reading %d", si), run: full(func(c *exec.Cmd) {
			c.Stdout, _ = os.Open("/dev/null")
		})}, false)
		add(fs, fault{name: fmt.Sprintf("broken pipe %d", si), run: full(func(c *exec.Cmd) {
			pr, pw, _ := os.Pipe()
			pr.Close()
			c.Stdout = pw
		})}, false)
		// limits of file sizes
		for k := 0; k < 6; k++ {
			for _, old := range []bool{false, true} {
				k := k
				add(fs, fault{name: fmt.Sprintf("limit %d %dk", si, k), may: true, run: func(b *box) (string, string, int) {
					c := exec.Command("bash", "-c", fmt.Sprintf("ulimit -c 0; ulimit -f %d; exec \"$@\"", k), "x", r.CLI, "generate", "--out", b.out(), "--rootpackage", c18root, b.src())
					c.Dir = b.cwd()
					c.Env = append(os.Environ(), b.env()...)
					return runCmd(c, 60*time.Second)
				}}, old)
			}
		}
		// without permissions, as another user
		for di, dir := range append([]string{"."}, dirsOf(fs.new)...) {
			dir := dir
			if os.Getuid() != 0 {
				break
			}
			add(fs, fault{name: fmt.Sprintf("no permission %d %d %s", si, di, dir), may: true, prep: func(b *box, fs *faultSet) map[string]bool {
				filepath.Walk(b.root, func(p string, fi os.FileInfo, err error) error {
					os.Lchown(p, 65534, 65534)
					return nil
				})
				os.Lchown(filepath.Join(b.out(), dir), 0, 0)
				os.Chmod(filepath.Join(b.out(), dir), 0755)
				return nil
			}, run: func(b *box) (string, string, int) {
				return r.asNobody(b, b.out())
			}}, true)
		}
		if os.Getuid() == 0 {
			add(fs, fault{name: fmt.Sprintf("no permission to create %d", si), prep: func(b *box, fs *faultSet) map[string]bool { return nil },
				run: func(b *box) (string, string, int) { return r.asNobody(b, b.out()) }}, false)
		}
	}
	parallel(len(jobs), 8, func(i int) { jobs[i]() })
}

func dirsOf(t tree) []string {
	var out []string
	for p, c := range t {
		if c == "<dir>" {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// asNobody runs the generator as a user without privileges; the working
// directory and the arguments are made reachable for it.
func (r *Run) asNobody(b *box, out string) (string, string, int) {
	// every parent of the box must let the user through
	for p := b.root; p != "/" && p != "/tmp"; p = filepath.Dir(p) {
		if fi, err := os.Stat(p); err == nil && strings.HasPrefix(p, r.Scratch) {
			os.Chmod(p, fi.Mode().Perm()|0055)
		}
	}
	c := exec.Command(r.public, "generate", "--out", out, "--rootpackage", c18root, b.src())
	c.Dir = b.cwd()
	c.Env = append(os.Environ(), b.env()...)
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	return runCmd(c, 60*time.Second)
}

// injectedFaults makes system calls fail, or the process die at them.
func (r *Run) injectedFaults() {
	strace, err := exec.LookPath("strace")
	if err == nil {
		err = exec.Command(strace, "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:error=ENOSPC:when=60000", "/bin/true").Run()
	}
	if err != nil {
		r.count("strace_unusable", 1)
		return
	}
	type inj struct {
		call, what string
		k          int
		old        bool
		set        int
	}
	var injs []inj
	sets := make([]*faultSet, len(faultPkgs))
	for si := range faultPkgs {
		if sets[si] = r.faultSet(faultPkgs[si]); sets[si] == nil {
			return
		}
	}
	calls := []string{"write", "openat", "close", "renameat", "mkdirat", "fchmod,fchmodat,fsync,ftruncate,unlinkat,linkat,renameat2,pwrite64,pread64,read,getdents64,newfstatat"}
	whats := []string{"error=ENOSPC", "error=EIO", "error=EACCES", "error=EROFS", "error=EDQUOT", "signal=KILL"}
	for si := range sets {
		for _, c := range calls {
			for wi, w := range whats {
				for k := 1; k <= r.n(2, 14); k++ {
					for _, old := range []bool{false, true} {
						if !r.thorough() && (si == 0 || wi%3 == 1 || !old && wi < 4) {
							continue
						}
						injs = append(injs, inj{c, w, k*(1+(k+wi)%3) - k/2, old, si})
					}
				}
			}
		}
	}
	parallel(len(injs), 8, func(i int) {
		j := injs[i]
		fs := sets[j.set]
		b := r.newBox(fmt.Sprintf("inj%d", i), fs.files)
		defer b.drop()
		if j.old {
			copyTree(fs.old, b.out())
		}
		start := readTree(b.out())
		before := b.rest("out")
		log := filepath.Join(b.root, "home", "log")
		c := exec.Command(strace, "-f", "-qq", "-y", "-o", log, "-e", "trace="+j.call, "-e", fmt.Sprintf("inject=%s:%s:when=%d", j.call, j.what, j.k),
			r.CLI, "generate", "--out", b.out(), "--rootpackage", c18root, b.src())
		c.Dir = b.cwd()
		c.Env = append(os.Environ(), b.env()...)
		c.Env = append(c.Env, "GOMAXPROCS=1")
		so, se, code := runCmd(c, 60*time.Second)
		lb, _ := os.ReadFile(log)
		os.Remove(log)
		hit := ""
		for _, l := range strings.Split(string(lb), "\n") {
			if strings.Contains(l, "(INJECTED)") && strings.Contains(l, b.out()) {
				hit = l
			}
		}
		n := int64(strings.Count(string(lb), "(INJECTED)") + strings.Count(string(lb), "+++ killed by SIGKILL"))
		id := fmt.Sprintf("%.10s %s %d set %d old %v", j.call, j.what, j.k, j.set, j.old)
		r.eval("inject/"+id, n > 0)
		if n > 0 {
			r.count("injections_hit", 1)
		}
		if hit != "" {
			r.count("injections_on_output", 1)
		}
		rep := map[string]any{"injection": id, "call": j.call, "exit": code, "at": hit, "stderr": lastLines(se, 4)}
		kill := strings.HasPrefix(j.what, "signal")
		why := fs.judge(start, readTree(b.out()), code, nil, kill || strings.Contains(hit, "unlinkat"))
		if why != "" {
			r.viol("inject/"+strings.Fields(j.call)[0][:5]+"/"+j.what, fmt.Sprintf("%s: %s", id, why), rep)
		}
		if code == 0 && hit != "" && regexp.MustCompile(`(write|close|renameat2?|fsync|ftruncate|linkat)\(`).MatchString(hit) && !strings.Contains(hit, "unlinkat(") {
			r.viol("inject/"+strings.Fields(j.call)[0][:5]+"/"+j.what, fmt.Sprintf("%s: the run succeeds although %s", id, hit), rep)
		}
		if !kill && n > 0 && hit != "" && code != 0 && code != 1 && code != 2 {
			r.viol("inject/exit", fmt.Sprintf("%s: exit %d", id, code), rep)
		}
		_ = so
		if d := before.diff(b.rest("out")); d != "" {
			r.viol("inject/elsewhere", id+": something outside of the output directory changed: "+d, rep)
		}
	})
	// what is written at all
	parallel(len(r.Suites), 8, func(i int) {
		s := r.Suites[i]
		if !r.thorough() && i%8 != int(r.Seed%8) {
			return
		}
		b := r.newBox("trace"+s.Name, s.Files)
		defer b.drop()
		log := filepath.Join(b.root, "home", "log")
		c := exec.Command(strace, "-f", "-qq", "-o", log, "-e", "trace=file,socket,connect", r.CLI, "generate", "--out", b.out(), "--rootpackage", c18root, b.src())
		c.Dir = b.cwd()
		c.Env = append(os.Environ(), b.env()...)
		if _, se, code := runCmd(c, 120*time.Second); code != 0 {
			r.viol(s.Name+"/trace", "generation failed under strace: "+lastLines(se, 3), nil)
			return
		}
		lb, _ := os.ReadFile(log)
		r.eval("trace/"+s.Name, true)
		for _, l := range strings.Split(string(lb), "\n") {
			if strings.Contains(l, "socket(") || strings.Contains(l, "connect(") {
				r.viol(s.Name+"/trace", "the generator uses the network: "+l, nil)
			}
			if !changes.MatchString(l) || strings.Contains(l, "\"/dev/null\"") || strings.Contains(l, "\"/dev/tty\"") {
				continue
			}
			r.count("changing_calls", 1)
			for _, q := range quoted.FindAllStringSubmatch(l, -1) {
				if p := q[1]; p != b.out() && !strings.HasPrefix(p, b.out()+"/") && p != b.root {
					r.viol(s.Name+"/trace", "the generator changes something else: "+l, nil)
				}
			}
		}
	})
}

var (
	changes = regexp.MustCompile(`O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|\b(mkdir|mkdirat|rename|renameat|renameat2|unlink|unlinkat|rmdir|link|linkat|symlink|symlinkat|truncate|chmod|fchmodat|chown|lchown|fchownat|mknod|mknodat|utime|utimensat|creat)\(`)
	quoted  = regexp.MustCompile(`"([^"]*)"`)
)

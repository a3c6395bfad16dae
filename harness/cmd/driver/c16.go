package main

import (
	"bytes"
	"fmt"
	"go/build"
	"go/format"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/woven-planet/go-zserio/verif/work"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// mayRefuse are the suites of schemas that have no Go counterpart.
var mayRefuse = regexp.MustCompile(`^xnames_(coll_.*|bits.*|methods|nopkg|inst)_v\d$`)

// compiles generates every suite with every combination of options, compiles
// the result and compares its declarations with the schema's.
func compiles(r *Run) {
	base := r.Suites
	if only := os.Getenv("VERIF_ONLY"); only == "" || strings.HasPrefix(only, "matrix") {
		for i, name := range []string{"matrix", "matrix_imported"} {
			s := &Suite{Name: name, Group: "matrix", Files: matrix(i == 1)}
			s.Dir = filepath.Join(r.Mod, "suites", s.Name)
			for rel, src := range s.Files {
				writeFile(filepath.Join(s.Dir, rel), src)
			}
			set, err := work.LoadSet(s.Dir)
			if err != nil {
				fatal("reference parser: %s: %v", s.Name, err)
			}
			s.Set = set
			base = append(base, s)
		}
	}
	r.Suites = nil
	for _, s := range base {
		for v := 0; v < 4; v++ {
			// quick: the matrix suites once each, the others with all or no options
			if quick := map[string]int{"matrix": 1, "matrix_imported": 2}; !r.thorough() {
				if only, ok := quick[s.Name]; ok && v != only || !ok && v != 0 && v != 3 {
					continue
				}
			}
			c := *s
			c.SQL, c.NoFmt = v&1 != 0, v&2 != 0
			c.Name = fmt.Sprintf("%s_v%d", s.Name, v)
			c.Gen = filepath.Join(r.Mod, "gen", c.Name)
			r.Suites = append(r.Suites, &c)
		}
	}
	refused := map[string]bool{}
	parallel(len(r.Suites), 8, func(i int) {
		s := r.Suites[i]
		_, stderr, code := r.cli(r.Scratch, s.genArgs(s.Gen)...)
		if code == 0 {
			return
		}
		s.Bad = true
		if mayRefuse.MatchString(s.Name) {
			// names without a Go counterpart may be refused; C17 looks at how
			r.mu.Lock()
			refused[s.Name] = true
			r.mu.Unlock()
			r.eval(s.Name+"/refused", false)
			return
		}
		r.viol(s.Name+"/generate", fmt.Sprintf("generating code for a valid schema failed (exit %d): %s", code, lastLines(stderr, 4)), nil)
	})
	r.count("refused_names", int64(len(refused)))
	r.compile()
	parallel(len(r.Suites), 8, func(i int) {
		s := r.Suites[i]
		if s.Bad {
			return
		}
		r.complete(s)
		t := readTree(s.Gen)
		for _, f := range t.files() {
			r.eval(s.Name+"/"+f, true)
			if s.NoFmt {
				continue
			}
			out, err := format.Source([]byte(t[f]))
			if err != nil {
				r.viol(s.Name+"/format", fmt.Sprintf("%s cannot be parsed: %v", f, err), nil)
			} else if !bytes.Equal(out, []byte(t[f])) {
				r.viol(s.Name+"/format", fmt.Sprintf("%s is not formatted: %s", f, firstDiff(t[f], string(out))), nil)
			}
		}
	})
}

// complete looks for the declaration of everything in the schema.
func (r *Run) complete(s *Suite) {
	miss := func(f string, a ...any) {
		r.viol(s.Name+"/complete", "the generated code is incomplete: "+fmt.Sprintf(f, a...), nil)
	}
	for _, pn := range s.Set.Order {
		p := s.Set.Pkgs[pn]
		dir := pkgDir(s.Gen, pn)
		_, names, err := declared(dir)
		if err != nil {
			if len(p.Decls) > 0 {
				miss("%v", err)
			}
			continue
		}
		// every file must take part in the build wherever it is compiled
		for _, goos := range []string{"linux", "windows", "darwin"} {
			ctx := build.Default
			ctx.GOOS, ctx.GOARCH = goos, "arm64"
			bp, err := ctx.ImportDir(dir, 0)
			if err != nil {
				miss("package %s on %s: %v", pn, goos, err)
				continue
			}
			if n, _ := filepath.Glob(filepath.Join(dir, "*.go")); len(n) != len(bp.GoFiles) {
				miss("package %s on %s: only %d of %d files are part of the package (ignored: %v %v %v)", pn, goos, len(bp.GoFiles), len(n), bp.IgnoredGoFiles, bp.TestGoFiles, bp.XTestGoFiles)
			}
		}
		need := func(what string, ns ...string) {
			for _, n := range ns {
				r.count("symbols", 1)
				if !names[n] {
					miss("%s of package %s has no Go declaration %s", what, pn, n)
				}
			}
		}
		for _, d := range p.Decls {
			if len(d.TParams) > 0 {
				continue
			}
			g := zs.GoName(d.Name)
			what := d.Kind + " " + d.Name
			need(what, g)
			switch d.Kind {
			case "enum":
				need(what, g+"Values", g+"String", g+"Strings", g+".String")
				fallthrough
			case "bitmask":
				for _, it := range d.Items {
					if itemName(names, d, it) == "" {
						miss("%s of package %s has no constant for %s", what, pn, it.Name)
					}
				}
				if s.SQL && d.Kind == "enum" {
					need(what+" (SQL)", g+".Value", g+".Scan")
				}
				need(what, g+".MarshalZserio", g+".UnmarshalZserio", g+".ZserioBitSize")
			case "struct", "choice", "union":
				need(what, g+".MarshalZserio", g+".UnmarshalZserio", g+".ZserioBitSize", g+".LoadDefaultValues")
				for _, f := range d.Fields {
					need(what, g+"#"+zs.GoName(f.Name))
				}
				for _, f := range d.Params {
					need(what, g+"#"+zs.GoName(f.Name))
				}
				for _, f := range d.Funcs {
					need(what, g+"."+zs.GoName(f.Name))
				}
			}
		}
	}
}

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/woven-planet/go-zserio/verif/work"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// collect gathers the schema suites of a plan.
func (r *Run) collect(p *plan) {
	want := map[string]bool{}
	for _, g := range p.groups {
		want[g] = true
	}
	for _, s := range readCorpus(filepath.Join(r.Verif, "corpus")) {
		if want["*"] && !strings.HasPrefix(s.Group, "x") || want[s.Group] {
			r.Suites = append(r.Suites, s)
		}
	}
	if want["repo"] || want["*"] {
		r.Suites = append(r.Suites, r.repoSuites()...)
	}
	if p.random > 0 {
		n := p.random
		if r.thorough() {
			n = p.randomThorough
		}
		if v := os.Getenv("VERIF_RANDOM"); v != "" {
			n, _ = strconv.Atoi(v)
		}
		r.Suites = append(r.Suites, r.randomSuites(n)...)
	}
	if p.meta > 0 {
		r.Suites = append(r.Suites, r.variants(p.meta, p.metaThorough)...)
	}
	if only := os.Getenv("VERIF_ONLY"); only != "" {
		var f []*Suite
		for _, s := range r.Suites {
			if star, ok := strings.CutSuffix(only, "*"); ok && strings.HasPrefix(s.Name, star) || strings.HasPrefix(only, s.Name) {
				f = append(f, s)
			}
		}
		r.Suites = f
	}
	for _, s := range r.Suites {
		s.Dir = filepath.Join(r.Mod, "suites", s.Name)
		s.Gen = filepath.Join(r.Mod, "gen", s.Name)
		for rel, src := range s.Files {
			writeFile(filepath.Join(s.Dir, rel), src)
		}
		set, err := work.LoadSet(s.Dir)
		if err != nil {
			fatal("reference parser: %s: %v", s.Name, err)
		}
		s.Set = set
	}
}

func writeFile(path, src string) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, []byte(src), 0644); err != nil {
		fatal("%v", err)
	}
}

// readCorpus reads corpus/<group>/<suite>.zs and corpus/<group>/<suite>/**.zs.
func readCorpus(root string) []*Suite {
	var out []*Suite
	groups, err := os.ReadDir(root)
	if err != nil {
		fatal("corpus: %v", err)
	}
	for _, g := range groups {
		if !g.IsDir() {
			continue
		}
		ents, _ := os.ReadDir(filepath.Join(root, g.Name()))
		for _, e := range ents {
			s := &Suite{Group: g.Name(), Files: map[string]string{}}
			p := filepath.Join(root, g.Name(), e.Name())
			if e.IsDir() {
				s.Name = g.Name() + "_" + e.Name()
				filepath.Walk(p, func(f string, fi os.FileInfo, err error) error {
					if err == nil && strings.HasSuffix(f, ".zs") {
						rel, _ := filepath.Rel(p, f)
						b, _ := os.ReadFile(f)
						s.Files[rel] = string(b)
					}
					return nil
				})
			} else if strings.HasSuffix(e.Name(), ".zs") {
				s.Name = g.Name() + "_" + strings.TrimSuffix(e.Name(), ".zs")
				b, _ := os.ReadFile(p)
				s.Files[e.Name()] = string(b)
			} else {
				continue
			}
			s.SQL = len(out)%2 == 0
			out = append(out, s)
		}
	}
	return out
}

// randomSuites are schema sets written at random.
func (r *Run) randomSuites(n int) []*Suite {
	var out []*Suite
	for i := 0; i < n; i++ {
		rng := rand.New(rand.NewSource(r.Seed*100003 + int64(i)))
		g := &zs.SchemaGen{R: rng, Reuse: rng.Intn(2) == 0}
		s := &Suite{Name: fmt.Sprintf("rand%d", i), Group: "rand", SQL: i%2 == 1}
		s.Files = g.Generate(1+rng.Intn(3), 6+rng.Intn(10))
		if rng.Intn(3) == 0 {
			s.Files = zs.SprinkleFiles(rng, s.Files)
			r.count("suites_with_comments", 1)
		}
		out = append(out, s)
	}
	return out
}

// variants rewrites the suites so that they mean the same.
func (r *Run) variants(quick, thorough int) []*Suite {
	var out []*Suite
	for si, s := range r.Suites {
		n := r.n(quick, thorough)
		for i := 0; i < n; i++ {
			rng := rand.New(rand.NewSource(r.Seed*900001 + int64(si)*100 + int64(i)))
			m, ok := zs.NewMeta(s.Files, rng)
			if !ok {
				r.count("suites_not_rewritten", 1)
				break
			}
			// every kind in turn, and then several
			kinds := []string{zs.MetaKinds[(i+si)%len(zs.MetaKinds)]}
			if i >= n/2 {
				for k := 0; k < 1+rng.Intn(4); k++ {
					kinds = append(kinds, zs.MetaKinds[rng.Intn(len(zs.MetaKinds))])
				}
			}
			if rng.Intn(2) == 0 {
				kinds = append(kinds, "decoys")
			}
			files, ok := m.Rewrite(kinds...)
			if !ok {
				r.count("rewritings_not_possible", 1)
				continue
			}
			for _, k := range kinds {
				r.count("rewritten_"+k, 1)
			}
			if rng.Intn(2) == 0 {
				files = zs.SprinkleFiles(rng, files)
				r.count("rewritten_comments", 1)
			}
			out = append(out, &Suite{Name: fmt.Sprintf("%s__v%d_%s", s.Name, i, strings.Join(kinds, "_")), Group: "meta", Files: files, SQL: s.SQL, Skip: m.Decoys})
			r.count("rewritten_with_unused_names", int64(len(m.Decoys)))
		}
	}
	return out
}

// repoSuites are the repository's own schemas.
func (r *Run) repoSuites() []*Suite {
	var out []*Suite
	one := func(name, file string) {
		b, err := os.ReadFile(file)
		if err != nil {
			fatal("%v", err)
		}
		out = append(out, &Suite{Name: name, Group: "repo", SQL: true, Files: map[string]string{filepath.Base(file): string(b)}})
	}
	m, _ := filepath.Glob(filepath.Join(r.Repo, "testdata", "*.zs"))
	for _, f := range m {
		one("repo_"+strings.TrimSuffix(filepath.Base(f), ".zs"), f)
	}
	m, _ = filepath.Glob(filepath.Join(r.Repo, "test", "reference", "*", "schema.zs"))
	for _, f := range m {
		one("repo_ref_"+filepath.Base(filepath.Dir(f)), f)
	}
	s := &Suite{Name: "repo_modules", Group: "repo", SQL: true, Files: map[string]string{}}
	root := filepath.Join(r.Repo, "testdata", "reference_modules")
	filepath.Walk(root, func(f string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(f, ".zs") {
			rel, _ := filepath.Rel(root, f)
			b, _ := os.ReadFile(f)
			s.Files[rel] = string(b)
		}
		return nil
	})
	out = append(out, s)
	one("repo_example", filepath.Join(r.Repo, "example", "schema", "contacts.zs"))
	return out
}

const modName = "verifgen"

func (r *Run) writeModule() {
	b, err := os.ReadFile(filepath.Join(r.Verif, "harness", "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	m := string(b)
	m = strings.Replace(m, "module github.com/woven-planet/go-zserio/verif", "module "+modName, 1)
	m = strings.Replace(m, "require github.com/woven-planet/go-zserio v0.0.0", "require github.com/woven-planet/go-zserio v0.0.0\nrequire github.com/woven-planet/go-zserio/verif v0.0.0", 1)
	m = strings.Replace(m, "=> /repo", "=> "+r.Repo, 1)
	m += "\nreplace github.com/woven-planet/go-zserio/verif => " + filepath.Join(r.Verif, "harness") + "\n"
	writeFile(filepath.Join(r.Mod, "go.mod"), m)
	b, _ = os.ReadFile(filepath.Join(r.Repo, "go.sum"))
	writeFile(filepath.Join(r.Mod, "go.sum"), string(b))
}

// genArgs are the generator's arguments for a suite.
func (s *Suite) genArgs(out string) []string {
	a := []string{"generate", "--out", out, "--rootpackage", modName + "/gen/" + s.Name}
	if s.SQL {
		a = append(a, "--sql")
	}
	if s.NoFmt {
		a = append(a, "--noformat")
	}
	return append(a, s.Dir)
}

func parallel(n, k int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// generate runs the generator over every suite.
func (r *Run) generate() {
	parallel(len(r.Suites), 8, func(i int) {
		s := r.Suites[i]
		_, stderr, code := r.cli(r.Scratch, s.genArgs(s.Gen)...)
		if code != 0 {
			s.Bad = true
			r.viol(s.Name+"/generate", fmt.Sprintf("generating code for a valid schema failed (exit %d): %s", code, lastLines(stderr, 4)), nil)
		}
	})
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	for i, x := range l {
		if strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "fatal error:") {
			end := i + 12
			if end > len(l) {
				end = len(l)
			}
			return strings.Join(l[i:end], "\n")
		}
	}
	for i, x := range l {
		if strings.HasPrefix(x, "Error:") {
			for j := i; j < len(l); j++ {
				if l[j] == "Usage:" {
					return strings.Join(l[i:j], "\n")
				}
			}
		}
	}
	var out []string
	for _, x := range l {
		if !strings.Contains(x, "Writing ") {
			out = append(out, x)
		}
	}
	if len(out) > n {
		out = out[len(out)-n:]
	}
	return strings.Join(out, "\n")
}

var pkgLine = regexp.MustCompile(`(?m)^(?:# |package |.*imports )?` + modName + `/gen/([a-z0-9_A-Z]+)`)
var fileLine = regexp.MustCompile(`(?m)^(?:vet: )?gen/([a-zA-Z0-9_]+)/\S+\.go:\d+`)

// compile compiles all generated packages and sets aside suites that do not.
func (r *Run) compile() {
	args := []string{"build"}
	if r.Race {
		args = append(args, "-race")
	}
	any := false
	for _, s := range r.Suites {
		if !s.Bad {
			args = append(args, "./gen/"+s.Name+"/...")
			any = true
		}
	}
	if !any {
		return
	}
	out, err := r.goCmd(r.Mod, args...).CombinedOutput()
	if err == nil {
		return
	}
	text := string(out)
	bad := map[string]string{}
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		if m := pkgLine.FindStringSubmatch(l); m != nil && strings.HasPrefix(l, "# ") {
			cur = m[1]
			bad[cur] += ""
			continue
		}
		if m := fileLine.FindStringSubmatch(l); m != nil {
			cur = m[1]
		} else if m := pkgLine.FindStringSubmatch(l); m != nil {
			cur = m[1]
		}
		if cur != "" {
			bad[cur] += l + "\n"
		}
	}
	if len(bad) == 0 {
		fatal("compiling generated code: %v\n%s", err, text)
	}
	for _, s := range r.Suites {
		if e, ok := bad[s.Name]; ok {
			s.Bad = true
			s.compErr = e
			r.viol(s.Name+"/compile", "generated code does not compile: "+firstLines(e, 8), nil)
		}
	}
}

// declared gives the names declared at package level in a directory.
func declared(dir string) (pkg string, names map[string]bool, err error) {
	fset := token.NewFileSet()
	names = map[string]bool{}
	bp, err := build.ImportDir(dir, 0) // what the go command makes of the directory
	if err != nil {
		return "", nil, err
	}
	for _, f := range bp.GoFiles {
		f = filepath.Join(dir, f)
		af, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			return "", nil, err
		}
		pkg = af.Name.Name
		for _, d := range af.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					names[x.Name.Name] = true
				} else {
					t := x.Recv.List[0].Type
					if st, ok := t.(*ast.StarExpr); ok {
						t = st.X
					}
					if id, ok := t.(*ast.Ident); ok {
						names[id.Name+"."+x.Name.Name] = true
					}
				}
			case *ast.GenDecl:
				for _, sp := range x.Specs {
					switch y := sp.(type) {
					case *ast.TypeSpec:
						names[y.Name.Name] = true
						if st, ok := y.Type.(*ast.StructType); ok {
							for _, f := range st.Fields.List {
								for _, n := range f.Names {
									names[y.Name.Name+"#"+n.Name] = true
								}
							}
						}
					case *ast.ValueSpec:
						for _, n := range y.Names {
							names[n.Name] = true
						}
					}
				}
			}
		}
	}
	if pkg == "" {
		return "", nil, fmt.Errorf("no Go files in %s", dir)
	}
	return pkg, names, nil
}

// itemName finds the constant of an item: the type's name followed by the
// item's, for enums in camel case.
func itemName(names map[string]bool, d *zs.Decl, it *zs.Item) string {
	g := zs.GoName(d.Name)
	if d.Kind == "bitmask" {
		for _, n := range []string{it.Name, zs.GoName(it.Name)} {
			if names[g+n] {
				return g + n
			}
		}
		return ""
	}
	camel := ""
	for _, p := range strings.Split(strings.ToLower(it.Name), "_") {
		if p != "" {
			camel += zs.GoName(p)
		}
	}
	if names[g+camel] {
		return g + camel
	}
	flat := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }
	for n := range names {
		if strings.HasPrefix(n, g) && flat(n[len(g):]) == flat(it.Name) {
			return n
		}
	}
	return ""
}

func pkgDir(gen, pkg string) string {
	return filepath.Join(append([]string{gen}, strings.Split(strings.ToLower(pkg), ".")...)...)
}

// register writes the registration code of one suite.
func (r *Run) register(s *Suite) (string, error) {
	var imp, body strings.Builder
	s.types = nil
	for i, pn := range s.Set.Order {
		p := s.Set.Pkgs[pn]
		dir := pkgDir(s.Gen, pn)
		_, names, err := declared(dir)
		if err != nil {
			if len(p.Decls) == 0 {
				continue
			}
			return "", err
		}
		al := fmt.Sprintf("p%d", i)
		used := false
		for _, d := range p.Decls {
			if len(d.TParams) > 0 || s.Skip[pn+"."+d.Name] {
				continue
			}
			g := zs.GoName(d.Name)
			if !names[g] {
				return "", fmt.Errorf("%s %s.%s has no Go declaration %s", d.Kind, pn, d.Name, g)
			}
			used = true
			s.types = append(s.types, pn+"."+d.Name)
			for _, it := range d.Items {
				g := itemName(names, d, it)
				if g == "" {
					return "", fmt.Errorf("%s %s.%s has no constant for %s", d.Kind, pn, d.Name, it.Name)
				}
				fmt.Fprintf(&body, "\treg.I(%q, %q, %q, %q, %s.%s)\n", s.Name, pn, d.Name, it.Name, al, g)
			}
			switch d.Kind {
			case "const":
				fmt.Fprintf(&body, "\treg.C(%q, %q, %q, %s.%s)\n", s.Name, pn, d.Name, al, g)
			case "enum":
				for _, n := range []string{"Values", "String", "Strings"} {
					if !names[g+n] {
						return "", fmt.Errorf("enum %s.%s has no function %s", pn, d.Name, g+n)
					}
				}
				fmt.Fprintf(&body, "\treg.E(%q, %q, %q, func() any { return new(%s.%s) }, %s.%sValues, %s.%sString, %s.%sStrings)\n",
					s.Name, pn, d.Name, al, g, al, g, al, g, al, g)
			default:
				fmt.Fprintf(&body, "\treg.T(%q, %q, %q, func() any { return new(%s.%s) })\n", s.Name, pn, d.Name, al, g)
			}
		}
		if used {
			rel, _ := filepath.Rel(r.Mod, dir)
			fmt.Fprintf(&imp, "\t%s %q\n", al, modName+"/"+filepath.ToSlash(rel))
		}
	}
	return fmt.Sprintf("package main\n\nimport (\n\t\"github.com/woven-planet/go-zserio/verif/reg\"\n%s)\n\nfunc init() {\n%s}\n", imp.String(), body.String()), nil
}

// buildWorker compiles the worker with all good suites.
func (r *Run) buildWorker() (string, bool) {
	n := 0
	for _, s := range r.Suites {
		if s.Bad {
			continue
		}
		src, err := r.register(s)
		if err != nil {
			s.Bad = true
			r.viol(s.Name+"/complete", "the generated code is incomplete: "+err.Error(), nil)
			continue
		}
		writeFile(filepath.Join(r.Mod, "reg_"+s.Name+"_.go"), src)
		n++
	}
	writeFile(filepath.Join(r.Mod, "main.go"), "package main\n\nimport \"github.com/woven-planet/go-zserio/verif/work\"\n\nfunc main() { work.Main() }\n")
	bin := filepath.Join(r.Scratch, "worker")
	args := []string{"build", "-o", bin}
	if r.Race {
		args = append(args, "-race")
	}
	out, err := r.goCmd(r.Mod, append(args, ".")...).CombinedOutput()
	if err != nil {
		// generated declarations that do not have the documented form
		bad := regexp.MustCompile(`(?m)^\./reg_([a-zA-Z0-9_]+)_\.go:.*`).FindAllStringSubmatch(string(out), -1)
		if len(bad) == 0 {
			fatal("building the worker: %v\n%s", err, out)
		}
		dropped := false
		for _, m := range bad {
			for _, s := range r.Suites {
				if s.Name == m[1] && !s.Bad {
					s.Bad = true
					dropped = true
					os.Remove(filepath.Join(r.Mod, "reg_"+s.Name+"_.go"))
					r.viol(s.Name+"/complete", "a generated declaration does not have the documented form: "+m[0], nil)
				}
			}
		}
		if !dropped {
			fatal("building the worker: %v\n%s", err, out)
		}
		return r.buildWorker()
	}
	return bin, n > 0
}

// worker runs the monitored processes and collects what they report.
func (r *Run) worker(p *plan) {
	bin, ok := r.buildWorker()
	if !ok && p.groups != nil && len(r.Suites) > 0 {
		return // every suite failed; already reported
	}
	shards := p.shards
	if shards == 0 {
		shards = 8
	}
	parallel(shards, 8, func(i int) { r.runShard(p, bin, i, shards) })
}

func (r *Run) runShard(p *plan, bin string, i, shards int) {
	out := filepath.Join(r.Scratch, fmt.Sprintf("out%d.jsonl", i))
	jr := filepath.Join(r.Scratch, fmt.Sprintf("journal%d", i))
	only := os.Getenv("VERIF_ONLY")
	if strings.HasSuffix(only, "*") {
		only = ""
	}
	c := r.goCmd(r.Scratch, "version")
	c.Path, c.Args = bin, []string{bin, "-check", r.ID, "-tier", r.Tier, "-seed", fmt.Sprint(r.Seed), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(shards),
		"-suites", filepath.Join(r.Mod, "suites"), "-out", out, "-journal", jr, "-only", only}
	c.Err = nil
	c.Env = append(c.Env, "GOMEMLIMIT=3GiB", "GOTRACEBACK=all")
	if r.Race {
		c.Env = append(c.Env, "GORACE=halt_on_error=0 exitcode=66")
	}
	limit := 800 * time.Second
	if r.thorough() {
		limit = 3 * time.Hour
	}
	_, stderr, code := runCmd(c, limit)
	f, err := os.Open(out)
	finished := false
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var l work.Line
			if json.Unmarshal(sc.Bytes(), &l) != nil {
				continue
			}
			if l.Kind == "v" {
				r.viol(l.Key, l.Msg, l.Case)
				continue
			}
			finished = true
			r.mu.Lock()
			r.evals += l.Evals
			r.distinct += l.Distinct
			for k, v := range l.Counters {
				if strings.HasPrefix(k, "max_") {
					r.counters[k] = max(r.counters[k], v)
				} else {
					r.counters[k] += v
				}
			}
			r.mu.Unlock()
			for _, s := range l.Samples {
				r.sample(s)
			}
		}
		f.Close()
	}
	j, _ := os.ReadFile(jr)
	last := strings.TrimSpace(string(j))
	if n := strings.Count(stderr, "WARNING: DATA RACE"); n > 0 {
		r.races(stderr, last)
	}
	switch {
	case finished && (code == 0 || code == 66):
	case code == 3:
		fatal("worker: %s", stderr)
	case code == 4:
	case code == -9:
		fatal("worker shard %d did not end within %s; last case: %s", i, limit, last)
	default:
		key := "crash"
		if j := strings.IndexByte(last, ' '); j > 0 {
			key = last[:j] + "/crash"
		}
		r.viol(key, fmt.Sprintf("the process died (exit %d) while running: %s\n%s", code, last, lastLines(stderr, 12)), map[string]any{"journal": last, "stderr": tail(stderr, 6000)})
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var raceFn = regexp.MustCompile(`(?m)^  (\S+)\(`)

// races reports each distinct pair of racing functions.
func (r *Run) races(stderr, last string) {
	for _, blk := range strings.Split(stderr, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(blk, "=================="); i >= 0 {
			blk = blk[:i]
		}
		var fns []string
		for _, sect := range regexp.MustCompile(`(?m)^(?:Read|Write|Previous read|Previous write|.*atomic.*) at .*$`).Split(blk, -1)[1:] {
			for _, m := range raceFn.FindAllStringSubmatch(sect, -1) {
				if strings.Contains(m[1], "go-zserio") && !strings.Contains(m[1], "/verif/") || strings.Contains(m[1], modName) {
					fns = append(fns, shortFn(m[1]))
					break
				}
			}
		}
		sort.Strings(fns)
		r.viol("race:"+strings.Join(fns, "|"), "data race:"+firstLines(blk, 24), map[string]any{"report": tail(blk, 6000), "journal": last})
	}
}

func shortFn(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

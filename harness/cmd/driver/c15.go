package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
)

// printed compares what is printed for each package on standard output.
func (r *Run) printed(s *Suite, files []string, name string, opts []string, rng *rand.Rand) {
	pkgs := map[string]bool{}
	for _, c := range s.Files {
		for _, m := range packageLine.FindAllStringSubmatch(c, -1) {
			pkgs[m[1]] = true
		}
	}
	var sorted []string
	for p := range pkgs {
		sorted = append(sorted, p)
	}
	sort.Strings(sorted)
	if !r.thorough() && len(sorted) > 4 {
		rng.Shuffle(len(sorted), func(a, b int) { sorted[a], sorted[b] = sorted[b], sorted[a] })
		sorted = sorted[:4]
	}
	for _, p := range sorted {
		want, wantCode := "", 0
		for k := 0; k < r.n(5, 20); k++ {
			inputs := []string{s.Dir}
			if k%2 == 1 {
				inputs = nil
				for _, i := range rng.Perm(len(files)) {
					inputs = append(inputs, filepath.Join(s.Dir, files[i]))
				}
			}
			args := append([]string{"generate", "--out", "-", "--only", p, "--rootpackage", "example.org/root/pkg"}, opts...)
			args = append(args, inputs...)
			so, se, code := r.gen(genRun{args: args})
			r.eval(fmt.Sprintf("%s/%s/printed %s %d", s.Name, name, p, k), len(so) > 0)
			r.count("printed", 1)
			switch {
			case k == 0:
				want, wantCode = so, code
			case code != wantCode:
				r.viol(s.Name+"/"+name+"/printed", fmt.Sprintf("printing package %s exits %d, the first time %d: %s", p, code, wantCode, lastLines(se, 4)), map[string]any{"args": args})
			case so != want:
				r.viol(s.Name+"/"+name+"/printed", fmt.Sprintf("printing package %s gives something else than the first time: %s", p, firstDiff(want, so)), map[string]any{"args": args})
			}
		}
	}
}

// determinism runs the generator many times over every suite and compares the
// output trees.
func determinism(r *Run) {
	others := map[int]tree{}
	var mu sync.Mutex
	type opt struct {
		name string
		args []string
	}
	opts := []opt{{"plain", nil}, {"sql", []string{"--sql"}}, {"noformat", []string{"--noformat"}}}
	parallel(len(r.Suites), 8, func(i int) {
		s := r.Suites[i]
		rng := rand.New(rand.NewSource(r.Seed*7919 + int64(i)))
		base := filepath.Join(r.Scratch, "c15", s.Name)
		defer os.RemoveAll(base)
		var files []string
		for rel := range s.Files {
			files = append(files, rel)
		}
		sort.Strings(files)
		runNo := 0
		for oi, o := range opts {
			var want tree
			wantCode := 0
			// one run: build its arguments, give its output tree
			one := func(name string, prep func(out string), inputs []string, cwd, out string, env ...string) {
				runNo++
				abs := filepath.Join(base, fmt.Sprintf("out%d", runNo))
				os.MkdirAll(abs, 0755)
				if prep != nil {
					prep(abs)
				}
				if out == "" {
					out = abs
				} else {
					// relative form
					if cwd == "" {
						cwd = base
					}
					rel, err := filepath.Rel(cwd, abs)
					if err != nil {
						fatal("%v", err)
					}
					out = rel
				}
				args := append([]string{"generate", "--out", out, "--rootpackage", "example.org/root/pkg"}, o.args...)
				args = append(args, inputs...)
				_, stderr, code := r.gen(genRun{dir: cwd, args: args, env: env})
				got := readTree(abs)
				os.RemoveAll(abs)
				id := fmt.Sprintf("%s/%s/%s", s.Name, o.name, name)
				r.eval(id, len(s.Files) > 0)
				r.count("runs", 1)
				r.count("files_compared", int64(len(got.files())))
				if want == nil {
					want, wantCode = got, code
					if code != 0 {
						r.viol(s.Name+"/"+o.name+"/generate", fmt.Sprintf("generating code for a valid schema failed (exit %d): %s", code, lastLines(stderr, 4)), nil)
					}
					if oi == 0 {
						mu.Lock()
						others[i] = got
						mu.Unlock()
					}
					return
				}
				if code != wantCode {
					r.viol(s.Name+"/"+o.name, fmt.Sprintf("run %q exited %d, the first run %d: %s", name, code, wantCode, lastLines(stderr, 4)), map[string]any{"args": args})
					return
				}
				if got.hash() != want.hash() {
					r.viol(s.Name+"/"+o.name, fmt.Sprintf("run %q gives other files than the first run: %s", name, want.diff(got)), map[string]any{"args": args})
				}
			}
			list := func(ord []string, root string) []string {
				var out []string
				for _, f := range ord {
					out = append(out, filepath.Join(root, f))
				}
				return out
			}
			dir := []string{s.Dir}
			one("first", nil, dir, "", "")
			reps := r.n(4, 30)
			if len(files) > 1 {
				reps *= 3
			}
			if oi > 0 {
				reps = r.n(1, 6)
			}
			for k := 0; k < reps; k++ {
				one(fmt.Sprintf("repeat%d", k), nil, dir, "", "")
			}
			one("single threaded", nil, dir, "", "", "GOMAXPROCS=1", "GOGC=10")
			if oi > 0 && !r.thorough() {
				continue
			}
			one("files listed", nil, list(files, s.Dir), "", "")
			if len(files) > 1 {
				rev := append([]string{}, files...)
				for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
					rev[a], rev[b] = rev[b], rev[a]
				}
				one("files in reverse", nil, list(rev, s.Dir), "", "")
				for k := 0; k < r.n(3, 12); k++ {
					rng.Shuffle(len(rev), func(a, b int) { rev[a], rev[b] = rev[b], rev[a] })
					one(fmt.Sprintf("files shuffled %d", k), nil, list(rev, s.Dir), "", "")
				}
			}
			r.printed(s, files, o.name, o.args, rng)
			// other working directories and spellings of the same paths
			one("from the schema directory", nil, list(files, ""), s.Dir, "rel")
			one("current directory", nil, []string{"."}, s.Dir, "rel")
			one("dot slash", nil, []string{"./"}, s.Dir, "rel")
			parent, leaf := filepath.Split(s.Dir)
			one("from the parent", nil, []string{leaf}, parent, "rel")
			one("dots in the path", nil, []string{s.Dir + "/../" + leaf + "//."}, "/", "rel")
			sub := filepath.Join(base, "deep", "er")
			os.MkdirAll(sub, 0755)
			if rel, err := filepath.Rel(sub, s.Dir); err == nil {
				one("from below", nil, []string{rel}, sub, "rel")
			}
			one("other locale and home", nil, dir, "/", "", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "TZ=Asia/Tokyo", "PWD=/nonexistent")
			// the same schemas at another place in other files
			other := filepath.Join(base, "elsewhere")
			for rel, src := range s.Files {
				writeFile(filepath.Join(other, rel), src)
			}
			one("schemas elsewhere", nil, []string{other}, "", "")
			if len(files) > 1 {
				flat := filepath.Join(base, "flat")
				perm := rng.Perm(len(files))
				for k, f := range files {
					writeFile(filepath.Join(flat, fmt.Sprintf("%03d.zs", perm[k])), s.Files[f])
				}
				one("files renamed", nil, []string{flat}, "", "")
				os.RemoveAll(flat)
			}
			os.RemoveAll(other)
			// over what earlier runs left
			one("over itself", func(out string) { copyTree(want, out) }, dir, "", "")
			one("over longer files", func(out string) {
				for p, c := range want {
					if c != "<dir>" {
						writeFile(filepath.Join(out, p), c+"\n// more\n"+c)
					}
				}
			}, dir, "", "")
		}
	})
	// leftovers of another suite's generation in the output directory
	parallel(len(r.Suites), 8, func(i int) {
		s := r.Suites[i]
		want := others[i]
		for d := 1; d <= r.n(2, 8); d++ {
			j := (i + d) % len(r.Suites)
			left := others[j]
			if i == j || len(want) == 0 || len(left) == 0 {
				continue
			}
			out := filepath.Join(r.Scratch, "c15", s.Name, fmt.Sprintf("left%d", d))
			os.MkdirAll(out, 0755)
			copyTree(left, out)
			_, stderr, code := r.gen(genRun{args: []string{"generate", "--out", out, "--rootpackage", "example.org/root/pkg", s.Dir}})
			got := readTree(out)
			os.RemoveAll(out)
			r.eval(s.Name+"/leftovers/"+r.Suites[j].Name, true)
			r.count("runs", 1)
			if code != 0 {
				r.viol(s.Name+"/leftovers", fmt.Sprintf("generation failed (exit %d) over the output of %s: %s", code, r.Suites[j].Name, lastLines(stderr, 4)), nil)
				continue
			}
			exp := tree{}
			for p, c := range left {
				exp[p] = c
			}
			for p, c := range want {
				exp[p] = c
			}
			if got.hash() != exp.hash() {
				r.viol(s.Name+"/leftovers", fmt.Sprintf("over the output of %s other files result: %s", r.Suites[j].Name, exp.diff(got)), nil)
			}
		}
	})
}

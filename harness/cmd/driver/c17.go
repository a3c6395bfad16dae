package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/woven-planet/go-zserio/verif/zs"
)

var crash = regexp.MustCompile(`(?m)^(panic:|fatal error:|goroutine \d+ \[)|runtime error:|stack overflow`)

// refuses says whether a run of the generator is a clean refusal; why not otherwise.
func refusal(code int, stdout, stderr string) string {
	switch {
	case code == -9:
		return "did not end in time"
	case crash.MatchString(stderr) || crash.MatchString(stdout):
		return "crashed: " + crashLine(stderr)
	case code != 1:
		return fmt.Sprintf("exited %d", code)
	case !strings.Contains(stderr, "Error: "):
		return "gave no error message"
	}
	return ""
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if crash.MatchString(l) {
			return l
		}
	}
	return lastLines(s, 2)
}

// invalid checks that invalid schemas are refused cleanly.
func invalid(r *Run) {
	var names []string
	for n := range badSchemas {
		names = append(names, n)
	}
	sort.Strings(names)
	base := filepath.Join(r.Scratch, "c17")
	defer os.RemoveAll(base)
	parallel(len(names), 8, func(i int) {
		n := names[i]
		dir := filepath.Join(base, n)
		for _, bad := range []bool{false, true} {
			id := n + "/good"
			if bad {
				id = n + "/bad"
			}
			files := expand(badSchemas[n], bad)
			src := filepath.Join(dir, id, "src")
			for p, c := range files {
				writeFile(filepath.Join(src, p), c)
			}
			out := filepath.Join(dir, id, "out")
			os.MkdirAll(out, 0755)
			so, se, code := r.gen(genRun{args: []string{"generate", "--out", out, "--rootpackage", "example.org/x", src}})
			t := readTree(out)
			r.eval(id, true)
			rep := map[string]any{"files": files, "stderr": lastLines(se, 5)}
			if !bad {
				if code != 0 {
					r.viol(id, fmt.Sprintf("the corrected schema is refused (exit %d): %s", code, lastLines(se, 3)), rep)
				}
				continue
			}
			if code == 0 {
				r.viol(id, "the invalid schema is accepted: "+strings.TrimSpace(files["a.zs"]), rep)
			} else if why := refusal(code, so, se); why != "" {
				r.viol(id, "the invalid schema is not refused cleanly: the generator "+why, rep)
			}
			if code != 0 && len(t) > 0 {
				r.viol(id+"/output", fmt.Sprintf("the refused schema left output: %v", t.files()), rep)
			}
		}
		for _, bad := range []bool{false, true} {
			r.onePackage(n, filepath.Join(dir, "one"), bad)
			for kind := range surroundings {
				r.surrounded(n, filepath.Join(dir, "around"), bad, kind)
			}
		}
	})
	embedded(r, names)
	inputs(r)
	mutants(r)
}

var packageLine = regexp.MustCompile(`(?m)^\s*package\s+([\w.]+)\s*;`)

// onePackage asks for one package only, in files and on standard output.
func (r *Run) onePackage(n, dir string, bad bool) {
	files := expand(badSchemas[n], bad)
	src := filepath.Join(dir, fmt.Sprint("src", bad))
	pkgs := map[string]bool{}
	for p, c := range files {
		writeFile(filepath.Join(src, p), c)
		for _, m := range packageLine.FindAllStringSubmatch(c, -1) {
			pkgs[m[1]] = true
		}
	}
	var sorted []string
	for p := range pkgs {
		sorted = append(sorted, p)
	}
	sort.Strings(sorted)
	for _, p := range sorted {
		for _, out := range []string{"-", filepath.Join(dir, fmt.Sprint("out", bad))} {
			os.RemoveAll(filepath.Join(dir, fmt.Sprint("out", bad)))
			mode := "files"
			if out == "-" {
				mode = "stdout"
			}
			id := fmt.Sprintf("%s/only/%s/%s", n, p, mode)
			so, se, code := r.gen(genRun{args: []string{"generate", "--out", out, "--only", p, "--rootpackage", "example.org/x", src}})
			left := readTree(filepath.Join(dir, fmt.Sprint("out", bad))).files()
			r.eval(id+fmt.Sprint(bad), true)
			rep := map[string]any{"files": files, "stderr": lastLines(se, 5)}
			switch {
			case code == 0 && bad && len(pkgs) == 1:
				r.viol(id, "the invalid schema is accepted if only its package is asked for: "+strings.TrimSpace(files["a.zs"]), rep)
			case code == 0 && (out == "-" && !strings.Contains(so, "package ") || out != "-" && len(left) == 0):
				r.viol(id, "the run succeeds without any output", rep)
			case code == 0:
			case !bad:
				r.viol(id, fmt.Sprintf("the corrected schema is refused (exit %d): %s", code, lastLines(se, 3)), rep)
			default:
				if why := refusal(code, so, se); why != "" {
					r.viol(id, "the invalid schema is not refused cleanly: the generator "+why, rep)
				}
				if strings.Contains(so, "package ") || len(left) > 0 {
					r.viol(id+"/output", fmt.Sprintf("the refused schema left output: %v, %d bytes on standard output", left, len(so)), rep)
				}
			}
		}
	}
}

var identifier = regexp.MustCompile(`"(?:\\.|[^"\\])*"|/\*(?s:.*?)\*/|//.*|[0-9][0-9A-Za-z_]*|[A-Za-z_][0-9A-Za-z_]*`)

// surroundings are what a name can be elsewhere.
var surroundings = []string{"struct", "const", "item", "bit"}

// surround adds packages that declare the names of a schema: one that is
// imported but for another name, and one that only the imported packages import.
func surround(files map[string]string, kind int) map[string]string {
	words := func(own bool) map[string]bool {
		all := map[string]bool{}
		for p, c := range files {
			if (p == "a.zs") == own {
				for _, w := range identifier.FindAllString(c, -1) {
					if w[0] >= 'A' && !zs.Keywords[w] && !strings.HasPrefix(w, "_") {
						all[w] = true
					}
				}
			}
		}
		return all
	}
	a, others := words(true), words(false)
	pkg := func(name string, use func(w string) bool) string {
		var sorted []string
		for w := range a {
			sorted = append(sorted, w)
		}
		for w := range others {
			if !a[w] {
				sorted = append(sorted, w)
			}
		}
		sort.Strings(sorted)
		seen := map[string]bool{"zunrelated": true}
		var items []string
		body := "package " + name + ";\nstruct Zunrelated { uint8 x; };\n"
		for _, w := range sorted {
			flat := strings.ToLower(strings.ReplaceAll(w, "_", ""))
			if seen[flat] || !use(w) {
				continue
			}
			seen[flat] = true
			switch surroundings[kind] {
			case "struct":
				body += "struct " + w + " { uint8 value; };\n"
			case "const":
				body += "const uint8 " + w + " = 1;\n"
			default:
				items = append(items, w)
			}
		}
		switch {
		case surroundings[kind] == "item" && len(items) > 0:
			body += "enum uint16 Zitems { " + strings.Join(items, ", ") + " };\n"
		case surroundings[kind] == "bit" && len(items) > 0:
			if len(items) > 64 {
				items = items[:64]
			}
			body += "bitmask uint64 Zbits { " + strings.Join(items, ", ") + " };\n"
		}
		return body
	}
	out := map[string]string{
		"zctx/one.zs": pkg("zctx.one", func(string) bool { return true }),
		"zctx/two.zs": pkg("zctx.two", func(w string) bool { return !others[w] }),
	}
	for p, c := range files {
		imports := "\nimport zctx.one.Zunrelated;\n"
		if p != "a.zs" {
			imports = "\nimport zctx.two.*;\n"
		}
		if at := packageLine.FindStringIndex(c); at != nil {
			c = c[:at[1]] + imports + c[at[1]:]
		}
		out[p] = c
	}
	return out
}

// surrounded checks that names which are not visible change nothing.
func (r *Run) surrounded(n, dir string, bad bool, kind int) {
	id := fmt.Sprintf("%s/around/%s", n, surroundings[kind])
	files := surround(expand(badSchemas[n], bad), kind)
	src, out := filepath.Join(dir, fmt.Sprint("src", kind, bad)), filepath.Join(dir, "out")
	for p, c := range files {
		writeFile(filepath.Join(src, p), c)
	}
	os.RemoveAll(out)
	so, se, code := r.gen(genRun{args: []string{"generate", "--out", out, "--rootpackage", "example.org/x", src}})
	r.eval(id+fmt.Sprint(bad), true)
	left := readTree(out).files()
	rep := map[string]any{"files": files, "stderr": lastLines(se, 5)}
	switch {
	case !bad && code != 0:
		r.viol(id, fmt.Sprintf("the corrected schema is refused among packages with other declarations of its names (exit %d): %s", code, lastLines(se, 3)), rep)
	case !bad:
	case code == 0 && kind >= 2:
		// items of any enum that is imported somewhere are found
		r.count("accepted_with_foreign_items", 1)
	case code == 0:
		r.viol(id, "the invalid schema is accepted if its names are declared where they are not visible: "+strings.TrimSpace(files["a.zs"]), rep)
	default:
		if why := refusal(code, so, se); why != "" {
			r.viol(id, "the invalid schema is not refused cleanly: the generator "+why, rep)
		}
		if len(left) > 0 {
			r.viol(id+"/output", fmt.Sprintf("the refused schema left output: %v", left), rep)
		}
	}
}

// embedded checks that an invalid file among valid ones changes nothing in the
// output of an earlier run, wherever the file stands.
func embedded(r *Run, names []string) {
	base := filepath.Join(r.Scratch, "c17e")
	defer os.RemoveAll(base)
	good := map[string]string{
		"aa.zs":     "package aa; struct First { uint8 v; };",
		"sub/mm.zs": "package mm.sub; import aa.*; struct Middle { First f; uint8 a[]; };",
		"zz.zs":     "package zz; import mm.sub.*; struct Last { Middle m; enumless n; }; subtype uint8 enumless;",
	}
	parallel(len(names), 8, func(i int) {
		n := names[i]
		dir := filepath.Join(base, n)
		src, out := filepath.Join(dir, "src"), filepath.Join(dir, "out")
		for p, c := range good {
			writeFile(filepath.Join(src, p), c)
		}
		for p, c := range expand(badSchemas[n], false) {
			writeFile(filepath.Join(src, "bad", p), c)
		}
		args := []string{"generate", "--out", out, "--rootpackage", "example.org/x", src}
		if _, se, code := r.gen(genRun{args: args}); code != 0 {
			r.viol("embedded/"+n+"/good", "valid schemas are refused: "+lastLines(se, 3), nil)
			return
		}
		writeFile(filepath.Join(out, "aa", "notes.txt"), "not a generated file")
		before := readTree(out)
		os.RemoveAll(filepath.Join(src, "bad"))
		files := expand(badSchemas[n], true)
		for p, c := range files {
			writeFile(filepath.Join(src, "bad", p), c)
		}
		// The valid packages would be different now.
		writeFile(filepath.Join(src, "aa.zs"), "package aa; struct First { uint16 w; };")
		so, se, code := r.gen(genRun{args: args})
		r.eval("embedded/"+n, true)
		if why := refusal(code, so, se); why != "" {
			r.viol("embedded/"+n, "an invalid file among valid ones is not refused cleanly: the generator "+why, map[string]any{"files": files, "stderr": lastLines(se, 5)})
		}
		if d := before.diff(readTree(out)); code != 0 && d != "" {
			r.viol("embedded/"+n+"/output", "a refused run changed the output of an earlier one: "+d, map[string]any{"files": files})
		}
	})
}

// inputs feeds files that are unusual as such.
func inputs(r *Run) {
	rep := strings.Repeat
	ok := "package a; struct A { uint8 x; };"
	cases := map[string]struct {
		src    string
		wanted int // 1: refused, 0: accepted, -1: either
	}{
		"empty":          {"", 1},
		"blank":          {" \n\t \n", 1},
		"comment":        {"// nothing\n", 1},
		"crlf":           {"package a;\r\nstruct A\r\n{\r\n  uint8 x; // c\r\n};\r\n", 0},
		"no_newline":     {ok + " // c", 0},
		"tabs":           {rep("\t", 5000) + ok, 0},
		"lines":          {rep("\n", 100000) + ok, 0},
		"utf8_comment":   {"/* Größe 漢字 🙂 */ " + ok, 0},
		"utf8_string":    {ok + ` const string S = "Größe 漢字 🙂";`, 0},
		"utf8_name":      {"package a; struct Größe { uint8 x; };", 1},
		"latin1":         {"package a; // Gr\xf6\xdfe\nstruct A { uint8 x; };", -1},
		"bom":            {"\ufeff" + ok, -1},
		"nul":            {ok + "\x00", 1},
		"nul_inside":     {"package a; struct A { uint8\x00x; };", 1},
		"long_name":      {"package a; struct A { uint8 " + rep("x", 100000) + "; };", -1},
		"long_type":      {"package a; struct " + rep("X", 100000) + " { uint8 x; };", -1},
		"long_package":   {"package " + rep("p.", 300) + "a; struct A { uint8 x; };", -1},
		"long_string":    {ok + ` const string S = "` + rep("y", 1000000) + `";`, 0},
		"long_comment":   {"/*" + rep("y", 1000000) + "*/" + ok, 0},
		"big_literal":    {ok + " const uint64 C = " + rep("9", 5000) + ";", 1},
		"big_hex":        {ok + " const uint64 C = 0x" + rep("f", 17) + ";", 1},
		"big_binary":     {ok + " const uint64 C = " + rep("1", 65) + "b;", 1},
		"big_octal":      {ok + " const uint64 C = 0" + rep("7", 23) + ";", 1},
		"big_width":      {"package a; struct A { bit:" + rep("9", 50) + " x; };", 1},
		"big_align":      {"package a; struct A { align(" + rep("9", 50) + "): uint8 x; };", 1},
		"big_float":      {ok + " const float64 C = 1e999;", -1},
		"parens":         {ok + " const uint8 C = " + rep("(", 500) + "1" + rep(")", 500) + ";", -1},
		"parens_open":    {ok + " const uint8 C = " + rep("(", 500) + "1;", 1},
		"negations":      {"package a; struct A { bool b; uint8 x if " + rep("!", 1001) + "b; };", -1},
		"sum":            {ok + " const uint32 C = 1" + rep(" + 1", 1000) + ";", -1},
		"template_chain": {"package a; struct T<X> { X x; }; struct A { " + rep("T<", 60) + "uint8" + rep(">", 60) + " t; };", -1},
		"template_wide":  {"package a; struct T<X" + rep(", X", 10) + "> { X x; };", 1},
		"many_fields":    {"package a; struct A { " + numbered(2000, "uint8 f%d; ") + "};", 0},
		"many_types":     {"package a; " + numbered(400, "struct S%d { uint8 x; }; "), 0},
		"many_items":     {"package a; enum uint16 E { " + numbered(2000, "I%d, ") + "LAST };", 0},
		"many_bits":      {"package a; bitmask uint8 M { " + numbered(9, "I%d, ") + "LAST };", 1},
		"consts_chain":   {"package a; const uint32 C0 = 0; " + chain(500, "const uint32 C%d = C%d + 1; "), 0},
		"consts_back":    {"package a; " + back(500, "const uint32 C%d = C%d + 1; ") + "const uint32 C500 = 0;", 0},
		"types_chain":    {"package a; struct S0 { uint8 x; }; " + chain(200, "struct S%d { S%d x; }; "), 0},
		"subtypes_chain": {"package a; subtype uint8 S50; " + back(50, "subtype S%[2]d S%[1]d; ") + "struct A { S0 x; };", 0},
		"div_zero":       {ok + " const uint8 C = 1 / 0;", 1},
		"mod_zero":       {ok + " const uint8 C = 1 % 0;", 1},
		"shift_big":      {ok + " const uint64 C = 1 << 100;", -1},
		"shift_negative": {ok + " const uint64 C = 1 << -1;", 1},
	}
	var names []string
	for n := range cases {
		names = append(names, n)
	}
	sort.Strings(names)
	base := filepath.Join(r.Scratch, "c17i")
	defer os.RemoveAll(base)
	g := newGoChecker(r)
	parallel(len(names), 8, func(i int) {
		n := names[i]
		c := cases[n]
		dir := filepath.Join(base, n)
		writeFile(filepath.Join(dir, "src", "a.zs"), c.src)
		out := filepath.Join(dir, "out")
		so, se, code := r.gen(genRun{args: []string{"generate", "--out", out, "--rootpackage", "example.org/x", filepath.Join(dir, "src", "a.zs")}})
		r.eval("input/"+n, true)
		rep := map[string]any{"input": c.src[:min(len(c.src), 300)], "stderr": lastLines(se, 5)}
		t := readTree(out)
		switch {
		case code == 0 && c.wanted == 1:
			r.viol("input/"+n, "an invalid file is accepted", rep)
		case code == 0:
			if errs := g.check(t, "example.org/x"); len(errs) > 0 {
				r.viol("input/"+n, fmt.Sprintf("accepted, but the generated code is not valid Go: %v", errs[0]), rep)
			}
		case c.wanted == 0:
			r.viol("input/"+n, fmt.Sprintf("a valid file is refused (exit %d): %s", code, lastLines(se, 3)), rep)
		default:
			if why := refusal(code, so, se); why != "" {
				r.viol("input/"+n, "the file is not refused cleanly: the generator "+why, rep)
			}
			if len(t) > 0 {
				r.viol("input/"+n+"/output", fmt.Sprintf("the refused file left output: %v", t.files()), rep)
			}
		}
	})
	// what is not a schema file at all
	os.MkdirAll(filepath.Join(base, "emptydir"), 0755)
	writeFile(filepath.Join(base, "good", "a.zs"), ok)
	good := filepath.Join(base, "good", "a.zs")
	for n, in := range map[string][]string{
		"missing_file":       {filepath.Join(base, "nothing.zs")},
		"missing_after_good": {good, filepath.Join(base, "nothing.zs")},
		"missing_dir":        {filepath.Join(base, "nothing") + "/"},
		"file_as_dir":        {good + "/x.zs"},
		"no_input":           {},
		"unknown_flag":       {"--nonsense", good},
	} {
		out := filepath.Join(base, "out_"+n)
		so, se, code := r.gen(genRun{args: append([]string{"generate", "--out", out, "--rootpackage", "example.org/x"}, in...)})
		r.eval("input/"+n, true)
		if why := refusal(code, so, se); why != "" {
			r.viol("input/"+n, "not refused cleanly: the generator "+why, map[string]any{"args": in, "stderr": lastLines(se, 5)})
		}
		if t := readTree(out); len(t.files()) > 0 {
			r.viol("input/"+n+"/output", fmt.Sprintf("the refused run left output: %v", t.files()), nil)
		}
	}
}

func numbered(n int, format string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, format, i)
	}
	return b.String()
}

func chain(n int, format string) string {
	var b strings.Builder
	for i := 1; i <= n; i++ {
		fmt.Fprintf(&b, format, i, i-1)
	}
	return b.String()
}

func back(n int, format string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, format, i, i+1)
	}
	return b.String()
}

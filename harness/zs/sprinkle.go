package zs

import (
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

var sprinkleRE = regexp.MustCompile("\"(?:\\\\.|[^\"\\\\\n])*\"|/\\*(?s:.*?)\\*/|//[^\n]*|[@A-Za-z_][A-Za-z0-9_]*|[0-9.]+[eE][+-][0-9]+f?|[0-9][0-9A-Za-z_.]*|\\.[0-9][0-9A-Za-z_.]*|<<|>>|&&|\\|\\||[<>=!]=|\\s+|(?s:.)")

// what comments may say: anything, also what would mean something elsewhere
var comments = []string{
	"", " a comment", "x", " struct Old { uint8 x; };", ` "quoted`, " it's", " `raw`", " ü→😀", " 100%d %s {{.}}",
	"go:build ignore", "go:embed x", "line 1", "line x.go:0", "export F", " +build ignore", "go:linkname a b",
	" \ufeff", " // more", " package other", "@index", "\t\ttabs\t", "TODO(x): why?", "/", "=====", " @param x y",
}

// Sprinkle puts comments and white space between the tokens of a schema, which does
// not change what it means.
func Sprinkle(r *rand.Rand, src string) string {
	var b strings.Builder
	often := 2 + r.Intn(40)
	for _, t := range sprinkleRE.FindAllString(src, -1) {
		if r.Intn(often) == 0 {
			if strings.HasSuffix(b.String(), "/") {
				b.WriteByte(' ') // not another comment
			}
			b.WriteString(filling(r))
		}
		b.WriteString(t)
		if strings.HasPrefix(t, "//") {
			b.WriteString("\n")
		}
	}
	if r.Intn(3) == 0 {
		b.WriteString(filling(r))
	}
	return b.String()
}

// SprinkleFiles is Sprinkle for all files of a set.
func SprinkleFiles(r *rand.Rand, files map[string]string) map[string]string {
	var names []string
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	out := map[string]string{}
	for _, f := range names {
		out[f] = Sprinkle(r, files[f])
	}
	return out
}

func filling(r *rand.Rand) string {
	text := comments[r.Intn(len(comments))]
	nl := []string{"\n", "\n", "\r\n", "\n\n"}[r.Intn(4)]
	switch r.Intn(7) {
	case 0:
		return "//" + text + nl
	case 1:
		return nl + "// first" + nl + "//" + text + nl
	case 2:
		return "/** " + text + nl + " * more" + nl + " */"
	case 3:
		return "/*!" + text + " !*/"
	case 4:
		return " /* " + text + " */ "
	case 5:
		return "/*line x:1*/"
	}
	return []string{" ", "\t", nl, "\f", nl + "\t "}[r.Intn(5)]
}

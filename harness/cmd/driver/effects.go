package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// tree is the content of a directory: relative path -> content. Directories
// have the content "<dir>".
type tree map[string]string

func readTree(root string) tree {
	t := tree{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if rel == "." {
			return nil
		}
		if d.IsDir() {
			t[rel] = "<dir>"
			return nil
		}
		if d.Type()&fs.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			t[rel] = "<link " + l + ">"
			return nil
		}
		if !d.Type().IsRegular() {
			t[rel] = "<" + d.Type().String() + ">"
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			t[rel] = "<unreadable>"
			return nil
		}
		t[rel] = string(b)
		return nil
	})
	return t
}

func (t tree) files() []string {
	var out []string
	for p, c := range t {
		if c != "<dir>" {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (t tree) hash() string {
	h := sha256.New()
	var ps []string
	for p := range t {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(h, "%d %s %d %s", len(p), p, len(t[p]), t[p])
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

// diff describes the first differences between two trees.
func (a tree) diff(b tree) string {
	var out []string
	for p := range a {
		if _, ok := b[p]; !ok {
			out = append(out, "only in the first: "+p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, "only in the second: "+p)
		}
	}
	for p, c := range a {
		if d, ok := b[p]; ok && c != d {
			out = append(out, p+": "+firstDiff(c, d))
		}
	}
	sort.Strings(out)
	if len(out) > 4 {
		out = append(out[:4], fmt.Sprintf("... %d differences", len(out)))
	}
	return strings.Join(out, "; ")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "<end>", "<end>"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: %.100q / %.100q", i+1, p, q)
		}
	}
	return "same lines"
}

// genRun is one run of the generator.
type genRun struct {
	dir  string // working directory
	args []string
	env  []string
}

func (r *Run) gen(g genRun) (stdout, stderr string, code int) {
	c := exec.Command(r.CLI, g.args...)
	c.Dir = g.dir
	if c.Dir == "" {
		c.Dir = r.Scratch
	}
	c.Env = append(os.Environ(), g.env...)
	return runCmd(c, 120*time.Second)
}

func copyTree(t tree, root string) {
	for p, c := range t {
		if c == "<dir>" {
			os.MkdirAll(filepath.Join(root, p), 0755)
		} else {
			writeFile(filepath.Join(root, p), c)
		}
	}
}

var _ = bytes.NewReader

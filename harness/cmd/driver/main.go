// Command driver runs the check of one property: it builds the generator from
// /repo, generates and compiles code for the property's schemas, runs the
// monitored workload and judges what the monitors reported.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/woven-planet/go-zserio/verif/work"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// Viol is one violation.
type Viol struct {
	Key, Msg string
	Case     map[string]any
}

// Run is the state of one check run.
type Run struct {
	ID, Tier string
	Seed     int64
	Verif    string
	Repo     string
	Scratch  string
	Mod      string
	CLI      string
	public   string // copy of CLI for other users
	Suites   []*Suite
	Race     bool

	mu       sync.Mutex
	viols    []Viol
	evals    int64
	distinct int64
	seen     map[string]bool
	samples  []any
	counters map[string]int64
	start    time.Time
}

// Suite is a set of schema files generated together.
type Suite struct {
	Name  string
	Group string
	Files map[string]string // relative path -> source
	SQL   bool
	NoFmt bool
	Skip  map[string]bool // types that are not registered
	Set   *zs.Set
	Dir   string // schema directory
	Gen   string // output directory
	Bad   bool

	types   []string // registration code
	compErr string
}

func (r *Run) thorough() bool { return r.Tier == "thorough" }

func (r *Run) n(quick, thorough int) int {
	if r.thorough() {
		return thorough
	}
	return quick
}

func (r *Run) viol(key, msg string, cs map[string]any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, v := range r.viols {
		if v.Key == key && v.Msg == msg {
			return
		}
	}
	r.viols = append(r.viols, Viol{key, msg, cs})
}

func (r *Run) count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// eval counts an execution of the driver itself.
func (r *Run) eval(id string, nontrivial bool) {
	r.mu.Lock()
	r.evals++
	if nontrivial && !r.seen[id] {
		r.seen[id] = true
		r.distinct++
	}
	r.mu.Unlock()
}

func (r *Run) sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: driver ID TIER")
	}
	r := &Run{ID: os.Args[1], Tier: os.Args[2], Seed: 1, seen: map[string]bool{}, counters: map[string]int64{}, start: time.Now()}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			r.Seed = v
		}
	}
	r.Verif = os.Getenv("VERIF_DIR")
	r.Scratch = os.Getenv("VERIF_SCRATCH")
	r.Repo = os.Getenv("VERIF_REPO")
	if r.Repo == "" {
		r.Repo = "/repo"
	}
	if r.Verif == "" || r.Scratch == "" {
		fatal("VERIF_DIR and VERIF_SCRATCH must be set")
	}
	p, ok := plans[r.ID]
	if !ok {
		fatal("no plan for %s", r.ID)
	}
	r.Mod = filepath.Join(r.Scratch, "mod")
	r.CLI = filepath.Join(r.Scratch, "go-zserio")
	r.buildCLI()
	r.writeModule()
	r.Race = p.race
	if p.groups != nil {
		r.collect(p)
		if !p.noBuild {
			r.generate()
			r.compile()
		}
	}
	if p.driver != nil {
		p.driver(r)
	}
	if p.worker {
		r.worker(p)
	}
	r.finish(p)
}

func (r *Run) goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	if r.Race {
		c.Env = append(c.Env, "CGO_ENABLED=1")
	}
	return c
}

func (r *Run) buildCLI() {
	c := exec.Command("go", "build", "-o", r.CLI, "./cmd/go-zserio")
	c.Dir = r.Repo
	c.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if out, err := c.CombinedOutput(); err != nil {
		fatal("building go-zserio: %v\n%s", err, out)
	}
}

// cli runs the generator with a generous watchdog.
func (r *Run) cli(dir string, args ...string) (stdout, stderr string, code int) {
	c := exec.Command(r.CLI, args...)
	c.Dir = dir
	return runCmd(c, 120*time.Second)
}

func runCmd(c *exec.Cmd, limit time.Duration) (stdout, stderr string, code int) {
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		fatal("start %v: %v", c.Args, err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		return so.String(), se.String() + "\n[killed: no end within " + limit.String() + "]", -9
	}
	code = 0
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		} else {
			code = -1
		}
	}
	return so.String(), se.String(), code
}

// finish applies the known findings, writes the evidence and reports.
func (r *Run) finish(p *plan) {
	if len(r.viols) == 0 && r.evals == 0 {
		r.viol("nothing-observed", "the workload ran no case at all", nil)
	}
	known := r.known()
	var bad []Viol
	hits := map[string]string{}
	for _, v := range r.viols {
		if what, ok := known[v.Key]; ok {
			hits[v.Key] = what
			continue
		}
		bad = append(bad, v)
	}
	var keys []string
	for k := range hits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", r.ID, k, hits[k])
	}
	r.evidence(p, len(bad), len(hits))
	if len(bad) == 0 {
		fmt.Printf("%s %s: held on %d executions (%d distinct) in %.1fs %v\n", r.ID, r.Tier, r.evals, r.distinct, time.Since(r.start).Seconds(), r.counters)
		return
	}
	dir := filepath.Join(r.Verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	for i, v := range bad {
		if i >= 10 && os.Getenv("VERIF_ALL") == "" {
			fmt.Printf("... and %d more\n", len(bad)-i)
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", r.ID, r.Tier, i))
		rec := map[string]any{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "key": v.Key, "message": v.Msg, "case": v.Case,
			"how": fmt.Sprintf("VERIF_SEED=%d %s/run.sh %s %s", r.Seed, r.Verif, r.ID, r.Tier)}
		suite := v.Key
		if j := strings.IndexAny(suite, ":/"); j >= 0 {
			suite = suite[:j]
		}
		for _, s := range r.Suites {
			if s.Name == suite {
				rec["schemas"] = s.Files
			}
		}
		b, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("  %s: %s\n", v.Key, firstLines(v.Msg, 6))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
	}
	os.Exit(1)
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n      ")
}

// known reads the known findings of this property.
func (r *Run) known() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(r.Verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+r.ID+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+r.ID+" key=")
		k, what, _ := strings.Cut(rest, " ")
		out[k] = what
	}
	return out
}

func (r *Run) evidence(p *plan, bad, known int) {
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": r.distinct,
		"rule":                p.rule,
		"samples":             r.samples,
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{}
	}
	if len(r.Suites) > 0 {
		good, types := 0, 0
		for _, s := range r.Suites {
			if !s.Bad {
				good++
				types += len(s.types)
			}
		}
		cov["schema_sets"] = len(r.Suites)
		cov["schema_sets_compiled"] = good
		cov["registered_symbols"] = types
	}
	for k, v := range r.counters {
		cov["observed_"+k] = v
	}
	cov["known_findings_seen"] = known
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": p.levelName(),
		"coverage": cov, "assumptions": p.assume, "wall_s": time.Since(r.start).Seconds(), "violations": bad,
	}
	if p.assume == nil {
		delete(ev, "assumptions")
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(r.Verif, "evidence", r.ID+".json"), b, 0644); err != nil {
		fatal("evidence: %v", err)
	}
}

var _ = work.LoadSet

// Package work is the monitored process: it drives the generated code and the
// runtime library under one property's workload and reports what the oracles see.
package work

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	zserio "github.com/woven-planet/go-zserio"

	"github.com/woven-planet/go-zserio/verif/reg"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// Line is one line of the result stream.
type Line struct {
	Kind     string           `json:"k"` // v violation, s summary
	Key      string           `json:"key,omitempty"`
	Msg      string           `json:"msg,omitempty"`
	Case     map[string]any   `json:"case,omitempty"`
	Evals    int64            `json:"evals,omitempty"`
	Distinct int64            `json:"distinct,omitempty"`
	Samples  []string         `json:"samples,omitempty"`
	Counters map[string]int64 `json:"counters,omitempty"`
}

// Ctx is the state of one worker process.
type Ctx struct {
	Check  string
	Tier   string
	Seed   int64
	Shard  int
	Shards int
	Suites map[string]*zs.Set
	Dir    string
	Only   string // replay: key prefix

	mu       sync.Mutex
	out      *bufio.Writer
	f        *os.File
	journal  *os.File
	evals    int64
	seen     map[uint64]bool
	samples  []string
	counters map[string]int64
	nviol    map[string]int
	scheds   map[uint64]bool
	caseT    time.Time
	caseS    string
}

// Thorough tells the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a workload size.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rng gives a generator determined by the seed and a label.
func (c *Ctx) Rng(label string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", c.Seed, label)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Violation reports a broken property. key identifies what is broken.
func (c *Ctx) Violation(key, msg string, cs map[string]any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nviol[key]++
	if c.nviol[key] > 3 || len(c.nviol) > 400 {
		return
	}
	c.emit(Line{Kind: "v", Key: key, Msg: msg, Case: cs})
	c.out.Flush()
}

func (c *Ctx) emit(l Line) {
	b, err := json.Marshal(l)
	if err != nil {
		b, _ = json.Marshal(Line{Kind: "v", Key: l.Key, Msg: l.Msg})
	}
	c.out.Write(append(b, '\n'))
}

// Count increases a counter.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Eval counts an evaluation; id identifies the case for the distinct count.
func (c *Ctx) Eval(id string, nontrivial bool) {
	c.mu.Lock()
	c.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(id))
		c.seen[h.Sum64()] = true
	}
	c.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Journal notes the case about to run, so that a crash can be attributed.
func (c *Ctx) Journal(s string) {
	c.mu.Lock()
	c.caseT, c.caseS = time.Now(), s
	c.mu.Unlock()
	if c.journal != nil {
		if len(s) > 1000 {
			s = s[:1000]
		}
		c.journal.WriteAt([]byte(fmt.Sprintf("%-1001s\n", s)), 0)
	}
}

// Guard runs f and turns a panic into a description.
func Guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			p = fmt.Sprintf("%v\n%s", r, trimStack(st))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-zserio") && !strings.Contains(l, "/verif/") || strings.Contains(l, "verifgen") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var checks = map[string]func(*Ctx){}

// Main is the main function of the worker process.
func Main() {
	c := &Ctx{seen: map[uint64]bool{}, counters: map[string]int64{}, nviol: map[string]int{}, Suites: map[string]*zs.Set{}}
	var out, journal string
	flag.StringVar(&c.Check, "check", "", "")
	flag.StringVar(&c.Tier, "tier", "quick", "")
	flag.Int64Var(&c.Seed, "seed", 1, "")
	flag.IntVar(&c.Shard, "shard", 0, "")
	flag.IntVar(&c.Shards, "shards", 1, "")
	flag.StringVar(&c.Dir, "suites", "", "")
	flag.StringVar(&c.Only, "only", "", "")
	flag.StringVar(&out, "out", "", "")
	flag.StringVar(&journal, "journal", "", "")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	var err error
	if c.f, err = os.Create(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	c.out = bufio.NewWriter(c.f)
	if journal != "" {
		c.journal, _ = os.Create(journal)
	}
	if err := c.load(); err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	fn := checks[c.Check]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown check", c.Check)
		os.Exit(3)
	}
	go c.watchdog()
	fn(c)
	c.mu.Lock()
	c.emit(Line{Kind: "s", Evals: c.evals, Distinct: int64(len(c.seen)), Samples: c.samples, Counters: c.counters})
	c.out.Flush()
	c.f.Close()
	os.Exit(0)
}

// watchdog ends a process that makes no progress within one case.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(5 * time.Second)
		c.mu.Lock()
		if !c.caseT.IsZero() && time.Since(c.caseT) > 120*time.Second {
			c.emit(Line{Kind: "v", Key: "hang", Msg: "no progress for 120 s in one case: " + c.caseS})
			c.out.Flush()
			os.Exit(4)
		}
		c.mu.Unlock()
	}
}

func (c *Ctx) load() error {
	need := map[string]bool{}
	for _, e := range reg.Types {
		need[e.Suite] = true
	}
	for _, e := range reg.Consts {
		need[e.Suite] = true
	}
	for s := range need {
		set, err := LoadSet(filepath.Join(c.Dir, s))
		if err != nil {
			return fmt.Errorf("%s: %w", s, err)
		}
		c.Suites[s] = set
	}
	return nil
}

// LoadSet parses all schema files below a directory.
func LoadSet(dir string) (*zs.Set, error) {
	var files []string
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".zs") {
			files = append(files, p)
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	var pkgs []*zs.Package
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p, err := zs.ParsePackage(string(b))
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
		pkgs = append(pkgs, p)
	}
	return zs.NewSet(pkgs...), nil
}

// Entry is a generated type together with its schema.
type Entry struct {
	*reg.Entry
	Set *zs.Set
	T   *zs.RType
	Gen *zs.Gen
	c   *Ctx
}

// ID names the entry.
func (e *Entry) ID() string { return e.Suite + ":" + e.Pkg + "." + e.Name }

// Entries gives this shard's compound, enum and bitmask types.
func (c *Ctx) Entries() []*Entry { return c.entries(false) }

func (c *Ctx) allEntries() []*Entry { return c.entries(true) }

func (c *Ctx) entries(everything bool) []*Entry {
	all := append([]*reg.Entry{}, reg.Types...)
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if a.Suite != b.Suite {
			return a.Suite < b.Suite
		}
		if a.Pkg != b.Pkg {
			return a.Pkg < b.Pkg
		}
		return a.Name < b.Name
	})
	var out []*Entry
	for i, e := range all {
		if i%c.Shards != c.Shard && !everything {
			continue
		}
		if c.Only != "" && !strings.HasPrefix(e.Suite+":"+e.Pkg+"."+e.Name, c.Only) {
			continue
		}
		if _, ok := e.New().(zserio.ZserioType); !ok {
			continue
		}
		set := c.Suites[e.Suite]
		var t *zs.RType
		if p := Guard(func() { t = set.Pkgs[e.Pkg].TypeOf(e.Name) }); p != "" {
			fmt.Fprintln(os.Stderr, "resolve", e.Suite, e.Pkg, e.Name, p)
			os.Exit(3)
		}
		en := &Entry{Entry: e, Set: set, T: t, c: c}
		out = append(out, en)
	}
	return out
}

// Case is one value of one type.
type Case struct {
	*Entry
	I    int
	V    *zs.Val
	Ref  []byte // reference encoding at position 0
	Bits int
	R    *rand.Rand
	Enc  *zs.Enc
}

// Desc describes the case for a report.
func (k *Case) Desc() map[string]any {
	return map[string]any{"type": k.ID(), "index": k.I, "value": k.V.String(), "reference_hex": fmt.Sprintf("%x", clip(k.Ref)), "reference_bits": k.Bits}
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// Fail reports a violation in this case.
func (k *Case) Fail(oracle, format string, a ...any) {
	k.c.Violation(k.ID()+"/"+oracle, fmt.Sprintf(format, a...), k.Desc())
}

// Obj makes a Go object holding the value.
func (k *Case) Obj() any {
	o := k.New()
	zs.Store(k.V, reflect.ValueOf(o).Elem())
	return o
}

// Fresh makes an empty object with the parameters set.
func (k *Case) Fresh() any { return fresh(k.New(), k.V) }

func fresh(o any, v *zs.Val) any {
	zs.SetParams(v, reflect.ValueOf(o).Elem())
	return o
}

// Get reads a Go object back.
func (k *Case) Get(o any) (*zs.Val, error) {
	g := &zs.GoReader{}
	return g.Get(k.T, reflect.ValueOf(o).Elem(), k.V.Params)
}

// Each runs f over n values of every type of the shard.
func (c *Ctx) Each(n int, f func(k *Case)) {
	for _, e := range c.Entries() {
		c.EachOf(e, n, f)
	}
}

// EachOf runs f over n values of one type.
func (c *Ctx) EachOf(e *Entry, n int, f func(k *Case)) { c.eachOf(e, n, 0, f) }

// EachBig runs f over values with long arrays, strings and buffers, if a type
// has such values.
func (c *Ctx) EachBig(n int, f func(k *Case)) {
	for _, e := range c.Entries() {
		if e.T.Kind != zs.KEnum && e.T.Kind != zs.KBitmask {
			c.eachOf(e, n, 2, f)
		}
	}
}

func (c *Ctx) eachOf(e *Entry, n, big int, f func(k *Case)) {
	if e.T.Kind == zs.KEnum || e.T.Kind == zs.KBitmask {
		if n > 12 {
			n = 12
		}
	}
	misses := 0
	for i := 0; i < n; i++ {
		r := c.Rng(fmt.Sprintf("%s#%d", e.ID(), i))
		if big > 0 {
			r = c.Rng(fmt.Sprintf("%s#big%d", e.ID(), i))
		}
		g := zs.NewGen(e.Set, r)
		g.Big = big
		v := g.Value(e.T)
		if v == nil && big > 0 {
			continue
		}
		if v == nil {
			misses++
			c.Count("no_value_found", 1)
			if misses > 5 && misses > i/2 {
				c.Count("types_without_values", 1)
				c.Count("without_values "+e.ID(), 1)
				return
			}
			continue
		}
		enc, err := zs.EncodeAt(v, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, "reference encoder:", e.ID(), err)
			os.Exit(3)
		}
		if big > 0 {
			if enc.W.Len() < 900 {
				continue
			}
			c.Count("big_values", 1)
		}
		k := &Case{Entry: e, I: i, V: v, Ref: enc.W.Bytes(), Bits: enc.W.Len(), R: r, Enc: enc}
		c.Journal(fmt.Sprintf("%s #%d %s", e.ID(), i, v))
		c.Eval(e.ID()+string(k.Ref), k.Bits > 0)
		if i == 1 && k.Bits > 16 {
			c.Sample(fmt.Sprintf("%s = %s -> %d bits %x", e.ID(), v, k.Bits, clip(k.Ref)))
		}
		if p := Guard(func() { f(k) }); p != "" {
			if strings.Contains(p, "binding:") {
				k.Fail("binding", "the generated Go type does not correspond to the schema: %s", firstLine(p))
			} else {
				k.Fail("panic", "panic: %s", p)
			}
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

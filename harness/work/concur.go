package work

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"

	"github.com/woven-planet/go-zserio/verif/mon"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// The concurrent workload keeps the monitors from adding synchronisation of
// their own: every goroutine works on objects prepared before the start, keeps
// its results to itself and they are judged after all have ended. What is
// expected comes from the reference model or from repeating the operation
// alone.

// cop is one operation of one goroutine.
type cop struct {
	kind  int
	k     *Case
	p     *prim
	x     any
	pos   int
	in    []byte // shared with other goroutines, read only
	obj   any
	other any
	seed  int64

	t0, t1 time.Time
	out    coutcome
}

// coutcome is what an operation gave.
type coutcome struct {
	data  []byte
	n     int
	err   string
	panic string
	obj   any
	text  []string
}

const (
	copMarshal = iota
	copSize
	copUnmarshal
	copWrite
	copRead
	copCorrupt
	copDefaults
	copFuncs
	copEnum
	copPrim
	copSinkFault
	copKinds
)

var copNames = []string{"Marshal", "ZserioBitSize", "Unmarshal", "MarshalZserio", "UnmarshalZserio", "Unmarshal of bad input", "LoadDefaultValues", "functions", "enum functions", "runtime codec", "MarshalZserio to a failing writer"}

// yielder gives the processor away in the middle of an operation.
type yielder struct{ r *rand.Rand }

func (y yielder) hook() {
	switch y.r.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		if y.r.Intn(8) == 0 {
			time.Sleep(time.Duration(1+y.r.Intn(20)) * time.Microsecond)
		}
	}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// run performs the operation. It must not touch anything that another
// goroutine writes.
func (o *cop) run() (out coutcome) {
	out.panic = Guard(func() {
		y := yielder{rand.New(rand.NewSource(o.seed))}
		switch o.kind {
		case copMarshal:
			b, err := zserio.Marshal(o.obj.(zserio.Marshaler))
			out.err = errText(err)
			out.data = append([]byte{}, b...)
			for i := range b { // the result belongs to this goroutine alone
				b[i] ^= 0x5a
			}
		case copSize:
			n, err := o.obj.(zserio.Marshaler).ZserioBitSize(o.pos)
			out.n, out.err = n, errText(err)
		case copUnmarshal, copCorrupt:
			out.err = errText(zserio.Unmarshal(o.in, o.obj.(zserio.Unmarshaler)))
			out.obj = o.obj
			if o.other != nil {
				if zserio.Unmarshal(o.in, o.other.(zserio.Unmarshaler)) == nil {
					scribble(reflect.ValueOf(o.other), 0)
				}
			}
		case copWrite, copSinkFault:
			w := mon.NewW(o.pos)
			w.Hook = y.hook
			if o.kind == copSinkFault {
				w.FailAt = o.pos % 7
			}
			out.err = errText(o.obj.(zserio.Marshaler).MarshalZserio(w))
			out.data, out.n = w.Bytes(), w.Len()
		case copRead:
			r := mon.NewR(o.in, o.pos+o.k.Bits, o.pos)
			r.Hook = y.hook
			out.err = errText(o.obj.(zserio.Unmarshaler).UnmarshalZserio(r))
			out.n = r.Pos() - o.pos
			out.obj = o.obj
		case copDefaults:
			if l, ok := o.obj.(interface{ LoadDefaultValues() error }); ok {
				out.err = errText(l.LoadDefaultValues())
			}
			out.obj = o.obj
		case copFuncs:
			rv := reflect.ValueOf(o.obj)
			for _, f := range o.k.T.D.Funcs {
				m := rv.MethodByName(zs.GoName(f.Name))
				if !m.IsValid() || m.Type().NumIn() != 0 {
					continue
				}
				s := ""
				if p := Guard(func() {
					for _, x := range m.Call(nil) {
						s += fmt.Sprintf("%v ", x.Interface())
					}
				}); p != "" {
					s = "panic"
				}
				out.text = append(out.text, f.Name+"="+s)
			}
		case copEnum:
			e := o.k.Entry.Entry
			if e.Values != nil {
				vs := reflect.ValueOf(e.Values).Call(nil)[0]
				for i := 0; i < vs.Len(); i++ {
					out.text = append(out.text, fmt.Sprint(vs.Index(i).Interface()))
				}
				ss := reflect.ValueOf(e.Strings).Call(nil)[0]
				for i := 0; i < ss.Len(); i++ {
					s := ss.Index(i).String()
					res := reflect.ValueOf(e.FromString).Call([]reflect.Value{reflect.ValueOf(s)})
					out.text = append(out.text, s, fmt.Sprint(res[0].Interface(), res[1].IsNil()))
				}
				scribble(vs, 0)
				scribble(ss, 0)
				res := reflect.ValueOf(e.FromString).Call([]reflect.Value{reflect.ValueOf("no such item")})
				out.text = append(out.text, fmt.Sprint(res[1].IsNil()))
			}
			out.text = append(out.text, fmt.Sprint(reflect.ValueOf(o.obj).Elem().Interface()))
		case copPrim:
			var sink bytes.Buffer
			w := zstream.NewWriter(&sink)
			w.WriteBits(0, uint8(o.pos%8))
			err := o.p.write(w, o.x)
			if err != nil {
				out.err = err.Error()
				return
			}
			w.Close()
			out.data = append([]byte{}, sink.Bytes()...)
			r := zstream.NewReader(bytes.NewReader(sink.Bytes()))
			r.ReadBits(uint8(o.pos % 8))
			x, err := o.p.read(r)
			out.err = errText(err)
			if err == nil && !o.p.same(o.x, x) {
				out.text = append(out.text, "read back "+show(x))
			}
			if o.p.size != nil {
				n, err := o.p.size(o.x)
				out.n, out.err = n, out.err+errText(err)
			}
		}
	})
	return out
}

// prepare makes the objects of an operation.
func (o *cop) prepare() {
	switch o.kind {
	case copMarshal, copSize, copWrite, copFuncs, copEnum, copSinkFault:
		o.obj = o.k.Obj()
	case copUnmarshal, copCorrupt, copRead:
		o.obj = o.k.Fresh()
		if o.kind == copUnmarshal {
			o.other = o.k.Fresh()
		}
	case copDefaults:
		o.obj = o.k.New()
	}
}

func (o *cop) name() string {
	if o.kind == copPrim {
		return "runtime:" + o.p.name
	}
	return o.k.ID()
}

// judge compares the outcome with the reference model and with the same
// operation done alone.
func (o *cop) judge(c *Ctx) {
	cs := map[string]any{"operation": copNames[o.kind], "on": o.name(), "position": o.pos}
	if o.k != nil {
		cs["value"] = o.k.V.String()
		cs["reference_hex"] = fmt.Sprintf("%x", clip(o.k.Ref))
	} else {
		cs["value"] = show(o.x)
	}
	bad := func(f string, a ...any) {
		c.Violation(o.name()+"/concurrent", copNames[o.kind]+" beside other goroutines: "+fmt.Sprintf(f, a...), cs)
	}
	got := o.out
	if o.kind != copPrim && o.kind != copEnum && o.kind != copDefaults && got.panic == "" {
		switch o.kind {
		case copMarshal:
			if got.err != "" || !bytes.Equal(got.data, o.k.Ref) {
				bad("gives %x (%s)", clip(got.data), got.err)
				return
			}
		case copSize:
			if _, n := o.k.refAt(o.pos); got.err != "" || got.n != n {
				bad("gives %d (%s), %d is right", got.n, got.err, n)
				return
			}
		case copWrite:
			want, n := o.k.refAt(o.pos)
			if d := bitDiff(want, got.data, n, got.n); got.err != "" || d != "" {
				bad("%s (%s)", d, got.err)
				return
			}
		case copUnmarshal, copRead:
			if got.err != "" {
				bad("error: %s", got.err)
				return
			}
			if o.kind == copRead && got.n != o.k.Bits {
				if _, n := o.k.refAt(o.pos); got.n != n {
					bad("consumed %d bits, %d are right", got.n, n)
					return
				}
			}
			if d := diffOf(o.k, o.k.V, got.obj); d != "" {
				bad("wrong value: %s", d)
				return
			}
		}
	}
	alone := *o
	alone.prepare()
	want := alone.run()
	switch {
	case (got.panic != "") != (want.panic != ""):
		bad("panics %q, alone %q", firstLine(got.panic), firstLine(want.panic))
	case got.panic != "":
		if firstLine(got.panic) != firstLine(want.panic) {
			bad("panics %q, alone %q", firstLine(got.panic), firstLine(want.panic))
		}
	case got.err != want.err:
		bad("error %q, alone %q", got.err, want.err)
	case !bytes.Equal(got.data, want.data) || got.n != want.n:
		bad("gives %x/%d, alone %x/%d", clip(got.data), got.n, clip(want.data), want.n)
	case fmt.Sprint(got.text) != fmt.Sprint(want.text):
		bad("gives %v, alone %v", got.text, want.text)
	case got.obj != nil:
		if d := deepDiff(reflect.ValueOf(got.obj), reflect.ValueOf(want.obj), ""); d != "" {
			bad("gives another object than alone: %s", d)
		}
	}
}

// session runs plans[g] in goroutine g.
func (c *Ctx) session(label string, procs int, plans [][]*cop) {
	c.Journal("concurrent session " + label)
	old := runtime.GOMAXPROCS(procs)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, ops := range plans {
		wg.Add(1)
		go func(ops []*cop) {
			defer wg.Done()
			<-start
			for _, o := range ops {
				o.t0 = time.Now()
				o.out = o.run()
				o.t1 = time.Now()
			}
		}(ops)
	}
	close(start)
	wg.Wait()
	runtime.GOMAXPROCS(old)

	// the schedule that was seen
	type ev struct {
		t time.Time
		g int
		d int
	}
	var evs []ev
	for g, ops := range plans {
		for _, o := range ops {
			evs = append(evs, ev{o.t0, g, 1}, ev{o.t1, g, -1})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	h := fnv.New64a()
	cur, maxIn, switches := 0, 0, 0
	for i, e := range evs {
		cur += e.d
		if cur > maxIn {
			maxIn = cur
		}
		if e.d > 0 && cur > 1 {
			c.counters["operations_started_beside_others"]++
		}
		if i > 0 && evs[i-1].g != e.g {
			switches++
		}
		fmt.Fprintf(h, "%d:%d,", e.g, e.d)
	}
	c.Count("goroutine_switches_seen", int64(switches))
	c.Count("sessions", 1)
	c.scheds[h.Sum64()] = true
	if int64(maxIn) > c.counters["max_in_flight"] {
		c.counters["max_in_flight"] = int64(maxIn)
	}
	for _, ops := range plans {
		for _, o := range ops {
			id := o.name() + "/" + copNames[o.kind]
			if o.k != nil {
				id += string(o.k.Ref)
			} else {
				id += show(o.x)
			}
			c.Eval(id, true)
			c.counters["ran_"+copNames[o.kind]]++
			o.judge(c)
		}
	}
}

// bounded says whether an input stands for a moderate number of elements.
func bounded(k *Case, in []byte) bool {
	_, err := zs.Decode(k.T, k.V.Params, in, 8*len(in), 0, 4000)
	return err == nil || errors.Is(err, zs.ErrShort) || errors.Is(err, zs.ErrInvalid) ||
		!errors.Is(err, zs.ErrBudget) && !zs.Hollow(k.T)
}

func (c *Ctx) concurrent() {
	c.scheds = map[uint64]bool{}
	var all []*Case
	byType := map[string][]*Case{}
	var ids []string
	for _, e := range c.Entries() {
		n := c.N(4, 24)
		c.EachOf(e, n, func(k *Case) {
			all = append(all, k)
			if byType[e.ID()] == nil {
				ids = append(ids, e.ID())
			}
			byType[e.ID()] = append(byType[e.ID()], k)
		})
	}
	c.evals, c.seen = 0, map[uint64]bool{} // values become cases when they are run
	r := c.Rng(fmt.Sprintf("concurrent-%d", c.Shard))
	ps := prims()
	primVals := map[string][]any{}
	for _, p := range ps {
		vs := p.values(r, 6)
		for len(primVals[p.name]) < 6 && len(vs) > 0 {
			primVals[p.name] = append(primVals[p.name], vs[r.Intn(len(vs))])
		}
	}
	// inputs are shared by all goroutines
	shared := map[*Case][]byte{}
	moved := map[*Case]map[int][]byte{}
	bad := map[*Case][]byte{}
	for _, k := range all {
		shared[k] = append([]byte{}, k.Ref...)
		b := corrupt(r, k.Ref)
		if !bounded(k, b) {
			if b = k.Ref; len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
			if !bounded(k, b) {
				b = k.Ref
			}
		}
		bad[k] = append([]byte{}, b...)
		moved[k] = map[int][]byte{}
	}
	mk := func(kind int, k *Case, pos int) *cop {
		o := &cop{kind: kind, k: k, pos: pos, seed: r.Int63()}
		switch kind {
		case copUnmarshal:
			o.in = shared[k]
		case copCorrupt:
			o.in = bad[k]
		case copRead:
			bits, n := k.refAt(pos)
			if n != k.Bits { // alignment: only where the length is the same
				o.pos = 0
				o.in = shared[k]
			} else {
				if moved[k][pos] == nil {
					moved[k][pos] = shifted(bits, n, pos)
				}
				o.in = moved[k][pos]
			}
		}
		o.prepare()
		return o
	}
	mkPrim := func() *cop {
		p := &ps[r.Intn(len(ps))]
		for len(primVals[p.name]) == 0 {
			p = &ps[r.Intn(len(ps))]
		}
		return &cop{kind: copPrim, p: p, x: primVals[p.name][r.Intn(len(primVals[p.name]))], pos: r.Intn(8), seed: r.Int63()}
	}
	kindFor := func(k *Case) int {
		for {
			kind := r.Intn(copKinds - 1)
			if kind == copPrim {
				kind = copSinkFault
			}
			switch kind {
			case copEnum:
				if k.T.Kind != zs.KEnum && k.T.Kind != zs.KBitmask {
					continue
				}
			case copFuncs:
				if !k.T.IsCompound() || len(k.T.D.Funcs) == 0 {
					continue
				}
			}
			return kind
		}
	}
	if len(all) == 0 {
		return
	}
	const G = 8
	// first use: every goroutine meets every type at about the same time, with
	// the same operation
	for round := 0; round < c.N(1, 2); round++ {
		plans := make([][]*cop, G)
		for _, id := range ids {
			k := byType[id][r.Intn(len(byType[id]))]
			kind := []int{copMarshal, copUnmarshal, copSize, copEnum}[r.Intn(4)]
			if kind == copEnum {
				kind = kindFor(k)
			}
			for g := range plans {
				plans[g] = append(plans[g], mk(kind, k, positions[r.Intn(len(positions))]))
			}
		}
		c.session(fmt.Sprintf("first use, shard %d", c.Shard), runtime.NumCPU(), plans)
	}
	// the same type with different operations, few types at a time
	for i := 0; i < c.N(2, 10); i++ {
		for _, id := range ids {
			plans := make([][]*cop, G)
			for g := range plans {
				for j := 0; j < 6; j++ {
					k := byType[id][r.Intn(len(byType[id]))]
					plans[g] = append(plans[g], mk(kindFor(k), k, positions[r.Intn(len(positions))]))
				}
			}
			c.session(id, []int{1, 2, 4, 8}[r.Intn(4)], plans)
		}
	}
	// everything mixed
	for i := 0; i < c.N(6, 60); i++ {
		plans := make([][]*cop, []int{2, 4, 8, 16}[r.Intn(4)])
		for g := range plans {
			for j := 0; j < 24; j++ {
				if r.Intn(3) == 0 {
					plans[g] = append(plans[g], mkPrim())
					continue
				}
				k := all[r.Intn(len(all))]
				plans[g] = append(plans[g], mk(kindFor(k), k, positions[r.Intn(len(positions))]))
			}
		}
		c.session(fmt.Sprintf("mixed %d, shard %d", i, c.Shard), []int{1, 2, 4, 8}[r.Intn(4)], plans)
	}
	for k, b := range shared {
		if !bytes.Equal(b, k.Ref) {
			k.Fail("input", "decoding changed input that goroutines share")
		}
	}
	c.Count("distinct_schedules", int64(len(c.scheds)))
	c.Sample(fmt.Sprintf("shard %d: %d sessions over %d types, %d distinct schedules, up to %d operations in flight", c.Shard, c.counters["sessions"], len(ids), len(c.scheds), c.counters["max_in_flight"]))
}

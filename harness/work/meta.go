package work

import (
	"reflect"
	"strings"

	zserio "github.com/woven-planet/go-zserio"

	"github.com/woven-planet/go-zserio/verif/mon"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// rewritings compares the code for a schema set with that for rewritings of it.
func (c *Ctx) rewritings() {
	all := c.allEntries()
	by := map[string]*Entry{}
	for _, e := range all {
		by[e.Suite+"/"+e.Name] = e
	}
	for i, e := range all {
		name, _, ok := strings.Cut(e.Suite, "__v")
		if i%c.Shards != c.Shard || !ok {
			continue
		}
		base := by[name+"/"+e.Name]
		if base == nil {
			continue
		}
		c.Count("pairs_of_types", 1)
		if e.T.IsCompound() {
			c.Count("pairs_of_compounds", 1)
		}
		c.EachOf(base, c.N(12, 120), func(k *Case) { k.rewritten(e) })
	}
}

// rewritten checks that another version of the type behaves the same.
func (k *Case) rewritten(e *Entry) {
	fail := func(oracle, format string, a ...any) {
		n := *k
		n.Entry = e
		n.Fail(oracle, format, a...)
	}
	k.c.Eval(e.ID()+"/"+string(k.Ref), k.Bits > 0)
	v := zs.Rebind(k.V, e.T)
	pos := positions[k.I%len(positions)]
	obj := func() any {
		o := e.New()
		zs.Store(v, reflect.ValueOf(o).Elem())
		return o
	}
	w1, w2 := mon.NewW(pos), mon.NewW(pos)
	err1 := k.Obj().(zserio.Marshaler).MarshalZserio(w1)
	err2 := obj().(zserio.Marshaler).MarshalZserio(w2)
	if (err1 == nil) != (err2 == nil) {
		fail("rewritten", "encoding gives the error %v, before the rewriting %v", err2, err1)
		return
	}
	if err1 != nil {
		k.c.Count("encodings_failed", 1)
		return
	}
	if d := bitDiff(w1.Bytes(), w2.Bytes(), w1.Len(), w2.Len()); d != "" {
		fail("rewritten", "at bit %d the rewritten type (second) encodes differently: %s", pos, d)
		return
	}
	n1, err1 := k.Obj().(zserio.Marshaler).ZserioBitSize(pos)
	n2, err2 := obj().(zserio.Marshaler).ZserioBitSize(pos)
	if n1 != n2 || (err1 == nil) != (err2 == nil) {
		fail("rewritten", "at bit %d the rewritten type has size %d (%v), before %d (%v)", pos, n2, err2, n1, err1)
	}
	buf := shifted(w1.Bytes(), w1.Len(), pos)
	dec := func(en *Entry, v *zs.Val) (*zs.Val, error, int) {
		r := mon.NewR(buf, 8*len(buf), pos)
		o := fresh(en.New(), v)
		err := o.(zserio.Unmarshaler).UnmarshalZserio(r)
		if err != nil {
			return nil, err, 0
		}
		got, err := (&zs.GoReader{}).Get(en.T, reflect.ValueOf(o).Elem(), v.Params)
		return got, err, r.Pos()
	}
	a, err1, p1 := dec(base(k), k.V)
	b, err2, p2 := dec(e, v)
	if (err1 == nil) != (err2 == nil) {
		fail("rewritten", "decoding gives the error %v, before the rewriting %v", err2, err1)
		return
	}
	if err1 != nil {
		return
	}
	k.c.Count("decodings_compared", 1)
	if p1 != p2 {
		fail("rewritten", "decoding consumes %d bits, before the rewriting %d", p2-pos, p1-pos)
	}
	if d := zs.Diff(a, b, e.Name); d != "" {
		fail("rewritten", "decoding gives another value than before the rewriting: %s", d)
	}
}

func base(k *Case) *Entry { return k.Entry }

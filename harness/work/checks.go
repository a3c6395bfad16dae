package work

import (
	"reflect"

	zserio "github.com/woven-planet/go-zserio"

	"github.com/woven-planet/go-zserio/verif/mon"
	"github.com/woven-planet/go-zserio/verif/zs"
)

var positions = []int{0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 31, 32, 33, 63, 64, 100, 257, 65541}

func init() {
	checks["C01"] = func(c *Ctx) { c.primitives() }
	checks["C02"] = func(c *Ctx) { c.streams() }
	checks["C03"] = func(c *Ctx) {
		c.Each(c.N(60, 1500), func(k *Case) { k.roundtrip() })
		c.EachBig(c.N(3, 60), func(k *Case) { k.roundtrip() })
	}
	checks["C04"] = func(c *Ctx) {
		c.Each(c.N(50, 1200), func(k *Case) {
			if k.marshal() == nil {
				return
			}
			pos := positions[k.I%len(positions)]
			if k.wire(pos) && k.decode(0) {
				k.decode(pos)
			}
			k.hostile(c.N(4, 12), "v")
		})
		c.EachBig(c.N(3, 60), func(k *Case) {
			if k.marshal() != nil && k.wire(0) {
				k.decode(0)
			}
		})
	}
	checks["C05"] = func(c *Ctx) {
		for _, e := range c.Entries() {
			if !hasPacked(e.T, map[string]bool{}) {
				continue
			}
			c.Count("packed_types", 1)
			c.EachOf(e, c.N(250, 4000), func(k *Case) {
				c.Count("contexts_packed", int64(k.Enc.Packed))
				c.Count("contexts_plain", int64(k.Enc.Plain))
				pos := positions[k.I%len(positions)]
				if k.wire(0) && k.wire(pos) && k.decode(pos) {
					k.roundtrip()
				}
				k.hostile(c.N(2, 6), "v")
			})
			c.eachOf(e, c.N(10, 200), 3, func(k *Case) {
				c.Count("contexts_packed", int64(k.Enc.Packed))
				c.Count("contexts_plain", int64(k.Enc.Plain))
				if k.wire(0) && k.decode(0) {
					k.size(0)
				}
			})
		}
	}
	checks["C06"] = func(c *Ctx) {
		if c.Shard == 0 {
			c.offsetArrays()
		}
		c.Each(c.N(60, 1500), func(k *Case) {
			for j := 0; j < 3; j++ {
				k.size(positions[(3*k.I+j)%len(positions)])
			}
			k.size(k.R.Intn(1 << (4 + k.R.Intn(14))))
		})
		c.EachBig(c.N(3, 60), func(k *Case) { k.size(positions[k.R.Intn(len(positions))]) })
	}
	checks["C07"] = func(c *Ctx) {
		if c.Shard == 0 {
			c.primFaults(true)
		}
		c.Each(c.N(20, 400), func(k *Case) {
			k.writeFaults(c.N(30, 200))
			k.unrepresentable(c.N(40, 200))
			k.noCase()
		})
		c.EachBig(c.N(1, 20), func(k *Case) { k.writeFaults(c.N(4, 40)) })
	}
	checks["C08"] = func(c *Ctx) {
		if c.Shard == 0 {
			c.primFaults(false)
		}
		c.Each(c.N(20, 400), func(k *Case) {
			k.truncations(c.N(40, 200))
			k.readFaults(c.N(40, 200))
			k.hostile(c.N(6, 20), "t")
		})
		c.EachBig(c.N(1, 20), func(k *Case) {
			k.truncations(c.N(6, 40))
			k.readFaults(c.N(3, 20))
		})
	}
	checks["C09"] = func(c *Ctx) {
		c.hostileRuntime()
		c.deepNesting()
		c.Each(c.N(40, 800), func(k *Case) { k.hostile(c.N(25, 60), "pm") })
	}
	checks["C10"] = func(c *Ctx) { c.concurrent() }
	checks["C11"] = func(c *Ctx) {
		c.Each(c.N(25, 500), func(k *Case) {
			if k.pureEncode() {
				k.pureDecode()
			}
		})
		c.EachBig(c.N(1, 20), func(k *Case) {
			if k.Bits < 1<<15 && k.pureEncode() {
				k.pureDecode()
			}
		})
	}
	checks["C13"] = func(c *Ctx) {
		c.constants()
		c.numBits()
		c.Each(c.N(60, 1500), func(k *Case) { k.expressions() })
	}
	checks["C14"] = func(c *Ctx) { c.enums() }
	checks["C19"] = func(c *Ctx) { c.rewritings() }
	checks["C20"] = func(c *Ctx) {
		c.Each(c.N(40, 800), func(k *Case) { k.defaults() })
	}
	checks["C12"] = func(c *Ctx) {
		c.Each(c.N(80, 2000), func(k *Case) {
			if k.marshal() == nil {
				return
			}
			pos := positions[k.I%len(positions)]
			if k.wire(pos) && k.decode(pos) {
				k.bare(pos)
			}
			k.size(pos)
			k.hostile(c.N(6, 20), "vi")
			k.noCase()
		})
	}
}

// hasPacked tells whether a type contains a packed array.
func hasPacked(t *zs.RType, seen map[string]bool) bool {
	if !t.IsCompound() || seen[t.Key()] {
		return false
	}
	seen[t.Key()] = true
	for _, f := range t.D.Fields {
		if f.Array != nil && f.Array.Packed {
			return true
		}
		ok := false
		Guard(func() { ok = hasPacked(t.Sc.Resolve(f.Type), seen) })
		if ok {
			return true
		}
	}
	return false
}

// bare encodes and sizes an object in which only the outermost parameters are
// set: the arguments are the schema's business.
func (k *Case) bare(pos int) {
	o := k.bareObj()
	n, err := o.ZserioBitSize(pos)
	want, wn := k.refAt(pos)
	if err != nil {
		k.Fail("bare", "sizing an object whose nested parameters were not set by hand failed: %v", err)
		return
	}
	if n != wn {
		k.Fail("bare", "an object whose nested parameters were not set by hand is sized %d bits, %d are right", n, wn)
		return
	}
	w := mon.NewW(pos)
	if err := k.bareObj().MarshalZserio(w); err != nil {
		k.Fail("bare", "encoding an object whose nested parameters were not set by hand failed: %v", err)
		return
	}
	if d := bitDiff(want, w.Bytes(), wn, w.Len()); d != "" {
		k.Fail("bare", "an object whose nested parameters were not set by hand: %s", d)
	}
}

func reflectElem(o any) reflect.Value { return reflect.ValueOf(o).Elem() }

func (k *Case) bareObj() zserio.Marshaler {
	o := k.New()
	zs.StoreBare(k.V, reflectElem(o))
	return o.(zserio.Marshaler)
}

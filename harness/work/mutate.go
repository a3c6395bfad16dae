package work

import (
	"fmt"
	"math/big"
	"reflect"

	zserio "github.com/woven-planet/go-zserio"

	"github.com/woven-planet/go-zserio/verif/mon"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// site is one way to make an object unrepresentable.
type site struct {
	path string
	do   func()
}

// badSites lists what can be broken in an object that holds v.
func badSites(v *zs.Val, rv reflect.Value, path string, out *[]site) {
	add := func(what string, f func()) { *out = append(*out, site{path + ": " + what, f}) }
	t := v.T
	switch {
	case t.IsCompound():
		if t.Kind == zs.KUnion {
			uc := rv.FieldByName("UnionChoice")
			n := uint64(len(t.D.Fields))
			for _, x := range []uint64{0, n + 1, n + 200, 1 << 31} {
				x := x
				add(fmt.Sprintf("union choice %d of %d", x, n), func() { uc.SetUint(x) })
			}
		}
		for _, f := range t.D.Fields {
			x := v.F[f.Name]
			if x == nil {
				continue
			}
			fv := rv.FieldByName(zs.GoName(f.Name))
			if f.Optional {
				fv = fv.Elem()
			}
			fp := path + "." + f.Name
			if !x.IsArr {
				badSites(x, fv, fp, out)
				continue
			}
			if f.Array.Len != nil {
				slot := fv
				*out = append(*out, site{fp + ": one element too many", func() {
					slot.Set(reflect.Append(slot, reflect.New(slot.Type().Elem()).Elem()))
					if slot.Len() > 1 {
						slot.Index(slot.Len() - 1).Set(slot.Index(0))
					}
				}})
				if fv.Len() > 0 {
					*out = append(*out, site{fp + ": one element missing", func() { slot.Set(slot.Slice(0, slot.Len()-1)) }})
					*out = append(*out, site{fp + ": no elements", func() { slot.Set(reflect.Zero(slot.Type())) }})
				}
			}
			for i, e := range x.A {
				if i > 2 && i < len(x.A)-2 {
					continue
				}
				badSites(e, fv.Index(i), fmt.Sprintf("%s[%d]", fp, i), out)
			}
		}
	case t.Kind == zs.KBytes:
		p := rv
		add("nil bytes", func() { p.Set(reflect.Zero(p.Type())) })
		add("ByteSize larger than the buffer", func() { bump(p.Elem().FieldByName("ByteSize"), 1) })
		add("ByteSize far larger than the buffer", func() { bump(p.Elem().FieldByName("ByteSize"), 1<<20) })
		if len(v.B) > 0 {
			add("ByteSize smaller than the buffer", func() { bump(p.Elem().FieldByName("ByteSize"), -1) })
			add("buffer missing", func() { p.Elem().FieldByName("Buffer").SetBytes(nil) })
		}
	case t.Kind == zs.KExtern:
		p := rv
		add("nil extern", func() { p.Set(reflect.Zero(p.Type())) })
		add("BitSize larger than the buffer", func() { bump(p.Elem().FieldByName("BitSize"), 8) })
		if v.NBits > 0 {
			add("buffer missing", func() { p.Elem().FieldByName("Buffer").SetBytes(nil) })
		}
	case t.IsInt() || t.Kind == zs.KEnum || t.Kind == zs.KBitmask:
		b := t
		if t.Kind == zs.KEnum || t.Kind == zs.KBitmask {
			b = t.Base
		}
		width := v.Width
		if width == 0 {
			width = b.Bits
		}
		lo, hi := b.Range(width)
		glo, ghi := goRange(rv.Kind())
		one := big.NewInt(1)
		for _, x := range []*big.Int{new(big.Int).Add(hi, one), new(big.Int).Sub(lo, one), glo, ghi, new(big.Int).Add(hi, hi)} {
			if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 || x.Cmp(glo) < 0 || x.Cmp(ghi) > 0 {
				continue
			}
			x := x
			add(fmt.Sprintf("%s outside of [%s, %s]", x, lo, hi), func() {
				if rv.CanInt() {
					rv.SetInt(x.Int64())
				} else {
					rv.SetUint(x.Uint64())
				}
			})
		}
	}
}

func bump(rv reflect.Value, n int64) {
	if rv.CanInt() {
		rv.SetInt(rv.Int() + n)
	} else {
		rv.SetUint(rv.Uint() + uint64(n))
	}
}

func goRange(k reflect.Kind) (lo, hi *big.Int) {
	bits := map[reflect.Kind]uint{reflect.Int8: 8, reflect.Int16: 16, reflect.Int32: 32, reflect.Int64: 64, reflect.Int: 64,
		reflect.Uint8: 8, reflect.Uint16: 16, reflect.Uint32: 32, reflect.Uint64: 64, reflect.Uint: 64}[k]
	one := big.NewInt(1)
	if k >= reflect.Int && k <= reflect.Int64 {
		h := new(big.Int).Lsh(one, bits-1)
		return new(big.Int).Neg(h), h.Sub(h, one)
	}
	h := new(big.Int).Lsh(one, bits)
	return new(big.Int), h.Sub(h, one)
}

// unrepresentable makes single places of the value unrepresentable: encoding
// has to fail.
func (k *Case) unrepresentable(limit int) {
	var all []site
	o := k.Obj()
	badSites(k.V, reflect.ValueOf(o).Elem(), k.Name, &all)
	for _, i := range sample(len(all), limit, k.R.Intn) {
		var s []site
		o := k.Obj()
		badSites(k.V, reflect.ValueOf(o).Elem(), k.Name, &s)
		s[i].do()
		k.c.Count("bad_values", 1)
		w := mon.NewW(0)
		err := error(nil)
		if p := Guard(func() { err = o.(zserio.Marshaler).MarshalZserio(w) }); p != "" {
			k.Fail("badpanic", "encoding with %s panicked: %s", s[i].path, p)
			return
		}
		if err == nil {
			k.Fail("badvalue", "encoding with %s reported success and wrote %d bits %x", s[i].path, w.Len(), clip(w.Bytes()))
			return
		}
		if w.Breach != "" {
			k.Fail("contract", "%s", w.Breach)
			return
		}
		if p := Guard(func() { o.(zserio.Marshaler).ZserioBitSize(0) }); p != "" {
			k.Fail("badpanic", "sizing with %s panicked: %s", s[i].path, p)
			return
		}
	}
}

// noCase encodes and decodes a choice with selectors that match nothing.
func (k *Case) noCase() {
	if k.T.Kind != zs.KChoice || k.T.D.Default != nil {
		return
	}
	for try := 0; try < 6; try++ {
		v := &zs.Val{T: k.T, F: map[string]*zs.Val{}, Params: map[string]*zs.Val{}}
		g := zs.NewGen(k.Set, k.R)
		ok := true
		for _, p := range k.T.D.Params {
			pt := k.T.Sc.Resolve(p.Type)
			x := g.Value(pt)
			if x == nil {
				ok = false
				break
			}
			v.Params[p.Name] = x
		}
		if !ok {
			return
		}
		matched := true
		if p := Guard(func() { _, matched = zs.Select(v) }); p != "" || matched {
			continue
		}
		k.c.Count("unmatched_selectors", 1)
		o := fresh(k.New(), v)
		zs.SetParams(v, reflect.ValueOf(o).Elem())
		w := mon.NewW(0)
		if err := o.(zserio.Marshaler).MarshalZserio(w); err == nil {
			k.Fail("nocase", "encoding a choice with parameters %v, for which there is no case, reported success", v.Params)
			return
		}
		data := make([]byte, 64)
		k.R.Read(data)
		if err := zserio.Unmarshal(data, fresh(k.New(), v).(zserio.Unmarshaler)); err == nil {
			k.Fail("nocase", "decoding a choice with parameters %v, for which there is no case, reported success", v.Params)
			return
		}
	}
}

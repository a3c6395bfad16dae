package work

import (
	"bytes"
	"fmt"
	"reflect"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"

	"github.com/woven-planet/go-zserio/verif/mon"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// scribble overwrites everything that the object refers to, in place.
func scribble(rv reflect.Value, depth int) {
	if depth > 40 {
		return
	}
	switch rv.Kind() {
	case reflect.Pointer:
		if !rv.IsNil() {
			scribble(rv.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Field(i).CanSet() {
				scribble(rv.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			scribble(rv.Index(i), depth+1)
		}
		// what lies behind the end, too
		if rv.Cap() > rv.Len() {
			full := rv.Slice(0, rv.Cap())
			for i := rv.Len(); i < full.Len(); i++ {
				scribble(full.Index(i), depth+1)
			}
		}
	case reflect.Bool:
		rv.SetBool(!rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(^rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(rv.Uint() ^ 0x5a)
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(-12345)
	case reflect.String:
		rv.SetString("scribbled")
	}
}

// deepDiff compares two objects completely, including fields that are not
// part of the value. Empty and nil slices are the same.
func deepDiff(a, b reflect.Value, path string) string {
	if a.Type() != b.Type() {
		return path + ": types"
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil=%v, nil=%v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return deepDiff(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := deepDiff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d, length %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := deepDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x != y && (x == x || y == y) {
			return fmt.Sprintf("%s: %v, %v", path, x, y)
		}
	default:
		if !a.Equal(b) {
			return fmt.Sprintf("%s: %v, %v", path, a, b)
		}
	}
	return ""
}

// unchanged compares an object with the value it was made from.
func (k *Case) unchanged(o any, after string) bool {
	got, err := k.Get(o)
	if err != nil {
		k.Fail("changed", "after %s the object is inconsistent: %v", after, err)
		return false
	}
	if d := zs.Diff(k.V, got, ""); d != "" {
		k.Fail("changed", "%s changed the object: %s", after, d)
		return false
	}
	return true
}

// pureEncode repeats and interleaves encoding and sizing.
func (k *Case) pureEncode() bool {
	o := k.Obj()
	m := o.(zserio.Marshaler)
	b1, err := zserio.Marshal(m)
	if err != nil {
		k.Fail("encode", "Marshal of a valid value failed: %v", err)
		return false
	}
	keep := append([]byte{}, b1...)
	if !k.unchanged(o, "encoding") {
		return false
	}
	pos := positions[k.I%len(positions)]
	s1, err := m.ZserioBitSize(pos)
	if err != nil || !k.unchanged(o, "sizing") {
		return false
	}
	w1 := mon.NewW(pos)
	if m.MarshalZserio(w1) != nil {
		return false
	}
	s2, _ := m.ZserioBitSize(pos)
	w2 := mon.NewW(pos)
	m.MarshalZserio(w2)
	if s1 != s2 {
		k.Fail("drift", "bit size at %d is %d first, %d after encoding", pos, s1, s2)
		return false
	}
	if d := bitDiff(w1.Bytes(), w2.Bytes(), w1.Len(), w2.Len()); d != "" {
		k.Fail("drift", "encoding at bit %d a second time: %s", pos, d)
		return false
	}
	// a failed attempt in between
	if w1.Ops > 0 {
		f := mon.NewW(0)
		f.FailAt = k.R.Intn(w1.Ops)
		m.MarshalZserio(f)
	}
	for i := range b1 {
		b1[i] ^= 0xa5
	}
	if !k.unchanged(o, "overwriting an earlier encoding") {
		return false
	}
	b2, err := zserio.Marshal(m)
	if err != nil || !bytes.Equal(b2, keep) {
		k.Fail("drift", "encoding again gives %x (%v), at first it was %x", clip(b2), err, clip(keep))
		return false
	}
	b3 := append([]byte{}, b2...)
	scribble(reflect.ValueOf(o), 0)
	if !bytes.Equal(b2, b3) {
		k.Fail("alias", "changing the object changes bytes encoded earlier")
		return false
	}
	return true
}

// pureDecode decodes from differently delivered input into fresh and used
// objects and looks for shared memory.
func (k *Case) pureDecode() {
	in := append([]byte{}, k.Ref...)
	fresh := k.Fresh()
	if err := zserio.Unmarshal(in, fresh.(zserio.Unmarshaler)); err != nil {
		k.Fail("decode", "decoding the reference encoding failed: %v", err)
		return
	}
	if !bytes.Equal(in, k.Ref) {
		k.Fail("input", "decoding changed its input")
		return
	}
	for i := range in {
		in[i] ^= 0xff
	}
	if !k.unchanged(fresh, "overwriting the input of a decoded") {
		return
	}
	again := k.Fresh()
	in2 := append([]byte{}, k.Ref...)
	if err := zserio.Unmarshal(in2, again.(zserio.Unmarshaler)); err != nil {
		k.Fail("decode", "decoding a second time failed: %v", err)
		return
	}
	if d := deepDiff(reflect.ValueOf(fresh), reflect.ValueOf(again), ""); d != "" {
		k.Fail("repeat", "decoding the same bytes twice gives different objects: %s", d)
		return
	}
	// one byte at a time, with the error of the end apart and together with the last byte
	for _, last := range []bool{false, true} {
		o := k.Fresh()
		t := &mon.Trickle{Data: append([]byte{}, k.Ref...), WithLast: last}
		if err := o.(zserio.Unmarshaler).UnmarshalZserio(zstream.NewReader(t)); err != nil {
			k.Fail("delivery", "decoding from a source that delivers single bytes failed: %v", err)
			return
		}
		if d := deepDiff(reflect.ValueOf(fresh), reflect.ValueOf(o), ""); d != "" {
			k.Fail("delivery", "a source that delivers single bytes gives another object: %s", d)
			return
		}
	}
	// a used target
	g := zs.NewGen(k.Set, k.R)
	for round := 0; round < 3; round++ {
		dirty := k.New()
		how := "an object that held another value"
		var was string
		switch round {
		case 0: // built by hand
			v2 := g.Value(k.T)
			if v2 == nil {
				continue
			}
			was = v2.String()
			zs.Store(v2, reflect.ValueOf(dirty).Elem())
		case 1: // decoded
			v2 := g.Value(k.T)
			if v2 == nil {
				continue
			}
			was = v2.String()
			e, err := zs.EncodeAt(v2, 0)
			if err != nil {
				continue
			}
			zs.SetParams(v2, reflect.ValueOf(dirty).Elem())
			zserio.Unmarshal(e.W.Bytes(), dirty.(zserio.Unmarshaler))
			how = "an object that another value had been decoded into"
		case 2: // a decode that failed half-way
			if len(k.Ref) == 0 {
				continue
			}
			junk := corrupt(k.R, k.Ref)
			zs.SetParams(k.V, reflect.ValueOf(dirty).Elem())
			if _, err := zs.Decode(k.T, k.V.Params, junk, 8*len(junk), 0, 4000); err != nil && len(junk) > 0 {
				junk = k.Ref[:k.R.Intn(len(k.Ref))]
			}
			was = fmt.Sprintf("%x", clip(junk))
			Guard(func() { zserio.Unmarshal(junk, dirty.(zserio.Unmarshaler)) })
			how = "an object left by decoding other bytes"
		}
		zs.SetParams(k.V, reflect.ValueOf(dirty).Elem())
		if err := zserio.Unmarshal(append([]byte{}, k.Ref...), dirty.(zserio.Unmarshaler)); err != nil {
			k.Fail("reuse", "decoding into %s (%s) failed: %v", how, was, err)
			return
		}
		k.c.Count("reused_targets", 1)
		if d := diffOf(k, k.V, dirty); d != "" {
			k.Fail("reuse", "decoding into %s (%s) gives a wrong value: %s", how, was, d)
			return
		}
		if d := deepDiff(reflect.ValueOf(fresh), reflect.ValueOf(dirty), ""); d != "" {
			k.Fail("leftover", "decoding into %s (%s) differs from decoding into a fresh one: %s", how, was, d)
			return
		}
	}
	// no memory shared between decoded values
	scribble(reflect.ValueOf(fresh), 0)
	if !k.unchanged(again, "overwriting another decoded value") {
		return
	}
	if !bytes.Equal(in2, k.Ref) {
		k.Fail("alias", "changing a decoded value changes the input of another")
	}
	third := k.Fresh()
	if err := zserio.Unmarshal(in2, third.(zserio.Unmarshaler)); err != nil {
		k.Fail("decode", "decoding after changing other decoded values failed: %v", err)
		return
	}
	if !k.unchanged(third, "changing decoded values, decoding the same bytes anew,") {
		return
	}
	scribble(reflect.ValueOf(third), 0)
	if !bytes.Equal(in2, k.Ref) {
		k.Fail("alias", "changing a decoded value changes its input")
	}
}

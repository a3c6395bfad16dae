package work

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
)

// offsetArrays looks at the runtime's arrays whose elements are aligned to bytes
// because their offsets are asked for: size, bits, what the callbacks are told, and
// reading back.
func (c *Ctx) offsetArrays() {
	a := ztype.ArrayTraits
	r := c.Rng("offsets")
	for i := 0; i < c.N(300, 5000); i++ {
		n := []int{0, 1, 2, 3, 7, 40}[r.Intn(6)]
		packed, auto := r.Intn(2) == 0, r.Intn(2) == 0
		switch i % 6 {
		case 0:
			offsetArray[uint8](c, r, "uint8:5", ztype.GetBitFieldArrayTraits[uint8](5), drawn(n, func() uint8 { return uint8(r.Intn(32)) }), packed, auto)
		case 1:
			offsetArray[int64](c, r, "int64", a.Int64, drawn(n, func() int64 { return int64(r.Uint64()) }), packed, auto)
		case 2:
			offsetArray[uint64](c, r, "varuint64", a.VarUInt64, drawn(n, func() uint64 { return r.Uint64() >> uint(8+r.Intn(56)) }), packed, auto)
		case 3:
			offsetArray[bool](c, r, "bool", a.Bool, drawn(n, func() bool { return r.Intn(2) == 0 }), false, auto)
		case 4:
			offsetArray[string](c, r, "string", a.String, drawn(n, func() string { return string(make([]byte, r.Intn(200))) }), false, auto)
		case 5:
			offsetArray[int16](c, r, "varint16", a.VarInt16, drawn(n, func() int16 { return int16(r.Intn(1<<15) - 1<<14) }), packed, auto)
		}
	}
}

func drawn[T any](n int, f func() T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = f()
	}
	return out
}

func offsetArray[T comparable](c *Ctx, r *rand.Rand, name string, t ztype.IArrayTraits[T], values []T, packed, auto bool) {
	pos := []int{0, 1, 3, 7, 8, 13, 64, 65}[r.Intn(8)]
	id := fmt.Sprintf("%d elements of %s, packed %t, auto %t, at bit %d", len(values), name, packed, auto, pos)
	key := "runtime/offsets/" + name
	c.Journal(key + " " + id)
	fail := func(f string, a ...any) {
		c.Violation(key, id+": "+fmt.Sprintf(f, a...), nil)
	}
	if p := Guard(func() {
		type Y = ztype.IArrayTraits[T]
		var told []int64
		note := func(i int, at int64) {
			if i != len(told) {
				at = -1
			}
			told = append(told, at)
		}
		opts := []ztype.ArrayOption[T, Y]{ztype.WithSetOffsetMethod[T, Y](func(int, int64) {}), ztype.WithCheckOffsetMethod[T, Y](note)}
		// an empty array of this kind
		arr, err := ztype.ArrayFromReader[T, Y](zstream.NewReader(bytes.NewReader([]byte{0})), t, 0, packed, auto, opts...)
		if err != nil {
			fail("reading an empty array failed: %v", err)
			return
		}
		arr.RawArray = values
		arr.FixedSize = len(values)
		size := arr.ZserioBitSize
		if packed {
			size = arr.ZserioBitSizePacked
		}
		want, err := size(pos)
		if err != nil {
			fail("sizing failed: %v", err)
			return
		}
		var buf bytes.Buffer
		w := zstream.NewWriter(&buf)
		for p := pos; p > 0; p -= 64 {
			w.WriteBits(0, uint8(min(p, 64)))
		}
		if err := arr.MarshalZserio(w); err != nil {
			fail("encoding failed: %v", err)
			return
		}
		end := w.BitPosition()
		w.Close()
		if int(end)-pos != want {
			fail("the size is %d bits, %d were written", want, int(end)-pos)
			return
		}
		written := told
		told = nil
		rd := zstream.NewReader(bytes.NewReader(buf.Bytes()))
		for p := pos; p > 0; p -= 64 {
			rd.ReadBits(uint8(min(p, 64)))
		}
		got, err := ztype.ArrayFromReader[T, Y](rd, t, len(values), packed, auto, opts...)
		if err != nil {
			fail("decoding failed: %v", err)
			return
		}
		if at, _ := rd.Align(1); at != end {
			fail("decoding ended at bit %d, %d were written", at, end)
		}
		if len(got.RawArray) != len(values) || len(written) != len(values) || fmt.Sprint(written) != fmt.Sprint(told) {
			fail("%d elements were read, offsets written %v, read %v", len(got.RawArray), written, told)
			return
		}
		for i, v := range values {
			if got.RawArray[i] != v {
				fail("element %d is %v, right is %v", i, got.RawArray[i], v)
				return
			}
			if written[i]%8 != 0 {
				fail("element %d is at bit %d", i, written[i])
				return
			}
		}
		c.Eval(fmt.Sprintf("%s %v", id, values), len(values) > 0)
		c.Count("arrays_with_offsets", 1)
	}); p != "" {
		fail("panic: %s", p)
	}
}

package work

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"

	zserio "github.com/woven-planet/go-zserio"

	"github.com/woven-planet/go-zserio/verif/mon"
	"github.com/woven-planet/go-zserio/verif/zs"
)

var hugeSizes = [][]byte{
	{0x87, 0xff, 0xff, 0xff, 0xff}, // 2^31-1
	{0x83, 0xff, 0xff, 0xff, 0xff},
	{0x80, 0xff, 0xff, 0xff, 0xff},
	{0xff, 0xff, 0xff, 0xff, 0xff}, // beyond varsize
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0x8f, 0xff, 0xff, 0x00},
	{0xbf, 0xff, 0x7f},
}

// corrupt derives a hostile input from an encoding.
func corrupt(r *rand.Rand, ref []byte) []byte {
	b := append([]byte{}, ref...)
	switch r.Intn(10) {
	case 0:
		b = make([]byte, r.Intn(80))
		r.Read(b)
		return b
	case 1:
		b = make([]byte, r.Intn(200))
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 2:
		return make([]byte, r.Intn(60))
	case 3: // a huge size somewhere
		h := hugeSizes[r.Intn(len(hugeSizes))]
		p := r.Intn(len(b) + 1)
		if r.Intn(2) == 0 && p+len(h) <= len(b) {
			copy(b[p:], h)
		} else {
			b = append(append(append([]byte{}, b[:p]...), h...), b[p:]...)
		}
	case 4: // truncated, or with trailing garbage
		if len(b) > 0 && r.Intn(2) == 0 {
			b = b[:r.Intn(len(b))]
		}
		t := make([]byte, r.Intn(20))
		r.Read(t)
		b = append(b, t...)
	case 5: // bits shifted
		if len(b) > 1 {
			p := r.Intn(len(b))
			for i := len(b) - 1; i > p; i-- {
				b[i] = b[i]>>1 | b[i-1]<<7
			}
		}
	default:
		n := 1 + r.Intn(4)
		for i := 0; i < n && len(b) > 0; i++ {
			p := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b[p] ^= 1 << uint(r.Intn(8))
			case 1:
				b[p] = byte(r.Intn(256))
			case 2:
				b[p] = 0xff
			default:
				b[p] = 0
			}
		}
	}
	if r.Intn(3) == 0 {
		t := make([]byte, r.Intn(40))
		r.Read(t)
		b = append(b, t...)
	}
	return b
}

// elemBudget bounds how many elements an input may stand for: the format has
// arrays whose elements occupy no bits.
const elemBudget = 60000

// hostile decodes corrupted input. What the reference decoder makes of it is
// the oracle for the requested aspects.
func (k *Case) hostile(n int, aspects string) {
	var m0, m1 runtime.MemStats
	has := func(a byte) bool {
		for i := 0; i < len(aspects); i++ {
			if aspects[i] == a {
				return true
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		data := corrupt(k.R, k.Ref)
		dec, rerr := zs.Decode(k.T, k.V.Params, data, 8*len(data), 0, elemBudget)
		k.c.Count("hostile_inputs", 1)
		switch {
		case rerr == nil:
			k.c.Count("hostile_valid", 1)
		case errors.Is(rerr, zs.ErrBudget):
			k.c.Count("hostile_no_bits_skipped", 1)
			continue
		case errors.Is(rerr, zs.ErrShort):
			k.c.Count("hostile_short", 1)
		case errors.Is(rerr, zs.ErrInvalid):
			k.c.Count("hostile_invalid", 1)
		default:
			k.c.Count("hostile_unspecified", 1)
			if !has('m') && !has('p') || zs.Hollow(k.T) {
				// the format does not say how the input goes on; what
				// follows may stand for any number of empty elements
				continue
			}
		}
		k.c.Journal(fmt.Sprintf("%s params %v input %x", k.ID(), k.V.Params, clip(data)))
		o := k.Fresh()
		r := mon.NewR(append([]byte{}, data...), 8*len(data), 0)
		var err error
		if has('m') {
			runtime.ReadMemStats(&m0)
		}
		p := Guard(func() { err = o.(zserio.Unmarshaler).UnmarshalZserio(r) })
		if has('m') {
			runtime.ReadMemStats(&m1)
			if got, max := m1.TotalAlloc-m0.TotalAlloc, uint64(24<<20+64<<10*len(data)+8<<10*dec.Elems); got > max {
				k.Fail("alloc", "decoding %d bytes %x allocated %d bytes (reference: %d elements, %v)", len(data), clip(data), got, dec.Elems, rerr)
				return
			}
			if max := 2000 + 64*len(data); r.Ops > max {
				k.Fail("operations", "decoding %d bytes %x took %d read operations", len(data), clip(data), r.Ops)
				return
			}
		}
		if p != "" {
			if has('p') {
				k.Fail("hostilepanic", "decoding %x (parameters %v) panicked: %s", clip(data), k.V.Params, p)
				return
			}
			continue
		}
		switch {
		case rerr == nil && err != nil:
			if has('v') && dec.Odd == "" {
				k.Fail("refused", "decoding %x, the encoding of %s, failed: %v", clip(data), dec.V, err)
				return
			}
		case rerr == nil:
			if has('v') {
				if r.Pos() != dec.End {
					k.Fail("hostileconsumed", "decoding %x consumed %d bits, its value %s has %d", clip(data), r.Pos(), dec.V, dec.End)
					return
				}
				if d := diffOf(k, dec.V, o); d != "" {
					k.Fail("hostilevalue", "decoding %x gives a wrong value: %s", clip(data), d)
					return
				}
			}
		case errors.Is(rerr, zs.ErrShort) && err == nil:
			if has('t') {
				k.Fail("short", "decoding %x, which ends too early (%v), reported success", clip(data), rerr)
				return
			}
		case errors.Is(rerr, zs.ErrInvalid) && err == nil:
			if has('i') {
				k.Fail("invalid", "decoding %x, which is invalid (%v), reported success", clip(data), rerr)
				return
			}
		}
	}
}

func diffOf(k *Case, want *zs.Val, o any) string {
	g := &zs.GoReader{}
	got, err := g.Get(k.T, reflect.ValueOf(o).Elem(), k.V.Params)
	if err != nil {
		return err.Error()
	}
	return zs.Diff(want, got, "")
}

var _ = binary.BigEndian

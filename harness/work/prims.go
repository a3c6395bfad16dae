package work

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"

	"github.com/woven-planet/go-zserio/verif/mon"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// bitstr is a string of '0' and '1'.
type bitstr string

func num(v uint64, n int) bitstr {
	var b strings.Builder
	for i := n - 1; i >= 0; i-- {
		b.WriteByte('0' + byte(v>>uint(i)&1))
	}
	return bitstr(b.String())
}

func octets(p []byte) bitstr {
	var b strings.Builder
	b.Grow(8 * len(p))
	for _, x := range p {
		for i := 7; i >= 0; i-- {
			b.WriteByte('0' + x>>uint(i)&1)
		}
	}
	return bitstr(b.String())
}

func (b bitstr) pack() []byte {
	out := make([]byte, (len(b)+7)/8)
	for i := range b {
		if b[i] == '1' {
			out[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return out
}

func varOf(name string, v *big.Int) (bitstr, bool) {
	b, ok := zs.VarBytes(name, v)
	return octets(b), ok
}

// prim is one primitive codec of the runtime.
type prim struct {
	name   string
	write  func(w zserio.Writer, x any) error
	read   func(r zserio.Reader) (any, error)
	size   func(x any) (int, error) // nil: the codec announces no size
	ref    func(x any) (bitstr, bool)
	values func(r *rand.Rand, n int) []any
	same   func(x, y any) bool
	heavy  bool
	alike  func(got, want bitstr) bool // other bits that stand for the same
	array  func(r zserio.Reader, size int, packed, auto bool) (int, error)
}

// nans tells whether both are bits of some "not a number"; which of them is
// written is not prescribed.
func nans(exp int) func(a, b bitstr) bool {
	return func(a, b bitstr) bool {
		if len(a) != len(b) {
			return false
		}
		for _, x := range []bitstr{a, b} {
			if strings.Contains(string(x[1:1+exp]), "0") || !strings.Contains(string(x[1+exp:]), "1") {
				return false
			}
		}
		return true
	}
}

func pw[T any](f func(zserio.Writer, T) error) func(zserio.Writer, any) error {
	return func(w zserio.Writer, x any) error { return f(w, x.(T)) }
}

func pr[T any](f func(zserio.Reader) (T, error)) func(zserio.Reader) (any, error) {
	return func(r zserio.Reader) (any, error) { return f(r) }
}

// ints gives values around every power of two, all small ones and random ones
// of every length.
func ints(r *rand.Rand, n, width int, signed bool) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(v uint64) {
		if signed {
			v = uint64(int64(v<<uint(64-width)) >> uint(64-width))
		} else {
			v = v << uint(64-width) >> uint(64-width)
		}
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	if width <= 16 {
		for i := uint64(0); i < 1<<uint(width); i++ {
			add(i)
		}
		return out
	}
	for k := 0; k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			add(uint64(int64(1)<<uint(k) + d))
			add(uint64(-(int64(1) << uint(k)) + d))
		}
	}
	for i := 0; i < n; i++ {
		v := r.Uint64() >> uint(r.Intn(64))
		add(v)
		add(-v)
	}
	return out
}

func anyInts[T any](conv func(uint64) T, width int, signed bool) func(*rand.Rand, int) []any {
	return func(r *rand.Rand, n int) []any {
		var out []any
		for _, v := range ints(r, n, width, signed) {
			out = append(out, conv(v))
		}
		return out
	}
}

func bigOf(x any) *big.Int {
	switch v := x.(type) {
	case int8:
		return big.NewInt(int64(v))
	case int16:
		return big.NewInt(int64(v))
	case int32:
		return big.NewInt(int64(v))
	case int64:
		return big.NewInt(v)
	case uint8:
		return big.NewInt(int64(v))
	case uint16:
		return big.NewInt(int64(v))
	case uint32:
		return big.NewInt(int64(v))
	case uint64:
		return new(big.Int).SetUint64(v)
	}
	panic(fmt.Sprintf("%T", x))
}

// fixedRef is the form of integers of a fixed width.
func fixedRef(n int, signed bool) func(any) (bitstr, bool) {
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(n))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	return func(x any) (bitstr, bool) {
		v := bigOf(x)
		if v.Cmp(lo) < 0 || v.Cmp(hi) >= 0 {
			return "", false
		}
		u := v.Uint64()
		if v.Sign() < 0 {
			u = uint64(v.Int64())
		}
		return num(u, n), true
	}
}

func varRef(name string) func(any) (bitstr, bool) {
	return func(x any) (bitstr, bool) { return varOf(name, bigOf(x)) }
}

func equal(x, y any) bool { return x == y }

func f32same(x, y any) bool {
	a, b := x.(float32), y.(float32)
	return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b
}

func f64same(x, y any) bool {
	a, b := x.(float64), y.(float64)
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

func bytesSame(x, y any) bool {
	a, b := x.(*ztype.BytesType), y.(*ztype.BytesType)
	return b != nil && a.ByteSize == b.ByteSize && bytes.Equal(a.Buffer, b.Buffer)
}

func externSame(x, y any) bool {
	a, b := x.(*ztype.ExternType), y.(*ztype.ExternType)
	if b == nil || a.BitSize != b.BitSize || uint64(len(b.Buffer)) < (b.BitSize+7)/8 {
		return false
	}
	for i := uint64(0); i < a.BitSize; i++ {
		if (a.Buffer[i/8]^b.Buffer[i/8])&(0x80>>(i%8)) != 0 {
			return false
		}
	}
	return true
}

func blobSizes(r *rand.Rand, n int) []int {
	s := []int{0, 1, 2, 3, 126, 127, 128, 129, 16382, 16383, 16384, 16385}
	for i := 0; i < n/20; i++ {
		s = append(s, r.Intn(300))
	}
	if n > 1000 {
		s = append(s, 1<<21-1, 1<<21, 1<<21+1)
	}
	return s
}

func stringsOf(r *rand.Rand, n int) []any {
	var out []any
	for _, k := range blobSizes(r, n) {
		b := make([]byte, k)
		switch r.Intn(3) {
		case 0:
			r.Read(b)
		case 1:
			for i := range b {
				b[i] = 'a' + byte(i%26)
			}
		default:
			s := strings.Repeat("aé世😀\x00", k/5+1)
			b = []byte(s)[:k]
		}
		out = append(out, string(b))
	}
	return out
}

func bytesOf(r *rand.Rand, n int) []any {
	out := []any{&ztype.BytesType{}}
	for _, k := range blobSizes(r, n) {
		b := make([]byte, k)
		r.Read(b)
		out = append(out, &ztype.BytesType{Buffer: b, ByteSize: uint64(k)})
	}
	b := make([]byte, 9)
	r.Read(b)
	return append(out, &ztype.BytesType{Buffer: b, ByteSize: 8}, &ztype.BytesType{Buffer: b, ByteSize: 10}, &ztype.BytesType{Buffer: b},
		&ztype.BytesType{Buffer: b, ByteSize: 1 << 31}, &ztype.BytesType{Buffer: b, ByteSize: math.MaxUint64}, &ztype.BytesType{ByteSize: 1}, (*ztype.BytesType)(nil))
}

func externsOf(r *rand.Rand, n int) []any {
	out := []any{&ztype.ExternType{}}
	add := func(bits int) {
		b := make([]byte, (bits+7)/8)
		r.Read(b)
		out = append(out, &ztype.ExternType{Buffer: b, BitSize: uint64(bits)})
	}
	for i := 0; i <= 140; i++ {
		add(i)
	}
	for i := 0; i < n/20; i++ {
		add(r.Intn(3000))
	}
	for _, k := range []int{16382, 16383, 16384, 16385, 16400} {
		add(k)
	}
	b := make([]byte, 9)
	r.Read(b)
	return append(out, &ztype.ExternType{Buffer: b, BitSize: 73}, &ztype.ExternType{Buffer: b, BitSize: 80}, &ztype.ExternType{BitSize: 1},
		&ztype.ExternType{Buffer: b, BitSize: 1 << 40}, &ztype.ExternType{Buffer: b, BitSize: math.MaxUint64}, (*ztype.ExternType)(nil))
}

func floats32(r *rand.Rand, n int) []any {
	var out []any
	for _, b := range []uint32{0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x3f800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000} {
		out = append(out, math.Float32frombits(b))
	}
	for i := 0; i < n; i++ {
		out = append(out, math.Float32frombits(r.Uint32()))
	}
	return out
}

func floats64(r *rand.Rand, n int) []any {
	var out []any
	for _, b := range []uint64{0, 1 << 63, 1, 1<<63 | 1, 0x000fffffffffffff, 0x0010000000000000, 0x3ff0000000000000, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000} {
		out = append(out, math.Float64frombits(b))
	}
	for i := 0; i < n; i++ {
		out = append(out, math.Float64frombits(r.Uint64()))
	}
	return out
}

func floats16(r *rand.Rand, n int) []any {
	var out []any
	for i := 0; i < 1<<16; i++ {
		out = append(out, zs.F16ToF32(uint16(i)))
	}
	return out
}

func f16ref(x any) (bitstr, bool) { return num(uint64(zs.F32ToF16(x.(float32))), 16), true }
func f32ref(x any) (bitstr, bool) { return num(uint64(math.Float32bits(x.(float32))), 32), true }
func f64ref(x any) (bitstr, bool) { return num(math.Float64bits(x.(float64)), 64), true }
func boolRef(x any) (bitstr, bool) {
	if x.(bool) {
		return "1", true
	}
	return "0", true
}

func sizePrefix(n uint64) (bitstr, bool) { return varOf("varsize", new(big.Int).SetUint64(n)) }

func stringRef(x any) (bitstr, bool) {
	h, ok := sizePrefix(uint64(len(x.(string))))
	return h + octets([]byte(x.(string))), ok
}

func bytesRef(x any) (bitstr, bool) {
	b := x.(*ztype.BytesType)
	if b == nil || b.ByteSize != uint64(len(b.Buffer)) {
		return "", false
	}
	h, ok := sizePrefix(b.ByteSize)
	return h + octets(b.Buffer), ok
}

func externRef(x any) (bitstr, bool) {
	e := x.(*ztype.ExternType)
	if e == nil || e.BitSize/8 > uint64(len(e.Buffer)) || (e.BitSize+7)/8 > uint64(len(e.Buffer)) {
		return "", false
	}
	h, ok := sizePrefix(e.BitSize)
	return h + octets(e.Buffer)[:e.BitSize], ok
}

func konst(n int) func(any) (int, error) { return func(any) (int, error) { return n, nil } }

func varSize(maxBytes int) func(any) (int, error) {
	return func(x any) (int, error) {
		v := bigOf(x)
		switch x.(type) {
		case uint8, uint16, uint32, uint64:
			return ztype.UnsignedBitSize(v.Uint64(), maxBytes)
		}
		return ztype.SignedBitSize(v.Int64(), maxBytes)
	}
}

// traitPrim is the codec behind the elements of an array.
func traitPrim[T any](name string, t ztype.IArrayTraits[T], p prim) prim {
	p.name = name
	p.write = pw(t.Write)
	p.read = func(r zserio.Reader) (any, error) { return t.Read(r, 0) }
	p.size = func(x any) (int, error) { return t.BitSizeOf(x.(T), 0), nil }
	p.array = func(r zserio.Reader, size int, packed, auto bool) (int, error) {
		a, err := ztype.ArrayFromReader[T, ztype.IArrayTraits[T]](r, t, size, packed, auto)
		if err != nil {
			return 0, err
		}
		return a.Size(), nil
	}
	return p
}

func boolPrim() prim {
	return prim{name: "Bool", write: pw(ztype.WriteBool), read: pr(ztype.ReadBool), ref: boolRef, same: equal,
		values: func(*rand.Rand, int) []any { return []any{true, false} }}
}

func fieldName(n int, signed bool) string {
	if signed {
		return fmt.Sprintf("SignedBits/%d", n)
	}
	return fmt.Sprintf("UnsignedBits/%d", n)
}

// bitField is the codec of bit fields of n bits. Values next to the field's own
// limits are added to the general ones.
func bitField(n int, signed bool) prim {
	p := prim{name: fieldName(n, signed), ref: fixedRef(n, signed), same: equal}
	if signed {
		p.write = pw(func(w zserio.Writer, v int64) error { return ztype.WriteSignedBits(w, v, uint8(n)) })
		p.read = pr(func(r zserio.Reader) (int64, error) { return ztype.ReadSignedBits(r, uint8(n)) })
		p.values = func(r *rand.Rand, k int) []any {
			var out []any
			if n <= 11 {
				for i := -(1<<uint(n-1) + 3); i < 1<<uint(n-1)+3; i++ {
					out = append(out, int64(i))
				}
			}
			for _, v := range ints(r, k/8, 64, true) {
				out = append(out, int64(v))
			}
			return out
		}
		return p
	}
	p.write = pw(func(w zserio.Writer, v uint64) error { return ztype.WriteUnsignedBits(w, v, uint8(n)) })
	p.read = pr(func(r zserio.Reader) (uint64, error) { return ztype.ReadUnsignedBits(r, uint8(n)) })
	p.values = func(r *rand.Rand, k int) []any {
		var out []any
		if n <= 11 {
			for i := 0; i < 1<<uint(n)+3; i++ {
				out = append(out, uint64(i))
			}
		}
		for _, v := range ints(r, k/8, 64, false) {
			out = append(out, v)
		}
		return out
	}
	return p
}

func u8(v uint64) uint8   { return uint8(v) }
func u16(v uint64) uint16 { return uint16(v) }
func u32(v uint64) uint32 { return uint32(v) }
func u64(v uint64) uint64 { return v }
func i8(v uint64) int8    { return int8(v) }
func i16(v uint64) int16  { return int16(v) }
func i32(v uint64) int32  { return int32(v) }
func i64(v uint64) int64  { return int64(v) }

func intPrim[T any](name string, w func(zserio.Writer, T) error, r func(zserio.Reader) (T, error), conv func(uint64) T, width int, signed bool) prim {
	return prim{name: name, write: pw(w), read: pr(r), size: konst(width), ref: fixedRef(width, signed), same: equal, values: anyInts(conv, width, signed)}
}

func varPrim[T any](name, zname string, w func(zserio.Writer, T) error, r func(zserio.Reader) (T, error), conv func(uint64) T, width int, signed bool, maxBytes int) prim {
	return prim{name: name, write: pw(w), read: pr(r), size: varSize(maxBytes), ref: varRef(zname), same: equal, values: anyInts(conv, width, signed)}
}

func traitField[T any](n int, signed bool, conv func(uint64) T, width int, t ztype.IArrayTraits[T]) prim {
	p := prim{ref: fixedRef(n, signed), same: equal, values: anyInts(conv, width, signed)}
	return traitPrim("trait "+fieldName(n, signed), t, p)
}

// prims lists the codecs of the runtime.
func prims() []prim {
	a := ztype.ArrayTraits
	var out []prim
	add := func(p ...prim) { out = append(out, p...) }
	add(boolPrim(), traitPrim[bool]("trait Bool", a.Bool, boolPrim()))

	u8p := intPrim("Uint8", ztype.WriteUint8, ztype.ReadUint8, u8, 8, false)
	u16p := intPrim("Uint16", ztype.WriteUint16, ztype.ReadUint16, u16, 16, false)
	u32p := intPrim("Uint32", ztype.WriteUint32, ztype.ReadUint32, u32, 32, false)
	u64p := intPrim("Uint64", ztype.WriteUint64, ztype.ReadUint64, u64, 64, false)
	i8p := intPrim("Int8", ztype.WriteInt8, ztype.ReadInt8, i8, 8, true)
	i16p := intPrim("Int16", ztype.WriteInt16, ztype.ReadInt16, i16, 16, true)
	i32p := intPrim("Int32", ztype.WriteInt32, ztype.ReadInt32, i32, 32, true)
	i64p := intPrim("Int64", ztype.WriteInt64, ztype.ReadInt64, i64, 64, true)
	add(u8p, u16p, u32p, u64p, i8p, i16p, i32p, i64p)
	add(traitPrim[uint8]("trait UInt8", a.UInt8, u8p), traitPrim[uint16]("trait UInt16", a.UInt16, u16p), traitPrim[uint32]("trait UInt32", a.UInt32, u32p), traitPrim[uint64]("trait UInt64", a.UInt64, u64p))
	add(traitPrim[int8]("trait Int8", a.Int8, i8p), traitPrim[int16]("trait Int16", a.Int16, i16p), traitPrim[int32]("trait Int32", a.Int32, i32p), traitPrim[int64]("trait Int64", a.Int64, i64p))

	v16 := varPrim("Varint16", "varint16", ztype.WriteVarint16, ztype.ReadVarint16, i16, 16, true, 2)
	v32 := varPrim("Varint32", "varint32", ztype.WriteVarint32, ztype.ReadVarint32, i32, 32, true, 4)
	v64 := varPrim("Varint64", "varint64", ztype.WriteVarint64, ztype.ReadVarint64, i64, 64, true, 8)
	vi := varPrim("Varint", "varint", ztype.WriteVarint, ztype.ReadVarint, i64, 64, true, 9)
	w16 := varPrim("Varuint16", "varuint16", ztype.WriteVaruint16, ztype.ReadVaruint16, u16, 16, false, 2)
	w32 := varPrim("Varuint32", "varuint32", ztype.WriteVaruint32, ztype.ReadVaruint32, u32, 32, false, 4)
	w64 := varPrim("Varuint64", "varuint64", ztype.WriteVaruint64, ztype.ReadVaruint64, u64, 64, false, 8)
	wi := varPrim("Varuint", "varuint", ztype.WriteVaruint, ztype.ReadVaruint, u64, 64, false, 9)
	vs := varPrim("Varsize", "varsize", ztype.WriteVarsize, ztype.ReadVarsize, u64, 64, false, 5)
	add(v16, v32, v64, vi, w16, w32, w64, wi, vs)
	add(traitPrim[int16]("trait VarInt16", a.VarInt16, v16), traitPrim[int32]("trait VarInt32", a.VarInt32, v32), traitPrim[int64]("trait VarInt64", a.VarInt64, v64), traitPrim[int64]("trait VarInt", a.VarInt, vi))
	add(traitPrim[uint16]("trait VarUInt16", a.VarUInt16, w16), traitPrim[uint32]("trait VarUInt32", a.VarUInt32, w32), traitPrim[uint64]("trait VarUInt64", a.VarUInt64, w64), traitPrim[uint64]("trait VarUInt", a.VarUInt, wi), traitPrim[uint64]("trait VarSize", a.VarSize, vs))

	f16 := prim{name: "Float16", write: pw(ztype.WriteFloat16), read: pr(ztype.ReadFloat16), ref: f16ref, same: f32same, values: floats16, alike: nans(5)}
	f32 := prim{name: "Float32", write: pw(ztype.WriteFloat32), read: pr(ztype.ReadFloat32), ref: f32ref, same: f32same, values: floats32, alike: nans(8)}
	f64 := prim{name: "Float64", write: pw(ztype.WriteFloat64), read: pr(ztype.ReadFloat64), ref: f64ref, same: f64same, values: floats64, alike: nans(11)}
	add(f16, f32, f64)
	add(traitPrim[float32]("trait Float16", a.Float16, f16), traitPrim[float32]("trait Float32", a.Float32, f32), traitPrim[float64]("trait Float64", a.Float64, f64))

	st := prim{name: "String", write: pw(ztype.WriteString), read: pr(ztype.ReadString), ref: stringRef, same: equal, values: stringsOf, heavy: true,
		size: func(x any) (int, error) { return ztype.BitSizeOfString(x.(string)) }}
	by := prim{name: "Bytes", write: pw(ztype.WriteBytes), read: pr(ztype.ReadBytes), ref: bytesRef, same: bytesSame, values: bytesOf, heavy: true,
		size: func(x any) (int, error) { return ztype.BitSizeOfBytes(x.(*ztype.BytesType)) }}
	ex := prim{name: "Extern", write: pw(ztype.WriteExtern), read: pr(ztype.ReadExtern), ref: externRef, same: externSame, values: externsOf, heavy: true,
		size: func(x any) (int, error) { return ztype.BitSizeOfExtern(x.(*ztype.ExternType)) }}
	add(st, by, ex)
	add(traitPrim[string]("trait String", a.String, st), traitPrim[*ztype.BytesType]("trait Bytes", a.Bytes, by), traitPrim[*ztype.ExternType]("trait Extern", a.Extern, ex))

	for n := 1; n <= 64; n++ {
		add(bitField(n, false), bitField(n, true))
		switch {
		case n <= 8:
			add(traitField[uint8](n, false, u8, 8, ztype.GetBitFieldArrayTraits[uint8](uint8(n))), traitField[int8](n, true, i8, 8, ztype.GetSignedBitFieldArrayTraits[int8](uint8(n))))
		case n <= 16:
			add(traitField[uint16](n, false, u16, 16, ztype.GetBitFieldArrayTraits[uint16](uint8(n))), traitField[int16](n, true, i16, 16, ztype.GetSignedBitFieldArrayTraits[int16](uint8(n))))
		case n <= 32:
			add(traitField[uint32](n, false, u32, 32, ztype.GetBitFieldArrayTraits[uint32](uint8(n))), traitField[int32](n, true, i32, 32, ztype.GetSignedBitFieldArrayTraits[int32](uint8(n))))
		default:
			add(traitField[uint64](n, false, u64, 64, ztype.GetBitFieldArrayTraits[uint64](uint8(n))), traitField[int64](n, true, i64, 64, ztype.GetSignedBitFieldArrayTraits[int64](uint8(n))))
		}
	}
	return out
}

func show(x any) string {
	var s string
	switch v := x.(type) {
	case string:
		s = fmt.Sprintf("string of %d bytes %.20q", len(v), v)
	case *ztype.BytesType:
		if v == nil {
			return "nil"
		}
		s = fmt.Sprintf("{%x, %d bytes}", clip(v.Buffer), v.ByteSize)
	case *ztype.ExternType:
		if v == nil {
			return "nil"
		}
		s = fmt.Sprintf("{%x, %d bits}", clip(v.Buffer), v.BitSize)
	default:
		s = fmt.Sprintf("%v", x)
	}
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func (b bitstr) String() string {
	if len(b) > 90 {
		return string(b[:90]) + "..."
	}
	return string(b)
}

func monBits(w *mon.W) bitstr {
	var b strings.Builder
	for i := 0; i < w.Len(); i++ {
		b.WriteByte('0' + w.Bit(i))
	}
	return bitstr(b.String())
}

// one runs one value through a codec at one start position.
func (p *prim) one(c *Ctx, x any, pos int, streams bool) bool {
	key := "runtime/" + p.name
	fail := func(what, f string, a ...any) bool {
		c.Violation(key+"/"+what, fmt.Sprintf("%s of %s at bit %d: ", p.name, show(x), pos)+fmt.Sprintf(f, a...), map[string]any{"value": show(x), "pos": pos})
		return false
	}
	want, ok := p.ref(x)
	var err error
	w := mon.NewW(pos)
	if e := Guard(func() { err = p.write(w, x) }); e != "" {
		return fail("panic", "writing panicked: %s", e)
	}
	got := monBits(w)
	c.Eval(fmt.Sprintf("%s %s %d", p.name, show(x), pos), true)
	if !ok {
		c.Count("refused", 1)
		if err == nil {
			return fail("range", "does not fit, but writing reported success and wrote %s", got)
		}
		if got != "" {
			return fail("range", "does not fit, but writing put %s before its error", got)
		}
		return true
	}
	if err != nil {
		return fail("write", "writing failed: %v", err)
	}
	if got != want && p.alike != nil && p.alike(got, want) {
		want = got
	}
	if got != want {
		return fail("bits", "wrote %s, right is %s", got, want)
	}
	if w.Breach != "" {
		return fail("breach", "%s", w.Breach)
	}
	if p.size != nil {
		var n int
		if e := Guard(func() { n, err = p.size(x) }); e != "" {
			return fail("panic", "sizing panicked: %s", e)
		}
		if err != nil || n != len(want) {
			return fail("size", "announces %d bits (%v), wrote %d", n, err, len(want))
		}
	}
	pad := bitstr(strings.Repeat("0", pos))
	if pos%2 == 1 {
		pad = bitstr(strings.Repeat("1", pos))
	}
	all := pad + want
	for _, tail := range []bitstr{"", "1011011101111"} {
		r := mon.NewR((all + tail).pack(), len(all+tail), pos)
		var y any
		if e := Guard(func() { y, err = p.read(r) }); e != "" {
			return fail("panic", "reading panicked: %s", e)
		}
		if err != nil {
			return fail("read", "reading %s failed: %v", want, err)
		}
		if !p.same(x, y) {
			return fail("value", "reading %s gave %s", want, show(y))
		}
		if r.Pos() != len(all) {
			return fail("consumed", "reading %s consumed %d bits", want, r.Pos()-pos)
		}
		if r.Breach != "" {
			return fail("breach", "%s", r.Breach)
		}
	}
	if !streams {
		return true
	}
	// through the library's own bit stream
	var buf bytes.Buffer
	bw := zstream.NewWriter(&buf)
	for i := range pad {
		if err := bw.WriteBool(pad[i] == '1'); err != nil {
			return fail("stream", "%v", err)
		}
	}
	if err := p.write(bw, x); err != nil {
		return fail("stream", "writing to a bit stream failed: %v", err)
	}
	if bw.BitPosition() != int64(len(all)) {
		return fail("stream", "the position is %d after %d bits", bw.BitPosition(), len(all))
	}
	bw.WriteBits(5, 3)
	if err := bw.Close(); err != nil {
		return fail("stream", "%v", err)
	}
	if !bytes.Equal(buf.Bytes(), (all + "101").pack()) {
		return fail("stream", "the bit stream wrote %x, right is %x", clip(buf.Bytes()), clip((all + "101").pack()))
	}
	br := zstream.NewReader(bytes.NewReader(buf.Bytes()))
	for i := 0; i < pos; i++ {
		br.ReadBool()
	}
	y, err := p.read(br)
	if err != nil || !p.same(x, y) {
		return fail("stream", "reading from a bit stream gave %s (%v)", show(y), err)
	}
	if v, err := br.ReadBits(3); v != 5 || err != nil {
		return fail("stream", "the next bits of the bit stream are %d (%v), not 5", v, err)
	}
	return true
}

func (c *Ctx) primitives() {
	ps := prims()
	for i := range ps {
		if i%c.Shards != c.Shard {
			continue
		}
		p := &ps[i]
		c.Journal("runtime/" + p.name + " values")
		r := c.Rng(p.name)
		vals := p.values(r, c.N(400, 20000))
		c.Count("codecs", 1)
		bad := 0
		for j, x := range vals {
			// every value at one position and a part of them at all
			full := j%(1+len(vals)/c.N(60, 600)) == 0
			for pos := 0; pos < 8; pos++ {
				if !full && pos != j%8 {
					continue
				}
				if !p.one(c, x, pos, full || j%7 == 0) {
					bad++
				}
			}
			if full {
				c.Sample(fmt.Sprintf("%s %s", p.name, show(x)))
			}
			if bad > 5 {
				break
			}
		}
	}
	if c.Shard == 0 {
		c.widths()
	}
}

// widths asks for impossible bit widths.
func (c *Ctx) widths() {
	for n := 65; n < 256; n++ {
		key := fmt.Sprintf("runtime/width%d", n)
		for _, v := range []uint64{0, 1, 5, 1 << 31, math.MaxInt64, math.MaxUint64} {
			w := mon.NewW(3)
			var e1, e2, e3, e4 error
			p := Guard(func() {
				e1 = ztype.WriteUnsignedBits(w, v, uint8(n))
				e2 = ztype.WriteSignedBits(w, int64(v), uint8(n))
			})
			p += Guard(func() {
				e3 = ztype.GetBitFieldArrayTraits[uint64](uint8(n)).Write(w, v)
				e4 = ztype.GetSignedBitFieldArrayTraits[int64](uint8(n)).Write(w, int64(v))
			})
			c.Eval(fmt.Sprintf("%s/%d", key, v), true)
			if p != "" || e1 == nil || e2 == nil || e3 == nil || e4 == nil || w.Len() > 0 {
				c.Violation(key, fmt.Sprintf("writing %d with %d bits: errors %v, %v, %v, %v, %d bits written, %s", v, n, e1, e2, e3, e4, w.Len(), p), nil)
			}
		}
		buf := bytes.Repeat([]byte{0xa5}, 64)
		var e1, e2 error
		p := Guard(func() { _, e1 = ztype.ReadUnsignedBits(mon.NewR(buf, 512, 0), uint8(n)) })
		p += Guard(func() { _, e2 = ztype.ReadSignedBits(mon.NewR(buf, 512, 0), uint8(n)) })
		if p != "" || e1 == nil || e2 == nil {
			c.Violation(key, fmt.Sprintf("reading %d bits: errors %v, %v %s", n, e1, e2, p), nil)
		}
		p = Guard(func() { _, e1 = zstream.NewReader(bytes.NewReader(buf)).ReadBits(uint8(n)) })
		p += Guard(func() { e2 = zstream.NewWriter(new(bytes.Buffer)).WriteBits(1, uint8(n)) })
		if p != "" || e1 == nil || e2 == nil {
			c.Violation(key, fmt.Sprintf("bit stream with %d bits: errors %v, %v %s", n, e1, e2, p), nil)
		}
	}
	// signed fields without any bits hold no value
	var err error
	if p := Guard(func() { err = ztype.WriteUnsignedBits(mon.NewW(0), 1, 0) }); p != "" || err == nil {
		c.Violation("runtime/width0", fmt.Sprintf("writing 1 with 0 bits: %v %s", err, p), nil)
	}
}

// primFaults fails every operation of every codec once.
func (c *Ctx) primFaults(write bool) {
	for _, p := range prims() {
		r := c.Rng("faults " + p.name)
		vals := p.values(r, 20)
		for k := 0; k < c.N(12, 100); k++ {
			x := vals[r.Intn(len(vals))]
			want, ok := p.ref(x)
			if !ok || len(want) > 4000 {
				continue
			}
			pos := r.Intn(8)
			fail := func(f string, a ...any) {
				c.Violation("runtime/"+p.name+"/fault", fmt.Sprintf("%s of %s at bit %d: ", p.name, show(x), pos)+fmt.Sprintf(f, a...), nil)
			}
			c.Journal("runtime/" + p.name + " faults")
			if write {
				w := mon.NewW(pos)
				p.write(w, x)
				for j := 0; j < 2*w.Ops; j++ {
					i := j / 2
					fw := mon.NewW(pos)
					fw.FailAt, fw.Once = i, j%2 == 1
					err := p.write(fw, x)
					c.Eval(fmt.Sprintf("%s %s fault %d", p.name, show(x), i), true)
					c.Count("runtime_faults", 1)
					if !errors.Is(err, mon.ErrInjected) {
						fail("the writer failed at operation %d, writing reported %v", i, err)
					}
				}
				continue
			}
			all := bitstr(strings.Repeat("0", pos)) + want
			rd := mon.NewR(all.pack(), len(all), pos)
			p.read(rd)
			for j := 0; j < 2*rd.Ops; j++ {
				i := j / 2
				fr := mon.NewR(all.pack(), len(all), pos)
				fr.FailAt, fr.Once = i, j%2 == 1
				_, err := p.read(fr)
				c.Eval(fmt.Sprintf("%s %s fault %d", p.name, show(x), i), true)
				c.Count("runtime_faults", 1)
				if !errors.Is(err, mon.ErrInjected) {
					fail("the reader failed at operation %d, reading reported %v", i, err)
				}
			}
			for cut := 0; cut < len(want); cut += 1 + len(want)/40 {
				if _, err := p.read(mon.NewR(all.pack(), pos+cut, pos)); err == nil {
					fail("reading only %d of %d bits reported success", cut, len(want))
				}
				c.Count("runtime_truncations", 1)
			}
		}
	}
}

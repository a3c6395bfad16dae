package zs

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Val is a value of a resolved type.
type Val struct {
	T      *RType
	N      uint64 // integers (two's complement), bool, float bits
	B      []byte // string, bytes, extern
	NBits  int    // extern
	IsArr  bool
	A      []*Val
	F      map[string]*Val // compound: present fields
	Params map[string]*Val
	Sel    string // choice/union: the field that is present, "" for none
	Width  int    // dynamic bit field width
}

// Big gives an integer value.
func (v *Val) Big() *big.Int {
	if v.T.Signed() {
		return big.NewInt(int64(v.N))
	}
	return new(big.Int).SetUint64(v.N)
}

// SetBig sets an integer value.
func (v *Val) SetBig(b *big.Int) {
	if b.Sign() < 0 {
		v.N = uint64(b.Int64())
	} else {
		v.N = b.Uint64()
	}
}

func isNaNBits(k Kind, n uint64) bool {
	switch k {
	case KF16:
		return n&0x7c00 == 0x7c00 && n&0x3ff != 0
	case KF32:
		return n&0x7f800000 == 0x7f800000 && n&0x7fffff != 0
	case KF64:
		return n&0x7ff0000000000000 == 0x7ff0000000000000 && n&0xfffffffffffff != 0
	}
	return false
}

// Diff describes the first difference between two values, or "".
func Diff(a, b *Val, path string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%s: presence differs (want present=%v, got present=%v)", path, a != nil, b != nil)
	}
	if a.IsArr != b.IsArr {
		return path + ": array/non-array"
	}
	if a.IsArr {
		if len(a.A) != len(b.A) {
			return fmt.Sprintf("%s: length %d, got %d", path, len(a.A), len(b.A))
		}
		for i := range a.A {
			if d := Diff(a.A[i], b.A[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	switch a.T.Kind {
	case KStruct, KChoice, KUnion:
		if a.Sel != b.Sel {
			return fmt.Sprintf("%s: selected %q, got %q", path, a.Sel, b.Sel)
		}
		for _, f := range a.T.D.Fields {
			if d := Diff(a.F[f.Name], b.F[f.Name], path+"."+f.Name); d != "" {
				return d
			}
		}
		return ""
	case KString, KBytes:
		if !bytes.Equal(a.B, b.B) {
			return fmt.Sprintf("%s: %x, got %x", path, clip(a.B), clip(b.B))
		}
		return ""
	case KExtern:
		if a.NBits != b.NBits || !bytes.Equal(maskExtern(a), maskExtern(b)) {
			return fmt.Sprintf("%s: extern %d bits %x, got %d bits %x", path, a.NBits, clip(a.B), b.NBits, clip(b.B))
		}
		return ""
	case KF16, KF32, KF64:
		if isNaNBits(a.T.Kind, a.N) && isNaNBits(a.T.Kind, b.N) {
			return ""
		}
	}
	if a.N != b.N {
		return fmt.Sprintf("%s: want %s, got %s", path, a.Scalar(), b.Scalar())
	}
	return ""
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// maskExtern gives the extern bytes with unused low bits of the last byte cleared.
func maskExtern(v *Val) []byte {
	n := (v.NBits + 7) / 8
	if len(v.B) < n {
		return v.B
	}
	out := append([]byte(nil), v.B[:n]...)
	if r := v.NBits % 8; r != 0 {
		out[n-1] &= 0xff << (8 - r)
	}
	return out
}

// Scalar formats a scalar.
func (v *Val) Scalar() string {
	switch v.T.Kind {
	case KBool:
		return fmt.Sprint(v.N != 0)
	case KF16, KF32, KF64:
		return fmt.Sprintf("0x%x(%s)", v.N, v.T.Name)
	case KString:
		return fmt.Sprintf("%q", clip(v.B))
	case KBytes:
		return "bytes:" + hex.EncodeToString(clip(v.B))
	case KExtern:
		return fmt.Sprintf("extern%d:%s", v.NBits, hex.EncodeToString(clip(v.B)))
	}
	return v.Big().String()
}

// String formats any value compactly.
func (v *Val) String() string {
	var sb strings.Builder
	v.format(&sb)
	s := sb.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func (v *Val) format(sb *strings.Builder) {
	if v == nil {
		sb.WriteString("-")
		return
	}
	if sb.Len() > 2000 {
		sb.WriteString("~")
		return
	}
	if v.IsArr {
		sb.WriteByte('[')
		for i, e := range v.A {
			if i > 0 {
				sb.WriteByte(' ')
			}
			e.format(sb)
		}
		sb.WriteByte(']')
		return
	}
	if v.T.IsCompound() {
		sb.WriteString(v.T.Name)
		if len(v.Params) > 0 {
			sb.WriteByte('(')
			for _, p := range v.T.D.Params {
				fmt.Fprintf(sb, "%s=", p.Name)
				v.Params[p.Name].format(sb)
				sb.WriteByte(' ')
			}
			sb.WriteByte(')')
		}
		sb.WriteByte('{')
		for _, f := range v.T.D.Fields {
			if x := v.F[f.Name]; x != nil {
				fmt.Fprintf(sb, "%s:", f.Name)
				x.format(sb)
				sb.WriteByte(' ')
			}
		}
		sb.WriteByte('}')
		return
	}
	sb.WriteString(v.Scalar())
}

// F16ToF32 converts IEEE half to single precision.
func F16ToF32(h uint16) float32 {
	s := uint32(h>>15) << 31
	e := uint32(h>>10) & 0x1f
	m := uint32(h) & 0x3ff
	switch {
	case e == 0x1f:
		return math.Float32frombits(s | 0x7f800000 | m<<13)
	case e == 0:
		f := float32(m) / (1 << 24)
		if s != 0 {
			f = -f
			if m == 0 {
				return math.Float32frombits(s)
			}
		}
		return f
	}
	return math.Float32frombits(s | (e+112)<<23 | m<<13)
}

// F32ToF16 converts single to half precision, rounding to nearest even.
func F32ToF16(f float32) uint16 {
	b := math.Float32bits(f)
	s := uint16(b>>16) & 0x8000
	if f != f {
		return s | 0x7e00
	}
	a := math.Abs(float64(f))
	if math.IsInf(float64(f), 0) || a >= 65520 {
		return s | 0x7c00
	}
	// find the nearest representable half by exact arithmetic on a*2^24
	if a == 0 {
		return s
	}
	_, exp := math.Frexp(a) // a = fr * 2^exp, fr in [0.5,1)
	e := exp - 1            // exponent of leading bit
	if e < -14 {
		e = -14
	}
	q := math.RoundToEven(math.Ldexp(a, 10-e)) // units of 2^(e-10)
	n := uint32(q)
	if n >= 2048 {
		n >>= 1
		e++
	}
	if n < 1024 {
		return s | uint16(n) // subnormal
	}
	return s | uint16(e+15)<<10 | uint16(n-1024)
}

package zs

import (
	"math/big"
)

// Bits is a bit string under construction.
type Bits struct {
	b []byte // one byte per bit
}

// Len is the number of bits.
func (w *Bits) Len() int { return len(w.b) }

// Put appends the n low bits of v, most significant first.
func (w *Bits) Put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		w.b = append(w.b, byte(v>>uint(i))&1)
	}
}

// PutBytes appends whole bytes.
func (w *Bits) PutBytes(p []byte) {
	for _, c := range p {
		w.Put(uint64(c), 8)
	}
}

// Align pads with zeros to a multiple of n.
func (w *Bits) Align(n int) {
	for n > 1 && len(w.b)%n != 0 {
		w.b = append(w.b, 0)
	}
}

// Bytes packs the bits, padding with zeros.
func (w *Bits) Bytes() []byte {
	out := make([]byte, (len(w.b)+7)/8)
	for i, x := range w.b {
		if x != 0 {
			out[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return out
}

// VarBytes encodes a variable length integer; ok is false if out of range.
func VarBytes(name string, v *big.Int) (out []byte, ok bool) {
	signed := len(name) >= 6 && name[:6] == "varint"
	neg := v.Sign() < 0
	if neg && !signed {
		return nil, false
	}
	mag := new(big.Int).Abs(v)
	var maxBytes int
	lastFull := true // the last byte carries 8 bits
	switch name {
	case "varint16", "varuint16":
		maxBytes = 2
	case "varint32", "varuint32":
		maxBytes = 4
	case "varint64", "varuint64":
		maxBytes = 8
	case "varint", "varuint":
		maxBytes = 9
	case "varsize":
		maxBytes = 5
	}
	if name == "varint" && v.IsInt64() && v.Int64() == -1<<63 {
		return []byte{0x80}, true
	}
	first := 7 // value bits in a first byte that is not the last possible one
	if signed {
		first = 6
	}
	n := mag.BitLen()
	if name == "varsize" && mag.Cmp(big.NewInt(1<<31-1)) > 0 {
		return nil, false
	}
	for k := 1; k <= maxBytes; k++ {
		cap := first + 7*(k-1)
		if k == maxBytes && lastFull {
			cap++
		}
		if n <= cap {
			// lay out k bytes: sign?, continuation bits, payload big-endian
			w := &Bits{}
			payload := func(lo, cnt int) uint64 {
				x := new(big.Int).Rsh(mag, uint(lo))
				return new(big.Int).And(x, new(big.Int).SetUint64(1<<uint(cnt)-1)).Uint64()
			}
			rem := cap
			for i := 0; i < k; i++ {
				cnt := 7
				if i == 0 && signed {
					if neg {
						w.Put(1, 1)
					} else {
						w.Put(0, 1)
					}
					cnt = 6
				}
				if i == maxBytes-1 {
					cnt++ // no continuation bit in the last possible byte
				} else if i < k-1 {
					w.Put(1, 1)
				} else {
					w.Put(0, 1)
				}
				rem -= cnt
				w.Put(payload(rem, cnt), cnt)
			}
			return w.Bytes(), true
		}
	}
	return nil, false
}

// Packable tells whether a scalar type is delta packed.
func Packable(t *RType) bool {
	return t.IsInt() || t.Kind == KEnum || t.Kind == KBitmask
}

type dctx struct {
	inited, started   bool
	prev              *big.Int
	maxBits, unpacked int
	first, n          int
	packed            bool
}

type pnode struct {
	t    *RType // of a compound whose kids do not exist yet
	ctx  *dctx
	kids []*pnode
}

// Enc is the reference encoder.
type Enc struct {
	W Bits
	// PackStats counts contexts written packed and plain.
	Packed, Plain int
}

func scalarBits(t *RType, v *Val, w *Bits) {
	switch t.Kind {
	case KUInt, KSInt:
		w.Put(v.N, t.Bits)
	case KDynU, KDynS:
		w.Put(v.N, v.Width)
	case KVar:
		b, ok := VarBytes(t.Name, v.Big())
		if !ok {
			fail("value %s out of range of %s", v.Big(), t.Name)
		}
		w.PutBytes(b)
	case KBool:
		w.Put(v.N, 1)
	case KF16, KF32, KF64:
		w.Put(v.N, t.Bits)
	case KString, KBytes:
		b, _ := VarBytes("varsize", big.NewInt(int64(len(v.B))))
		w.PutBytes(b)
		w.PutBytes(v.B)
	case KExtern:
		b, _ := VarBytes("varsize", big.NewInt(int64(v.NBits)))
		w.PutBytes(b)
		for i := 0; i < v.NBits; i++ {
			w.b = append(w.b, v.B[i/8]>>(7-uint(i%8))&1)
		}
	case KEnum, KBitmask:
		scalarBits(t.Base, &Val{T: t.Base, N: v.N}, w)
	default:
		fail("not a scalar: %s", t.Name)
	}
}

func unpackedSize(v *Val) int {
	var w Bits
	scalarBits(v.T, v, &w)
	return w.Len()
}

// Encode writes a value. Type arguments are already in the values' Params.
func (e *Enc) Encode(v *Val) { e.compoundOrScalar(v) }

func (e *Enc) compoundOrScalar(v *Val) {
	if !v.T.IsCompound() {
		scalarBits(v.T, v, &e.W)
		return
	}
	e.header(v, nil)
	for _, f := range v.T.D.Fields {
		e.field(v, f, nil)
	}
}

// header writes the union tag.
func (e *Enc) header(v *Val, n *pnode) {
	if v.T.Kind != KUnion {
		return
	}
	tag := &Val{T: &RType{Kind: KVar, Name: "varsize"}, N: uint64(unionIndex(v))}
	if n != nil {
		e.packedScalar(tag, n.kids[0])
	} else {
		scalarBits(tag.T, tag, &e.W)
	}
}

func unionIndex(v *Val) int {
	for i, f := range v.T.D.Fields {
		if f.Name == v.Sel {
			return i
		}
	}
	fail("union %s has no field %q", v.T.Name, v.Sel)
	return 0
}

func (e *Enc) field(v *Val, f *Field, n *pnode) {
	x := v.F[f.Name]
	if v.T.Kind != KStruct {
		if v.Sel != f.Name {
			return
		}
	} else {
		if f.Cond != nil && !f.Optional && x == nil {
			return
		}
		if f.Optional {
			if x == nil {
				e.W.Put(0, 1)
				return
			}
			e.W.Put(1, 1)
		}
	}
	if x == nil {
		fail("field %s not set", f.Name)
	}
	e.W.Align(f.Align)
	if x.IsArr {
		e.array(x, f.Array, n != nil)
		return
	}
	if n != nil {
		e.packedValue(x, n)
		return
	}
	e.compoundOrScalar(x)
}

func (e *Enc) array(x *Val, ad *ArrayDef, inPacked bool) {
	if ad.Len == nil {
		b, ok := VarBytes("varsize", big.NewInt(int64(len(x.A))))
		if !ok {
			fail("array too long")
		}
		e.W.PutBytes(b)
	}
	if len(x.A) == 0 {
		return
	}
	et := x.A[0].T
	packed := (ad.Packed || inPacked) && (Packable(et) || et.IsCompound())
	if !packed {
		for _, el := range x.A {
			e.compoundOrScalar(el)
		}
		return
	}
	node := createNode(et)
	for _, el := range x.A {
		initNode(el, node)
	}
	for _, el := range x.A {
		e.packedValue(el, node)
	}
}

func createNode(t *RType) *pnode {
	if t.IsCompound() {
		return &pnode{t: t}
	}
	n := &pnode{}
	if Packable(t) {
		n.ctx = &dctx{}
	}
	return n
}

// open creates the contexts of the fields. Types can be recursive, so that
// this cannot be done before there is a value.
func (n *pnode) open() {
	t := n.t
	if n.t = nil; t == nil {
		return
	}
	if t.Kind == KUnion {
		n.kids = append(n.kids, &pnode{ctx: &dctx{}})
	}
	for _, f := range t.D.Fields {
		if f.Array != nil {
			n.kids = append(n.kids, &pnode{})
			continue
		}
		n.kids = append(n.kids, createNode(t.Sc.Resolve(f.Type)))
	}
}

func initNode(v *Val, n *pnode) {
	if n.ctx != nil {
		n.ctx.init(v)
		return
	}
	if !v.T.IsCompound() {
		return
	}
	n.open()
	off := 0
	if v.T.Kind == KUnion {
		n.kids[0].ctx.init(&Val{T: &RType{Kind: KVar, Name: "varsize"}, N: uint64(unionIndex(v))})
		off = 1
	}
	for i, f := range v.T.D.Fields {
		x := v.F[f.Name]
		if x == nil || x.IsArr || v.T.Kind != KStruct && v.Sel != f.Name {
			continue
		}
		initNode(x, n.kids[off+i])
	}
}

func (c *dctx) init(v *Val) {
	c.n++
	c.unpacked += unpackedSize(v)
	cur := v.Big()
	if !c.inited {
		c.inited = true
		c.first = c.unpacked
		c.prev = cur
		return
	}
	if c.maxBits <= 62 {
		c.packed = true
		d := new(big.Int).Sub(cur, c.prev)
		if l := d.Abs(d).BitLen(); l > c.maxBits {
			c.maxBits = l
			if l > 62 {
				c.packed = false
			}
		}
	}
	c.prev = cur
}

func (e *Enc) packedValue(v *Val, n *pnode) {
	if n.ctx != nil {
		e.packedScalar(v, n)
		return
	}
	if !v.T.IsCompound() {
		scalarBits(v.T, v, &e.W)
		return
	}
	n.open()
	off := 0
	if v.T.Kind == KUnion {
		e.header(v, n)
		off = 1
	}
	for i, f := range v.T.D.Fields {
		e.field(v, f, n.kids[off+i])
	}
}

func (e *Enc) packedScalar(v *Val, n *pnode) {
	c := n.ctx
	cur := v.Big()
	if !c.started {
		c.started = true
		if c.packed {
			delta := 0
			if c.maxBits > 0 {
				delta = c.maxBits + 1
			}
			if 1+6+c.first+(c.n-1)*delta >= 1+c.unpacked {
				c.packed = false
			}
		}
		if c.packed {
			e.Packed++
			e.W.Put(1, 1)
			e.W.Put(uint64(c.maxBits), 6)
		} else {
			e.Plain++
			e.W.Put(0, 1)
		}
		scalarBits(v.T, v, &e.W)
	} else if !c.packed {
		scalarBits(v.T, v, &e.W)
	} else if c.maxBits > 0 {
		d := new(big.Int).Sub(cur, c.prev)
		e.W.Put(uint64(d.Int64()), c.maxBits+1)
	}
	c.prev = cur
}

// EncodeAt encodes a value behind pos leading zero bits.
func EncodeAt(v *Val, pos int) (e *Enc, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = pe.error
				return
			}
			panic(r)
		}
	}()
	e = &Enc{}
	for i := 0; i < pos; i++ {
		e.W.b = append(e.W.b, 0)
	}
	e.Encode(v)
	return e, nil
}

// Tail packs the bits from position pos on.
func (w *Bits) Tail(pos int) []byte {
	t := Bits{b: w.b[pos:]}
	return t.Bytes()
}

package zs

import (
	"errors"
	"fmt"
	"math/big"
)

// Outcomes of decoding other than a value.
var (
	// ErrShort: the input ends before the value does.
	ErrShort = errors.New("input too short")
	// ErrBudget: the input stands for more elements than we want to decode.
	ErrBudget = errors.New("element budget exhausted")
	// ErrInvalid: the format has no value for the input, and decoding must fail.
	ErrInvalid = errors.New("invalid encoding")
	// ErrOpen: the format does not say what the input means.
	ErrOpen = errors.New("unspecified encoding")
)

// Dec is the reference decoder.
type Dec struct {
	data   []byte
	nbits  int
	pos    int
	Budget int
	// Odd notes what a decoder may refuse although the value is well-formed
	// (integers that are no item of their enum, undefined bits).
	Odd string
	// open notes the first value that the format does not give a meaning
	open error
}

type decErr struct{ error }

func (d *Dec) fail(e error, format string, a ...any) {
	panic(decErr{fmt.Errorf("%w: %s", e, fmt.Sprintf(format, a...))})
}

func (d *Dec) bits(n int) uint64 {
	if d.pos+n > d.nbits {
		d.fail(ErrShort, "%d bits at %d of %d", n, d.pos, d.nbits)
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(d.data[d.pos/8]>>(7-uint(d.pos%8))&1)
		d.pos++
	}
	return v
}

func (d *Dec) bytes(n int) []byte {
	if d.pos+8*n > d.nbits {
		d.fail(ErrShort, "%d bytes at %d of %d", n, d.pos, d.nbits)
	}
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(d.bits(8))
	}
	return out
}

func (d *Dec) align(n int) {
	if n < 2 {
		return
	}
	for d.pos%n != 0 {
		d.bits(1)
	}
}

// spend takes elements from the budget.
func (d *Dec) spend() {
	d.Budget--
	if d.Budget < 0 {
		d.fail(ErrBudget, "")
	}
}

func (d *Dec) varint(name string) *big.Int {
	signed := len(name) >= 6 && name[:6] == "varint"
	maxBytes := map[string]int{"varint16": 2, "varuint16": 2, "varint32": 4, "varuint32": 4, "varint64": 8, "varuint64": 8, "varint": 9, "varuint": 9, "varsize": 5}[name]
	v := new(big.Int)
	neg := false
	for i := 0; i < maxBytes; i++ {
		b := d.bits(8)
		n := uint(7)
		more := b&0x80 != 0
		if i == 0 && signed {
			neg, more, n = b&0x80 != 0, b&0x40 != 0, 6
		}
		if i == maxBytes-1 {
			n, more = n+1, false
		}
		v.Lsh(v, n)
		v.Or(v, new(big.Int).SetUint64(b&(1<<n-1)))
		if !more {
			if neg {
				if v.Sign() == 0 && name == "varint" && i == 0 {
					return big.NewInt(-1 << 63)
				}
				if v.Sign() == 0 {
					d.Odd = "negative zero"
				}
				v.Neg(v)
			}
			break
		}
	}
	if name == "varsize" && v.Cmp(big.NewInt(1<<31-1)) > 0 {
		d.fail(ErrOpen, "varsize %s", v)
	}
	return v
}

func sext(v uint64, n int) uint64 {
	if n < 64 && n > 0 && v>>(uint(n)-1)&1 != 0 {
		v |= ^uint64(0) << uint(n)
	}
	return v
}

func (d *Dec) size() int { return int(d.varint("varsize").Int64()) }

func (d *Dec) scalar(t *RType, width int) *Val {
	v := &Val{T: t, Width: width}
	switch t.Kind {
	case KUInt:
		v.N = d.bits(t.Bits)
	case KSInt:
		v.N = sext(d.bits(t.Bits), t.Bits)
	case KDynU:
		v.N = d.bits(width)
	case KDynS:
		v.N = sext(d.bits(width), width)
	case KVar:
		v.SetBig(d.varint(t.Name))
	case KBool:
		v.N = d.bits(1)
	case KF16, KF32, KF64:
		v.N = d.bits(t.Bits)
	case KString, KBytes:
		v.B = d.bytes(d.size())
	case KExtern:
		v.NBits = d.size()
		if d.pos+v.NBits > d.nbits {
			d.fail(ErrShort, "extern of %d bits", v.NBits)
		}
		var w Bits
		for i := 0; i < v.NBits; i++ {
			w.Put(d.bits(1), 1)
		}
		v.B = w.Bytes()
	case KEnum, KBitmask:
		v.N = d.scalar(t.Base, 0).N
		d.item(v)
	default:
		panic("scalar " + t.Name)
	}
	return v
}

// item notes values that an enum or bitmask does not define.
func (d *Dec) item(v *Val) {
	var all uint64
	for _, it := range ItemValues(v.T.D) {
		n := it.I.Uint64()
		if it.I.Sign() < 0 {
			n = uint64(it.I.Int64())
		}
		if v.T.Kind == KEnum && n == v.N {
			return
		}
		all |= n
	}
	if v.T.Kind == KEnum || v.N&^all != 0 {
		d.Odd = "no item of " + v.T.Name
	}
}

// dnode is the packing context of one element position.
type dnode struct {
	t               *RType // of a compound whose kids do not exist yet
	scalar          bool
	started, packed bool
	maxBits         int
	prev            *big.Int
	kids            []*dnode
}

func decNode(t *RType) *dnode {
	if t.IsCompound() {
		return &dnode{t: t}
	}
	return &dnode{scalar: Packable(t)}
}

// open creates the contexts of the fields, see pnode.open.
func (n *dnode) open() {
	t := n.t
	if n.t = nil; t == nil {
		return
	}
	if t.Kind == KUnion {
		n.kids = append(n.kids, &dnode{scalar: true})
	}
	for _, f := range t.D.Fields {
		if f.Array != nil {
			n.kids = append(n.kids, &dnode{})
			continue
		}
		n.kids = append(n.kids, decNode(t.Sc.Resolve(f.Type)))
	}
}

func (d *Dec) packedScalar(t *RType, width int, n *dnode) *Val {
	if !n.started {
		n.started = true
		if n.packed = d.bits(1) != 0; n.packed {
			n.maxBits = int(d.bits(6))
		}
		v := d.scalar(t, width)
		n.prev = v.Big()
		return v
	}
	if !n.packed {
		v := d.scalar(t, width)
		n.prev = v.Big()
		return v
	}
	if n.maxBits > 0 {
		delta := int64(sext(d.bits(n.maxBits+1), n.maxBits+1))
		n.prev = new(big.Int).Add(n.prev, big.NewInt(delta))
	}
	v := &Val{T: t, Width: width}
	lo, hi := d.rangeOf(t, width)
	if n.prev.Cmp(lo) < 0 || n.prev.Cmp(hi) > 0 {
		// carry on with what fits into the Go type, to learn how many elements
		// the input stands for
		if d.open == nil {
			d.open = fmt.Errorf("%w: delta leads to %s, outside of %s", ErrOpen, n.prev, t.Name)
		}
		w := 64
		for _, x := range []int{32, 16, 8} {
			if c := hi.BitLen(); c <= x && lo.BitLen() <= x {
				w = x
			}
		}
		x := new(big.Int).And(n.prev, new(big.Int).SetUint64(1<<uint(w)-1))
		if w == 64 {
			x.And(n.prev, new(big.Int).SetUint64(^uint64(0)))
		}
		if lo.Sign() < 0 {
			x.SetInt64(int64(sext(x.Uint64(), w)))
		}
		n.prev = x
	}
	v.SetBig(n.prev)
	if t.Kind == KEnum || t.Kind == KBitmask {
		d.item(v)
	}
	return v
}

func (d *Dec) rangeOf(t *RType, width int) (lo, hi *big.Int) {
	if t.Kind == KEnum || t.Kind == KBitmask {
		return t.Base.Range(t.Base.Bits)
	}
	if width == 0 {
		width = t.Bits
	}
	return t.Range(width)
}

func (d *Dec) value(parent *Val, t *RType, index int, n *dnode) *Val {
	if t.IsCompound() {
		return d.compound(t, Args(parent, t, index), n)
	}
	w := 0
	if t.Len != nil {
		w = Width(parent, t, index)
	}
	if n != nil && n.scalar {
		return d.packedScalar(t, w, n)
	}
	return d.scalar(t, w)
}

func (d *Dec) compound(t *RType, params map[string]*Val, n *dnode) *Val {
	d.spend()
	v := &Val{T: t, F: map[string]*Val{}, Params: params}
	if n != nil {
		n.open()
	}
	off := 0
	switch t.Kind {
	case KUnion:
		st := &RType{Kind: KVar, Name: "varsize"}
		var tag *Val
		if n != nil {
			tag = d.packedScalar(st, 0, n.kids[0])
			off = 1
		} else {
			tag = d.scalar(st, 0)
		}
		if tag.N >= uint64(len(t.D.Fields)) {
			d.fail(ErrInvalid, "union tag %d", tag.N)
		}
		v.Sel = t.D.Fields[tag.N].Name
	case KChoice:
		c, ok := Select(v)
		if !ok {
			d.fail(ErrInvalid, "no case for the selector")
		}
		if c.Field != nil {
			v.Sel = c.Field.Name
		}
	}
	for i, f := range t.D.Fields {
		if t.Kind != KStruct && f.Name != v.Sel {
			continue
		}
		if t.Kind == KStruct {
			if f.Cond != nil && !CondHolds(v, f) {
				continue
			}
			if f.Optional && d.bits(1) == 0 {
				continue
			}
		}
		d.align(f.Align)
		ft := t.Sc.Resolve(f.Type)
		var fn *dnode
		if n != nil {
			fn = n.kids[off+i]
		}
		if f.Array == nil {
			v.F[f.Name] = d.value(v, ft, -1, fn)
			continue
		}
		arr := &Val{T: ft, IsArr: true}
		ln := 0
		if f.Array.Len == nil {
			ln = d.size()
		} else {
			ev := (&Ctx{Sc: t.Sc, This: v, Index: -1}).Eval(f.Array.Len)
			if ev.K != 'i' {
				d.fail(ErrOpen, "array length")
			}
			if ev.I.Sign() < 0 {
				d.fail(ErrOpen, "negative array length")
			}
			if !ev.I.IsInt64() || ev.I.Int64() > 1<<40 {
				d.fail(ErrBudget, "array length %s", ev.I)
			}
			ln = int(ev.I.Int64())
		}
		v.F[f.Name] = arr
		var an *dnode
		if (f.Array.Packed || n != nil) && (Packable(ft) || ft.IsCompound()) {
			an = decNode(ft)
		}
		for j := 0; j < ln; j++ {
			d.spend()
			arr.A = append(arr.A, d.value(v, ft, j, an))
		}
	}
	return v
}

// Decoded is what the reference decoder makes of an input.
type Decoded struct {
	V     *Val
	End   int    // the bit position behind the value
	Elems int    // elements and compounds seen
	Odd   string // why an error would be acceptable although there is a value
}

// Decode decodes a value of type t from bit pos on.
func Decode(t *RType, params map[string]*Val, data []byte, nbits, pos, budget int) (out Decoded, err error) {
	d := &Dec{data: data, nbits: nbits, pos: pos, Budget: budget}
	defer func() {
		out.End, out.Odd, out.Elems = d.pos, d.Odd, budget-d.Budget
		defer func() {
			if d.open != nil && !errors.Is(err, ErrBudget) {
				err, out.V = d.open, nil
			}
		}()
		if r := recover(); r != nil {
			out.V = nil
			switch x := r.(type) {
			case decErr:
				err = x.error
			case EvalErr:
				err = fmt.Errorf("%w: %v", ErrOpen, x)
			case perr:
				err = fmt.Errorf("%w: %v", ErrOpen, x.error)
			default:
				panic(r)
			}
		}
	}()
	if !t.IsCompound() {
		out.V = d.scalar(t, 0)
		return
	}
	out.V = d.compound(t, params, nil)
	return
}

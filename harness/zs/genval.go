package zs

import (
	"math/big"
	"math/rand"
	"strings"
)

// Gen generates values of resolved types.
type Gen struct {
	R           *rand.Rand
	Lits        []*big.Int      // interesting integers of the schema
	Small       map[string]bool // names that feed lengths and widths
	MaxArr      int
	budget      int
	sim         map[string]*big.Int
	PlainFloats bool
	Big         int // how many long arrays, strings and buffers a value may have
	long        int
	NoTopSearch bool
}

// NewGen prepares a generator for a schema set.
func NewGen(s *Set, r *rand.Rand) *Gen {
	g := &Gen{R: r, Small: map[string]bool{}, MaxArr: 12}
	seen := map[string]bool{}
	var walk func(e *Expr, small bool)
	walk = func(e *Expr, small bool) {
		if e == nil {
			return
		}
		if e.Op == OpLit && e.Lit.K == 'i' && !seen[e.Lit.I.String()] {
			seen[e.Lit.I.String()] = true
			g.Lits = append(g.Lits, e.Lit.I)
		}
		if small && e.Name != "" {
			g.Small[e.Name] = true
		}
		walk(e.A, small)
		walk(e.B, small)
		walk(e.C, small)
	}
	for _, n := range s.Order {
		p := s.Pkgs[n]
		for _, d := range p.Decls {
			for _, f := range d.Fields {
				walk(f.Cond, false)
				walk(f.Init, false)
				walk(f.Type.Len, true)
				for _, a := range f.Type.Args {
					walk(a, true)
				}
				if f.Array != nil {
					walk(f.Array.Len, true)
				}
			}
			for _, c := range d.Cases {
				for _, l := range c.Labels {
					walk(l, false)
				}
			}
			walk(d.Sel, false)
		}
	}
	return g
}

type genFail struct{ why string }

// Value generates a value of a type, with random parameters for compounds;
// nil when no consistent value was found.
func (g *Gen) Value(t *RType) *Val {
	for try := 0; try < 300; try++ {
		if v := g.attempt(t); v != nil {
			return v
		}
	}
	return nil
}

func (g *Gen) attempt(t *RType) (v *Val) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case genFail, EvalErr:
				v = nil
			default:
				panic(r)
			}
		}
	}()
	g.budget = 60 + g.R.Intn(400)
	g.sim = nil
	g.long = g.Big
	if !t.IsCompound() {
		return g.scalar(t, "", 0)
	}
	params := map[string]*Val{}
	for _, p := range t.D.Params {
		pt := t.Sc.Resolve(p.Type)
		params[p.Name] = g.param(t, p.Name, pt)
	}
	return g.compound(t, params, 0)
}

func (g *Gen) param(t *RType, name string, pt *RType) *Val {
	if pt.IsCompound() {
		pp := map[string]*Val{}
		for _, p := range pt.D.Params {
			pp[p.Name] = g.param(pt, p.Name, pt.Sc.Resolve(p.Type))
		}
		return g.compound(pt, pp, 1)
	}
	// a choice selector: mostly one of the labels
	if t.Kind == KChoice && g.R.Intn(8) > 0 && len(t.D.Cases) > 0 {
		c := t.D.Cases[g.R.Intn(len(t.D.Cases))]
		l := c.Labels[g.R.Intn(len(c.Labels))]
		ev := LabelValue(t.Sc, pt, l)
		if v := FromEV(ev, pt); v != nil {
			return v
		}
	}
	v := g.scalar(pt, name, 0)
	return v
}

// FromEV makes a value of a type from an expression value; nil if it does not fit.
func FromEV(ev EV, t *RType) *Val {
	v := &Val{T: t}
	switch {
	case ev.K == 'v':
		return ev.V
	case t.Kind == KBool && ev.K == 'b':
		if ev.B {
			v.N = 1
		}
	case t.Kind == KString && ev.K == 's':
		v.B = []byte(ev.S)
	case (t.Kind == KF16 || t.Kind == KF32 || t.Kind == KF64) && (ev.K == 'f' || ev.K == 'i'):
		v.N = floatBits(t.Kind, ev.Num())
	case ev.K == 'i' && (t.IsInt() || t.Kind == KEnum || t.Kind == KBitmask):
		lo, hi := t.Range(64)
		if ev.I.Cmp(lo) < 0 || ev.I.Cmp(hi) > 0 {
			return nil
		}
		v.SetBig(ev.I)
	default:
		return nil
	}
	return v
}

// Args evaluates the type arguments of a field's type in its parent.
func Args(parent *Val, t *RType, index int) map[string]*Val {
	if len(t.Args) == 0 {
		return nil
	}
	if len(t.Args) != len(t.D.Params) {
		fail("wrong number of arguments for %s", t.Name)
	}
	out := map[string]*Val{}
	c := &Ctx{Sc: parent.T.Sc, This: parent, Index: index}
	for i, a := range t.Args {
		pt := t.Sc.Resolve(t.D.Params[i].Type)
		pv := FromEV(c.Eval(a), pt)
		if pv == nil {
			evalFail("argument does not fit parameter")
		}
		out[t.D.Params[i].Name] = pv
	}
	return out
}

// LabelValue evaluates the label of a choice case. Items of the selector's
// enum or bitmask type may go by their name alone.
func LabelValue(sc *Scope, sel *RType, l *Expr) EV {
	if l.Op == OpID && sel != nil && (sel.Kind == KEnum || sel.Kind == KBitmask) {
		for i, it := range sel.D.Items {
			if it.Name == l.Name {
				return ItemValues(sel.D)[i]
			}
		}
	}
	return (&Ctx{Sc: sc, Index: -1}).Eval(l)
}

// Select finds the case of a choice for its parameters. ok is false when the
// selector matches nothing.
func Select(v *Val) (c *Case, ok bool) {
	ctx := &Ctx{Sc: v.T.Sc, This: v, Index: -1}
	sel := ctx.Eval(v.T.D.Sel)
	for _, c := range v.T.D.Cases {
		for _, l := range c.Labels {
			lv := LabelValue(v.T.Sc, sel.ET, l)
			if compare("==", sel, lv) {
				return c, true
			}
		}
	}
	if v.T.D.Default != nil {
		return v.T.D.Default, true
	}
	return nil, false
}

// CondHolds evaluates the condition of a field.
func CondHolds(parent *Val, f *Field) bool {
	if f.Cond == nil {
		return true
	}
	ev := (&Ctx{Sc: parent.T.Sc, This: parent, Index: -1}).Eval(f.Cond)
	if ev.K != 'b' {
		evalFail("condition is not a bool")
	}
	return ev.B
}

// ArrLen evaluates a fixed array length, -1 for auto.
func ArrLen(parent *Val, f *Field) int {
	if f.Array.Len == nil {
		return -1
	}
	ev := (&Ctx{Sc: parent.T.Sc, This: parent, Index: -1}).Eval(f.Array.Len)
	if ev.K != 'i' || ev.I.Sign() < 0 || ev.I.Cmp(big.NewInt(1<<20)) > 0 {
		evalFail("array length %v", ev)
	}
	return int(ev.I.Int64())
}

// Width evaluates a dynamic bit width.
func Width(parent *Val, t *RType, index int) int {
	ev := (&Ctx{Sc: parent.T.Sc, This: parent, Index: index}).Eval(t.Len)
	if ev.K != 'i' || ev.I.Sign() <= 0 || ev.I.Cmp(big.NewInt(64)) > 0 {
		evalFail("bit width %v", ev)
	}
	return int(ev.I.Int64())
}

// maxDepth limits the nesting of values.
const maxDepth = 12

func (g *Gen) compound(t *RType, params map[string]*Val, depth int) *Val {
	if depth > maxDepth {
		panic(genFail{"depth"})
	}
	g.budget--
	v := &Val{T: t, F: map[string]*Val{}, Params: params}
	switch t.Kind {
	case KUnion:
		if len(t.D.Fields) == 0 {
			panic(genFail{"empty union"})
		}
		f := t.D.Fields[g.R.Intn(len(t.D.Fields))]
		v.Sel = f.Name
		v.F[f.Name] = g.field(v, f, depth)
	case KChoice:
		c, ok := Select(v)
		if !ok {
			panic(genFail{"selector"})
		}
		if c.Field != nil {
			v.Sel = c.Field.Name
			v.F[c.Field.Name] = g.field(v, c.Field, depth)
		}
	default:
		for _, f := range t.D.Fields {
			if f.Cond != nil && !CondHolds(v, f) {
				continue
			}
			if f.Optional {
				if g.R.Intn(2) == 0 || (g.budget <= 0 || depth >= maxDepth-4) && g.R.Intn(8) > 0 {
					continue
				}
			}
			v.F[f.Name] = g.field(v, f, depth)
		}
	}
	return v
}

func (g *Gen) field(parent *Val, f *Field, depth int) *Val {
	t := parent.T.Sc.Resolve(f.Type)
	if f.Array == nil {
		return g.elem(parent, t, f.Name, -1, depth)
	}
	n := ArrLen(parent, f)
	if n < 0 {
		m := g.MaxArr
		if g.budget <= 0 {
			m = 1
		}
		if depth >= maxDepth-2 && t.IsCompound() {
			m = 0
		}
		n = g.R.Intn(m + 1)
		if g.budget > 0 && g.R.Intn(40) == 0 && !t.IsCompound() {
			n = 120 + g.R.Intn(20) // crosses the one-byte length prefix
		}
		if g.long > 0 && depth < 4 && g.R.Intn(2) == 0 {
			n = g.longLen()
			if t.IsCompound() || t.Kind == KString || t.Kind == KBytes || t.Kind == KExtern {
				n = []int{127, 128, 129, 255, 256, 257, 300}[g.R.Intn(7)]
				if t.IsCompound() {
					g.long = 0
				}
			}
		}
	} else if n > 2000 || n > 60 && g.budget <= 0 {
		panic(genFail{"array length"})
	}
	arr := &Val{T: t, IsArr: true}
	saved := g.sim
	if Packable(t) && g.R.Intn(4) > 0 {
		g.intSeq(parent, arr, t, f.Name, n, f.Array.Len == nil && f.Array.Packed && g.budget > 0)
	} else {
		if t.IsCompound() && g.sim == nil && g.R.Intn(4) > 0 {
			g.sim = map[string]*big.Int{"": g.closeness()}
		}
		for i := 0; i < n; i++ {
			arr.A = append(arr.A, g.elem(parent, t, f.Name, i, depth))
		}
	}
	g.sim = saved
	return arr
}

// longLen is a length around which something changes in length prefixes or
// buffers.
func (g *Gen) longLen() int {
	g.long--
	return []int{127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 20000, 32768, 65535, 65536, 65537}[g.R.Intn(23)]
}

// closeness is how far values of one field of neighbouring elements differ.
func (g *Gen) closeness() *big.Int {
	k := g.R.Intn(12)
	if g.R.Intn(4) == 0 {
		k = g.R.Intn(64)
	}
	return new(big.Int).Lsh(big.NewInt(1), uint(k))
}

// intSeq generates packing-relevant sequences.
func (g *Gen) intSeq(parent, arr *Val, t *RType, name string, n int, free bool) {
	width := 0
	if t.Len != nil {
		width = Width(parent, t, 0)
	}
	if t.Kind == KEnum {
		for i := 0; i < n; i++ {
			arr.A = append(arr.A, g.scalar(t, name, 0))
		}
		return
	}
	lo, hi := t.Range(width)
	span := new(big.Int).Sub(hi, lo)
	base := g.scalarW(t, name, width).Big()
	step := big.NewInt(int64(g.R.Intn(5)))
	pat := g.R.Intn(9)
	if pat >= 7 {
		pat = 7
		if free && g.R.Intn(2) == 0 {
			n = 9 + g.R.Intn(60) // long enough for wide deltas to pay
		}
	}
	clamp := func(b *big.Int) *big.Int {
		if b.Cmp(lo) < 0 {
			return new(big.Int).Set(lo)
		}
		if b.Cmp(hi) > 0 {
			return new(big.Int).Set(hi)
		}
		return b
	}
	out := g.R.Intn(n + 1)
	dbits := uint(g.R.Intn(66))
	// two values whose difference has an exact number of bits
	near, far := base, base
	if pat == 7 {
		k := span.BitLen()
		if k = k - g.R.Intn(4); g.R.Intn(3) == 0 || k < 0 {
			k = g.R.Intn(span.BitLen() + 1)
		}
		d := new(big.Int).Lsh(big.NewInt(1), uint(k))
		if d.Sub(d, big.NewInt(1)); g.R.Intn(2) == 0 {
			d.Rsh(d, 1).Add(d, big.NewInt(1))
		}
		near = lo
		if room := new(big.Int).Sub(span, d); room.Sign() > 0 {
			switch g.R.Intn(3) {
			case 0:
				near = new(big.Int).Add(lo, room)
			case 1:
				near = new(big.Int).Add(lo, new(big.Int).Rand(g.R, room))
			}
		}
		far = new(big.Int).Add(near, d)
		if g.R.Intn(2) == 0 {
			near, far = far, near
		}
	}
	for i := 0; i < n; i++ {
		var b *big.Int
		switch pat {
		case 0: // constant
			b = base
		case 1: // monotone
			b = new(big.Int).Add(base, new(big.Int).Mul(step, big.NewInt(int64(i))))
		case 2: // zig-zag around base
			d := new(big.Int).Rsh(span, dbits)
			if i%2 == 0 {
				b = new(big.Int).Add(base, d)
			} else {
				b = new(big.Int).Sub(base, d)
			}
		case 3: // full range alternation
			if i%2 == 0 {
				b = lo
			} else {
				b = hi
			}
		case 4: // single outlier
			b = base
			if i == out {
				b = g.scalarW(t, name, width).Big()
			}
		case 5: // small noise around zero
			b = big.NewInt(int64(g.R.Intn(33) - 16))
		case 7: // one exact width of deltas
			b = near
			if i == out || g.R.Intn(3) == 0 {
				b = far
			}
		case 6: // descending
			b = new(big.Int).Sub(base, new(big.Int).Mul(step, big.NewInt(int64(i))))
		}
		b = clamp(b)
		e := &Val{T: t, Width: width}
		e.SetBig(b)
		arr.A = append(arr.A, e)
	}
}

func (g *Gen) elem(parent *Val, t *RType, name string, index, depth int) *Val {
	if t.IsCompound() {
		return g.compound(t, Args(parent, t, index), depth+1)
	}
	w := 0
	if t.Len != nil {
		w = Width(parent, t, index)
	}
	return g.scalarW(t, name, w)
}

func (g *Gen) scalar(t *RType, name string, w int) *Val { return g.scalarW(t, name, w) }

var strPool = []string{"", "a", "zserio", "日本語", "line\nbreak", "quote\"s", "\x00nul", "ß€😀", "  "}

func (g *Gen) scalarW(t *RType, name string, width int) *Val {
	g.budget--
	v := &Val{T: t, Width: width}
	r := g.R
	switch t.Kind {
	case KBool:
		v.N = uint64(r.Intn(2))
	case KF16:
		if g.PlainFloats {
			v.N = uint64(F32ToF16(float32(r.Intn(64)) / 4))
			break
		}
		switch r.Intn(3) {
		case 0:
			v.N = []uint64{0, 0x8000, 0x3c00, 0xbc00, 0x7c00, 0xfc00, 0x7e00, 1, 0x8001, 0x3ff, 0x400, 0x7bff}[r.Intn(12)]
		case 1:
			v.N = uint64(F32ToF16(float32(r.Intn(4096)-2048) / 8))
		default:
			v.N = uint64(r.Intn(1 << 16))
			if isNaNBits(KF16, v.N) {
				v.N = 0x7e00
			}
		}
	case KF32, KF64:
		if g.PlainFloats {
			v.N = floatBits(t.Kind, float64(r.Intn(4096)-2048)/8)
			break
		}
		switch r.Intn(3) {
		case 0:
			v.N = floatBits(t.Kind, float64(r.Intn(4096)-2048)/8)
		case 1:
			v.N = r.Uint64()
			if t.Kind == KF32 {
				v.N &= 0xffffffff
			}
			if isNaNBits(t.Kind, v.N) {
				v.N = floatBits(t.Kind, 1.5)
			}
		default:
			if t.Kind == KF32 {
				v.N = []uint64{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff}[r.Intn(7)]
			} else {
				v.N = []uint64{0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 1, 0x7fefffffffffffff}[r.Intn(7)]
			}
		}
	case KString:
		if g.long > 0 && r.Intn(2) == 0 {
			v.B = []byte(strings.Repeat(strPool[1+r.Intn(len(strPool)-1)]+"x", g.longLen()))
			if len(v.B) > 70000 {
				v.B = []byte(strings.Repeat("y", 65530+r.Intn(12)))
			}
			break
		}
		switch r.Intn(4) {
		case 0, 1:
			v.B = []byte(strPool[r.Intn(len(strPool))])
		case 2:
			n := r.Intn(12)
			for i := 0; i < n; i++ {
				v.B = append(v.B, byte('a'+r.Intn(26)))
			}
		default:
			n := r.Intn(10)
			if r.Intn(10) == 0 {
				n = 126 + r.Intn(5)
			}
			for i := 0; i < n; i++ {
				v.B = append(v.B, byte(' '+r.Intn(90)))
			}
		}
	case KBytes:
		n := r.Intn(10)
		if r.Intn(12) == 0 {
			n = 126 + r.Intn(5)
		}
		if g.long > 0 && r.Intn(2) == 0 {
			n = g.longLen()
		}
		v.B = make([]byte, n)
		r.Read(v.B)
	case KExtern:
		v.NBits = r.Intn(40)
		if r.Intn(12) == 0 {
			v.NBits = 120 + r.Intn(20)
		}
		if g.long > 0 && r.Intn(2) == 0 {
			v.NBits = g.longLen() + r.Intn(9)
		}
		v.B = make([]byte, (v.NBits+7)/8)
		r.Read(v.B)
		v.B = maskExtern(v)
	case KEnum:
		vals := ItemValues(t.D)
		v.SetBig(vals[r.Intn(len(vals))].I)
	case KBitmask:
		vals := ItemValues(t.D)
		b := big.NewInt(0)
		for _, x := range vals {
			if r.Intn(2) == 0 {
				b = new(big.Int).Or(b, x.I)
			}
		}
		v.SetBig(b)
	default:
		v.SetBig(g.integer(t, name, width))
	}
	return v
}

func (g *Gen) integer(t *RType, name string, width int) *big.Int {
	r := g.R
	lo, hi := t.Range(width)
	in := func(b *big.Int) bool { return b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 }
	if g.Small[name] && r.Intn(20) > 0 {
		b := big.NewInt(int64(r.Intn(9)))
		if in(b) {
			return b
		}
	}
	if g.sim != nil {
		base := g.sim[name]
		if base == nil {
			base = g.rawInt(lo, hi)
			g.sim[name] = base
		}
		d := g.sim[""]
		b := new(big.Int).Sub(base, d)
		b.Add(b, new(big.Int).Rand(r, new(big.Int).Add(new(big.Int).Lsh(d, 1), big.NewInt(1))))
		if in(b) && r.Intn(60) > 0 {
			return b
		}
	}
	if len(g.Lits) > 0 && r.Intn(3) == 0 {
		b := g.Lits[r.Intn(len(g.Lits))]
		if in(b) {
			return b
		}
	}
	return g.rawInt(lo, hi)
}

func (g *Gen) rawInt(lo, hi *big.Int) *big.Int {
	r := g.R
	one := big.NewInt(1)
	for i := 0; i < 20; i++ {
		var b *big.Int
		switch r.Intn(6) {
		case 0:
			b = big.NewInt(int64(r.Intn(20) - 5))
		case 1:
			b = lo
			if r.Intn(3) == 0 {
				b = new(big.Int).Add(lo, one)
			}
		case 2:
			b = hi
			if r.Intn(3) == 0 {
				b = new(big.Int).Sub(hi, one)
			}
		case 3:
			b = pow2(uint(r.Intn(64)))
			b = new(big.Int).Add(b, big.NewInt(int64(r.Intn(3)-1)))
			if r.Intn(2) == 0 {
				b = b.Neg(b)
			}
		default:
			span := new(big.Int).Sub(hi, lo)
			n := r.Intn(span.BitLen() + 1)
			b = new(big.Int).Rand(r, pow2(uint(n)))
			if lo.Sign() < 0 && r.Intn(2) == 0 {
				b.Neg(b)
			}
		}
		if b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
			return b
		}
	}
	return new(big.Int).Set(lo)
}

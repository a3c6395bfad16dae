package zs

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
)

// EV is the value of an expression.
type EV struct {
	K  byte // 'i' 'f' 'b' 's' 'v' (compound or array), 0 invalid
	I  *big.Int
	F  float64
	B  bool
	S  string
	V  *Val
	ET *RType // enum or bitmask type of an 'i'
	U  bool   // an 'i' of an unsigned type with more than 32 bits
}

func IntEV(b *big.Int) EV  { return EV{K: 'i', I: b} }
func FloatEV(f float64) EV { return EV{K: 'f', F: f} }
func BoolEV(b bool) EV     { return EV{K: 'b', B: b} }
func StrEV(s string) EV    { return EV{K: 's', S: s} }
func Int64EV(i int64) EV   { return IntEV(big.NewInt(i)) }
func (e EV) String() string {
	switch e.K {
	case 'i':
		return e.I.String()
	case 'f':
		return fmt.Sprint(e.F)
	case 'b':
		return fmt.Sprint(e.B)
	case 's':
		return fmt.Sprintf("%q", e.S)
	}
	return "?"
}

// Num converts to float64.
func (e EV) Num() float64 {
	if e.K == 'f' {
		return e.F
	}
	f, _ := new(big.Float).SetInt(e.I).Float64()
	return f
}

// Ctx is an evaluation context.
type Ctx struct {
	Sc    *Scope
	This  *Val // the compound whose fields and parameters are visible
	Index int  // @index, or -1
	depth int
}

// EvalErr reports an expression without a value.
type EvalErr struct{ Msg string }

func (e EvalErr) Error() string { return e.Msg }

func evalFail(format string, a ...any) { panic(EvalErr{fmt.Sprintf(format, a...)}) }

// Try evaluates and returns an error instead of panicking.
func (c *Ctx) Try(e *Expr) (v EV, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case EvalErr:
				err = x
			case perr:
				err = x.error
			default:
				panic(r)
			}
		}
	}()
	return c.Eval(e), nil
}

var (
	minI64 = new(big.Int).Neg(pow2(63))
	maxI64 = new(big.Int).Sub(pow2(63), big.NewInt(1))
	maxU64 = new(big.Int).Sub(pow2(64), big.NewInt(1))
)

// machine fails for integers that machine arithmetic does not represent, for
// which the language leaves the value of an expression open.
func machine(v EV) EV {
	if v.K != 'i' {
		return v
	}
	if v.U {
		if v.I.Sign() < 0 || v.I.Cmp(maxU64) > 0 {
			evalFail("%s is not in the range of uint64", v.I)
		}
	} else if v.I.Cmp(minI64) < 0 || v.I.Cmp(maxI64) > 0 {
		evalFail("%s is not in the range of int64", v.I)
	}
	return v
}

// wide says whether values of a type calculate as uint64.
func wide(t *RType) bool {
	switch t.Kind {
	case KUInt:
		return t.Bits > 32
	case KDynU:
		return true
	case KVar:
		return t.Name == "varuint" || t.Name == "varuint64" || t.Name == "varsize"
	case KEnum, KBitmask:
		return t.Base != nil && wide(t.Base)
	}
	return false
}

// Eval evaluates an expression; it panics with EvalErr when it has no value.
func (c *Ctx) Eval(e *Expr) EV {
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 200 {
		evalFail("recursion")
	}
	return c.eval(e)
}

func (c *Ctx) eval(e *Expr) EV {
	switch e.Op {
	case OpLit:
		return e.Lit
	case OpParen:
		return c.Eval(e.A)
	case OpIndex:
		if c.Index < 0 {
			evalFail("no @index here")
		}
		return Int64EV(int64(c.Index))
	case OpID:
		return c.ident(e.Name)
	case OpDot:
		return c.dot(e)
	case OpCall:
		return c.call(e.A)
	case OpArr:
		a := c.Eval(e.A)
		i := c.Eval(e.B)
		if a.K != 'v' || !a.V.IsArr || i.K != 'i' {
			evalFail("bad array access")
		}
		if i.I.Sign() < 0 || i.I.Cmp(big.NewInt(int64(len(a.V.A)))) >= 0 {
			evalFail("index out of range")
		}
		return c.fromVal(a.V.A[i.I.Int64()])
	case OpLengthof:
		a := c.Eval(e.A)
		if a.K == 's' {
			return Int64EV(int64(len(a.S)))
		}
		if a.K != 'v' || !a.V.IsArr {
			evalFail("lengthof of a non-array")
		}
		return Int64EV(int64(len(a.V.A)))
	case OpValueof:
		a := c.Eval(e.A)
		if a.K != 'i' {
			evalFail("valueof")
		}
		return EV{K: 'i', I: a.I, U: a.U}
	case OpNumbits:
		a := c.Eval(e.A)
		if a.K != 'i' || a.I.Sign() < 0 {
			evalFail("numbits")
		}
		return Int64EV(int64(NumBits(a.I.Uint64())))
	case OpIsset:
		a := c.Eval(e.A)
		b := c.Eval(e.B)
		if a.K != 'i' || b.K != 'i' {
			evalFail("isset")
		}
		return BoolEV(new(big.Int).And(a.I, b.I).Cmp(b.I) == 0)
	case OpUPlus:
		return c.Eval(e.A)
	case OpUMinus:
		a := c.Eval(e.A)
		if a.K == 'f' {
			return FloatEV(-a.F)
		}
		if a.U && a.I.Sign() != 0 && a.I.Cmp(pow2(63)) != 0 {
			evalFail("negative unsigned value")
		}
		return machine(IntEV(new(big.Int).Neg(a.I)))
	case OpNot:
		a := c.Eval(e.A)
		if a.K != 'b' {
			evalFail("! of non-bool")
		}
		return BoolEV(!a.B)
	case OpInv:
		a := c.Eval(e.A)
		if a.K != 'i' {
			evalFail("~ of non-int")
		}
		if a.U {
			return EV{K: 'i', I: new(big.Int).Xor(a.I, maxU64), U: true, ET: a.ET}
		}
		return machine(EV{K: 'i', I: new(big.Int).Not(a.I)})
	case OpTern:
		a := c.Eval(e.A)
		if a.K != 'b' {
			evalFail("?: condition")
		}
		if a.B {
			return c.Eval(e.B)
		}
		return c.Eval(e.C)
	case "&&":
		if !c.Eval(e.A).B {
			return BoolEV(false)
		}
		return BoolEV(c.Eval(e.B).B)
	case "||":
		if c.Eval(e.A).B {
			return BoolEV(true)
		}
		return BoolEV(c.Eval(e.B).B)
	}
	a, b := c.Eval(e.A), c.Eval(e.B)
	switch e.Op {
	case "==", "!=", "<", "<=", ">", ">=":
		return BoolEV(compare(e.Op, a, b))
	}
	if a.K == 's' && b.K == 's' && e.Op == "+" {
		return StrEV(a.S + b.S)
	}
	if (a.K == 'f' || b.K == 'f') && (a.K == 'i' || a.K == 'f') && (b.K == 'i' || b.K == 'f') {
		x, y := a.Num(), b.Num()
		switch e.Op {
		case "+":
			return FloatEV(x + y)
		case "-":
			return FloatEV(x - y)
		case "*":
			return FloatEV(x * y)
		case "/":
			return FloatEV(x / y)
		}
		evalFail("operator %s on floats", e.Op)
	}
	if a.K == 'i' && b.K == 'i' {
		shift := e.Op == "<<" || e.Op == ">>"
		if !shift && (a.U || b.U) && (a.I.Sign() < 0 || b.I.Sign() < 0) {
			evalFail("negative value in an unsigned calculation")
		}
	}
	if a.K != 'i' || b.K != 'i' {
		evalFail("operator %s on %c and %c", e.Op, a.K, b.K)
	}
	r := new(big.Int)
	switch e.Op {
	case "+":
		r.Add(a.I, b.I)
	case "-":
		r.Sub(a.I, b.I)
	case "*":
		r.Mul(a.I, b.I)
	case "/", "%":
		if b.I.Sign() == 0 {
			evalFail("division by zero")
		}
		if e.Op == "/" {
			r.Quo(a.I, b.I)
		} else {
			r.Rem(a.I, b.I)
		}
	case "<<", ">>":
		if b.I.Sign() < 0 || b.I.Cmp(big.NewInt(63)) > 0 {
			evalFail("shift by %s", b.I)
		}
		if e.Op == "<<" {
			r.Lsh(a.I, uint(b.I.Uint64()))
		} else {
			r.Rsh(a.I, uint(b.I.Uint64()))
		}
	case "&":
		r.And(a.I, b.I)
	case "|":
		r.Or(a.I, b.I)
	case "^":
		r.Xor(a.I, b.I)
	default:
		evalFail("operator %s", e.Op)
	}
	v := IntEV(r)
	v.U = a.U || b.U && e.Op != "<<" && e.Op != ">>"
	if a.ET != nil && a.ET.Kind == KBitmask {
		v.ET = a.ET
	}
	return machine(v)
}

func compare(op string, a, b EV) bool {
	var cmp int
	switch {
	case a.K == 'i' && b.K == 'i':
		cmp = a.I.Cmp(b.I)
	case a.K == 'b' && b.K == 'b':
		if op == "==" {
			return a.B == b.B
		}
		return a.B != b.B
	case a.K == 's' && b.K == 's':
		if a.S < b.S {
			cmp = -1
		} else if a.S > b.S {
			cmp = 1
		}
	case (a.K == 'i' || a.K == 'f') && (b.K == 'i' || b.K == 'f'):
		x, y := a.Num(), b.Num()
		switch op {
		case "==":
			return x == y
		case "!=":
			return x != y
		case "<":
			return x < y
		case "<=":
			return x <= y
		case ">":
			return x > y
		case ">=":
			return x >= y
		}
	default:
		evalFail("comparison of %c and %c", a.K, b.K)
	}
	switch op {
	case "==":
		return cmp == 0
	case "!=":
		return cmp != 0
	case "<":
		return cmp < 0
	case "<=":
		return cmp <= 0
	case ">":
		return cmp > 0
	}
	return cmp >= 0
}

// NumBits is the zserio numbits operator: the number of bits needed to
// distinguish v values, i.e. ceil(log2(v)), at least 1.
func NumBits(v uint64) int {
	if v == 0 {
		return 0
	}
	if v == 1 {
		return 1
	}
	return bits.Len64(v - 1)
}

// fromVal turns a value into an expression value.
func (c *Ctx) fromVal(v *Val) EV {
	if v == nil {
		evalFail("field is not set")
	}
	if v.IsArr {
		return EV{K: 'v', V: v}
	}
	switch v.T.Kind {
	case KBool:
		return BoolEV(v.N != 0)
	case KF16:
		return FloatEV(float64(F16ToF32(uint16(v.N))))
	case KF32:
		return FloatEV(float64(math.Float32frombits(uint32(v.N))))
	case KF64:
		return FloatEV(math.Float64frombits(v.N))
	case KString:
		return StrEV(string(v.B))
	case KEnum, KBitmask:
		return EV{K: 'i', I: v.Big(), ET: v.T, U: wide(v.T)}
	}
	if v.T.IsInt() {
		return EV{K: 'i', I: v.Big(), U: wide(v.T)}
	}
	return EV{K: 'v', V: v}
}

func (c *Ctx) ident(name string) EV {
	if c.This != nil {
		if p, ok := c.This.Params[name]; ok {
			return c.fromVal(p)
		}
		for _, f := range c.This.T.D.Fields {
			if f.Name == name {
				return c.fromVal(c.This.F[name])
			}
		}
	}
	d := c.Sc.Pkg.Lookup(name)
	if d == nil {
		evalFail("unknown symbol %s", name)
	}
	return c.declValue(d)
}

func (c *Ctx) declValue(d *Decl) EV {
	switch d.Kind {
	case "const":
		sc := &Scope{Pkg: d.Pkg}
		cc := &Ctx{Sc: sc, Index: -1, depth: c.depth}
		v := cc.Eval(d.Value)
		t := sc.Resolve(d.Type)
		return Coerce(v, t)
	}
	evalFail("%s is not a value", d.Name)
	return EV{}
}

// Coerce converts a value to what a variable of the type holds.
func Coerce(v EV, t *RType) EV {
	switch t.Kind {
	case KF16, KF32:
		if v.K == 'i' || v.K == 'f' {
			return FloatEV(float64(float32(v.Num())))
		}
	case KF64:
		if v.K == 'i' || v.K == 'f' {
			return FloatEV(v.Num())
		}
	case KEnum, KBitmask:
		v.ET = t
		v.U = wide(t)
	default:
		if v.K == 'i' {
			v.U = wide(t)
		}
	}
	return v
}

// DotType resolves the left side of a dot expression as a type name.
func (c *Ctx) dotType(e *Expr) *RType {
	name := dotted(e)
	if name == "" {
		return nil
	}
	if t := c.Sc.TEnv[name]; t != nil {
		return t
	}
	d := c.Sc.Pkg.Lookup(name)
	if d == nil {
		return nil
	}
	switch d.Kind {
	case "enum", "bitmask", "subtype":
		return (&Scope{Pkg: d.Pkg}).Resolve(&TypeRef{Name: d.Name})
	}
	return nil
}

func dotted(e *Expr) string {
	switch e.Op {
	case OpID:
		return e.Name
	case OpDot:
		l := dotted(e.A)
		if l == "" {
			return ""
		}
		return l + "." + e.Name
	}
	return ""
}

func (c *Ctx) isLocal(name string) bool {
	if c.This == nil {
		return false
	}
	if _, ok := c.This.Params[name]; ok {
		return true
	}
	for _, f := range c.This.T.D.Fields {
		if f.Name == name {
			return true
		}
	}
	return false
}

func (c *Ctx) dot(e *Expr) EV {
	root := e.A
	for root.Op == OpDot {
		root = root.A
	}
	if root.Op != OpID || !c.isLocal(root.Name) {
		if t := c.dotType(e.A); t != nil && (t.Kind == KEnum || t.Kind == KBitmask) {
			vals := ItemValues(t.D)
			for i, it := range t.D.Items {
				if it.Name == e.Name {
					return EV{K: 'i', I: vals[i].I, ET: t, U: wide(t)}
				}
			}
			evalFail("no item %s in %s", e.Name, t.Name)
		}
		if n := dotted(e); n != "" {
			if d := c.Sc.Pkg.Lookup(n); d != nil && d.Kind == "const" {
				return c.declValue(d)
			}
		}
	}
	a := c.Eval(e.A)
	if a.K != 'v' || a.V.IsArr || !a.V.T.IsCompound() {
		evalFail("dot on a non-compound")
	}
	if p, ok := a.V.Params[e.Name]; ok {
		return c.fromVal(p)
	}
	f, ok := a.V.F[e.Name]
	if !ok {
		evalFail("field %s not set", e.Name)
	}
	return c.fromVal(f)
}

func (c *Ctx) call(f *Expr) EV {
	var this *Val
	name := ""
	switch f.Op {
	case OpID:
		this, name = c.This, f.Name
	case OpDot:
		a := c.Eval(f.A)
		if a.K != 'v' || a.V.IsArr {
			evalFail("call on a non-compound")
		}
		this, name = a.V, f.Name
	}
	if this == nil {
		evalFail("call without object")
	}
	for _, fn := range this.T.D.Funcs {
		if fn.Name == name {
			cc := &Ctx{Sc: this.T.Sc, This: this, Index: -1, depth: c.depth}
			v := cc.Eval(fn.Body)
			t := this.T.Sc.Resolve(fn.Type)
			if v.K == 'i' && (t.IsInt() || t.Kind == KEnum || t.Kind == KBitmask) {
				lo, hi := t.Range(64)
				if v.I.Cmp(lo) < 0 || v.I.Cmp(hi) > 0 {
					evalFail("the result of %s does not fit its type", name)
				}
			}
			return Coerce(v, t)
		}
	}
	evalFail("no function %s", name)
	return EV{}
}

// ItemValues gives the values of all items of an enum or bitmask.
func ItemValues(d *Decl) []EV {
	if d.itemVals != nil {
		return d.itemVals
	}
	sc := &Scope{Pkg: d.Pkg}
	var out []EV
	next := big.NewInt(0)
	if d.Kind == "bitmask" {
		next = big.NewInt(1)
	}
	for _, it := range d.Items {
		var v *big.Int
		if it.Expr != nil {
			c := &Ctx{Sc: sc, Index: -1}
			ev := c.Eval(it.Expr)
			if ev.K != 'i' {
				evalFail("item value of %s is not an integer", it.Name)
			}
			v = ev.I
		} else {
			v = new(big.Int).Set(next)
		}
		out = append(out, IntEV(v))
		if d.Kind == "enum" {
			next = new(big.Int).Add(v, big.NewInt(1))
		} else {
			// the next free bit above everything assigned so far
			next = pow2(uint(v.BitLen()))
		}
	}
	d.itemVals = out
	return out
}

// ConstValue evaluates a constant declaration.
func ConstValue(d *Decl) EV {
	return (&Ctx{Sc: &Scope{Pkg: d.Pkg}, Index: -1}).declValue(d)
}

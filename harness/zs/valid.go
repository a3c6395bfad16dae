package zs

import "math/big"

// Decl gives a declaration of the package.
func (p *Package) Decl(name string) *Decl { return p.byName[name] }

// CallFunc gives the result of a schema function; it panics with EvalErr when
// there is none.
func CallFunc(v *Val, name string) EV {
	c := &Ctx{Sc: v.T.Sc, This: v, Index: -1}
	return c.call(&Expr{Op: OpID, Name: name})
}

// Valid tells whether a value fits its schema type.
func Valid(v *Val) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return valid(v)
}

func valid(v *Val) bool {
	t := v.T
	switch t.Kind {
	case KStruct, KUnion, KChoice:
	case KString, KBytes, KBool, KF16, KF32, KF64:
		return true
	case KExtern:
		return len(v.B) == (v.NBits+7)/8
	case KEnum:
		for _, i := range ItemValues(t.D) {
			if i.I.Cmp(v.Big()) == 0 {
				return true
			}
		}
		return false
	case KVar:
		_, ok := VarBytes(t.Name, v.Big())
		return ok
	default:
		lo, hi := t.Range(v.Width)
		return v.Big().Cmp(lo) >= 0 && v.Big().Cmp(hi) <= 0
	}
	for _, f := range t.D.Fields {
		x := v.F[f.Name]
		switch {
		case t.Kind != KStruct:
			if f.Name != v.Sel {
				continue
			}
		case f.Cond != nil && !CondHolds(v, f):
			continue
		case f.Optional && x == nil:
			continue
		}
		if x == nil {
			return false
		}
		if f.Array != nil {
			if n := ArrLen(v, f); n >= 0 && n != len(x.A) || big.NewInt(int64(len(x.A))).Cmp(pow2(31)) >= 0 {
				return false
			}
			for _, e := range x.A {
				if !valid(e) {
					return false
				}
			}
			continue
		}
		if !valid(x) {
			return false
		}
	}
	if t.Kind == KUnion && v.Sel == "" {
		return false
	}
	if t.Kind == KChoice {
		c, ok := Select(v)
		if !ok || c.Field != nil && v.F[c.Field.Name] == nil {
			return false
		}
	}
	return true
}

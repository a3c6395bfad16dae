package zs

import (
	"fmt"
	"math/big"
	"strings"
)

// Kind is the kind of a resolved type.
type Kind int

// Resolved type kinds.
const (
	KUInt Kind = iota // fixed width unsigned, Bits
	KSInt             // fixed width signed, Bits
	KDynU             // bit<expr>
	KDynS             // int<expr>
	KVar              // variable length integer, by Name
	KBool
	KF16
	KF32
	KF64
	KString
	KBytes
	KExtern
	KEnum
	KBitmask
	KStruct
	KChoice
	KUnion
)

// Scope is the lexical place in which names are looked up.
type Scope struct {
	Pkg  *Package
	TEnv map[string]*RType
}

// RType is a resolved type.
type RType struct {
	Kind Kind
	Name string
	Bits int
	Len  *Expr   // dynamic bit fields; evaluated in the using compound
	Args []*Expr // type arguments; evaluated in the using compound
	D    *Decl   // compounds, enums, bitmasks
	Sc   *Scope  // scope inside D
	Base *RType  // enum/bitmask base
	Inst string  // distinguishes template instantiations
}

// NewSet resolves a set of packages.
func NewSet(pkgs ...*Package) *Set {
	s := &Set{Pkgs: map[string]*Package{}, tcache: map[string]*RType{}}
	for _, p := range pkgs {
		if s.Pkgs[p.Name] != nil {
			fail("duplicate package %s", p.Name)
		}
		s.Pkgs[p.Name] = p
		s.Order = append(s.Order, p.Name)
		p.Set = s
	}
	return s
}

// Lookup finds a declaration by (possibly qualified) name.
func (p *Package) Lookup(name string) *Decl {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		q := p.Set.Pkgs[name[:i]]
		if q == nil {
			return nil
		}
		return q.byName[name[i+1:]]
	}
	if d := p.byName[name]; d != nil {
		return d
	}
	for _, im := range p.Imports {
		q := p.Set.Pkgs[im.Pkg]
		if q == nil {
			continue
		}
		if im.Symbol == "*" || im.Symbol == name {
			if d := q.byName[name]; d != nil {
				return d
			}
		}
	}
	return nil
}

var fixedInts = map[string]struct {
	bits   int
	signed bool
}{
	"int8": {8, true}, "int16": {16, true}, "int32": {32, true}, "int64": {64, true},
	"uint8": {8, false}, "uint16": {16, false}, "uint32": {32, false}, "uint64": {64, false},
}

// Resolve resolves a type reference in a scope.
func (sc *Scope) Resolve(t *TypeRef) *RType {
	if fi, ok := fixedInts[t.Name]; ok {
		k := KUInt
		if fi.signed {
			k = KSInt
		}
		return &RType{Kind: k, Name: t.Name, Bits: fi.bits}
	}
	switch t.Name {
	case "bit", "int":
		k, d := KUInt, KDynU
		if t.Name == "int" {
			k, d = KSInt, KDynS
		}
		if t.Bits > 0 {
			return &RType{Kind: k, Name: t.Name, Bits: t.Bits}
		}
		if t.Len != nil {
			return &RType{Kind: d, Name: t.Name, Len: t.Len}
		}
		return &RType{Kind: KSInt, Name: t.Name, Bits: 64} // parameter type "int"
	case "bool":
		return &RType{Kind: KBool, Name: t.Name}
	case "float16":
		return &RType{Kind: KF16, Name: t.Name, Bits: 16}
	case "float32":
		return &RType{Kind: KF32, Name: t.Name, Bits: 32}
	case "float64":
		return &RType{Kind: KF64, Name: t.Name, Bits: 64}
	case "string":
		return &RType{Kind: KString, Name: t.Name}
	case "bytes":
		return &RType{Kind: KBytes, Name: t.Name}
	case "extern":
		return &RType{Kind: KExtern, Name: t.Name}
	}
	if strings.HasPrefix(t.Name, "var") && Builtins[t.Name] {
		return &RType{Kind: KVar, Name: t.Name}
	}
	if sc.TEnv != nil {
		if r := sc.TEnv[t.Name]; r != nil {
			if len(t.Args) > 0 {
				c := *r
				c.Args = t.Args
				return &c
			}
			return r
		}
	}
	d := sc.Pkg.Lookup(t.Name)
	if d == nil {
		fail("unknown type %s in package %s", t.Name, sc.Pkg.Name)
	}
	r := sc.resolveDecl(d, t)
	if len(t.Args) > 0 {
		c := *r
		c.Args = t.Args
		return &c
	}
	return r
}

// Key identifies a type including template arguments.
func (r *RType) Key() string {
	if r.D != nil {
		return r.D.Pkg.Name + "." + r.D.Name + r.Inst
	}
	return fmt.Sprintf("%s:%d", r.Name, r.Bits)
}

func (sc *Scope) resolveDecl(d *Decl, t *TypeRef) *RType {
	dsc := &Scope{Pkg: d.Pkg}
	switch d.Kind {
	case "subtype", "instantiate":
		return dsc.Resolve(d.Type)
	case "enum", "bitmask":
		k := KEnum
		if d.Kind == "bitmask" {
			k = KBitmask
		}
		return &RType{Kind: k, Name: d.Name, D: d, Sc: dsc, Base: dsc.Resolve(d.Type)}
	case "struct", "choice", "union":
		k := map[string]Kind{"struct": KStruct, "choice": KChoice, "union": KUnion}[d.Kind]
		r := &RType{Kind: k, Name: d.Name, D: d, Sc: dsc}
		if len(d.TParams) > 0 {
			if len(t.TArgs) != len(d.TParams) {
				fail("template %s: wrong number of arguments", d.Name)
			}
			dsc.TEnv = map[string]*RType{}
			var keys []string
			for i, a := range t.TArgs {
				ra := sc.Resolve(a)
				dsc.TEnv[d.TParams[i]] = ra
				keys = append(keys, ra.Key())
			}
			r.Inst = "<" + strings.Join(keys, ",") + ">"
		}
		return r
	}
	fail("%s is not a type", d.Name)
	return nil
}

// TypeOf resolves a declared, non-template type of the package.
func (p *Package) TypeOf(name string) *RType {
	return (&Scope{Pkg: p}).Resolve(&TypeRef{Name: name})
}

// IsInt tells whether the type is a plain integer type.
func (r *RType) IsInt() bool {
	switch r.Kind {
	case KUInt, KSInt, KDynU, KDynS, KVar:
		return true
	}
	return false
}

// IsCompound tells whether the type has fields.
func (r *RType) IsCompound() bool {
	return r.Kind == KStruct || r.Kind == KChoice || r.Kind == KUnion
}

// Signed tells whether an integer type is signed.
func (r *RType) Signed() bool {
	switch r.Kind {
	case KSInt, KDynS:
		return true
	case KVar:
		return strings.HasPrefix(r.Name, "varint")
	case KEnum, KBitmask:
		return r.Base.Signed()
	}
	return false
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// Range returns the inclusive range of an integer type (bits is needed for dynamic ones).
func (r *RType) Range(bits int) (lo, hi *big.Int) {
	one := big.NewInt(1)
	switch r.Kind {
	case KEnum, KBitmask:
		return r.Base.Range(bits)
	case KUInt, KDynU:
		if r.Kind == KUInt {
			bits = r.Bits
		}
		return big.NewInt(0), new(big.Int).Sub(pow2(uint(bits)), one)
	case KSInt, KDynS:
		if r.Kind == KSInt {
			bits = r.Bits
		}
		h := pow2(uint(bits - 1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	case KVar:
		switch r.Name {
		case "varint16", "varint32", "varint64":
			n := map[string]uint{"varint16": 14, "varint32": 28, "varint64": 56}[r.Name]
			m := new(big.Int).Sub(pow2(n), one)
			return new(big.Int).Neg(m), m
		case "varint":
			return new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), one)
		case "varuint16", "varuint32", "varuint64", "varuint":
			n := map[string]uint{"varuint16": 15, "varuint32": 29, "varuint64": 57, "varuint": 64}[r.Name]
			return big.NewInt(0), new(big.Int).Sub(pow2(n), one)
		case "varsize":
			return big.NewInt(0), new(big.Int).Sub(pow2(31), one)
		}
	}
	fail("no range for %s", r.Name)
	return nil, nil
}

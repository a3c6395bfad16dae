package zs

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

// Meta rewrites schema sets in ways that do not change what they mean.
type Meta struct {
	R     *rand.Rand
	pkgs  []*Package
	owner map[string]*Package // every global name is unique
	n     int
	// what the constants are, before anything is rewritten
	values map[*Decl]EV
	// whether to add declarations that nothing refers to, and how many there are
	conceal bool
	Decoys  map[string]bool // by package and name
}

// NewMeta reads a schema set; false if it cannot be rewritten.
func NewMeta(files map[string]string, r *rand.Rand) (*Meta, bool) {
	m := &Meta{R: r, owner: map[string]*Package{}, values: map[*Decl]EV{}}
	var names []string
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		p, err := ParsePackage(files[f])
		if err != nil || p.Name == "" {
			return nil, false
		}
		m.pkgs = append(m.pkgs, p)
	}
	NewSet(m.pkgs...)
	for _, p := range m.pkgs {
		for _, d := range p.Decls {
			if m.owner[d.Name] != nil {
				return nil, false
			}
			m.owner[d.Name] = p
		}
	}
	for _, p := range m.pkgs {
		for _, d := range p.Decls {
			if d.Kind == "const" {
				m.constant(d)
			}
		}
	}
	ok := true
	for _, p := range m.pkgs {
		for _, d := range p.Decls {
			d.visit(func(t *TypeRef) {
				if i := strings.LastIndexByte(t.Name, '.'); i >= 0 {
					q := m.owner[t.Name[i+1:]]
					if q == nil || q.Name != t.Name[:i] {
						ok = false
						return
					}
					t.Name = t.Name[i+1:]
				}
			}, nil)
			// names must not depend on where they stand
			loc := d.locals()
			for n := range loc {
				if m.owner[n] != nil {
					ok = false
				}
			}
			for _, t := range d.TParams {
				if m.owner[t] != nil {
					ok = false
				}
			}
			d.visit(nil, func(e **Expr) {
				if (*e).Op == OpDot && m.qualified(*e) {
					ok = false
				}
			})
		}
	}
	return m, ok
}

// constant notes the value of a constant, if it has one.
func (m *Meta) constant(d *Decl) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(EvalErr); !is {
				panic(r)
			}
		}
	}()
	m.values[d] = ConstValue(d)
}

// qualified tells whether an expression begins with a package name.
func (m *Meta) qualified(e *Expr) bool {
	s := dotted(e)
	for _, p := range m.pkgs {
		if strings.HasPrefix(s, p.Name+".") {
			return true
		}
	}
	return false
}

func (d *Decl) locals() map[string]bool {
	l := map[string]bool{}
	for _, f := range d.Fields {
		l[f.Name] = true
	}
	for _, p := range d.Params {
		l[p.Name] = true
	}
	for _, f := range d.Funcs {
		l[f.Name] = true
	}
	for _, i := range d.Items {
		l[i.Name] = true
	}
	return l
}

// visit calls tf for every type reference and ef for every expression.
func (d *Decl) visit(tf func(*TypeRef), ef func(**Expr)) {
	var ex func(e **Expr)
	ex = func(e **Expr) {
		if *e == nil {
			return
		}
		ex(&(*e).A)
		ex(&(*e).B)
		ex(&(*e).C)
		if ef != nil {
			ef(e)
		}
	}
	var ty func(t *TypeRef)
	ty = func(t *TypeRef) {
		if t == nil {
			return
		}
		for _, a := range t.TArgs {
			ty(a)
		}
		if tf != nil {
			tf(t)
		}
		ex(&t.Len)
		for i := range t.Args {
			ex(&t.Args[i])
		}
	}
	ty(d.Type)
	ex(&d.Value)
	ex(&d.Sel)
	for _, p := range d.Params {
		ty(p.Type)
	}
	for _, c := range d.Cases {
		for i := range c.Labels {
			ex(&c.Labels[i])
		}
	}
	for _, f := range d.Fields {
		ty(f.Type)
		if f.Array != nil {
			ex(&f.Array.Len)
		}
		ex(&f.Init)
		ex(&f.Cond)
	}
	for _, f := range d.Funcs {
		ty(f.Type)
		ex(&f.Body)
	}
	for _, it := range d.Items {
		ex(&it.Expr)
	}
}

func (m *Meta) decl(name string) *Decl {
	if p := m.owner[name]; p != nil {
		return p.byName[name]
	}
	return nil
}

func (m *Meta) add(p *Package, d *Decl) {
	d.Pkg = p
	p.Decls = append(p.Decls, d)
	p.byName[d.Name] = d
	m.owner[d.Name] = p
}

func (m *Meta) pkg(name string) *Package {
	for _, p := range m.pkgs {
		if p.Name == name {
			return p
		}
	}
	p := &Package{Name: name, byName: map[string]*Decl{}, Set: m.pkgs[0].Set}
	p.Set.Pkgs[name] = p
	p.Set.Order = append(p.Set.Order, name)
	m.pkgs = append(m.pkgs, p)
	return p
}

// name gives a new name; some of them are similar to one there is.
func (m *Meta) name(prefix string) string {
	m.n++
	if m.R.Intn(3) == 0 {
		var all []string
		for n := range m.owner {
			all = append(all, n)
		}
		sort.Strings(all)
		n := all[m.R.Intn(len(all))]
		if m.R.Intn(2) == 0 {
			n = fmt.Sprint(n, m.n)
		} else if len(n) > 2 {
			n = n[:len(n)-1-m.R.Intn(len(n)-2)]
		}
		if m.free(nil, n) && !m.anyLocal(n) {
			return n
		}
	}
	n := fmt.Sprint(prefix, m.n)
	for i := 0; i < 100 && !m.free(nil, n); i++ {
		m.n++
		n = fmt.Sprint(prefix, m.n)
	}
	return n
}

// free tells whether a package (any if nil) can get a declaration of a name.
func (m *Meta) free(p *Package, n string) bool {
	if Keywords[n] || Builtins[n] || strings.HasPrefix(n, "_") || strings.HasSuffix(n, "_") || strings.Contains(n, "__") {
		return false
	}
	flat := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }
	for _, q := range m.pkgs {
		if p != nil && q != p {
			continue
		}
		for _, d := range q.Decls {
			if flat(d.Name) == flat(n) || (d.Kind == "enum" || d.Kind == "bitmask") && strings.HasPrefix(flat(n), flat(d.Name)) {
				return false
			}
		}
	}
	return true
}

// anyLocal tells whether something within a declaration has a name.
func (m *Meta) anyLocal(n string) bool {
	for _, p := range m.pkgs {
		for _, d := range p.Decls {
			if d.locals()[n] {
				return true
			}
			for _, t := range d.TParams {
				if t == n {
					return true
				}
			}
		}
	}
	return false
}

// each calls f for every declaration there is now.
func (m *Meta) each(f func(p *Package, d *Decl)) {
	for _, p := range append([]*Package{}, m.pkgs...) {
		for _, d := range append([]*Decl{}, p.Decls...) {
			f(p, d)
		}
	}
}

// uses gives the global names that a declaration refers to, and which of them
// occur in expressions.
func (m *Meta) uses(d *Decl) (names map[string]bool, inExpr map[string]bool) {
	names, inExpr = map[string]bool{}, map[string]bool{}
	loc := d.locals()
	for _, t := range d.TParams {
		loc[t] = true
	}
	d.visit(func(t *TypeRef) {
		if m.owner[t.Name] != nil && !loc[t.Name] {
			names[t.Name] = true
		}
	}, func(e **Expr) {
		if n := (*e).Name; (*e).Op == OpID && m.owner[n] != nil && !loc[n] {
			names[n], inExpr[n] = true, true
		}
	})
	return
}

// Subtypes replaces types by new subtypes of them.
func (m *Meta) Subtypes() {
	m.each(func(p *Package, d *Decl) {
		tp := map[string]bool{}
		for _, t := range d.TParams {
			tp[t] = true
		}
		open := func(t *TypeRef) bool { // contains template parameters
			o := false
			var w func(*TypeRef)
			w = func(t *TypeRef) {
				o = o || tp[t.Name]
				for _, a := range t.TArgs {
					w(a)
				}
			}
			w(t)
			return o
		}
		intro := func(t *TypeRef) {
			if t == nil || t.Len != nil || open(t) || m.R.Intn(2) == 0 || (t.Name == "int" || t.Name == "bit") && t.Bits == 0 {
				return
			}
			n := 1 + m.R.Intn(3)/2
			if m.R.Intn(40) == 0 {
				n = 10 + m.R.Intn(20)
			}
			for ; n > 0; n-- {
				at := p
				if Builtins[t.Name] && m.R.Intn(2) == 0 {
					at = m.pkg("meta.subs")
				}
				s := &Decl{Kind: "subtype", Name: m.name("MetaSub"), Type: &TypeRef{Name: t.Name, Bits: t.Bits, TArgs: t.TArgs}}
				m.add(at, s)
				t.Name, t.Bits, t.TArgs = s.Name, 0, nil
			}
		}
		for _, f := range d.Fields {
			intro(f.Type)
			if f.Type != nil && len(f.Type.TArgs) > 0 {
				for _, a := range f.Type.TArgs {
					intro(a)
				}
			}
		}
		for _, x := range d.Params {
			intro(x.Type)
		}
		for _, x := range d.Funcs {
			intro(x.Type)
		}
		if d.Kind == "const" {
			intro(d.Type)
		}
	})
}

// NoSubtypes replaces subtypes by what they stand for.
func (m *Meta) NoSubtypes() {
	m.each(func(p *Package, d *Decl) {
		d.visit(func(t *TypeRef) {
			for {
				s := m.decl(t.Name)
				if s == nil || s.Kind != "subtype" {
					return
				}
				t.Name, t.Bits = s.Type.Name, s.Type.Bits
				for _, a := range s.Type.TArgs {
					t.TArgs = append(t.TArgs, a.clone())
				}
			}
		}, nil)
	})
}

func (t *TypeRef) clone() *TypeRef {
	c := *t
	c.TArgs = nil
	for _, a := range t.TArgs {
		c.TArgs = append(c.TArgs, a.clone())
	}
	return &c
}

// Consts replaces literals by new constants.
func (m *Meta) Consts() {
	m.each(func(p *Package, d *Decl) {
		if d.Kind == "const" && d.Value.Op == OpLit {
			return
		}
		d.visit(nil, func(e **Expr) {
			x := *e
			if x.Op != OpLit || m.R.Intn(2) == 0 {
				return
			}
			typ := ""
			switch x.Lit.K {
			case 'i':
				typ = "int64"
				if x.Lit.I.Cmp(maxI64) > 0 {
					typ = "uint64"
				}
			case 'b':
				typ = "bool"
			case 's':
				typ = "string"
			default:
				return
			}
			at := p
			if m.R.Intn(2) == 0 {
				at = m.pkg("meta.consts")
			}
			c := &Decl{Kind: "const", Name: m.name("META_C"), Type: &TypeRef{Name: typ}, Value: x}
			m.add(at, c)
			*e = &Expr{Op: OpID, Name: c.Name}
		})
	})
}

// NoConsts replaces constants by their values.
func (m *Meta) NoConsts() {
	m.each(func(p *Package, d *Decl) {
		loc := d.locals()
		d.visit(nil, func(e **Expr) {
			x := *e
			if x.Op != OpID || loc[x.Name] {
				return
			}
			c := m.decl(x.Name)
			if c == nil || c.Kind != "const" {
				return
			}
			v, known := m.values[c]
			if !known {
				return
			}
			switch {
			case v.ET != nil:
				return
			case v.K == 'b':
				*e = &Expr{Op: OpLit, Lit: v, Text: fmt.Sprint(v.B)}
			case v.K == 'i' && v.I.Sign() >= 0:
				*e = &Expr{Op: OpLit, Lit: v, Text: v.I.String()}
			case v.K == 'i' && v.I.Cmp(new(big.Int).Neg(maxI64)) >= 0:
				n := new(big.Int).Neg(v.I)
				*e = &Expr{Op: OpParen, A: &Expr{Op: OpUMinus, A: &Expr{Op: OpLit, Lit: IntEV(n), Text: n.String()}}}
			}
		})
	})
}

// NoTemplates writes every template instantiation out.
func (m *Meta) NoTemplates() bool {
	done := map[string]string{}
	ok := true
	var expand func(p *Package, d *Decl, depth int)
	expand = func(p *Package, d *Decl, depth int) {
		if depth > 8 {
			ok = false
			return
		}
		d.visit(func(t *TypeRef) {
			if len(t.TArgs) == 0 {
				return
			}
			tm := m.decl(t.Name)
			if tm == nil || len(tm.TParams) != len(t.TArgs) {
				ok = false
				return
			}
			bare := *t
			bare.Args = nil
			key := p.Name + "/" + bare.String()
			name := done[key]
			if name == "" {
				name = m.name("MetaInst")
				done[key] = name
				src, err := ParsePackage("package x; " + tm.String())
				if err != nil {
					ok = false
					return
				}
				c := src.Decls[0]
				c.Name = name
				c.TParams = nil
				env := map[string]*TypeRef{}
				for i, n := range tm.TParams {
					env[n] = t.TArgs[i]
				}
				c.visit(func(t *TypeRef) {
					if a := env[t.Name]; a != nil {
						b := a.clone()
						t.Name, t.Bits, t.TArgs = b.Name, b.Bits, b.TArgs
					}
				}, func(e **Expr) {
					if a := env[(*e).Name]; (*e).Op == OpID && a != nil {
						*e = &Expr{Op: OpID, Name: a.Name}
					}
				})
				m.add(p, c)
				expand(p, c, depth+1)
			}
			t.Name, t.TArgs = name, nil
		}, nil)
		if d.Kind == "instantiate" {
			d.Kind = "subtype"
		}
	}
	m.each(func(p *Package, d *Decl) {
		if len(d.TParams) == 0 {
			expand(p, d, 0)
		}
	})
	return ok
}

// Templates turns compounds into instantiations of new templates.
func (m *Meta) Templates() {
	m.each(func(p *Package, d *Decl) {
		if len(d.TParams) > 0 || len(d.Fields) == 0 || m.R.Intn(2) == 0 {
			return
		}
		self, _ := m.uses(d)
		if self[d.Name] {
			return
		}
		f := d.Fields[m.R.Intn(len(d.Fields))]
		if f.Type.Len != nil || len(f.Type.Args) > 0 || (f.Type.Name == "int" || f.Type.Name == "bit") && f.Type.Bits == 0 {
			return
		}
		arg := f.Type.clone()
		f.Type = &TypeRef{Name: "METAT"}
		name := d.Name
		d.TParams = []string{"METAT"}
		d.Name = m.name("MetaTmpl")
		delete(p.byName, name)
		p.byName[d.Name] = d
		m.owner[d.Name] = p
		kind := "instantiate"
		if m.R.Intn(2) == 0 {
			kind = "subtype"
		}
		m.add(p, &Decl{Kind: kind, Name: name, Type: &TypeRef{Name: d.Name, TArgs: []*TypeRef{arg}}})
		if m.R.Intn(2) == 0 {
			// another instantiation that nothing uses
			m.add(p, &Decl{Kind: "subtype", Name: m.name("MetaOther"), Type: &TypeRef{Name: d.Name, TArgs: []*TypeRef{arg.clone()}}})
		}
	})
}

// Move puts some declarations of each package into new packages.
func (m *Meta) Move() {
	for _, p := range append([]*Package{}, m.pkgs...) {
		moved := map[string]bool{}
		var take func(d *Decl)
		take = func(d *Decl) {
			if moved[d.Name] {
				return
			}
			moved[d.Name] = true
			us, _ := m.uses(d)
			for n := range us {
				if m.owner[n] == p {
					take(p.byName[n])
				}
			}
		}
		for _, d := range p.Decls {
			if m.R.Intn(3) == 0 {
				take(d)
			}
		}
		if len(moved) == 0 {
			continue
		}
		q := m.pkg([]string{p.Name + ".moved", "moved." + p.Name, p.Name + "_moved"}[m.R.Intn(3)])
		var stay []*Decl
		for _, d := range p.Decls {
			if !moved[d.Name] {
				stay = append(stay, d)
				continue
			}
			delete(p.byName, d.Name)
			m.add(q, d)
		}
		p.Decls = stay
	}
}

// Shuffle changes the order of declarations.
func (m *Meta) Shuffle() {
	for _, p := range m.pkgs {
		m.R.Shuffle(len(p.Decls), func(i, j int) { p.Decls[i], p.Decls[j] = p.Decls[j], p.Decls[i] })
	}
}

// decoy makes a declaration that nothing refers to.
func (m *Meta) decoy(p *Package, name string) {
	var d *Decl
	lit := func(v EV, text string) *Expr { return &Expr{Op: OpLit, Lit: v, Text: text} }
	switch m.R.Intn(6) {
	case 0:
		d = &Decl{Kind: "struct", Fields: []*Field{{Name: "decoy", Type: &TypeRef{Name: "string"}}}}
	case 1:
		d = &Decl{Kind: "subtype", Type: &TypeRef{Name: "bit", Bits: 11}}
	case 2:
		d = &Decl{Kind: "const", Type: &TypeRef{Name: "string"}, Value: lit(EV{K: 's', S: "decoy"}, `"decoy"`)}
	case 3:
		d = &Decl{Kind: "const", Type: &TypeRef{Name: "bool"}, Value: lit(EV{K: 'b', B: m.R.Intn(2) == 0}, "")}
		d.Value.Text = fmt.Sprint(d.Value.Lit.B)
	default:
		v := int64(m.R.Intn(9))
		if m.R.Intn(3) == 0 {
			v = 60001
		}
		d = &Decl{Kind: "const", Type: &TypeRef{Name: "uint16"}, Value: lit(IntEV(big.NewInt(v)), fmt.Sprint(v))}
	}
	d.Name, d.Pkg = name, p
	at := m.R.Intn(len(p.Decls) + 1)
	p.Decls = append(p.Decls[:at], append([]*Decl{d}, p.Decls[at:]...)...)
	if m.Decoys == nil {
		m.Decoys = map[string]bool{}
	}
	m.Decoys[p.Name+"."+name] = true
}

// Conceal adds declarations that nothing refers to, with names that occur:
// those of fields, parameters, functions and items, which go before global
// names, and those of other packages where they are not visible.
func (m *Meta) Conceal() {
	used := map[*Package]map[string]bool{}
	wild := map[*Package][]*Package{} // who sees all of a package
	for _, p := range m.pkgs {
		used[p] = map[string]bool{}
		for _, d := range p.Decls {
			us, _ := m.uses(d)
			for n := range us {
				used[p][n] = true
			}
		}
		for _, i := range p.Imports {
			if q := p.Set.Pkgs[i.Pkg]; q != nil && i.Symbol == "*" {
				wild[q] = append(wild[q], p)
			}
		}
	}
	unused := func(q *Package, n string) bool {
		for _, p := range append([]*Package{q}, wild[q]...) {
			if used[p][n] {
				return false
			}
			for _, d := range p.Decls {
				if d.Name == n {
					return false
				}
			}
		}
		return m.free(q, n)
	}
	for _, p := range m.pkgs {
		var names []string
		for n := range used[p] {
			names = append(names, n)
		}
		sort.Strings(names)
		seesAll := map[string]bool{}
		for _, i := range p.Imports {
			seesAll[i.Pkg] = seesAll[i.Pkg] || i.Symbol == "*"
		}
		for _, i := range p.Imports {
			q := p.Set.Pkgs[i.Pkg]
			if seesAll[i.Pkg] || q == nil || len(q.Decls) == 0 {
				continue
			}
			for _, n := range names {
				if m.owner[n] != q && m.R.Intn(3) == 0 && unused(q, n) {
					m.decoy(q, n)
				}
			}
		}
		var locals []string
		tparam := map[string]bool{}
		bare := map[string]bool{}
		for _, d := range p.Decls {
			loc := d.locals()
			for n := range loc {
				locals = append(locals, n)
			}
			for _, t := range d.TParams {
				tparam[t] = true
			}
			labels := map[*Expr]bool{}
			for _, c := range d.Cases {
				for _, l := range c.Labels {
					labels[l] = true
				}
			}
			d.visit(nil, func(e **Expr) {
				if x := *e; x.Op == OpID && !loc[x.Name] && !labels[x] {
					bare[x.Name] = true
				}
			})
		}
		sort.Strings(locals)
		for _, n := range locals {
			if m.R.Intn(3) > 0 || tparam[n] || bare[n] {
				continue
			}
			q := p
			for _, i := range p.Imports {
				if i.Symbol == "*" && m.R.Intn(2) == 0 {
					q = p.Set.Pkgs[i.Pkg]
				}
			}
			ok := unused(q, n)
			for _, z := range append([]*Package{q}, wild[q]...) {
				if z == p {
					continue
				}
				for _, d := range z.Decls {
					ok = ok && !d.locals()[n]
					for _, t := range d.TParams {
						ok = ok && t != n
					}
					d.visit(nil, func(e **Expr) {
						ok = ok && !((*e).Op == OpID && (*e).Name == n)
					})
				}
			}
			if ok {
				m.decoy(q, n)
			}
		}
	}
}

// Files writes the set, with imports as they are needed.
func (m *Meta) Files() map[string]string {
	qual := map[*Package]map[string]bool{}
	for _, p := range m.pkgs {
		foreign := map[string]map[string]bool{}
		for _, d := range p.Decls {
			us, _ := m.uses(d)
			for n := range us {
				if q := m.owner[n]; q != p {
					if foreign[q.Name] == nil {
						foreign[q.Name] = map[string]bool{}
					}
					foreign[q.Name][n] = true
				}
			}
		}
		var qs []string
		for q := range foreign {
			qs = append(qs, q)
		}
		sort.Strings(qs)
		p.Imports = nil
		qual[p] = map[string]bool{}
		for _, q := range qs {
			wild := m.R.Intn(2) == 0
			if wild {
				p.Imports = append(p.Imports, Import{Pkg: q, Symbol: "*"})
			}
			var ns []string
			for n := range foreign[q] {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				if !wild || m.R.Intn(8) == 0 {
					p.Imports = append(p.Imports, Import{Pkg: q, Symbol: n})
				}
				if m.R.Intn(3) == 0 {
					qual[p][n] = true
				}
			}
		}
		m.R.Shuffle(len(p.Imports), func(i, j int) { p.Imports[i], p.Imports[j] = p.Imports[j], p.Imports[i] })
	}
	if m.conceal {
		m.Conceal()
	}
	out := map[string]string{}
	for i, p := range m.pkgs {
		if len(p.Decls) == 0 {
			continue
		}
		for _, d := range p.Decls {
			tp := map[string]bool{}
			for _, t := range d.TParams {
				tp[t] = true
			}
			d.visit(func(t *TypeRef) {
				if qual[p][t.Name] && !tp[t.Name] && m.owner[t.Name] != nil && m.R.Intn(2) == 0 {
					t.Name = m.owner[t.Name].Name + "." + t.Name
				}
			}, nil)
		}
		out[fmt.Sprintf("m%02d.zs", i)] = p.String()
	}
	return out
}

// Rewrite applies the kinds of changes given.
func (m *Meta) Rewrite(kinds ...string) (files map[string]string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(EvalErr); is {
				files, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	for _, k := range kinds {
		switch k {
		case "same":
		case "subtypes":
			m.Subtypes()
		case "nosubtypes":
			m.NoSubtypes()
		case "consts":
			m.Consts()
		case "noconsts":
			m.NoConsts()
		case "templates":
			m.Templates()
		case "notemplates":
			if !m.NoTemplates() {
				return nil, false
			}
		case "move":
			m.Move()
		case "shuffle":
			m.Shuffle()
		case "decoys":
			m.conceal = true
		}
	}
	if m.instancesMix() {
		return nil, false
	}
	return m.Files(), true
}

// instancesMix tells whether a parameter has an instance of a template as its
// type which is made in several packages: these have a type each (a limitation
// of go-zserio), and one is refused for the other.
func (m *Meta) instancesMix() bool {
	in := map[string]map[*Package]bool{}
	m.each(func(p *Package, d *Decl) {
		d.visit(func(t *TypeRef) {
			if len(t.TArgs) > 0 {
				if in[t.Name] == nil {
					in[t.Name] = map[*Package]bool{}
				}
				in[t.Name][p] = true
			}
		}, nil)
	})
	mix := false
	m.each(func(p *Package, d *Decl) {
		for _, a := range d.Params {
			t := a.Type
			for i := 0; i < 1000 && t != nil; i++ {
				if len(t.TArgs) > 0 {
					mix = mix || len(in[t.Name]) > 1
					break
				}
				q := m.owner[t.Name]
				if q == nil || q.byName[t.Name] == nil {
					break
				}
				t = q.byName[t.Name].Type
			}
		}
	})
	return mix
}

// MetaKinds are the kinds of rewriting.
var MetaKinds = []string{"same", "subtypes", "nosubtypes", "consts", "noconsts", "templates", "notemplates", "move", "shuffle", "decoys"}

// Rebind makes a value of the same content for another version of its type.
func Rebind(v *Val, t *RType) *Val {
	if v == nil {
		return nil
	}
	c := *v
	c.T = t
	if v.IsArr {
		c.A = make([]*Val, len(v.A))
		for i, e := range v.A {
			c.A[i] = Rebind(e, t)
		}
		return &c
	}
	if !t.IsCompound() {
		return &c
	}
	c.Params, c.F = map[string]*Val{}, map[string]*Val{}
	for _, p := range t.D.Params {
		if x, ok := v.Params[p.Name]; ok {
			c.Params[p.Name] = Rebind(x, t.Sc.Resolve(p.Type))
		}
	}
	for _, f := range t.D.Fields {
		if x, ok := v.F[f.Name]; ok {
			c.F[f.Name] = Rebind(x, t.Sc.Resolve(f.Type))
		}
	}
	return &c
}

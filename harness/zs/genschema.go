package zs

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// SchemaGen writes random schema sets within the part of the language that
// go-zserio documents as supported.
type SchemaGen struct {
	R     *rand.Rand
	pkgs  []*sgPkg
	n     int
	Reuse bool // names of types may be those of types of other packages
}

type sgPkg struct {
	name          string
	imports       map[string]bool // import lines
	wild          map[string]bool // packages imported by wildcard
	body          strings.Builder
	types         []*sgType
	consts        []sgSym
	tmpls         []*sgTmpl
	own, ownConst map[string]bool   // names of the types and constants of the package itself
	used          map[string]string // simple names in use, and the packages that they are from
	args          map[string]string // names that instances of templates are made of, and their packages
}

type sgType struct {
	pkg    *sgPkg
	name   string
	kind   byte // 'i' int, 'f' float, 'b' bool, 's' string, 'o' other scalar, 'e' enum, 'm' bitmask, 'c' compound
	text   string
	wide   bool // needs more than 32 bits or is of variable length
	params []*sgType
	items  []string
	syms   []sgSym // what can be referred to inside a compound
	depth  int
	fixed  bool // scalar without its own name
}

type sgTmpl struct {
	pkg   *sgPkg
	name  string
	n     int
	kind  string
	level int  // templates within
	int1  bool // the first argument has to be an integer type
	par   bool // has one uint8 parameter
}

// sgSym is something that an expression can use.
type sgSym struct {
	text string
	kind byte // as sgType, 'a' array
	wide bool
	typ  *sgType
}

func (g *SchemaGen) pick(n int) bool { return g.R.Intn(n) == 0 }

func (g *SchemaGen) id(prefix string) string {
	g.n++
	styles := []string{"%s%d", "%sOf%d", "%s_%d", "%sX%dY"}
	return fmt.Sprintf(styles[g.R.Intn(len(styles))], prefix, g.n)
}

var sgInts = []struct {
	text string
	wide bool
}{
	{"uint8", false}, {"uint16", false}, {"uint32", false}, {"uint64", true}, {"int8", false}, {"int16", false}, {"int32", false}, {"int64", true},
	{"varint16", true}, {"varint32", true}, {"varint64", true}, {"varint", true}, {"varuint16", true}, {"varuint32", true}, {"varuint64", true}, {"varuint", true}, {"varsize", true},
}

func (g *SchemaGen) intType() *sgType {
	switch g.R.Intn(5) {
	case 0:
		n := 1 + g.R.Intn(64)
		return &sgType{kind: 'i', text: fmt.Sprintf("bit:%d", n), wide: n > 32, fixed: true}
	case 1:
		n := 1 + g.R.Intn(64)
		return &sgType{kind: 'i', text: fmt.Sprintf("int:%d", n), wide: n > 32, fixed: true}
	case 2:
		return &sgType{kind: 'i', text: []string{"uint8", "bit:3", "bit:5", "uint16"}[g.R.Intn(4)], fixed: true}
	}
	t := sgInts[g.R.Intn(len(sgInts))]
	return &sgType{kind: 'i', text: t.text, wide: t.wide, fixed: true}
}

func (g *SchemaGen) scalarType() *sgType {
	switch g.R.Intn(12) {
	case 0:
		return &sgType{kind: 'b', text: "bool", fixed: true}
	case 1:
		return &sgType{kind: 's', text: "string", fixed: true}
	case 2:
		return &sgType{kind: 'f', text: []string{"float16", "float32", "float64"}[g.R.Intn(3)], fixed: true}
	case 3:
		return &sgType{kind: 'o', text: []string{"bytes", "extern"}[g.R.Intn(2)], fixed: true}
	}
	return g.intType()
}

// typeName makes up a name for a type. It may be the name of a type of another
// package, if that does not make references ambiguous.
func (g *SchemaGen) typeName(p *sgPkg, prefix string) string {
	if g.Reuse && g.pick(3) {
		var c []string
		for _, q := range g.pkgs {
			if q != p {
				for n := range q.own {
					if !p.own[n] && p.used[n] == "" && p.args[n] == "" {
						c = append(c, n)
					}
				}
			}
		}
		if len(c) > 0 {
			sort.Strings(c)
			n := c[g.R.Intn(len(c))]
			p.own[n] = true
			return n
		}
	}
	n := g.id(prefix)
	p.own[n] = true
	return n
}

var sgWords = []string{"a", "b", "c", "x", "y", "value", "count", "kind", "id", "data", "name", "len", "flags", "sel", "n", "size", "items", "mode", "range", "func", "err", "v", "w", "r"}

// localName makes up a name within a compound type.
func (g *SchemaGen) localName(names map[string]bool, prefix string) string {
	if g.pick(2) {
		n := sgWords[g.R.Intn(len(sgWords))]
		if !names[n] {
			names[n] = true
			return n
		}
	}
	return g.id(prefix)
}

// reach tells whether a package can use a name of another package: 2 by its
// simple name, 1 by its qualified name only.
func (g *SchemaGen) reach(p, owner *sgPkg, name string) int {
	if owner == p || owner == nil {
		return 2
	}
	qualified := 0
	if p.wild[owner.name] {
		qualified = 1
	}
	if p.own[name] {
		return qualified
	}
	n := 0
	for _, q := range g.pkgs {
		if p.wild[q.name] && q.own[name] {
			n++
		}
	}
	if p.used[name] != "" && p.used[name] != owner.name || n > 1 || n == 1 && !p.wild[owner.name] {
		return qualified
	}
	return 2
}

// ref makes the text by which pkg refers to a named type or constant.
func (g *SchemaGen) ref(p, owner *sgPkg, name string) string {
	if owner == p || owner == nil {
		return name
	}
	if g.reach(p, owner, name) == 1 || p.wild[owner.name] && g.pick(5) {
		return owner.name + "." + name
	}
	return g.simpleRef(p, owner, name)
}

// simpleRef is ref without package names: they are not supported in expressions.
func (g *SchemaGen) simpleRef(p, owner *sgPkg, name string) string {
	if owner != p && owner != nil {
		if g.reach(p, owner, name) != 2 {
			panic("no simple reference to " + owner.name + "." + name + " in " + p.name)
		}
		p.used[name] = owner.name
		if !p.wild[owner.name] {
			p.imports[owner.name+"."+name] = true
		}
	}
	return name
}

func (g *SchemaGen) tref(p *sgPkg, t *sgType) string {
	if t.fixed {
		return t.text
	}
	return g.ref(p, t.pkg, t.text)
}

// visible gives the types that a package can use.
func (g *SchemaGen) visible(p *sgPkg, ok func(*sgType) bool) []*sgType {
	var out []*sgType
	for _, q := range g.pkgs {
		if q != p && !p.wild[q.name] && !g.canImport(p, q) {
			continue
		}
		for _, t := range q.types {
			if n := g.reach(p, q, t.name); n > 0 && ok(t) {
				out = append(out, t)
			}
		}
	}
	return out
}

// simple tells whether the items of an enum or a bitmask can be named.
func (g *SchemaGen) simple(p *sgPkg, t *sgType) bool {
	return t != nil && len(t.items) > 0 && g.reach(p, t.pkg, t.name) == 2
}

func (g *SchemaGen) canImport(p, q *sgPkg) bool {
	for _, x := range g.pkgs {
		if x == q {
			return true
		}
		if x == p {
			return false
		}
	}
	return false
}

// ---- expressions

const sgUnary, sgPrimary = 20, 30

type sgExpr struct {
	text string
	prec int
}

func (g *SchemaGen) wrap(e sgExpr, min int) string {
	if e.prec < min || g.pick(6) && e.prec < sgPrimary {
		return "(" + e.text + ")"
	}
	return e.text
}

func (g *SchemaGen) bin(a sgExpr, op string, b sgExpr) sgExpr {
	level := 0
	for i, ops := range binLevels {
		for _, o := range ops {
			if o == op {
				level = i + 1
			}
		}
	}
	sp := " "
	if g.pick(3) {
		sp = ""
	}
	l, r := g.wrap(a, level), g.wrap(b, level+1)
	if sp == "" && (strings.HasPrefix(r, "-") || strings.HasPrefix(r, "+")) {
		sp = " "
	}
	return sgExpr{l + sp + op + sp + r, level}
}

func (g *SchemaGen) lit() sgExpr {
	n := g.R.Intn(20)
	switch g.R.Intn(8) {
	case 0:
		return sgExpr{fmt.Sprintf("0x%X", n), sgPrimary}
	case 1:
		return sgExpr{fmt.Sprintf("%bb", n), sgPrimary}
	case 2:
		if n > 0 {
			return sgExpr{fmt.Sprintf("0%o", n), sgPrimary}
		}
	case 3:
		return sgExpr{fmt.Sprint(g.R.Intn(300)), sgPrimary}
	}
	return sgExpr{fmt.Sprint(n), sgPrimary}
}

func (g *SchemaGen) sym(syms []sgSym, ok func(sgSym) bool) (sgSym, bool) {
	var c []sgSym
	for _, s := range syms {
		if ok(s) {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return sgSym{}, false
	}
	return c[g.R.Intn(len(c))], true
}

// intExpr writes an integer expression. Values of wide operands are reduced
// first, so that most expressions have a value.
func (g *SchemaGen) intExpr(p *sgPkg, syms []sgSym, depth int) sgExpr {
	if depth <= 0 || g.pick(3) {
		switch g.R.Intn(6) {
		case 0:
			return g.lit()
		case 1:
			if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'a' }); ok {
				return sgExpr{"lengthof(" + s.text + ")", sgPrimary}
			}
		case 2:
			if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'e' }); ok {
				return sgExpr{"valueof(" + s.text + ")", sgPrimary}
			}
		case 3:
			if len(p.consts) > 0 && g.pick(2) {
				s := p.consts[g.R.Intn(len(p.consts))]
				if s.kind == 'i' {
					return sgExpr{s.text, sgPrimary}
				}
			}
		}
		if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'i' }); ok {
			e := sgExpr{s.text, sgPrimary}
			if s.wide {
				return g.bin(e, "%", sgExpr{fmt.Sprint(2 + g.R.Intn(200)), sgPrimary})
			}
			return e
		}
		return g.lit()
	}
	a := g.intExpr(p, syms, depth-1)
	switch g.R.Intn(14) {
	case 0, 1, 2:
		return g.bin(a, "+", g.intExpr(p, syms, depth-1))
	case 3:
		return g.bin(a, "-", g.intExpr(p, syms, depth-1))
	case 4:
		return g.bin(a, "*", g.intExpr(p, syms, depth-1))
	case 5:
		return g.bin(a, "/", sgExpr{fmt.Sprint(1 + g.R.Intn(9)), sgPrimary})
	case 6:
		return g.bin(a, "%", sgExpr{fmt.Sprint(1 + g.R.Intn(30)), sgPrimary})
	case 7:
		return g.bin(a, "<<", sgExpr{fmt.Sprint(g.R.Intn(6)), sgPrimary})
	case 8:
		return g.bin(a, ">>", sgExpr{fmt.Sprint(g.R.Intn(6)), sgPrimary})
	case 9:
		return g.bin(a, "&", g.intExpr(p, syms, depth-1))
	case 10:
		return g.bin(a, "|", g.intExpr(p, syms, depth-1))
	case 11:
		return g.bin(a, "^", g.intExpr(p, syms, depth-1))
	case 12:
		return sgExpr{"numbits(" + g.bin(a, "&", sgExpr{"255", sgPrimary}).text + ")", sgPrimary}
	default:
		return sgExpr{[]string{"-", "~", "+"}[g.R.Intn(3)] + g.wrap(a, sgPrimary), sgUnary}
	}
}

// small is an integer expression with a value from 0 up to a few.
func (g *SchemaGen) small(p *sgPkg, syms []sgSym, max int) sgExpr {
	e := g.intExpr(p, syms, 2)
	if max == 7 && g.pick(2) {
		return g.bin(e, "&", sgExpr{[]string{"3", "7", "5"}[g.R.Intn(3)], sgPrimary})
	}
	// negative remainders are made positive by squaring
	return g.bin(g.bin(g.bin(e, "&", sgExpr{"1023", sgPrimary}), "%", sgExpr{fmt.Sprint(max), sgPrimary}), "+", sgExpr{"1", sgPrimary})
}

func (g *SchemaGen) boolExpr(p *sgPkg, syms []sgSym, depth int) sgExpr {
	switch g.R.Intn(12) {
	case 6:
		if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 's' }); ok {
			return g.bin(sgExpr{s.text, sgPrimary}, []string{"==", "!="}[g.R.Intn(2)], sgExpr{[]string{`""`, `"text"`, `"a" + "b"`}[g.R.Intn(3)], sgPrimary})
		}
	case 7:
		if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'f' }); ok {
			return g.bin(sgExpr{s.text, sgPrimary}, []string{"<", "<=", ">", ">=", "==", "!="}[g.R.Intn(6)], sgExpr{[]string{"0.0", "1.5", "100.0", "0.25"}[g.R.Intn(4)], sgPrimary})
		}
	case 8:
		if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'i' && s.wide }); ok {
			return g.bin(sgExpr{s.text, sgPrimary}, []string{"<", "<=", ">", ">=", "==", "!="}[g.R.Intn(6)], sgExpr{[]string{"0", "127", "1 << 20", "0x7FFFFFFF"}[g.R.Intn(4)], sgPrimary})
		}
	case 0:
		if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'b' }); ok {
			return sgExpr{s.text, sgPrimary}
		}
	case 1:
		if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'e' && g.simple(p, s.typ) }); ok {
			return g.bin(sgExpr{s.text, sgPrimary}, []string{"==", "!="}[g.R.Intn(2)], sgExpr{g.itemRef(p, s.typ), sgPrimary})
		}
	case 2:
		if s, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'm' && g.simple(p, s.typ) }); ok {
			return sgExpr{"isset(" + s.text + ", " + g.itemRef(p, s.typ) + ")", sgPrimary}
		}
	case 3:
		if depth > 0 {
			return g.bin(g.boolExpr(p, syms, depth-1), "&&", g.boolExpr(p, syms, depth-1))
		}
	case 4:
		if depth > 0 {
			return g.bin(g.boolExpr(p, syms, depth-1), "||", g.boolExpr(p, syms, depth-1))
		}
	case 5:
		if depth > 0 {
			return sgExpr{"!" + g.wrap(g.boolExpr(p, syms, depth-1), sgPrimary), sgUnary}
		}
	}
	op := []string{"<", "<=", ">", ">=", "==", "!="}[g.R.Intn(6)]
	return g.bin(g.intExpr(p, syms, 1), op, g.intExpr(p, syms, 1))
}

func (g *SchemaGen) itemRef(p *sgPkg, t *sgType) string {
	return g.simpleRef(p, t.pkg, t.name) + "." + t.items[g.R.Intn(len(t.items))]
}

// ---- declarations

func (g *SchemaGen) constDecl(p *sgPkg) {
	name := g.id([]string{"MAX_", "LIMIT", "kValue", "someConst"}[g.R.Intn(4)])
	var syms []sgSym
	switch g.R.Intn(6) {
	case 0:
		fmt.Fprintf(&p.body, "const bool %s = %s;\n", name, g.boolExpr(p, nil, 2).text)
		p.ownConst[name] = true
		p.consts = append(p.consts, sgSym{text: name, kind: 'b'})
	case 1:
		fmt.Fprintf(&p.body, "const string %s = %q;\n", name, []string{"", "text", "a b", "x%d"}[g.R.Intn(4)])
	case 2:
		fmt.Fprintf(&p.body, "const %s %s = %s;\n", []string{"float32", "float64", "float16"}[g.R.Intn(3)], name, []string{"0.5", "1.25", "3.0", "100.0", "-2.5"}[g.R.Intn(5)])
	default:
		fmt.Fprintf(&p.body, "const int64 %s = %s;\n", name, g.intExpr(p, syms, 3).text)
		p.ownConst[name] = true
		p.consts = append(p.consts, sgSym{text: name, kind: 'i'})
	}
}

func (g *SchemaGen) enumDecl(p *sgPkg) {
	bases := []string{"uint8", "bit:3", "bit:7", "uint16", "int8", "int16", "int:5", "uint32", "int32", "varuint16", "varint32", "int64", "bit:40", "varuint"}
	base := bases[g.R.Intn(len(bases))]
	signed := strings.HasPrefix(base, "int") || strings.HasPrefix(base, "varint")
	t := &sgType{pkg: p, name: g.typeName(p, "Enum"), kind: 'e'}
	t.text = t.name
	n := 1 + g.R.Intn(6)
	var parts []string
	next := 0
	for i := 0; i < n; i++ {
		item := []string{"RED", "DARK_BLUE", "lowerItem", "X1", "NONE", "Mixed", "LAST"}[i%7]
		if g.pick(3) && next < 7 {
			v := next + g.R.Intn(2)
			if signed && i == 0 && g.pick(2) {
				v = -3
			}
			next = v + 1
			switch {
			case v < 0:
				parts = append(parts, fmt.Sprintf("%s = %d", item, v))
			case g.pick(2):
				parts = append(parts, fmt.Sprintf("%s = %d + 0", item, v))
			default:
				parts = append(parts, fmt.Sprintf("%s = 0x%x", item, v))
			}
		} else {
			if next > 7 {
				break
			}
			next++
			parts = append(parts, item)
		}
		t.items = append(t.items, item)
	}
	fmt.Fprintf(&p.body, "enum %s %s { %s };\n", base, t.name, strings.Join(parts, ", "))
	p.types = append(p.types, t)
}

func (g *SchemaGen) bitmaskDecl(p *sgPkg) {
	bases := []string{"uint8", "bit:6", "uint16", "uint32", "varuint32", "uint64", "bit:33"}
	t := &sgType{pkg: p, name: g.typeName(p, "Mask"), kind: 'm'}
	t.text = t.name
	n := 1 + g.R.Intn(5)
	var parts []string
	for i := 0; i < n; i++ {
		item := []string{"READ", "WRITE", "EXEC_ALL", "flag", "Z"}[i]
		t.items = append(t.items, item)
		parts = append(parts, item)
	}
	if g.pick(3) {
		parts[0] += " = 1"
	}
	fmt.Fprintf(&p.body, "bitmask %s %s { %s };\n", bases[g.R.Intn(len(bases))], t.name, strings.Join(parts, ", "))
	p.types = append(p.types, t)
}

func (g *SchemaGen) subtypeDecl(p *sgPkg) {
	var base *sgType
	if c := g.visible(p, func(t *sgType) bool { return len(t.params) == 0 && t.depth < 3 }); len(c) > 0 && g.pick(2) {
		base = c[g.R.Intn(len(c))]
	} else {
		base = g.scalarType()
	}
	t := *base
	t.pkg, t.name, t.fixed = p, g.id("Sub"), false
	if base.kind == 'e' || base.kind == 'm' {
		t.items = nil // items are reached through the enum's own name
	}
	fmt.Fprintf(&p.body, "subtype %s %s;\n", g.tref(p, base), t.name)
	t.text = t.name
	p.types = append(p.types, &t)
}

// fieldType picks a type for a field; args is the text of its arguments.
func (g *SchemaGen) fieldType(p *sgPkg, syms []sgSym, inArray bool) (text string, t *sgType) {
	r := g.R.Intn(10)
	switch {
	case r < 4:
		t = g.scalarType()
		return t.text, t
	case r == 4:
		if g.pick(2) {
			e := g.small(p, syms, []int{8, 20, 32, 60}[g.R.Intn(4)])
			s := e.text
			if strings.ContainsAny(s, "<>") || g.pick(3) {
				s = "(" + s + ")"
			}
			return []string{"bit", "int"}[g.R.Intn(2)] + "<" + s + ">", &sgType{kind: 'i', wide: true, fixed: true}
		}
		t = g.intType()
		return t.text, t
	case r == 5:
		if text, t = g.template(p, syms); t != nil {
			return text, t
		}
	}
	c := g.visible(p, func(t *sgType) bool {
		if t.depth >= 3 {
			return false
		}
		for _, pt := range t.params {
			if _, ok := g.argument(p, syms, pt, false); !ok {
				return false
			}
		}
		return true
	})
	if len(c) == 0 {
		t = g.scalarType()
		return t.text, t
	}
	t = c[g.R.Intn(len(c))]
	text = g.tref(p, t)
	if len(t.params) > 0 {
		var args []string
		for _, pt := range t.params {
			a, _ := g.argument(p, syms, pt, inArray)
			args = append(args, a)
		}
		text += "(" + strings.Join(args, ", ") + ")"
	}
	return text, t
}

// argument writes an argument for a parameter of type pt.
func (g *SchemaGen) argument(p *sgPkg, syms []sgSym, pt *sgType, inArray bool) (string, bool) {
	switch pt.kind {
	case 'i':
		if inArray && g.pick(3) {
			return "@index", true
		}
		mask := 127 // what fits the type
		if n, err := strconv.Atoi(strings.TrimPrefix(pt.text, "bit:")); err == nil && n < 7 {
			mask = 1<<n - 1
		}
		if n, err := strconv.Atoi(strings.TrimPrefix(pt.text, "int:")); err == nil && n < 8 {
			mask = 1<<(n-1) - 1
		}
		return g.bin(g.intExpr(p, syms, 1), "&", sgExpr{strconv.Itoa(mask), sgPrimary}).text, true
	case 'b':
		return g.boolExpr(p, syms, 1).text, true
	}
	s, ok := g.sym(syms, func(s sgSym) bool {
		return s.kind == pt.kind && s.typ != nil && s.typ.pkg == pt.pkg && s.typ.name == pt.name
	})
	if !ok && pt.kind == 'e' && g.simple(p, pt) {
		return g.itemRef(p, pt), true
	}
	return s.text, ok
}

func (g *SchemaGen) templateArg(p *sgPkg, intOnly bool) string {
	if intOnly {
		return []string{"uint8", "bit:4", "uint16", "bit:7"}[g.R.Intn(4)]
	}
	if c := g.visible(p, func(t *sgType) bool { return len(t.params) == 0 && t.depth < 2 }); len(c) > 0 && g.pick(2) {
		t := c[g.R.Intn(len(c))]
		if p.args[t.name] == "" || p.args[t.name] == t.pkg.name {
			p.args[t.name] = t.pkg.name
			return g.tref(p, t)
		}
	}
	return g.scalarType().text
}

func (g *SchemaGen) template(p *sgPkg, syms []sgSym) (string, *sgType) {
	var c []*sgTmpl
	for _, q := range g.pkgs {
		if q == p || g.canImport(p, q) {
			for _, t := range q.tmpls {
				if g.reach(p, q, t.name) > 0 && (p.args[t.name] == "" || p.args[t.name] == q.name) {
					c = append(c, t)
				}
			}
		}
	}
	if len(c) == 0 {
		return "", nil
	}
	t := c[g.R.Intn(len(c))]
	p.args[t.name] = t.pkg.name
	text := g.ref(p, t.pkg, t.name) + "<"
	for i := 0; i < t.n; i++ {
		if i > 0 {
			text += ", "
		}
		text += g.templateArg(p, i == 0 && t.int1)
	}
	text += ">"
	if t.par {
		a, _ := g.argument(p, syms, &sgType{kind: 'i'}, false)
		text += "(" + a + ")"
	}
	return text, &sgType{kind: 'c', depth: 2, fixed: true, text: text}
}

// templateDecl declares a generic compound.
func (g *SchemaGen) templateDecl(p *sgPkg) {
	t := &sgTmpl{pkg: p, name: g.typeName(p, "Tmpl"), n: 1 + g.R.Intn(2), kind: "struct"}
	tp := []string{"T", "U_T"}[:t.n]
	last := tp[t.n-1]
	head := "<" + strings.Join(tp, ", ") + ">"
	// what a template can use of its own package
	limit := "3"
	if len(p.consts) > 0 {
		if c := p.consts[g.R.Intn(len(p.consts))]; c.kind == 'i' {
			limit = c.text
		}
	}
	extra := func() string {
		var b strings.Builder
		if c := g.visible(p, func(t *sgType) bool { return t.kind == 'e' && g.simple(p, t) }); len(c) > 0 && g.pick(2) {
			e := c[g.R.Intn(len(c))]
			fmt.Fprintf(&b, " %s ee; bit:2 ec if ee == %s;", g.tref(p, e), g.itemRef(p, e))
		}
		if c := g.visible(p, func(t *sgType) bool { return len(t.params) == 0 && t.depth < 2 }); len(c) > 0 && g.pick(3) {
			fmt.Fprintf(&b, " %s ex;", g.tref(p, c[g.R.Intn(len(c))]))
		}
		return b.String()
	}
	switch g.R.Intn(7) {
	case 0:
		t.int1 = true
		fmt.Fprintf(&p.body, "struct %s%s { T n; uint8 a[n & 7]; %s v; bit:3 c if n > %s;%s function int64 twice() { return n * 2 + (%s & 15); } };\n", t.name, head, last, limit, extra(), limit)
	case 1:
		t.par = true
		fmt.Fprintf(&p.body, "choice %s%s(uint8 s) on s { case 1: case 4: T a; case 2: %s b[]; default: bool c; };\n", t.name, head, last)
	case 2:
		fmt.Fprintf(&p.body, "union %s%s { T a; %s b; T arr[]; };\n", t.name, head, last)
	case 3:
		t.par = true
		fmt.Fprintf(&p.body, "struct %s%s(uint8 s) { T v if s < (%s & 63); %s arr[s & 3]; packed T p[]; function bool big() { return s > 9; } };\n", t.name, head, limit, last)
	case 4:
		t.par, t.int1 = true, true
		fmt.Fprintf(&p.body, "union %s%s(uint8 s) { T a; bit<(s & 7) + 1> b; %s c[s & 1]; };\n", t.name, head, last)
	case 5:
		var inner *sgTmpl
		for _, i := range p.tmpls {
			if !i.int1 && i.n == 1 && i.level < 2 {
				inner = i
			}
		}
		if inner == nil {
			fmt.Fprintf(&p.body, "struct %s%s { T v; align(8): %s w;%s };\n", t.name, head, last, extra())
			break
		}
		t.level = inner.level + 1
		arg := ""
		if inner.par {
			arg = "(k & 7)"
		}
		fmt.Fprintf(&p.body, "struct %s%s { uint8 k; %s<%s>%s in1; %s<T>%s in2[2]; };\n", t.name, head, inner.name, last, arg, inner.name, arg)
	default:
		fmt.Fprintf(&p.body, "struct %s%s { T v; optional %s o; T arr[]; packed %s p[];%s };\n", t.name, head, last, tp[0], extra())
	}
	p.tmpls = append(p.tmpls, t)
}

// instantiateDecl names an instance of a template.
func (g *SchemaGen) instantiateDecl(p *sgPkg) {
	text, t := g.template(p, nil)
	if t == nil || strings.HasSuffix(text, ")") {
		return
	}
	n := &sgType{pkg: p, name: g.id("Inst"), kind: 'c', depth: 2}
	n.text = n.name
	p.own[n.name] = true
	fmt.Fprintf(&p.body, "%s %s %s;\n", []string{"instantiate", "subtype"}[g.R.Intn(2)], text, n.name)
	p.types = append(p.types, n)
}

func (g *SchemaGen) array(p *sgPkg, syms []sgSym) (packed, suffix string) {
	if g.pick(2) {
		packed = "packed "
	}
	if g.pick(2) {
		return packed, "[]"
	}
	if g.pick(3) {
		return packed, fmt.Sprintf("[%d]", g.R.Intn(6))
	}
	return packed, "[" + g.small(p, syms, 7).text + "]"
}

func (g *SchemaGen) paramList(p *sgPkg, t *sgType, names map[string]bool) (string, []sgSym) {
	if !g.pick(3) {
		return "", nil
	}
	var parts []string
	var syms []sgSym
	for i := 0; i < 1+g.R.Intn(2); i++ {
		var pt *sgType
		switch g.R.Intn(4) {
		case 0:
			pt = &sgType{kind: 'b', text: "bool", fixed: true}
		case 1:
			if c := g.visible(p, func(t *sgType) bool { return t.kind == 'e' && len(t.items) > 0 }); len(c) > 0 {
				pt = c[g.R.Intn(len(c))]
			}
		case 2:
			if c := g.visible(p, func(t *sgType) bool { return t.kind == 'c' && len(t.params) == 0 && len(t.syms) > 0 }); len(c) > 0 {
				pt = c[g.R.Intn(len(c))]
			}
		}
		if pt == nil {
			pt = &sgType{kind: 'i', text: []string{"uint8", "uint16", "int32", "uint32"}[g.R.Intn(4)], fixed: true}
		}
		name := g.localName(names, "par")
		parts = append(parts, g.tref(p, pt)+" "+name)
		t.params = append(t.params, pt)
		syms = append(syms, g.inner(name, pt)...)
	}
	return "(" + strings.Join(parts, ", ") + ")", syms
}

// inner lists what can be said about a field or parameter of a type.
func (g *SchemaGen) inner(name string, t *sgType) []sgSym {
	out := []sgSym{{text: name, kind: t.kind, wide: t.wide, typ: t}}
	if t.kind == 'c' {
		for _, s := range t.syms {
			if strings.Count(s.text, ".") < 2 {
				s.text = name + "." + s.text
				out = append(out, s)
			}
		}
	}
	return out
}

// initial writes an initial value for a field of a type.
func (g *SchemaGen) initial(p *sgPkg, t *sgType) string {
	switch {
	case t.kind == 'b':
		return " = " + []string{"true", "false", "1 < 2", "!(true && false)"}[g.R.Intn(4)]
	case t.kind == 's':
		return " = " + []string{`""`, `"text"`, `"with \"quotes\""`, `"a" + "b"`, `"a\r\nb\tc\f"`, "\"raw ` and \\r\"", `"ü→😀\u00e9\xff\0101"`, `"100%d {{.}} \\n"`}[g.R.Intn(8)]
	case t.kind == 'f':
		return " = " + []string{"0.0", "1.5", "-2.25", "1.0 / 4.0"}[g.R.Intn(4)]
	case t.kind == 'e' && g.simple(p, t):
		return " = " + g.itemRef(p, t)
	case t.kind == 'i' && t.fixed && t.text != "":
		if t.text == "int:1" {
			return " = 0"
		}
		return " = " + []string{"0", "1"}[g.R.Intn(2)] // within any width of an unsigned field
	}
	return ""
}

func (g *SchemaGen) structDecl(p *sgPkg) {
	t := &sgType{pkg: p, name: g.typeName(p, "Struct"), kind: 'c'}
	t.text = t.name
	names := map[string]bool{}
	params, syms := g.paramList(p, t, names)
	var b strings.Builder
	n := 1 + g.R.Intn(7)
	if g.pick(12) {
		n = 0
	}
	own := []sgSym{}
	for i := 0; i < n; i++ {
		name := g.localName(names, "field")
		arr := g.pick(3)
		text, ft := g.fieldType(p, syms, arr)
		t.depth = max(t.depth, ft.depth+1)
		line := ""
		if g.pick(12) {
			line += fmt.Sprintf("align(%d): ", []int{1, 2, 4, 8, 16, 3, 32}[g.R.Intn(7)])
		}
		opt := g.pick(6)
		if opt {
			line += "optional "
		}
		if arr {
			pk, suf := g.array(p, syms)
			line += pk + text + " " + name + suf
		} else {
			line += text + " " + name
			if g.pick(6) {
				line += g.initial(p, ft)
			}
		}
		cond := !opt && g.pick(5)
		if cond {
			line += " if " + g.boolExpr(p, syms, 2).text
		}
		b.WriteString("    " + line + ";\n")
		if opt || cond {
			continue
		}
		var ns []sgSym
		if arr {
			ns = []sgSym{{text: name, kind: 'a'}}
		} else {
			ns = g.inner(name, ft)
		}
		syms = append(syms, ns...)
		own = append(own, ns...)
	}
	own = append(own, g.functions(p, syms, names, &b)...)
	t.syms = own
	fmt.Fprintf(&p.body, "struct %s%s {\n%s};\n", t.name, params, b.String())
	p.types = append(p.types, t)
}

// functions declares functions of a compound type.
func (g *SchemaGen) functions(p *sgPkg, syms []sgSym, names map[string]bool, b *strings.Builder) (own []sgSym) {
	for i := 0; i < g.R.Intn(4); i++ {
		name := g.localName(names, "fun")
		s := sgSym{text: name + "()"}
		typ, result := "", ""
		switch g.R.Intn(8) {
		case 0, 1:
			s.kind, typ, result = 'b', "bool", g.boolExpr(p, syms, 2).text
		case 2:
			e, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'e' && g.simple(p, s.typ) && s.typ.pkg != nil })
			if !ok {
				continue
			}
			s.kind, s.typ, typ, result = 'e', e.typ, g.tref(p, e.typ), e.text
			if g.pick(3) {
				result = g.boolExpr(p, syms, 1).text
				result = "(" + result + ") ? " + g.itemRef(p, e.typ) + " : " + e.text
			}
		case 3:
			e, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 's' })
			if !ok {
				continue
			}
			s.kind, typ, result = 's', "string", e.text
		case 4:
			e, ok := g.sym(syms, func(s sgSym) bool { return s.kind == 'f' })
			if !ok {
				continue
			}
			s.kind, typ, result = 'f', "float64", e.text+[]string{"", " * 2.0", " + 0.5", " - 1.25"}[g.R.Intn(4)]
		case 5:
			s.kind, typ, result = 'i', "uint8", g.bin(g.intExpr(p, syms, 2), "&", sgExpr{"63", sgPrimary}).text
		default:
			e := g.intExpr(p, syms, 2)
			if g.pick(3) {
				e = sgExpr{g.wrap(g.boolExpr(p, syms, 1), sgPrimary) + " ? " + e.text + " : " + g.intExpr(p, syms, 1).text, 0}
			}
			s.kind, s.wide, typ, result = 'i', true, "int64", e.text
		}
		fmt.Fprintf(b, "    function %s %s() { return %s; }\n", typ, name, result)
		own = append(own, s)
		if g.pick(2) {
			syms = append(syms, s) // functions can use each other
		}
	}
	return own
}

func (g *SchemaGen) unionDecl(p *sgPkg) {
	t := &sgType{pkg: p, name: g.typeName(p, "Union"), kind: 'c'}
	t.text = t.name
	names := map[string]bool{}
	params, syms := g.paramList(p, t, names)
	var b strings.Builder
	for i := 0; i < 1+g.R.Intn(5); i++ {
		arr := g.pick(4)
		text, ft := g.fieldType(p, syms, arr)
		t.depth = max(t.depth, ft.depth+1)
		if arr {
			pk, suf := g.array(p, syms)
			fmt.Fprintf(&b, "    %s%s %s%s;\n", pk, text, g.localName(names, "alt"), suf)
		} else {
			fmt.Fprintf(&b, "    %s %s;\n", text, g.localName(names, "alt"))
		}
	}
	if len(syms) > 0 {
		t.syms = g.functions(p, syms, names, &b)
	}
	fmt.Fprintf(&p.body, "union %s%s {\n%s};\n", t.name, params, b.String())
	p.types = append(p.types, t)
}

func (g *SchemaGen) choiceDecl(p *sgPkg) {
	t := &sgType{pkg: p, name: g.typeName(p, "Choice"), kind: 'c'}
	t.text = t.name
	var pt *sgType
	var labels []string
	names := map[string]bool{}
	sel := g.localName(names, "sel")
	on := sel
	switch g.R.Intn(4) {
	case 0:
		pt = &sgType{kind: 'b', text: "bool", fixed: true}
		labels = []string{"true", "false"}
	case 1:
		if c := g.visible(p, func(t *sgType) bool { return t.kind == 'e' && len(t.items) > 0 && !t.fixed }); len(c) > 0 {
			pt = c[g.R.Intn(len(c))]
			q := g.pick(2) && g.simple(p, pt)
			for _, it := range pt.items {
				if q {
					it = g.simpleRef(p, pt.pkg, pt.name) + "." + it
				}
				labels = append(labels, it)
			}
		}
	}
	if pt == nil {
		pt = &sgType{kind: 'i', text: []string{"uint8", "uint16", "int32", "bit:4"}[g.R.Intn(4)], fixed: true}
		for i := 0; i < 6; i++ {
			labels = append(labels, fmt.Sprint(i))
		}
		if g.pick(3) {
			on = g.bin(sgExpr{sel, sgPrimary}, "%", sgExpr{"6", sgPrimary}).text
		}
		if pt.text != "bit:4" && g.pick(3) && on == sel {
			labels = append(labels, "1 + 99")
		}
	}
	g.R.Shuffle(len(labels), func(i, j int) { labels[i], labels[j] = labels[j], labels[i] })
	if pt.kind == 'i' && len(labels) > 3 {
		labels = labels[:2+g.R.Intn(len(labels)-2)]
	}
	syms := []sgSym{{text: sel, kind: pt.kind, typ: pt}}
	var b strings.Builder
	for len(labels) > 0 {
		k := 1
		if len(labels) > 1 && g.pick(3) {
			k = 2
		}
		b.WriteString("   ")
		for _, l := range labels[:k] {
			b.WriteString(" case " + l + ":")
		}
		labels = labels[k:]
		g.choiceField(p, t, syms, names, &b)
	}
	if pt.kind != 'b' && g.pick(2) {
		b.WriteString("    default:")
		g.choiceField(p, t, syms, names, &b)
	}
	t.params = []*sgType{pt}
	if g.pick(3) {
		t.syms = g.functions(p, syms, names, &b)
	}
	fmt.Fprintf(&p.body, "choice %s(%s %s) on %s {\n%s};\n", t.name, g.tref(p, pt), sel, on, b.String())
	p.types = append(p.types, t)
}

func (g *SchemaGen) choiceField(p *sgPkg, t *sgType, syms []sgSym, names map[string]bool, b *strings.Builder) {
	if g.pick(6) {
		b.WriteString(" ;\n")
		return
	}
	arr := g.pick(4)
	text, ft := g.fieldType(p, syms, arr)
	t.depth = max(t.depth, ft.depth+1)
	if arr {
		pk, suf := g.array(p, syms)
		fmt.Fprintf(b, " %s%s %s%s;\n", pk, text, g.localName(names, "alt"), suf)
	} else {
		fmt.Fprintf(b, " %s %s;\n", text, g.localName(names, "alt"))
	}
}

// Generate writes a set of packages: file name to source.
func (g *SchemaGen) Generate(npkg, ndecl int) map[string]string {
	words := []string{"alpha", "beta", "gamma", "delta", "omega", "maps", "tile", "core"}
	g.R.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
	out := map[string]string{}
	for i := 0; i < npkg; i++ {
		name := words[i]
		if g.pick(2) {
			name = words[(i+3)%len(words)] + "." + name
		}
		p := &sgPkg{name: name, imports: map[string]bool{}, wild: map[string]bool{}, own: map[string]bool{}, ownConst: map[string]bool{}, used: map[string]string{}, args: map[string]string{}}
		for _, q := range g.pkgs {
			if g.pick(2) {
				p.wild[q.name] = true
				// constants come along
				for _, c := range q.consts {
					if q.ownConst[c.text] {
						p.consts = append(p.consts, c)
					}
				}
			}
		}
		g.pkgs = append(g.pkgs, p)
		for j := 0; j < ndecl; j++ {
			switch g.R.Intn(16) {
			case 0:
				g.constDecl(p)
			case 1, 2:
				g.enumDecl(p)
			case 3:
				g.bitmaskDecl(p)
			case 4:
				g.subtypeDecl(p)
			case 5:
				g.templateDecl(p)
				if g.pick(2) {
					g.instantiateDecl(p)
				}
			case 6, 7:
				g.unionDecl(p)
			case 8, 9:
				g.choiceDecl(p)
			default:
				g.structDecl(p)
			}
		}
	}
	for _, p := range g.pkgs {
		var lines []string
		for q := range p.wild {
			lines = append(lines, "import "+q+".*;\n")
		}
		for s := range p.imports {
			lines = append(lines, "import "+s+";\n")
		}
		sort.Strings(lines)
		out[strings.ReplaceAll(p.name, ".", "/")+".zs"] = "package " + p.name + ";\n" + strings.Join(lines, "") + p.body.String()
	}
	return out
}

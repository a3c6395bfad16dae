package zs

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

type tok struct {
	k string // "id","int","float","str","op","eof"
	s string
	p int
	v EV
}

type parser struct {
	toks []tok
	i    int
}

type perr struct{ error }

func fail(format string, a ...any) { panic(perr{fmt.Errorf(format, a...)}) }

func isIDStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// Lex splits a source text into tokens; it is also used by the mutators.
func lex(src string) []tok {
	var out []tok
	i := 0
	n := len(src)
	for i < n {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < n && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				fail("unterminated comment")
			}
			i += j + 4
		case isIDStart(c) || c == '@':
			j := i + 1
			for j < n && (isIDStart(src[j]) || isDigit(src[j])) {
				j++
			}
			out = append(out, tok{k: "id", s: src[i:j], p: i})
			i = j
		case isDigit(c) || c == '.' && i+1 < n && isDigit(src[i+1]):
			j := i
			if c == '0' && i+1 < n && (src[i+1] == 'x' || src[i+1] == 'X') {
				j = i + 2
				for j < n && strings.IndexByte("0123456789abcdefABCDEF", src[j]) >= 0 {
					j++
				}
				b, ok := new(big.Int).SetString(src[i+2:j], 16)
				if !ok {
					fail("bad hex literal %q", src[i:j])
				}
				out = append(out, tok{k: "int", s: src[i:j], p: i, v: EV{K: 'i', I: b, U: b.Cmp(maxI64) > 0}})
				i = j
				continue
			}
			for j < n && isDigit(src[j]) {
				j++
			}
			isF := false
			if j < n && (src[j] == 'b' || src[j] == 'B') {
				b, ok := new(big.Int).SetString(src[i:j], 2)
				if !ok {
					fail("bad binary literal %q", src[i:j])
				}
				out = append(out, tok{k: "int", s: src[i : j+1], p: i, v: EV{K: 'i', I: b, U: b.Cmp(maxI64) > 0}})
				i = j + 1
				continue
			}
			if j < n && src[j] == '.' {
				isF = true
				j++
				for j < n && isDigit(src[j]) {
					j++
				}
			}
			if j < n && (src[j] == 'e' || src[j] == 'E') {
				k := j + 1
				if k < n && (src[k] == '+' || src[k] == '-') {
					k++
				}
				if k < n && isDigit(src[k]) {
					isF = true
					for k < n && isDigit(src[k]) {
						k++
					}
					j = k
				}
			}
			if isF {
				txt := src[i:j]
				if j < n && (src[j] == 'f' || src[j] == 'F') {
					f, err := strconv.ParseFloat(txt, 32)
					if err != nil {
						fail("bad float %q", txt)
					}
					j++
					out = append(out, tok{k: "float", s: src[i:j], p: i, v: FloatEV(f)})
				} else {
					f, err := strconv.ParseFloat(txt, 64)
					if err != nil {
						fail("bad float %q", txt)
					}
					out = append(out, tok{k: "float", s: txt, p: i, v: FloatEV(f)})
				}
				i = j
				continue
			}
			txt := src[i:j]
			base := 10
			if len(txt) > 1 && txt[0] == '0' {
				base = 8
			}
			b, ok := new(big.Int).SetString(txt, base)
			if !ok {
				fail("bad integer %q", txt)
			}
			out = append(out, tok{k: "int", s: txt, p: i, v: EV{K: 'i', I: b, U: b.Cmp(maxI64) > 0}})
			i = j
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < n && src[j] != '"' {
				if src[j] == '\\' && j+1 < n {
					j++
					switch src[j] {
					case 'n':
						sb.WriteByte('\n')
					case 'r':
						sb.WriteByte('\r')
					case 't':
						sb.WriteByte('\t')
					case 'f':
						sb.WriteByte('\f')
					case '"', '\\':
						sb.WriteByte(src[j])
					case 'u':
						v, err := strconv.ParseUint(src[j+1:j+5], 16, 32)
						if err != nil {
							fail("bad \\u")
						}
						sb.WriteRune(rune(v))
						j += 4
					case '0':
						k := j + 1
						for k < n && k-j <= 3 && src[k] >= '0' && src[k] <= '7' && (k-j < 3 || src[j+1] <= '3') {
							k++
						}
						v, err := strconv.ParseUint(src[j:k], 8, 8)
						if err != nil || k == j+1 {
							fail("bad octal escape")
						}
						sb.WriteRune(rune(v))
						j = k - 1
					case 'x':
						v, err := strconv.ParseUint(src[j+1:j+3], 16, 8)
						if err != nil {
							fail("bad \\x")
						}
						sb.WriteRune(rune(v))
						j += 2
					default:
						fail("escape \\%c not supported", src[j])
					}
					j++
					continue
				}
				sb.WriteByte(src[j])
				j++
			}
			if j >= n {
				fail("unterminated string")
			}
			out = append(out, tok{k: "str", s: src[i : j+1], p: i, v: StrEV(sb.String())})
			i = j + 1
		default:
			two := ""
			if i+1 < n {
				two = src[i : i+2]
			}
			switch two {
			case "==", "!=", "<=", ">=", "&&", "||", "<<":
				out = append(out, tok{k: "op", s: two, p: i})
				i += 2
			default:
				if strings.IndexByte("+-*/%<>=!&|^~?:;,.(){}[]", c) < 0 {
					fail("unexpected character %q at %d", c, i)
				}
				out = append(out, tok{k: "op", s: string(c), p: i})
				i++
			}
		}
	}
	return append(out, tok{k: "eof", p: n})
}

func (p *parser) cur() tok { return p.toks[p.i] }
func (p *parser) is(s string) bool {
	t := p.cur()
	return t.s == s && (t.k == "op" || t.k == "id")
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) exp(s string) {
	if !p.acc(s) {
		lo := p.i - 6
		if lo < 0 {
			lo = 0
		}
		var ctx []string
		for _, t := range p.toks[lo : p.i+1] {
			ctx = append(ctx, t.s)
		}
		fail("expected %q, got %q near %q", s, p.cur().s, strings.Join(ctx, " "))
	}
}
func (p *parser) id() string {
	t := p.cur()
	if t.k != "id" {
		fail("expected identifier, got %q", t.s)
	}
	p.i++
	return t.s
}

// ParsePackage parses one schema file.
func ParsePackage(src string) (pkg *Package, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = pe.error
				return
			}
			panic(r)
		}
	}()
	p := &parser{toks: lex(src)}
	pkg = &Package{Source: src, byName: map[string]*Decl{}}
	if p.acc("package") {
		name := p.id()
		for p.acc(".") {
			name += "." + p.id()
		}
		p.exp(";")
		pkg.Name = name
	}
	for p.acc("import") {
		var parts []string
		parts = append(parts, p.id())
		sym := ""
		for p.acc(".") {
			if p.acc("*") {
				sym = "*"
				break
			}
			parts = append(parts, p.id())
		}
		p.exp(";")
		if sym == "" {
			sym = parts[len(parts)-1]
			parts = parts[:len(parts)-1]
		}
		pkg.Imports = append(pkg.Imports, Import{Pkg: strings.Join(parts, "."), Symbol: sym})
	}
	for p.cur().k != "eof" {
		d := p.decl()
		d.Pkg = pkg
		if _, dup := pkg.byName[d.Name]; dup {
			fail("duplicate %s", d.Name)
		}
		pkg.byName[d.Name] = d
		pkg.Decls = append(pkg.Decls, d)
	}
	return pkg, nil
}

func (p *parser) tparams() []string {
	var out []string
	if p.acc("<") {
		for {
			out = append(out, p.id())
			if !p.acc(",") {
				break
			}
		}
		p.exp(">")
	}
	return out
}

func (p *parser) params() []*Param {
	var out []*Param
	if p.acc("(") {
		for {
			t := p.typeRef()
			out = append(out, &Param{Type: t, Name: p.id()})
			if !p.acc(",") {
				break
			}
		}
		p.exp(")")
	}
	return out
}

func (p *parser) funcs() []*Func {
	var out []*Func
	for p.acc("function") {
		t := p.typeRef()
		n := p.id()
		p.exp("(")
		p.exp(")")
		p.exp("{")
		p.exp("return")
		e := p.expr(false)
		p.exp(";")
		p.exp("}")
		out = append(out, &Func{Name: n, Type: t, Body: e})
	}
	return out
}

func (p *parser) decl() *Decl {
	t := p.id()
	d := &Decl{Kind: t}
	switch t {
	case "const":
		d.Type = p.typeInst()
		d.Name = p.id()
		p.exp("=")
		d.Value = p.expr(false)
		p.exp(";")
	case "subtype":
		d.Type = p.typeRef()
		d.Name = p.id()
		p.exp(";")
	case "instantiate":
		d.Type = p.typeRef()
		d.Name = p.id()
		p.exp(";")
	case "struct":
		d.Name = p.id()
		d.TParams = p.tparams()
		d.Params = p.params()
		p.exp("{")
		for !p.is("}") && !p.is("function") {
			d.Fields = append(d.Fields, p.structField())
		}
		d.Funcs = p.funcs()
		p.exp("}")
		p.exp(";")
	case "union":
		d.Name = p.id()
		d.TParams = p.tparams()
		d.Params = p.params()
		p.exp("{")
		for !p.is("}") && !p.is("function") {
			d.Fields = append(d.Fields, p.choiceField())
			p.exp(";")
		}
		d.Funcs = p.funcs()
		p.exp("}")
		p.exp(";")
	case "choice":
		d.Name = p.id()
		d.TParams = p.tparams()
		d.Params = p.params()
		p.exp("on")
		d.Sel = p.expr(false)
		p.exp("{")
		for p.is("case") {
			c := &Case{}
			for p.acc("case") {
				c.Labels = append(c.Labels, p.expr(false))
				p.exp(":")
			}
			if !p.is(";") {
				c.Field = p.choiceField()
				d.Fields = append(d.Fields, c.Field)
			}
			p.exp(";")
			d.Cases = append(d.Cases, c)
		}
		if p.acc("default") {
			p.exp(":")
			d.Default = &Case{}
			if !p.is(";") {
				d.Default.Field = p.choiceField()
				d.Fields = append(d.Fields, d.Default.Field)
			}
			p.exp(";")
		}
		d.Funcs = p.funcs()
		p.exp("}")
		p.exp(";")
	case "enum", "bitmask":
		d.Type = p.typeInst()
		d.Name = p.id()
		p.exp("{")
		for !p.is("}") {
			p.acc("@deprecated")
			p.acc("@removed")
			it := &Item{Name: p.id()}
			if p.acc("=") {
				it.Expr = p.expr(false)
			}
			d.Items = append(d.Items, it)
			if !p.acc(",") {
				break
			}
		}
		p.exp("}")
		p.exp(";")
	default:
		fail("declaration %q not supported", t)
	}
	return d
}

func (p *parser) structField() *Field {
	f := &Field{}
	if p.acc("align") {
		p.exp("(")
		t := p.cur()
		if t.k != "int" {
			fail("align needs a literal")
		}
		p.i++
		f.Align = int(t.v.I.Int64())
		p.exp(")")
		p.exp(":")
	}
	p.skipOffset()
	p.acc("extend") // documented as not implemented: ignored
	f.Optional = p.acc("optional")
	p.fieldTypeID(f)
	if p.acc("=") {
		f.Init = p.expr(false)
	}
	if p.acc("if") {
		f.Cond = p.expr(false)
	}
	if p.acc(":") {
		p.expr(false) // constraint: ignored
	}
	p.exp(";")
	return f
}

// skipOffset skips a field offset ("expression:"), which go-zserio documents as
// not implemented, and ignores.
func (p *parser) skipOffset() {
	start := p.i
	try := func(f func()) (ok bool) {
		defer func() {
			if recover() != nil {
				p.i = start
				ok = false
			}
		}()
		f()
		return true
	}
	isField := try(func() {
		p.acc("extend")
		p.acc("optional")
		p.fieldTypeID(&Field{})
	})
	p.i = start
	if !isField {
		try(func() {
			p.expr(false)
			p.exp(":")
		})
	}
}

func (p *parser) choiceField() *Field {
	f := &Field{}
	p.fieldTypeID(f)
	if p.acc(":") {
		p.expr(false)
	}
	return f
}

func (p *parser) fieldTypeID(f *Field) {
	packed := p.acc("packed")
	implicit := p.acc("implicit")
	f.Type = p.typeInst()
	f.Name = p.id()
	if p.acc("[") {
		f.Array = &ArrayDef{Packed: packed, Implicit: implicit}
		if !p.is("]") {
			f.Array.Len = p.expr(false)
		}
		p.exp("]")
	}
}

// Builtins lists the built-in type names.
var Builtins = map[string]bool{
	"int8": true, "int16": true, "int32": true, "int64": true,
	"uint8": true, "uint16": true, "uint32": true, "uint64": true,
	"bit": true, "int": true, "bool": true, "string": true,
	"float16": true, "float32": true, "float64": true, "extern": true, "bytes": true,
	"varint": true, "varint16": true, "varint32": true, "varint64": true, "varsize": true,
	"varuint": true, "varuint16": true, "varuint32": true, "varuint64": true,
}

func (p *parser) typeRef() *TypeRef {
	n := p.id()
	t := &TypeRef{Name: n}
	if n == "bit" || n == "int" {
		if p.acc(":") {
			tk := p.cur()
			if tk.k != "int" {
				fail("bit width expected")
			}
			p.i++
			t.Bits = int(tk.v.I.Int64())
		}
		return t
	}
	if Builtins[n] {
		return t
	}
	for p.acc(".") {
		t.Name += "." + p.id()
	}
	if p.acc("<") {
		for {
			t.TArgs = append(t.TArgs, p.typeRef())
			if !p.acc(",") {
				break
			}
		}
		p.exp(">")
	}
	return t
}

func (p *parser) typeInst() *TypeRef {
	t := p.typeRef()
	if (t.Name == "bit" || t.Name == "int") && t.Bits == 0 && p.acc("<") {
		t.Len = p.expr(true)
		p.exp(">")
		return t
	}
	if p.acc("(") {
		for {
			t.Args = append(t.Args, p.expr(false))
			if !p.acc(",") {
				break
			}
		}
		p.exp(")")
	}
	return t
}

var binLevels = [][]string{
	{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"},
}

// expr parses an expression; noGT: an unparenthesised > ends it.
func (p *parser) expr(noGT bool) *Expr {
	c := p.bin(0, noGT)
	if p.acc("?") {
		a := p.expr(noGT)
		p.exp(":")
		b := p.expr(noGT)
		return &Expr{Op: OpTern, A: c, B: a, C: b}
	}
	return c
}

func (p *parser) binop(level int, noGT bool) string {
	t := p.cur()
	if t.k != "op" {
		return ""
	}
	for _, o := range binLevels[level] {
		switch o {
		case ">>":
			if t.s == ">" && !noGT && p.toks[p.i+1].k == "op" && p.toks[p.i+1].s == ">" {
				p.i += 2
				return ">>"
			}
		case ">", ">=":
			if noGT {
				continue
			}
			if o == ">" && t.s == ">" && p.toks[p.i+1].k == "op" && p.toks[p.i+1].s == ">" {
				continue
			}
			if t.s == o {
				p.i++
				return o
			}
		default:
			if t.s == o {
				p.i++
				return o
			}
		}
	}
	return ""
}

func (p *parser) bin(level int, noGT bool) *Expr {
	if level == len(binLevels) {
		return p.unary(noGT)
	}
	l := p.bin(level+1, noGT)
	for {
		op := p.binop(level, noGT)
		if op == "" {
			return l
		}
		r := p.bin(level+1, noGT)
		l = &Expr{Op: op, A: l, B: r}
	}
}

func (p *parser) unary(noGT bool) *Expr {
	for _, o := range []string{"+", "-", "!", "~"} {
		if p.cur().k == "op" && p.acc(o) {
			return &Expr{Op: "u" + o, A: p.unary(noGT)}
		}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.acc("("):
			p.exp(")")
			e = &Expr{Op: OpCall, A: e}
		case p.acc("["):
			i := p.expr(false)
			p.exp("]")
			e = &Expr{Op: OpArr, A: e, B: i}
		case p.acc("."):
			e = &Expr{Op: OpDot, A: e, Name: p.id()}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.cur()
	switch t.k {
	case "int", "float", "str":
		p.i++
		return &Expr{Op: OpLit, Lit: t.v, Text: t.s}
	case "op":
		if p.acc("(") {
			e := p.expr(false)
			p.exp(")")
			return &Expr{Op: OpParen, A: e}
		}
	case "id":
		p.i++
		switch t.s {
		case "true", "false":
			return &Expr{Op: OpLit, Lit: BoolEV(t.s == "true"), Text: t.s}
		case "@index":
			return &Expr{Op: OpIndex}
		case "isset":
			p.exp("(")
			a := p.expr(false)
			p.exp(",")
			b := p.expr(false)
			p.exp(")")
			return &Expr{Op: OpIsset, A: a, B: b}
		case "lengthof", "valueof", "numbits":
			p.exp("(")
			a := p.expr(false)
			p.exp(")")
			return &Expr{Op: t.s, A: a}
		}
		return &Expr{Op: OpID, Name: t.s}
	}
	fail("unexpected %q in expression", t.s)
	return nil
}

// Keywords are the words that cannot be names.
var Keywords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`align bit bitmask bool bytes case choice const default enum explicit extend extern false float16 float32 float64 function if implicit import instantiate int int16 int32 int64 int8 isset lengthof numbits on optional package packed publish pubsub return rule rule_group service sql sql_database sql_table sql_virtual sql_without_rowid string struct subscribe subtype topic true uint16 uint32 uint64 uint8 union using valueof varint varint16 varint32 varint64 varsize varuint varuint16 varuint32 varuint64 zserio_compatibility_version index`) {
		m[w] = true
	}
	return m
}()

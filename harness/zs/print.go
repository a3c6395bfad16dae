package zs

import (
	"fmt"
	"strings"
)

// String writes an expression as schema text.
func (e *Expr) String() string {
	switch e.Op {
	case OpLit:
		return e.Text
	case OpID:
		return e.Name
	case OpIndex:
		return "@index"
	case OpParen:
		return "(" + e.A.String() + ")"
	case OpCall:
		return e.A.String() + "()"
	case OpArr:
		return e.A.String() + "[" + e.B.String() + "]"
	case OpDot:
		return e.A.String() + "." + e.Name
	case OpIsset:
		return "isset(" + e.A.String() + ", " + e.B.String() + ")"
	case OpLengthof, OpValueof, OpNumbits:
		return e.Op + "(" + e.A.String() + ")"
	case OpUPlus, OpUMinus, OpNot, OpInv:
		return e.Op[1:] + " " + e.A.String()
	case OpTern:
		return e.A.String() + " ? " + e.B.String() + " : " + e.C.String()
	}
	return e.A.String() + " " + e.Op + " " + e.B.String()
}

// String writes a type reference as schema text.
func (t *TypeRef) String() string {
	s := t.Name
	if t.Bits > 0 {
		s += fmt.Sprintf(":%d", t.Bits)
	}
	if t.Len != nil {
		s += "<" + t.Len.String() + ">"
	}
	if len(t.TArgs) > 0 {
		var a []string
		for _, x := range t.TArgs {
			a = append(a, x.String())
		}
		s += "<" + strings.Join(a, ", ") + " >"
	}
	if len(t.Args) > 0 {
		var a []string
		for _, x := range t.Args {
			a = append(a, x.String())
		}
		s += "(" + strings.Join(a, ", ") + ")"
	}
	return s
}

func (f *Field) String() string {
	s := ""
	if f.Align > 0 {
		s += fmt.Sprintf("align(%d): ", f.Align)
	}
	if f.Optional {
		s += "optional "
	}
	if f.Array != nil && f.Array.Packed {
		s += "packed "
	}
	if f.Array != nil && f.Array.Implicit {
		s += "implicit "
	}
	s += f.Type.String() + " " + f.Name
	if f.Array != nil {
		s += "["
		if f.Array.Len != nil {
			s += f.Array.Len.String()
		}
		s += "]"
	}
	if f.Init != nil {
		s += " = " + f.Init.String()
	}
	if f.Cond != nil {
		s += " if " + f.Cond.String()
	}
	return s + ";"
}

// String writes a declaration as schema text.
func (d *Decl) String() string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	head := func() {
		w("%s %s", d.Kind, d.Name)
		if len(d.TParams) > 0 {
			w("<%s>", strings.Join(d.TParams, ", "))
		}
		if len(d.Params) > 0 {
			var a []string
			for _, p := range d.Params {
				a = append(a, p.Type.String()+" "+p.Name)
			}
			w("(%s)", strings.Join(a, ", "))
		}
	}
	funcs := func() {
		for _, f := range d.Funcs {
			w("    function %s %s() { return %s; }\n", f.Type, f.Name, f.Body)
		}
		w("};\n")
	}
	switch d.Kind {
	case "const":
		w("const %s %s = %s;\n", d.Type, d.Name, d.Value)
	case "subtype", "instantiate":
		w("%s %s %s;\n", d.Kind, d.Type, d.Name)
	case "struct", "union":
		head()
		w(" {\n")
		for _, f := range d.Fields {
			w("    %s\n", f)
		}
		funcs()
	case "choice":
		head()
		w(" on %s {\n", d.Sel)
		for _, c := range d.Cases {
			for _, l := range c.Labels {
				w("    case %s:\n", l)
			}
			if c.Field != nil {
				w("        %s\n", c.Field)
			} else {
				w("        ;\n")
			}
		}
		if d.Default != nil {
			if d.Default.Field != nil {
				w("    default: %s\n", d.Default.Field)
			} else {
				w("    default: ;\n")
			}
		}
		funcs()
	case "enum", "bitmask":
		w("%s %s %s {\n", d.Kind, d.Type, d.Name)
		for i, it := range d.Items {
			if i > 0 {
				w(",\n")
			}
			w("    %s", it.Name)
			if it.Expr != nil {
				w(" = %s", it.Expr)
			}
		}
		w("\n};\n")
	}
	return b.String()
}

// String writes a package as schema text.
func (p *Package) String() string {
	var b strings.Builder
	if p.Name != "" {
		fmt.Fprintf(&b, "package %s;\n", p.Name)
	}
	for _, im := range p.Imports {
		fmt.Fprintf(&b, "import %s.%s;\n", im.Pkg, im.Symbol)
	}
	for _, d := range p.Decls {
		b.WriteString("\n" + d.String())
	}
	return b.String()
}

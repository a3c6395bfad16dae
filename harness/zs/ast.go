// Package zs is an independent model of the zserio schema language: a parser,
// an expression evaluator, a reference bit encoder and generators of schemas
// and values. It shares no code with go-zserio.
package zs

// Expr is an expression node.
type Expr struct {
	Op      string // see constants below, or the operator itself for binary operators
	A, B, C *Expr
	Name    string // identifier
	Lit     EV     // literal value
	Text    string // literal source text
}

// Expression node kinds that are not plain binary operators.
const (
	OpLit      = "lit"
	OpID       = "id"
	OpIndex    = "@index"
	OpParen    = "()"
	OpCall     = "call"
	OpArr      = "[]"
	OpDot      = "."
	OpIsset    = "isset"
	OpLengthof = "lengthof"
	OpValueof  = "valueof"
	OpNumbits  = "numbits"
	OpUPlus    = "u+"
	OpUMinus   = "u-"
	OpNot      = "u!"
	OpInv      = "u~"
	OpTern     = "?:"
)

// TypeRef is a type as written.
type TypeRef struct {
	Name  string
	Bits  int
	Len   *Expr
	TArgs []*TypeRef
	Args  []*Expr
}

// ArrayDef describes the array part of a field.
type ArrayDef struct {
	Packed   bool
	Implicit bool
	Len      *Expr // nil: auto length
}

// Field is a field of a compound.
type Field struct {
	Name     string
	Type     *TypeRef
	Optional bool
	Cond     *Expr
	Align    int
	Array    *ArrayDef
	Init     *Expr
}

// Param is a compound parameter.
type Param struct {
	Name string
	Type *TypeRef
}

// Func is a schema function.
type Func struct {
	Name string
	Type *TypeRef
	Body *Expr
}

// Item is an enum item or bitmask value.
type Item struct {
	Name string
	Expr *Expr
}

// Case is a group of case labels of a choice with at most one field.
type Case struct {
	Labels []*Expr // nil for default
	Field  *Field
}

// Decl is a top-level declaration.
type Decl struct {
	Kind    string // const subtype struct choice union enum bitmask instantiate
	Name    string
	Pkg     *Package
	TParams []string
	Params  []*Param
	Type    *TypeRef // const, subtype, enum, bitmask, instantiate
	Value   *Expr    // const
	Fields  []*Field // struct, union; for choice: all case fields in order (+default)
	Sel     *Expr    // choice selector
	Cases   []*Case
	Default *Case
	Items   []*Item
	Funcs   []*Func

	itemVals []EV
}

// Import is one import line.
type Import struct {
	Pkg    string
	Symbol string // "*" for all
}

// Package is one parsed schema file.
type Package struct {
	Name    string
	Imports []Import
	Decls   []*Decl
	File    string
	Source  string

	byName map[string]*Decl
	Set    *Set
}

// Set is a set of packages that are generated together.
type Set struct {
	Pkgs   map[string]*Package
	Order  []string
	tcache map[string]*RType
}

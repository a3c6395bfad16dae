// Package reg is where the generated registration code announces the Go types
// that the generator made.
package reg

// Entry is one generated type.
type Entry struct {
	Suite, Pkg, Name string
	New              func() any
	// enums only
	Values, FromString, Strings any
}

// Const is one generated constant.
type Const struct {
	Suite, Pkg, Name string
	Val              any
}

// Item is the constant of an enum item or bitmask value.
type Item struct {
	Suite, Pkg, Type, Name string
	Val                    any
}

// Types, Consts and Items are filled by init functions.
var (
	Types  []*Entry
	Consts []*Const
	Items  []*Item
)

// T registers a type.
func T(suite, pkg, name string, n func() any) {
	Types = append(Types, &Entry{Suite: suite, Pkg: pkg, Name: name, New: n})
}

// E registers an enum.
func E(suite, pkg, name string, n func() any, values, from, strings any) {
	Types = append(Types, &Entry{Suite: suite, Pkg: pkg, Name: name, New: n, Values: values, FromString: from, Strings: strings})
}

// C registers a constant.
func C(suite, pkg, name string, v any) {
	Consts = append(Consts, &Const{suite, pkg, name, v})
}

// I registers an enum item or bitmask value.
func I(suite, pkg, typ, name string, v any) {
	Items = append(Items, &Item{suite, pkg, typ, name, v})
}

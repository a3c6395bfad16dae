package zs

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

func floatBits(k Kind, f float64) uint64 {
	switch k {
	case KF16:
		return uint64(F32ToF16(float32(f)))
	case KF32:
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// GoName is the Go name of a field or parameter.
func GoName(n string) string { return strings.ToUpper(n[:1]) + n[1:] }

// BindErr reports that a generated Go type does not look as documented.
type BindErr struct{ Msg string }

func (e BindErr) Error() string { return "binding: " + e.Msg }

func bindFail(format string, a ...any) { panic(BindErr{fmt.Sprintf(format, a...)}) }

// StoreBare stores a value, but sets only the outermost parameters.
func StoreBare(v *Val, rv reflect.Value) {
	store(v, rv, true)
}

// Store stores a value into a generated Go object.
func Store(v *Val, rv reflect.Value) { store(v, rv, false) }

// store stores a value; with bare, compounds below the top keep zero parameters.
func store(v *Val, rv reflect.Value, bare bool) {
	t := v.T
	if v.IsArr {
		if rv.Kind() != reflect.Slice {
			bindFail("array field has Go type %s", rv.Type())
		}
		s := reflect.MakeSlice(rv.Type(), len(v.A), len(v.A))
		for i, e := range v.A {
			storeIn(e, s.Index(i), bare)
		}
		rv.Set(s)
		return
	}
	switch t.Kind {
	case KBytes, KExtern:
		if rv.Kind() != reflect.Pointer {
			bindFail("bytes/extern has Go type %s", rv.Type())
		}
		p := reflect.New(rv.Type().Elem())
		p.Elem().FieldByName("Buffer").SetBytes(append([]byte{}, v.B...))
		if t.Kind == KBytes {
			setInt(p.Elem().FieldByName("ByteSize"), uint64(len(v.B)))
		} else {
			setInt(p.Elem().FieldByName("BitSize"), uint64(v.NBits))
		}
		rv.Set(p)
	case KBool:
		rv.SetBool(v.N != 0)
	case KF16:
		rv.SetFloat(float64(F16ToF32(uint16(v.N))))
	case KF32:
		rv.SetFloat(float64(math.Float32frombits(uint32(v.N))))
	case KF64:
		rv.SetFloat(math.Float64frombits(v.N))
	case KString:
		rv.SetString(string(v.B))
	case KStruct, KChoice, KUnion:
		SetParams(v, rv)
		if t.Kind == KUnion {
			uc := rv.FieldByName("UnionChoice")
			if !uc.IsValid() {
				bindFail("union %s has no UnionChoice", rv.Type())
			}
			uc.SetUint(uint64(unionIndex(v) + 1))
		}
		for _, f := range t.D.Fields {
			x := v.F[f.Name]
			if x == nil {
				continue
			}
			fv := fieldOf(rv, f.Name)
			if f.Optional {
				if fv.Kind() != reflect.Pointer {
					bindFail("optional field %s has Go type %s", f.Name, fv.Type())
				}
				p := reflect.New(fv.Type().Elem())
				storeIn(x, p.Elem(), bare)
				fv.Set(p)
				continue
			}
			storeIn(x, fv, bare)
		}
	default:
		setInt(rv, v.N)
	}
}

// storeIn stores a nested value.
func storeIn(v *Val, rv reflect.Value, bare bool) {
	if bare && v.T.IsCompound() && !v.IsArr && len(v.Params) > 0 {
		n := *v
		n.Params = nil
		store(&n, rv, true)
		return
	}
	store(v, rv, bare)
}

// SetParams sets the parameters of a compound object.
func SetParams(v *Val, rv reflect.Value) {
	for n, p := range v.Params {
		fv := fieldOf(rv, n)
		fv.SetZero()
		Store(p, fv)
	}
}

func fieldOf(rv reflect.Value, name string) reflect.Value {
	fv := rv.FieldByName(GoName(name))
	if !fv.IsValid() {
		bindFail("%s has no field %s", rv.Type(), GoName(name))
	}
	return fv
}

func setInt(rv reflect.Value, n uint64) {
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if rv.OverflowInt(int64(n)) {
			bindFail("value %d does not fit Go type %s", int64(n), rv.Type())
		}
		rv.SetInt(int64(n))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if rv.OverflowUint(n) {
			bindFail("value %d does not fit Go type %s", n, rv.Type())
		}
		rv.SetUint(n)
	default:
		bindFail("integer has Go type %s", rv.Type())
	}
}

func getInt(rv reflect.Value) uint64 {
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return rv.Uint()
	}
	bindFail("integer has Go type %s", rv.Type())
	return 0
}

// Reader reads Go objects back into values.
type GoReader struct {
	// ParamDiff is called when a nested object's parameter differs from what
	// the schema's argument expression says. May be nil.
	ParamDiff func(path string, want, got *Val)
}

// Get reads a Go object. params are the parameters of a top-level compound.
func (g *GoReader) Get(t *RType, rv reflect.Value, params map[string]*Val) (v *Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case BindErr:
				err = x
			case EvalErr:
				err = x
			case perr:
				err = x.error
			default:
				panic(r)
			}
		}
	}()
	return g.get(t, rv, params, "", 0), nil
}

func (g *GoReader) get(t *RType, rv reflect.Value, params map[string]*Val, path string, width int) *Val {
	v := &Val{T: t, Width: width}
	switch t.Kind {
	case KBytes, KExtern:
		if rv.Kind() != reflect.Pointer {
			bindFail("bytes/extern has Go type %s", rv.Type())
		}
		if rv.IsNil() {
			bindFail("%s: nil bytes/extern after decoding", path)
		}
		b := rv.Elem().FieldByName("Buffer").Bytes()
		v.B = append([]byte{}, b...)
		if t.Kind == KBytes {
			if n := getInt(rv.Elem().FieldByName("ByteSize")); n != uint64(len(b)) {
				bindFail("%s: ByteSize %d, %d bytes in buffer", path, n, len(b))
			}
		} else {
			v.NBits = int(getInt(rv.Elem().FieldByName("BitSize")))
		}
	case KBool:
		if rv.Bool() {
			v.N = 1
		}
	case KF16, KF32, KF64:
		f := rv.Float()
		v.N = floatBits(t.Kind, f)
		if t.Kind == KF16 && f == f && float64(F16ToF32(uint16(v.N))) != f {
			bindFail("%s: %v is not a half-precision value", path, f)
		}
	case KString:
		v.B = []byte(rv.String())
	case KStruct, KChoice, KUnion:
		v.F = map[string]*Val{}
		v.Params = params
		switch t.Kind {
		case KUnion:
			uc := rv.FieldByName("UnionChoice")
			if !uc.IsValid() {
				bindFail("union %s has no UnionChoice", rv.Type())
			}
			n := int(uc.Uint())
			if n >= 1 && n <= len(t.D.Fields) {
				v.Sel = t.D.Fields[n-1].Name
			}
		case KChoice:
			if c, ok := Select(v); ok && c.Field != nil {
				v.Sel = c.Field.Name
			}
		}
		for _, f := range t.D.Fields {
			if t.Kind != KStruct && f.Name != v.Sel {
				continue
			}
			if f.Cond != nil && !CondHolds(v, f) {
				continue
			}
			fv := fieldOf(rv, f.Name)
			if f.Optional {
				if fv.Kind() != reflect.Pointer {
					bindFail("optional field %s has Go type %s", f.Name, fv.Type())
				}
				if fv.IsNil() {
					continue
				}
				fv = fv.Elem()
			}
			ft := t.Sc.Resolve(f.Type)
			fp := path + "." + f.Name
			if f.Array == nil {
				v.F[f.Name] = g.elem(v, ft, fv, fp, -1)
				continue
			}
			if fv.Kind() != reflect.Slice {
				bindFail("array field %s has Go type %s", f.Name, fv.Type())
			}
			arr := &Val{T: ft, IsArr: true}
			v.F[f.Name] = arr
			for i := 0; i < fv.Len(); i++ {
				arr.A = append(arr.A, g.elem(v, ft, fv.Index(i), fmt.Sprintf("%s[%d]", fp, i), i))
			}
		}
	default:
		v.N = getInt(rv)
	}
	return v
}

func (g *GoReader) elem(parent *Val, t *RType, rv reflect.Value, path string, index int) *Val {
	if !t.IsCompound() {
		w := 0
		if t.Len != nil {
			w = Width(parent, t, index)
		}
		return g.get(t, rv, nil, path, w)
	}
	params := Args(parent, t, index)
	if g.ParamDiff != nil {
		for _, p := range t.D.Params {
			want := params[p.Name]
			if want == nil || want.T.IsCompound() || want.IsArr {
				continue
			}
			got := g.get(want.T, fieldOf(rv, p.Name), nil, path, 0)
			if Diff(want, got, "") != "" {
				g.ParamDiff(path+"("+p.Name+")", want, got)
			}
		}
	}
	return g.get(t, rv, params, path, 0)
}

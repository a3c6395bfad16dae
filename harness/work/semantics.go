package work

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strings"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/ztype"

	"github.com/woven-planet/go-zserio/verif/reg"
	"github.com/woven-planet/go-zserio/verif/zs"
)

// goInt gives the value of a Go integer.
func goInt(rv reflect.Value) (*big.Int, bool) {
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(rv.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(rv.Uint()), true
	}
	return nil, false
}

// evDiff compares a Go value with the value of an expression.
func evDiff(want zs.EV, rv reflect.Value) string {
	for rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}
	ok := false
	switch want.K {
	case 'i':
		if n, isInt := goInt(rv); isInt {
			ok = n.Cmp(want.I) == 0
		} else if rv.Kind() == reflect.Float64 || rv.Kind() == reflect.Float32 {
			ok = rv.Float() == want.Num()
		}
	case 'f':
		switch rv.Kind() {
		case reflect.Float32:
			ok = float32(rv.Float()) == float32(want.F) || want.F != want.F && rv.Float() != rv.Float()
		case reflect.Float64:
			ok = rv.Float() == want.F || want.F != want.F && rv.Float() != rv.Float()
		}
	case 'b':
		ok = rv.Kind() == reflect.Bool && rv.Bool() == want.B
	case 's':
		ok = rv.Kind() == reflect.String && rv.String() == want.S
	}
	if ok {
		return ""
	}
	return fmt.Sprintf("is %v (%s), right is %s", rv, rv.Type(), want)
}

// try runs f; ok is false if the model has no value there.
func try(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isErr := r.(zs.EvalErr); isErr {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// mine spreads work that is not a list of types over the shards.
func (c *Ctx) mine(i int) bool { return i%c.Shards == c.Shard }

// constants compares every generated constant with the model.
func (c *Ctx) constants() {
	for i, k := range reg.Consts {
		key := k.Suite + ":" + k.Pkg + "." + k.Name
		if !c.mine(i) || c.Only != "" && !strings.HasPrefix(key, c.Only) {
			continue
		}
		set := c.Suites[k.Suite]
		d := set.Pkgs[k.Pkg].Decl(k.Name)
		if d == nil {
			fmt.Fprintln(os.Stderr, "no constant", key)
			os.Exit(3)
		}
		c.Journal(key)
		var want zs.EV
		if !try(func() { want = zs.ConstValue(d) }) {
			c.Count("constants_unspecified", 1)
			continue
		}
		c.Count("constants", 1)
		c.Eval(key, true)
		if diff := evDiff(want, reflect.ValueOf(k.Val)); diff != "" {
			c.Violation(key+"/const", "the constant "+diff, map[string]any{"constant": key})
		}
	}
}

// functions calls the schema functions of an object and of all that it contains.
func (k *Case) functions(o any) {
	k.callAll(k.V, reflect.ValueOf(o), k.T.Name, 0)
}

func (k *Case) callAll(v *zs.Val, ptr reflect.Value, path string, depth int) bool {
	if depth > 8 {
		return true
	}
	for _, fn := range v.T.D.Funcs {
		m := ptr.MethodByName(zs.GoName(fn.Name))
		if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
			k.Fail("function", "%s has no method %s() with one result", ptr.Type(), zs.GoName(fn.Name))
			return false
		}
		var want zs.EV
		if !try(func() { want = zs.CallFunc(v, fn.Name) }) {
			k.c.Count("calls_unspecified", 1)
			continue
		}
		k.c.Count("calls", 1)
		var out []reflect.Value
		if p := Guard(func() { out = m.Call(nil) }); p != "" {
			k.Fail("function", "%s.%s() panicked, right is %s: %s", path, fn.Name, want, p)
			return false
		}
		if want.K == 'v' {
			got := out[0]
			for got.Kind() == reflect.Pointer && !got.IsNil() {
				got = got.Elem()
			}
			if want.V.IsArr || want.V.T == nil {
				continue
			}
			g := &zs.GoReader{}
			gv, err := g.Get(want.V.T, got, want.V.Params)
			if err != nil {
				k.Fail("function", "%s.%s(): %v", path, fn.Name, err)
				return false
			}
			if d := zs.Diff(want.V, gv, ""); d != "" {
				k.Fail("function", "%s.%s() gives another object: %s", path, fn.Name, d)
				return false
			}
			continue
		}
		if d := evDiff(want, out[0]); d != "" {
			k.Fail("function", "%s.%s() %s", path, fn.Name, d)
			return false
		}
	}
	names := make([]string, 0, len(v.F))
	for n := range v.F {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := v.F[n]
		if f == nil || !f.T.IsCompound() {
			continue
		}
		fv := ptr.Elem().FieldByName(zs.GoName(n))
		if !fv.IsValid() {
			continue
		}
		if fv.Kind() == reflect.Pointer {
			if fv.IsNil() {
				continue
			}
			fv = fv.Elem()
		}
		if !f.IsArr {
			fv = fv.Addr()
			if !k.callAll(f, fv, path+"."+n, depth+1) {
				return false
			}
			continue
		}
		for i, e := range f.A {
			if i >= fv.Len() || i > 5 {
				break
			}
			if !k.callAll(e, fv.Index(i).Addr(), fmt.Sprintf("%s.%s[%d]", path, n, i), depth+1) {
				return false
			}
		}
	}
	return true
}

// expressions observes every expression of a type: functions by calling them,
// lengths, conditions, widths, arguments and selectors through the encoding.
func (k *Case) expressions() {
	if !k.wire(0) || !k.decode(0) {
		return
	}
	k.size(0)
	k.functions(k.Obj())
	o := k.Fresh()
	if zserio.Unmarshal(append([]byte{}, k.Ref...), o.(zserio.Unmarshaler)) == nil {
		k.functions(o)
	}
}

// defaults loads the default values into objects of all kinds.
func (k *Case) defaults() {
	if !k.T.IsCompound() {
		return
	}
	type loader interface{ LoadDefaultValues() error }
	for i, o := range []any{k.New(), k.Fresh(), k.Obj(), k.Obj()} {
		l, ok := o.(loader)
		if !ok {
			k.Fail("defaults", "%T has no LoadDefaultValues() error", o)
			return
		}
		if i == 3 {
			scribble(reflect.ValueOf(o), 0)
			fresh(o, k.V)
		}
		before := deepCopy(reflect.ValueOf(o))
		if err := l.LoadDefaultValues(); err != nil {
			k.Fail("defaults", "LoadDefaultValues failed: %v", err)
			return
		}
		k.c.Count("loads", 1)
		if d := k.loaded(k.T, before.Elem(), reflect.ValueOf(o).Elem(), k.T.Name, true); d != "" {
			k.Fail("defaults", "after LoadDefaultValues %s", d)
			return
		}
		once := deepCopy(reflect.ValueOf(o))
		if err := l.LoadDefaultValues(); err != nil {
			k.Fail("defaults", "LoadDefaultValues failed the second time: %v", err)
			return
		}
		if d := deepDiff(once, reflect.ValueOf(o), ""); d != "" {
			k.Fail("twice", "loading the defaults twice is not loading them once: %s", d)
			return
		}
		k.usable(fresh(o, k.V))
	}
}

// usable encodes an object if the model says that it can be encoded.
func (k *Case) usable(o any) {
	v, err := k.Get(o)
	if err != nil {
		return
	}
	var enc *zs.Enc
	if Guard(func() { enc, err = zs.EncodeAt(v, 0) }) != "" || err != nil || !zs.Valid(v) {
		k.c.Count("loaded_but_incomplete", 1)
		return
	}
	k.c.Count("loaded_and_encoded", 1)
	b, err := zserio.Marshal(o.(zserio.Marshaler))
	if err != nil {
		k.Fail("encode", "encoding %s, which has loaded its defaults, failed: %v", v, err)
		return
	}
	if !bytes.Equal(b, enc.W.Bytes()) {
		k.Fail("encode", "%s, which has loaded its defaults, is encoded as %x, right is %x", v, clip(b), clip(enc.W.Bytes()))
		return
	}
	again := k.Fresh()
	if err := zserio.Unmarshal(b, again.(zserio.Unmarshaler)); err != nil {
		k.Fail("decode", "decoding %s, which had loaded its defaults, failed: %v", v, err)
		return
	}
	v2, err := k.Get(again)
	if err != nil {
		k.Fail("decode", "decoding %s, which had loaded its defaults: %v", v, err)
		return
	}
	if d := zs.Diff(v, v2, ""); d != "" {
		k.Fail("decode", "decoding %s, which had loaded its defaults: %s", v, d)
	}
}

// loaded says what is wrong with an object that has loaded its defaults.
// Without sure, both the old and the default value are right.
func (k *Case) loaded(t *zs.RType, before, after reflect.Value, path string, sure bool) string {
	fields := map[string]bool{}
	for _, f := range t.D.Fields {
		gn := zs.GoName(f.Name)
		fields[gn] = true
		b, a := before.FieldByName(gn), after.FieldByName(gn)
		if !a.IsValid() {
			return fmt.Sprintf("%s has no field %s", path, gn)
		}
		p := path + "." + f.Name
		ft := t.Sc.Resolve(f.Type)
		same := deepDiff(b, a, "") == ""
		switch {
		case f.Array != nil:
			// elements are objects of their own
			if f.Optional {
				if b.IsNil() || a.IsNil() {
					if b.IsNil() != a.IsNil() {
						return fmt.Sprintf("%s, which has no initial value, was set or removed", p)
					}
					continue
				}
				b, a = b.Elem(), a.Elem()
			}
			if b.Len() != a.Len() {
				return fmt.Sprintf("%s has %d elements instead of %d", p, a.Len(), b.Len())
			}
			if !ft.IsCompound() {
				if !same {
					return fmt.Sprintf("%s, which has no initial value, has changed", p)
				}
				continue
			}
			for i := 0; i < a.Len(); i++ {
				if d := k.loaded(ft, b.Index(i), a.Index(i), fmt.Sprintf("%s[%d]", p, i), false); d != "" {
					return d
				}
			}
		case f.Init != nil && !ft.IsCompound():
			var want *zs.Val
			if !try(func() {
				ev := (&zs.Ctx{Sc: t.Sc, Index: -1}).Eval(f.Init)
				want = zs.FromEV(ev, ft)
			}) || want == nil {
				continue
			}
			k.c.Count("initial_values", 1)
			x := a
			if f.Optional {
				if a.Kind() != reflect.Pointer || a.IsNil() {
					if !sure && same {
						continue
					}
					return fmt.Sprintf("%s is not set, its initial value is %s", p, want.Scalar())
				}
				x = a.Elem()
			}
			g := &zs.GoReader{}
			got, err := g.Get(ft, x, nil)
			if err != nil {
				return fmt.Sprintf("%s: %v", p, err)
			}
			if zs.Diff(want, got, "") != "" && (sure || !same) {
				return fmt.Sprintf("%s is %s, its initial value is %s", p, got.Scalar(), want.Scalar())
			}
		case ft.IsCompound():
			if f.Optional {
				if b.IsNil() || a.IsNil() {
					if b.IsNil() != a.IsNil() {
						return fmt.Sprintf("%s, which has no initial value, was set or removed", p)
					}
					continue
				}
				if d := k.loaded(ft, b.Elem(), a.Elem(), p, false); d != "" {
					return d
				}
				continue
			}
			if d := k.loaded(ft, b, a, p, sure && t.Kind == zs.KStruct); d != "" {
				return d
			}
		default:
			if !same {
				return fmt.Sprintf("%s, which has no initial value, has changed", p)
			}
		}
	}
	for i := 0; i < after.NumField(); i++ {
		n := after.Type().Field(i).Name
		if !fields[n] && deepDiff(before.Field(i), after.Field(i), "") != "" {
			return fmt.Sprintf("%s.%s, which is no field, has changed", path, n)
		}
	}
	return ""
}

// deepCopy copies an object with everything it refers to.
func deepCopy(rv reflect.Value) reflect.Value {
	switch rv.Kind() {
	case reflect.Pointer:
		if rv.IsNil() {
			return rv
		}
		n := reflect.New(rv.Type().Elem())
		n.Elem().Set(deepCopy(rv.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(rv.Type()).Elem()
		n.Set(rv)
		for i := 0; i < rv.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(rv.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if rv.IsNil() {
			return rv
		}
		n := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
		for i := 0; i < rv.Len(); i++ {
			n.Index(i).Set(deepCopy(rv.Index(i)))
		}
		return n
	}
	return rv
}

// itemConsts gives what is registered for an enum or bitmask.
func itemConsts(e *reg.Entry) map[string]reflect.Value {
	out := map[string]reflect.Value{}
	for _, it := range reg.Items {
		if it.Suite == e.Suite && it.Pkg == e.Pkg && it.Type == e.Name {
			out[it.Name] = reflect.ValueOf(it.Val)
		}
	}
	return out
}

// enums checks the whole generated interface of enums and bitmasks.
func (c *Ctx) enums() {
	for _, e := range c.Entries() {
		if e.T.Kind != zs.KEnum && e.T.Kind != zs.KBitmask {
			continue
		}
		if d := e.Set.Pkgs[e.Pkg].Decl(e.Name); d != e.T.D {
			continue // another name of the type
		}
		c.Journal(e.ID())
		if p := Guard(func() { e.itemTable() }); p != "" {
			c.Violation(e.ID()+"/panic", "panic: "+p, map[string]any{"type": e.ID()})
		}
	}
}

func (e *Entry) itemTable() {
	c := e.c
	bad := func(oracle, f string, a ...any) {
		c.Violation(e.ID()+"/"+oracle, fmt.Sprintf(f, a...), map[string]any{"type": e.ID()})
	}
	d := e.T.D
	var vals []zs.EV
	if !try(func() { vals = zs.ItemValues(d) }) {
		c.Count("unspecified", 1)
		return
	}
	consts := itemConsts(e.Entry)
	goType := reflect.TypeOf(e.New()).Elem()
	for i, it := range d.Items {
		c.Eval(e.ID()+"."+it.Name, true)
		c.Count("items", 1)
		v, ok := consts[it.Name]
		if !ok {
			if e.Suite != "" && c.itemsOf(e) {
				bad("item", "%s has no constant", it.Name)
			}
			continue
		}
		if v.Type() != goType {
			bad("item", "%s has type %s", it.Name, v.Type())
		}
		if diff := evDiff(vals[i], v); diff != "" {
			bad("item", "%s %s", it.Name, diff)
			return
		}
	}
	// through the wire
	lo, hi := e.T.Range(0)
	probe := map[string]*big.Int{}
	isItem := map[string]string{}
	for i, it := range d.Items {
		isItem[vals[i].I.String()] = it.Name
		for dx := int64(-2); dx <= 2; dx++ {
			probe[new(big.Int).Add(vals[i].I, big.NewInt(dx)).String()] = new(big.Int).Add(vals[i].I, big.NewInt(dx))
		}
		n := new(big.Int).Neg(vals[i].I)
		probe[n.String()] = n
		n = new(big.Int).Not(vals[i].I)
		probe[n.String()] = n
		for s := uint(1); s < 64; s += 7 {
			n = new(big.Int).Add(vals[i].I, new(big.Int).Lsh(big.NewInt(1), s))
			probe[n.String()] = n
		}
	}
	for _, n := range []*big.Int{lo, hi, big.NewInt(0), big.NewInt(1), big.NewInt(-1)} {
		probe[n.String()] = n
	}
	r := c.Rng(e.ID())
	span := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	for i := 0; i < c.N(40, 2000); i++ {
		n := new(big.Int).Add(lo, new(big.Int).Rand(r, span))
		probe[n.String()] = n
	}
	var keys []string
	for k := range probe {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var names []string
	for _, it := range d.Items {
		names = append(names, it.Name)
	}
	for _, key := range keys {
		n := probe[key]
		if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			continue
		}
		v := &zs.Val{T: e.T}
		v.SetBig(n)
		enc, err := zs.EncodeAt(v, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, "reference encoder:", e.ID(), err)
			os.Exit(3)
		}
		c.Eval(e.ID()+"="+key, true)
		o := e.New()
		name, known := isItem[key]
		err = zserio.Unmarshal(append([]byte{}, enc.W.Bytes()...), o.(zserio.Unmarshaler))
		if err != nil {
			if known {
				bad("decode", "decoding %s (%s) failed: %v", name, key, err)
				return
			}
			continue // refused
		}
		got, _ := goInt(reflect.ValueOf(o).Elem())
		if got == nil || got.Cmp(n) != 0 {
			bad("decode", "decoding the number %s gives %v", key, got)
			return
		}
		if known {
			b, err := zserio.Marshal(o.(zserio.Marshaler))
			if err != nil || !bytes.Equal(b, enc.W.Bytes()) {
				bad("encode", "encoding %s (%s) gives %x (%v), right is %x", name, key, b, err, enc.W.Bytes())
				return
			}
		}
		if d.Kind == "enum" && !e.textOf(reflect.ValueOf(o), key, name, names, bad) {
			return
		}
	}
	if d.Kind == "enum" {
		e.enumAPI(names, vals, goType, bad)
	}
}

// itemsOf tells whether constants are registered for a type at all.
func (c *Ctx) itemsOf(e *Entry) bool { return len(itemConsts(e.Entry)) > 0 || len(e.T.D.Items) > 0 }

type valuer interface{ String() string }

// textOf checks text and database form of one number of an enum.
func (e *Entry) textOf(ptr reflect.Value, key, name string, names []string, bad func(string, string, ...any)) bool {
	s, ok := ptr.Elem().Interface().(valuer)
	if !ok {
		bad("text", "%s has no String method", ptr.Elem().Type())
		return false
	}
	txt := s.String()
	if name != "" {
		if txt != name {
			bad("text", "the text of %s (%s) is %q", name, key, txt)
			return false
		}
	} else {
		for _, n := range names {
			if txt == n {
				bad("text", "the text of %s, which is no item, is %q", key, txt)
				return false
			}
		}
	}
	m := ptr.Elem().MethodByName("Value")
	if !m.IsValid() {
		return true
	}
	// database form and back
	e.c.Count("database_values", 1)
	out := m.Call(nil)
	if len(out) != 2 {
		bad("sql", "Value has %d results", len(out))
		return false
	}
	err, _ := out[1].Interface().(error)
	scan, ok := ptr.Interface().(interface{ Scan(any) error })
	if !ok {
		bad("sql", "Value without Scan")
		return false
	}
	_ = scan
	if name != "" && err != nil {
		bad("sql", "Value of %s failed: %v", name, err)
		return false
	}
	if err != nil {
		return true
	}
	dv := out[0].Interface()
	forms := []any{dv}
	if str, ok := dv.(string); ok {
		forms = append(forms, []byte(str), stringer(str))
	}
	for _, f := range forms {
		t := reflect.New(ptr.Elem().Type())
		err := t.Interface().(interface{ Scan(any) error }).Scan(f)
		if name == "" {
			if n, _ := goInt(t.Elem()); err == nil && n.String() != key {
				bad("sql", "the database form %q of %s, which is no item, is read as %s", dv, key, n)
				return false
			}
			continue
		}
		if err != nil {
			bad("sql", "reading back the database form %q (%T) of %s failed: %v", dv, f, name, err)
			return false
		}
		if n, _ := goInt(t.Elem()); n == nil || n.String() != key {
			bad("sql", "reading back the database form %q (%T) of %s (%s) gives %v", dv, f, name, key, n)
			return false
		}
	}
	return true
}

type stringer string

func (s stringer) String() string { return string(s) }

// enumAPI checks the generated functions of an enum.
func (e *Entry) enumAPI(names []string, vals []zs.EV, goType reflect.Type, bad func(string, string, ...any)) {
	vf := reflect.ValueOf(e.Values)
	lists := [][]reflect.Value{vf.Call(nil), vf.Call(nil)}
	for _, l := range lists {
		s := l[0]
		if s.Kind() != reflect.Slice || s.Len() != len(vals) {
			bad("values", "%sValues() gives %v, there are %d items", e.Name, s, len(vals))
			return
		}
		for i := range vals {
			if diff := evDiff(vals[i], s.Index(i)); diff != "" {
				bad("values", "%sValues()[%d] (%s) %s", e.Name, i, names[i], diff)
				return
			}
		}
		// what a caller does to the list is its own business
		for i := 0; i < s.Len(); i++ {
			s.Index(i).SetZero()
		}
	}
	sf := reflect.ValueOf(e.Strings)
	for round := 0; round < 2; round++ {
		s := sf.Call(nil)[0]
		if s.Kind() != reflect.Slice || s.Len() != len(names) {
			bad("strings", "%sStrings() gives %v, right is %v", e.Name, s, names)
			return
		}
		for i := range names {
			if s.Index(i).String() != names[i] {
				bad("strings", "%sStrings()[%d] is %q, right is %q", e.Name, i, s.Index(i), names[i])
				return
			}
			s.Index(i).SetString("x")
		}
	}
	ff := reflect.ValueOf(e.FromString)
	parse := func(s string) (*big.Int, error) {
		out := ff.Call([]reflect.Value{reflect.ValueOf(s)})
		n, _ := goInt(out[0])
		err, _ := out[1].Interface().(error)
		return n, err
	}
	exact := map[string]bool{}
	for i, n := range names {
		exact[n] = true
		v, err := parse(n)
		if err != nil || v == nil || v.Cmp(vals[i].I) != 0 {
			bad("parse", "%sString(%q) gives %v, %v; right is %s", e.Name, n, v, err, vals[i])
			return
		}
	}
	r := e.c.Rng(e.ID() + "strings")
	var others []string
	for i, n := range names {
		others = append(others, strings.ToLower(n), strings.ToUpper(n), n+" ", " "+n, n[:len(n)-1], n+n, n+"\x00", e.Name+"."+n, fmt.Sprint(vals[i]), strings.ReplaceAll(n, "_", ""), e.Name+n)
	}
	others = append(others, "", "0", "unknown", "unknown(0)", e.Name, "nil")
	for i := 0; i < 50; i++ {
		b := make([]byte, r.Intn(6))
		for j := range b {
			b[j] = "ABCDEabc_12"[r.Intn(11)]
		}
		others = append(others, string(b))
	}
	for _, o := range others {
		if exact[o] {
			continue
		}
		e.c.Count("foreign_names", 1)
		if v, err := parse(o); err == nil {
			bad("parse", "%sString(%q), which is no item, gives %v", e.Name, o, v)
			return
		}
		t := reflect.New(goType)
		if sc, ok := t.Interface().(interface{ Scan(any) error }); ok {
			for _, f := range []any{o, []byte(o), stringer(o)} {
				if sc.Scan(f) == nil {
					bad("sql", "reading %q (%T) from a database, which is no item, gives %v", o, f, t.Elem())
					return
				}
			}
		}
	}
	t := reflect.New(goType)
	if sc, ok := t.Interface().(interface{ Scan(any) error }); ok {
		for _, f := range []any{int64(3), 1.5, true, struct{}{}, []string{"A"}, math.Inf(1)} {
			if sc.Scan(f) == nil && !t.Elem().IsZero() {
				bad("sql", "reading %v (%T) from a database gives %v", f, f, t.Elem())
				return
			}
		}
	}
}

// numBits compares the runtime's numbits operator with the model around every
// power of two, where its result changes.
func (c *Ctx) numBits() {
	if !c.mine(0) || c.Only != "" {
		return
	}
	try := func(v uint64) {
		got := 0
		if p := Guard(func() { got = ztype.NumBits(v) }); p != "" {
			c.Violation("numbits/panic", fmt.Sprintf("numbits(%d) panics: %s", v, p), map[string]any{"value": fmt.Sprint(v)})
			return
		}
		c.Count("numbits", 1)
		if want := zs.NumBits(v); got != want && v != 0 {
			c.Violation("numbits", fmt.Sprintf("numbits(%d) is %d, not %d", v, got, want), map[string]any{"value": fmt.Sprint(v)})
		}
	}
	r := c.Rng("numbits")
	for k := uint(0); k < 64; k++ {
		for d := uint64(0); d < 5; d++ {
			try(1<<k + d - 2)
		}
		for i := 0; i < 200; i++ {
			try(r.Uint64() >> k)
		}
	}
}

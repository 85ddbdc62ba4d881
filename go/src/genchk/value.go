package genchk

import (
	"fmt"
	"genreg"
	"math"
	"pbt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"thrift"
	"vm"
)

// The values of a schema's types are vm values; a struct has the fields that it has a value
// for. In a Go value the others are nil, or an enum that is not set.

const unset = math.MinInt32 - 1 // what an enum field holds that is not set

func (d *Decl) key() string { return d.P.Import() + "." + d.Name }

func wireType(ty *Ty) byte {
	switch ty.Is() {
	case "bool":
		return vm.BOOL
	case "byte":
		return vm.BYTE
	case "i16":
		return vm.I16
	case "i32", "enum":
		return vm.I32
	case "i64":
		return vm.I64
	case "double":
		return vm.DOUBLE
	case "string", "binary":
		return vm.STRING
	case "struct", "exception":
		return vm.STRUCT
	case "list":
		return vm.LIST
	case "set":
		return vm.SET
	}
	return vm.MAP
}

// declared is the type a field or element is announced by: binary apart from string.
func declared(ty *Ty) thrift.TType {
	if ty.Is() == "binary" {
		return thrift.BINARY
	}
	return thrift.TType(wireType(ty))
}

// ---- random values

// GenValue draws a value of the type.
func GenValue(t *pbt.T, ty *Ty, depth int) *vm.Val {
	ty = ty.True()
	v := &vm.Val{T: wireType(ty)}
	switch ty.Is() {
	case "bool":
		v.B = t.Bool()
	case "byte":
		v.I = int64(int8(t.I64()))
	case "i16":
		v.I = int64(int16(t.I64()))
	case "i32":
		v.I = int64(int32(t.I64()))
	case "i64":
		v.I = t.I64()
	case "enum":
		// mostly one of its values
		if t.Chance(1, 8) {
			v.I = int64(int32(t.I64()))
		} else {
			v.I = ty.Ref.Values[t.N(uint64(len(ty.Ref.Values)))].V
		}
	case "double":
		v.D = t.F64()
	case "string":
		v.S = t.Text(300)
	case "binary":
		v.S, v.Bin = string(t.Bytes(300)), true
	case "list", "set":
		v.ET, v.EB = wireType(ty.El), ty.El.Is() == "binary"
		seen := map[string]bool{}
		if depth > 0 {
			t.Repeat(8, 2, func(int) {
				e := GenValue(t, ty.El, depth-1)
				if ty.Is() == "set" && !fresh(seen, ty.El, e) {
					return
				}
				v.Elems = append(v.Elems, e)
			})
		}
	case "map":
		v.KT, v.ET = wireType(ty.Key), wireType(ty.El)
		v.KB, v.EB = ty.Key.Is() == "binary", ty.El.Is() == "binary"
		seen := map[string]bool{}
		if depth > 0 {
			t.Repeat(6, 2, func(int) {
				k, e := GenValue(t, ty.Key, depth-1), GenValue(t, ty.El, depth-1)
				if fresh(seen, ty.Key, k) {
					v.Keys, v.Elems = append(v.Keys, k), append(v.Elems, e)
				}
			})
		}
	default:
		return GenFields(t, ty.Ref, depth)
	}
	return v
}

// fresh tells whether the value can become one more element of a set: no number that differs
// from itself, or from an equal one by its sign, and no struct that is equal to another once
// it is read.
func fresh(seen map[string]bool, ty *Ty, v *vm.Val) bool {
	k := Canon(Norm(ty, givenIn(ty, v)))
	if strings.Contains(k, "NaN") || strings.Contains(k, "d-0;") || seen[k] {
		return false
	}
	seen[k] = true
	return true
}

// GenFields draws a struct, some of whose fields have no value.
func GenFields(t *pbt.T, d *Decl, depth int) *vm.Val {
	v := &vm.Val{T: vm.STRUCT, Name: d.Name}
	for _, f := range d.Fields {
		t.Begin()
		if t.Chance(3, 4) && (depth > 0 || !nested(f.Ty)) {
			e := GenValue(t, f.Ty, depth-1)
			if f.Def != nil && t.Chance(1, 5) {
				e = Eval(f.Ty, f.Def)
			}
			v.Fields = append(v.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
		}
		t.End()
	}
	return v
}

// ---- constants

// Eval is the value of a constant of the IDL.
func Eval(ty *Ty, c *CV) *vm.Val {
	ty = ty.True()
	v := &vm.Val{T: wireType(ty)}
	switch ty.Is() {
	case "bool":
		v.B = c.I != 0
	case "double":
		v.D = c.D
		if c.K == "int" {
			v.D = float64(c.I)
		}
	case "string", "binary":
		v.S, v.Bin = c.S, ty.Is() == "binary"
	case "list", "set":
		v.ET, v.EB = wireType(ty.El), ty.El.Is() == "binary"
		for _, e := range c.L {
			v.Elems = append(v.Elems, Eval(ty.El, e))
		}
	case "map":
		v.KT, v.ET = wireType(ty.Key), wireType(ty.El)
		v.KB, v.EB = ty.Key.Is() == "binary", ty.El.Is() == "binary"
		for i, e := range c.L {
			v.Keys, v.Elems = append(v.Keys, Eval(ty.Key, c.Keys[i])), append(v.Elems, Eval(ty.El, e))
		}
	case "struct", "exception":
		v.Name = ty.Ref.Name
		given := map[string]*vm.Val{}
		for i, e := range c.L {
			for _, f := range ty.Ref.Fields {
				if f.Name == c.Keys[i].S {
					given[f.Name] = Eval(f.Ty, e)
				}
			}
		}
		for _, f := range ty.Ref.Fields {
			e := given[f.Name]
			if e == nil {
				e = Initial(f)
			}
			if e != nil {
				v.Fields = append(v.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
			}
		}
	default:
		v.I = c.I
	}
	return v
}

// Initial is what a field holds in a new struct: its default or its type's zero; nil if nothing.
func Initial(f *Field) *vm.Val {
	if f.Def != nil {
		return Eval(f.Ty, f.Def)
	}
	switch f.Ty.Is() {
	case "struct", "exception", "list", "set", "map", "enum", "binary":
		return nil
	}
	return &vm.Val{T: wireType(f.Ty)}
}

// New is a new struct of the declaration.
func New(d *Decl) *vm.Val {
	return Eval(&Ty{K: "named", Ref: d}, &CV{K: "map"})
}

// ---- comparison

// Canon is a text that is the same for equal values, whatever the order of sets and maps.
func Canon(v *vm.Val) string {
	var sb strings.Builder
	canon(&sb, v)
	return sb.String()
}

func canon(sb *strings.Builder, v *vm.Val) {
	switch v.T {
	case vm.BOOL:
		fmt.Fprintf(sb, "%v;", v.B)
	case vm.DOUBLE:
		if v.D != v.D {
			sb.WriteString("dNaN;")
		} else {
			sb.WriteString("d" + strconv.FormatFloat(v.D, 'g', -1, 64) + ";")
		}
	case vm.STRING:
		sb.WriteString(strconv.Quote(v.S) + ";")
	case vm.STRUCT:
		fs := append([]vm.Fld(nil), v.Fields...)
		sort.SliceStable(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
		sb.WriteString("{")
		for _, f := range fs {
			fmt.Fprintf(sb, "%d:%s=", f.ID, vm.TypeName(f.V.T))
			canon(sb, f.V)
		}
		sb.WriteString("}")
	case vm.LIST, vm.SET, vm.MAP:
		var es []string
		for i, e := range v.Elems {
			s := Canon(e)
			if v.T == vm.MAP {
				s = Canon(v.Keys[i]) + "->" + s
			}
			es = append(es, s)
		}
		if v.T != vm.LIST {
			sort.Strings(es)
		}
		fmt.Fprintf(sb, "%s[%s]", vm.TypeName(v.T), strings.Join(es, ","))
	default:
		fmt.Fprintf(sb, "%d;", v.I)
	}
}

func empty(v *vm.Val) bool {
	if v == nil {
		return true
	}
	switch v.T {
	case vm.STRUCT:
		return false
	case vm.STRING:
		return v.S == ""
	case vm.DOUBLE:
		return v.D == 0
	}
	return !v.B && v.I == 0 && len(v.Elems) == 0
}

// Norm leaves out of a value what a struct may leave out of its message without losing it:
// optional fields that hold what a new struct holds, and binary that is empty.
func Norm(ty *Ty, v *vm.Val) *vm.Val {
	ty = ty.True()
	n := *v
	switch ty.Is() {
	case "list", "set", "map":
		n.Keys, n.Elems = nil, nil
		for i, e := range v.Elems {
			if ty.K == "map" {
				n.Keys = append(n.Keys, Norm(ty.Key, v.Keys[i]))
			}
			n.Elems = append(n.Elems, Norm(ty.El, e))
		}
	case "struct", "exception":
		n.Fields = nil
		for _, f := range v.Fields {
			d := ty.Ref.field(f.ID)
			if d == nil || wireType(d.Ty) != f.V.T {
				n.Fields = append(n.Fields, f)
				continue
			}
			if droppable(d, f.V) {
				continue
			}
			f.V = Norm(d.Ty, f.V)
			n.Fields = append(n.Fields, f)
		}
	}
	return &n
}

// droppable: the field may be left out of the message when it holds this.
func droppable(d *Field, v *vm.Val) bool {
	in := Initial(d)
	if d.Ty.Is() == "binary" && v.S == "" && empty(in) {
		return true
	}
	if d.Req != Optional {
		return false
	}
	if in == nil {
		return empty(v)
	}
	if empty(in) && empty(v) || v.T == vm.DOUBLE && v.D == in.D {
		return true
	}
	return Canon(Norm(d.Ty, in)) == Canon(Norm(d.Ty, v))
}

func (d *Decl) field(id int16) *Field {
	for _, f := range d.Fields {
		if f.ID == int(id) {
			return f
		}
	}
	return nil
}

func field(v *vm.Val, id int) *vm.Val {
	for _, f := range v.Fields {
		if int(f.ID) == id {
			return f.V
		}
	}
	return nil
}

// Diff compares two values of a type, "" if they are the same.
func Diff(ty *Ty, got, want *vm.Val, path string) string {
	g, w := Norm(ty, got), Norm(ty, want)
	if Canon(g) == Canon(w) {
		return ""
	}
	if wireType(ty) == vm.STRUCT {
		d := ty.True().Ref
		for _, f := range d.Fields {
			a, b := field(g, f.ID), field(w, f.ID)
			p := path + "." + f.Name
			switch {
			case a == nil && b == nil:
			case a == nil:
				return fmt.Sprintf("%s is missing, want %s", p, b)
			case b == nil:
				return fmt.Sprintf("%s is %s, want nothing", p, a)
			case a.T != b.T:
				return fmt.Sprintf("%s is of type %s, want %s", p, vm.TypeName(a.T), vm.TypeName(b.T))
			default:
				if s := Diff(f.Ty, a, b, p); s != "" {
					return s
				}
			}
		}
	}
	return fmt.Sprintf("%s is %s, want %s", path, clip(g.String()), clip(w.String()))
}

// Same compares two values in memory, where also what a message may leave out has to be there.
func Same(ty *Ty, got, want *vm.Val, path string) string {
	if got == nil {
		return path + " holds nothing"
	}
	if Canon(got) == Canon(want) {
		return ""
	}
	if s := Diff(ty, got, want, path); s != "" {
		return s
	}
	return fmt.Sprintf("%s holds %s, want %s", path, clip(got.String()), clip(want.String()))
}

// ---- Go values

// ToGo makes the Go value of a field, argument or result of that Go type.
func ToGo(ty *Ty, v *vm.Val, rt reflect.Type) reflect.Value {
	ty = ty.True()
	rv := reflect.New(rt).Elem()
	switch ty.Is() {
	case "bool":
		rv.SetBool(v.B)
	case "byte":
		rv.SetUint(uint64(byte(v.I)))
	case "i16", "i32", "i64", "enum":
		rv.SetInt(v.I)
	case "double":
		rv.SetFloat(v.D)
	case "string":
		rv.SetString(v.S)
	case "binary":
		rv.SetBytes([]byte(v.S))
	default:
		rv.Set(reflect.ValueOf(ToElem(ty, v)))
	}
	return rv
}

// ToElem makes the Go value that a program puts into a container.
func ToElem(ty *Ty, v *vm.Val) interface{} {
	ty = ty.True()
	switch ty.Is() {
	case "bool":
		return v.B
	case "byte":
		return byte(v.I)
	case "i16":
		return int16(v.I)
	case "i32":
		return int32(v.I)
	case "i64":
		return v.I
	case "double":
		return v.D
	case "string":
		return v.S
	case "binary":
		return []byte(v.S)
	case "enum":
		// as one of the enum's values, or as a number
		if e := genreg.Enums[ty.Ref.key()]; e != nil && e.Values[0] != nil && v.I%3 != 0 {
			rv := reflect.New(reflect.TypeOf(e.Values[0])).Elem()
			rv.SetInt(v.I)
			return rv.Interface()
		}
		return int32(v.I)
	case "list":
		l := thrift.NewTList(declared(ty.El), 0)
		for _, e := range v.Elems {
			l.Push(ToElem(ty.El, e))
		}
		return l
	case "set":
		s := thrift.NewTSet(declared(ty.El), 0)
		for _, e := range v.Elems {
			s.Add(ToElem(ty.El, e))
		}
		return s
	case "map":
		m := thrift.NewTMap(declared(ty.Key), declared(ty.El), 0)
		for i, e := range v.Elems {
			m.Set(ToElem(ty.Key, v.Keys[i]), ToElem(ty.El, e))
		}
		return m
	}
	x := Construct(ty.Ref)
	Fill(ty.Ref, x, v)
	return x
}

// Missing is what the checks report of declarations without Go code.
type Missing string

// Construct calls the constructor of a struct.
func Construct(d *Decl) interface{} {
	f := genreg.Structs[d.key()]
	if f == nil {
		panic(Missing("the code of " + d.key() + " has no constructor New" + GoName(d.Name)))
	}
	return f()
}

// goField is a field of a struct by the name that its IDL name gives.
func goField(x interface{}, f *Field) reflect.Value {
	rv := reflect.ValueOf(x).Elem().FieldByName(FieldName(f.Name))
	if !rv.IsValid() {
		panic(Missing(fmt.Sprintf("%T has no field %s for %q", x, FieldName(f.Name), f.Name)))
	}
	return rv
}

// Fill sets the fields of a struct that the value has.
func Fill(d *Decl, x interface{}, v *vm.Val) {
	for _, f := range d.Fields {
		if e := field(v, f.ID); e != nil {
			rv := goField(x, f)
			rv.Set(ToGo(f.Ty, e, rv.Type()))
		}
	}
}

// FromGo is the value that a Go value holds, nil if nothing.
func FromGo(ty *Ty, x reflect.Value) *vm.Val {
	ty = ty.True()
	for x.IsValid() && x.Kind() == reflect.Interface {
		if x.IsNil() {
			return nil
		}
		x = x.Elem()
	}
	if !x.IsValid() {
		return nil
	}
	v := &vm.Val{T: wireType(ty)}
	switch ty.Is() {
	case "bool":
		v.B = x.Bool()
	case "byte":
		v.I = int64(int8(x.Uint()))
	case "i16", "i32", "i64", "enum":
		v.I = x.Int()
		if ty.Is() == "enum" && v.I == unset {
			return nil
		}
	case "double":
		v.D = x.Float()
	case "string":
		v.S = x.String()
	case "binary":
		v.Bin = true
		if x.Kind() == reflect.String { // from a container
			v.S = x.String()
			return v
		}
		if x.IsNil() {
			return nil
		}
		v.S = string(x.Bytes())
	case "list":
		l := x.Interface().(thrift.TList)
		v.ET, v.EB = wireType(ty.El), ty.El.Is() == "binary"
		for i := 0; i < l.Len(); i++ {
			v.Elems = append(v.Elems, elem(ty.El, l.At(i)))
		}
	case "set":
		s := x.Interface().(thrift.TSet)
		v.ET, v.EB = wireType(ty.El), ty.El.Is() == "binary"
		for _, e := range s.Values() {
			v.Elems = append(v.Elems, elem(ty.El, e))
		}
	case "map":
		m := x.Interface().(thrift.TMap)
		v.KT, v.ET = wireType(ty.Key), wireType(ty.El)
		v.KB, v.EB = ty.Key.Is() == "binary", ty.El.Is() == "binary"
		for e := range m.Iter() {
			v.Keys, v.Elems = append(v.Keys, elem(ty.Key, e.Key())), append(v.Elems, elem(ty.El, e.Value()))
		}
	default:
		if x.IsNil() {
			return nil
		}
		v.Name = ty.Ref.Name
		for _, f := range ty.Ref.Fields {
			if e := FromGo(f.Ty, goField(x.Interface(), f)); e != nil {
				v.Fields = append(v.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
			}
		}
	}
	return v
}

func elem(ty *Ty, x interface{}) *vm.Val {
	v := FromGo(ty, reflect.ValueOf(x))
	if v == nil {
		panic(Missing(fmt.Sprintf("a container of %s holds %T(%v)", ty.IDL(), x, x)))
	}
	return v
}

// Typed checks that a decoded message has the types that are declared.
func Typed(ty *Ty, w *vm.Val, path string) error {
	ty = ty.True()
	if w.T != wireType(ty) {
		return fmt.Errorf("%s is of type %s, declared %s", path, vm.TypeName(w.T), ty.IDL())
	}
	switch ty.Is() {
	case "list", "set":
		if len(w.Elems) > 0 && w.ET != wireType(ty.El) {
			return fmt.Errorf("%s has elements of type %s, declared %s", path, vm.TypeName(w.ET), ty.IDL())
		}
		for _, e := range w.Elems {
			if err := Typed(ty.El, e, path+"[]"); err != nil {
				return err
			}
		}
	case "map":
		if len(w.Elems) > 0 && (w.ET != wireType(ty.El) || w.KT != wireType(ty.Key)) {
			return fmt.Errorf("%s has entries of type %s to %s, declared %s", path, vm.TypeName(w.KT), vm.TypeName(w.ET), ty.IDL())
		}
		for i, e := range w.Elems {
			if err := Typed(ty.Key, w.Keys[i], path+".key"); err != nil {
				return err
			}
			if err := Typed(ty.El, e, path+"[]"); err != nil {
				return err
			}
		}
	case "struct", "exception":
		seen := map[int16]bool{}
		for _, f := range w.Fields {
			d := ty.Ref.field(f.ID)
			if d == nil {
				return fmt.Errorf("%s has a field %d, which is not declared", path, f.ID)
			}
			if seen[f.ID] {
				return fmt.Errorf("%s has field %d twice", path, f.ID)
			}
			seen[f.ID] = true
			if err := Typed(d.Ty, f.V, path+"."+d.Name); err != nil {
				return err
			}
		}
	}
	return nil
}

package genchk

import (
	"fmt"
	"genreg"
	"pbt"
	"reflect"
	"thrift"
)

// Enums: the constants of an enum have the values of the IDL, and names that are read back.
func Enums(t *pbt.T) {
	guarded(func(t *pbt.T) {
		s := pick(t, func(s *Schema) bool { return len(enums(s)) > 0 })
		ds := enums(s)
		d := ds[t.N(uint64(len(ds)))]
		needs(t, d, map[*Decl]bool{})
		e := genreg.Enums[d.key()]
		if e == nil || e.From == nil || len(e.Values) != len(d.Values) {
			panic(Missing("the code of enum " + d.Name + " is not whole"))
		}
		type value interface {
			String() string
			Value() int
			IsEnum() bool
		}
		name := func(n string) string { return GoName(d.Name) + "_" + n }
		t.Key(s.Encode() + d.Name)
		if len(d.Values) > 1 {
			t.NonTrivial()
		}
		first := map[int64]string{}
		var rt reflect.Type
		for i, v := range d.Values {
			x, ok := e.Values[i].(value)
			if !ok {
				panic(Missing(fmt.Sprintf("%s is %T, not a value of an enum", name(v.Name), e.Values[i])))
			}
			rt = reflect.TypeOf(x)
			if rt.Kind() != reflect.Int64 || reflect.ValueOf(x).Int() != v.V || x.Value() != int(v.V) || !x.IsEnum() {
				t.Failf("%s is %T(%d), Value %d, IsEnum %v; declared %d", name(v.Name), x, reflect.ValueOf(x).Int(), x.Value(), x.IsEnum(), v.V)
			}
			if first[v.V] == "" {
				first[v.V] = v.Name
			}
			if n := x.String(); n != name(first[v.V]) {
				t.Failf("%s prints as %q, want %q", name(v.Name), n, name(first[v.V]))
			}
			for _, n := range []string{name(v.Name), x.String()} {
				if y := e.From(n); y != x {
					t.Failf("%q is read as %T(%v), want %d", n, y, reflect.ValueOf(y).Int(), v.V)
				}
			}
		}
		// what it does not declare
		other := reflect.New(rt).Elem()
		n := t.I64()
		if t.Bool() {
			n = d.Values[t.N(uint64(len(d.Values)))].V + int64(t.Int(-2, 2))
		}
		if _, ok := first[n]; !ok {
			other.SetInt(n)
			x := other.Interface().(value)
			if x.String() != "<UNSET>" || x.Value() != int(n) {
				t.Failf("the value %d, which is not declared, prints as %q", n, x.String())
			}
		}
		text := t.Text(20)
		if t.Bool() {
			text = name(d.Values[t.N(uint64(len(d.Values)))].Name)
			switch t.N(4) {
			case 0:
				text += "_"
			case 1:
				text = text[:len(text)-1]
			case 2:
				text = " " + text
			case 3:
				text = "x" + text[1:]
			}
		}
		for _, v := range d.Values {
			if name(v.Name) == text {
				return
			}
		}
		if y := reflect.ValueOf(e.From(text)); y.Type() != rt || first[y.Int()] != "" {
			t.Failf("%q, which is not declared, is read as %v", text, y)
		}
	})(t)
}

func enums(s *Schema) (ds []*Decl) {
	for _, p := range s.Programs {
		for _, d := range p.Decls {
			if d.Kind == "enum" {
				ds = append(ds, d)
			}
		}
	}
	return
}

// Constants: the constants of the generated code have the values of the IDL.
func Constants(t *pbt.T) {
	guarded(func(t *pbt.T) {
		type at struct {
			p *Program
			c *Const
		}
		var cs []at
		s := pick(t, func(s *Schema) bool {
			for _, p := range s.Programs {
				if len(p.Consts) > 0 {
					return true
				}
			}
			return false
		})
		for _, p := range s.Programs {
			for _, c := range p.Consts {
				cs = append(cs, at{p, c})
			}
		}
		a := cs[t.N(uint64(len(cs)))]
		seen := map[*Decl]bool{}
		for _, d := range refs(a.c.Ty) {
			needs(t, d, seen)
		}
		t.Note("const %s %s = %s", a.c.Ty.IDL(), a.c.Name, a.c.V.IDL())
		t.Key(s.Encode() + a.c.Name)
		if a.c.V.K != "int" || a.c.V.I != 0 {
			t.NonTrivial()
		}
		get := genreg.Consts[a.p.Import()+"."+a.c.Name]
		if get == nil {
			panic(Missing("the code has no constant " + a.c.Name))
		}
		x := get()
		if str := FromGo(a.c.Ty, reflect.ValueOf(x)); str == nil {
			t.Failf("%s holds nothing", a.c.Name)
		} else if e := Typed(a.c.Ty, str, a.c.Name); e != nil {
			t.Failf("%v", e)
		} else if e := Same(a.c.Ty, str, Eval(a.c.Ty, a.c.V), a.c.Name); e != "" {
			t.Failf("%s", e)
		}
	})(t)
}

// Fresh: a new struct holds the defaults of the IDL, whatever was done to others.
func Fresh(t *pbt.T) {
	guarded(func(t *pbt.T) {
		d, ty := pickStruct(t)
		want := New(d)
		var xs []interface{}
		for k := 0; k < 3; k++ {
			x := Construct(d)
			m := FromGo(ty, reflect.ValueOf(x))
			if s := Same(ty, m, want, "new "+d.Name); s != "" {
				t.Failf("%s (after %d others)", s, k)
			}
			if e := Typed(ty, m, d.Name); e != nil {
				t.Failf("%v", e)
			}
			for _, f := range d.Fields {
				def := f.Def != nil && nested(f.Ty)
				if def && touch(t, f.Ty, goField(x, f)) {
					t.NonTrivial()
				}
			}
			xs = append(xs, x)
		}
	})(t)
}

// touch changes what a default value holds.
func touch(t *pbt.T, ty *Ty, rv reflect.Value) bool {
	ty = ty.True()
	if !rv.IsValid() || (rv.Kind() == reflect.Interface || rv.Kind() == reflect.Ptr) && rv.IsNil() {
		return false
	}
	switch x := rv.Interface().(type) {
	case thrift.TMap:
		for _, k := range x.Keys() {
			if t.Bool() {
				v, _ := x.Get(k)
				return touch(t, ty.El, reflect.ValueOf(v))
			}
			x.Set(k, ToElem(ty.El, GenValue(t, ty.El, 1)))
			return true
		}
	case thrift.TSet:
		for _, e := range x.Values() {
			x.Remove(e)
			return true
		}
	case thrift.TList:
		if x.Len() == 0 {
			return false
		}
		if touch(t, ty.El, reflect.ValueOf(x.At(0))) {
			return true
		}
		x.Pop()
		return true
	case []byte:
		if len(x) == 0 {
			return false
		}
		x[t.N(uint64(len(x)))] ^= 1
		return true
	case thrift.TStruct:
		p := reflect.ValueOf(x)
		if p.Kind() != reflect.Ptr || p.Elem().Kind() != reflect.Struct {
			return false
		}
		done := false
		for i := 0; i < p.Elem().NumField(); i++ {
			f := p.Elem().Field(i)
			if p.Elem().Type().Field(i).Name == "TStruct" || !f.CanSet() {
				continue
			}
			switch f.Kind() {
			case reflect.Int64, reflect.Int32, reflect.Int16:
				f.SetInt(f.Int() + 1)
				done = true
			case reflect.String:
				f.SetString(f.String() + "x")
				done = true
			case reflect.Bool:
				f.SetBool(!f.Bool())
				done = true
			}
		}
		return done
	}
	return false
}

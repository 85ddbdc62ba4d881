package genchk

import (
	"fmt"
	"genreg"
	"os"
	"pbt"
	"reflect"
	"strconv"
	"sync"
	"thrift"
	"vm"
)

var (
	setOnce sync.Once
	set     []*Schema
)

// Set is the schemas whose packages are compiled into this program.
func Set() []*Schema {
	setOnce.Do(func() {
		seed, err := strconv.ParseInt(os.Getenv("VERIF_GEN_SEED"), 10, 64)
		if err != nil {
			panic("check error: " + err.Error())
		}
		set = RunSchemas(os.Getenv("VERIF_GEN_KIND"), os.Getenv("VERIF_GEN_TIER"), seed)
	})
	return set
}

// pick chooses a schema that compiles and has what is asked for, and describes it.
func pick(t *pbt.T, has func(*Schema) bool) *Schema {
	var ss []int
	for i, s := range Set() {
		if has(s) {
			ss = append(ss, i)
		}
	}
	if len(ss) == 0 {
		t.Discard()
	}
	i := ss[t.N(uint64(len(ss)))]
	s := Set()[i]
	if why := genreg.Broken[i]; why != "" {
		for _, l := range s.IDL() {
			t.Note("%s", l)
		}
		t.Failf("%s", why)
	}
	return s
}

func structs(s *Schema) (ds []*Decl) {
	for _, p := range s.Programs {
		for _, d := range p.Decls {
			if d.Kind == "struct" || d.Kind == "exception" {
				ds = append(ds, d)
			}
		}
	}
	return
}

func pickStruct(t *pbt.T) (*Decl, *Ty) {
	s := pick(t, func(s *Schema) bool { return len(structs(s)) > 0 })
	ds := structs(s)
	d := ds[t.N(uint64(len(ds)))]
	needs(t, d, map[*Decl]bool{})
	return d, &Ty{K: "named", Ref: d}
}

// needs writes down the declaration and those it uses.
func needs(t *pbt.T, d *Decl, seen map[*Decl]bool) {
	if seen[d] {
		return
	}
	seen[d] = true
	var of func(ty *Ty)
	of = func(ty *Ty) {
		if ty == nil {
			return
		}
		of(ty.Key)
		of(ty.El)
		if ty.Ref != nil {
			needs(t, ty.Ref, seen)
		}
	}
	of(d.Of)
	for _, f := range d.Fields {
		of(f.Ty)
	}
	t.Note("%s: %s", d.P.Import(), d.IDL())
}

type writer interface {
	Write(thrift.TProtocol) thrift.TProtocolException
}
type reader interface {
	Read(thrift.TProtocol) thrift.TProtocolException
}

// guarded turns what the harness finds missing in the code into a failure of the case.
func guarded(fn func(*pbt.T)) func(*pbt.T) {
	return func(t *pbt.T) {
		defer func() {
			if p := recover(); p != nil {
				if m, ok := p.(Missing); ok {
					t.Failf("%s", string(m))
				}
				panic(p)
			}
		}()
		fn(t)
	}
}

// random makes a random struct, and tells what it holds.
func random(t *pbt.T, d *Decl, ty *Ty) (interface{}, *vm.Val) {
	v := GenFields(t, d, 3)
	x := Construct(d)
	if m := FromGo(ty, reflect.ValueOf(x)); Diff(ty, m, New(d), "new "+d.Name) != "" {
		t.Failf("%s", Diff(ty, m, New(d), "new "+d.Name))
	}
	Fill(d, x, v)
	// what is not there is sometimes nil, rather than its default
	for _, f := range d.Fields {
		if rv := goField(x, f); field(v, f.ID) == nil && t.Chance(1, 4) {
			switch rv.Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Slice:
				rv.Set(reflect.Zero(rv.Type()))
			}
		}
	}
	m := FromGo(ty, reflect.ValueOf(x))
	t.Note("value: %s", m)
	if len(m.Fields) > 1 {
		t.NonTrivial()
	}
	return x, m
}

// Written: what a struct writes is its fields, by their declared ids and types, and reading it
// gives them back.
func Written(pr vm.Proto) func(*pbt.T) {
	return guarded(func(t *pbt.T) {
		d, ty := pickStruct(t)
		n := 1
		if t.Chance(1, 6) {
			n = 2
		}
		var ms []*vm.Val
		var xs []interface{}
		buf := thrift.NewTMemoryBuffer()
		p := pr.New(buf)
		for i := 0; i < n; i++ {
			x, m := random(t, d, ty)
			if e := vm.E(x.(writer).Write(p)); e != nil {
				t.Failf("writing fails: %v", e)
			}
			if s := Diff(ty, FromGo(ty, reflect.ValueOf(x)), m, d.Name); s != "" {
				t.Failf("writing changes the struct: %s", s)
			}
			isset(t, d, x, m)
			ms, xs = append(ms, m), append(xs, x)
		}
		if e := p.Flush(); e != nil {
			t.Failf("flushing fails: %v", e)
		}
		raw := append([]byte(nil), buf.Bytes()...)
		at := 0
		for i := range ms {
			var w *vm.Val
			var used int
			var e error
			switch pr.Name {
			case "compact":
				w, used, e = vm.DecodeCompact(raw[at:], vm.STRUCT)
			case "binary", "binary-strict", "binary-old":
				w, used, e = vm.DecodeBinary(raw[at:], vm.STRUCT)
			default:
				w = nil
			}
			if e != nil {
				t.Failf("what is written is not of the format: %v: % x", e, raw)
			}
			at += used
			want := onRead(d, ms[i], w)
			if w != nil {
				if e := Typed(ty, w, d.Name); e != nil {
					t.Failf("the message is wrong: %v", e)
				}
				if s := Diff(ty, w, ms[i], "message: "+d.Name); s != "" {
					t.Failf("%s", s)
				}
				for _, f := range d.Fields {
					if b, has := issetOf(xs[i], f); has && b != (field(w, f.ID) != nil) && (b || f.Ty.Is() != "enum" || f.Req == Optional) {
						t.Failf("IsSet%s is %v, but field %d is written: %v", FieldName(f.Name), b, f.ID, field(w, f.ID) != nil)
					}
				}
			}
			y := Construct(d)
			if e := vm.E(y.(reader).Read(p)); e != nil {
				t.Failf("reading what was written fails: %v: %q", e, raw)
			}
			if s := Diff(ty, FromGo(ty, reflect.ValueOf(y)), want, "read "+d.Name); s != "" {
				t.Failf("%s", s)
			}
		}
		if left := buf.Len(); left != 0 {
			t.Failf("%d bytes are left after reading", left)
		}
	})
}

func issetOf(x interface{}, f *Field) (is, has bool) {
	m := reflect.ValueOf(x).MethodByName("IsSet" + FieldName(f.Name))
	if !m.IsValid() {
		return false, false
	}
	return m.Call(nil)[0].Bool(), true
}

// isset: an optional field says whether it is set, and is when it holds something of its own.
func isset(t *pbt.T, d *Decl, x interface{}, m *vm.Val) {
	for _, f := range d.Fields {
		is, has := issetOf(x, f)
		if !has {
			if f.Req == Optional {
				t.Failf("there is no method IsSet%s for the optional field", FieldName(f.Name))
			}
			continue
		}
		v := field(m, f.ID)
		if v == nil && is {
			t.Failf("IsSet%s of a field that holds nothing", FieldName(f.Name))
		}
		if v != nil && !droppable(f, v) && !is {
			t.Failf("IsSet%s is false, the field is %s", FieldName(f.Name), v)
		}
	}
}

// onRead is what a new struct holds after reading the message of m: what the message leaves
// out is as in a new struct.
func onRead(d *Decl, m, w *vm.Val) *vm.Val {
	o := &vm.Val{T: vm.STRUCT, Name: d.Name}
	for _, f := range d.Fields {
		e := field(m, f.ID)
		if e == nil || w != nil && field(w, f.ID) == nil || w == nil && droppable(f, e) {
			e = Initial(f)
		}
		if e != nil {
			if wireType(f.Ty) == vm.STRUCT && field(m, f.ID) != nil {
				var wf *vm.Val
				if w != nil {
					wf = field(w, f.ID)
				}
				e = onRead(f.Ty.True().Ref, field(m, f.ID), wf)
			} else if field(m, f.ID) != nil {
				e = inContainer(f.Ty, e)
			}
			o.Fields = append(o.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
		}
	}
	return o
}

func inContainer(ty *Ty, v *vm.Val) *vm.Val {
	ty = ty.True()
	n := *v
	switch ty.Is() {
	case "struct", "exception":
		return onRead(ty.Ref, v, nil)
	case "list", "set", "map":
		n.Elems, n.Keys = nil, nil
		for i, e := range v.Elems {
			if ty.K == "map" {
				n.Keys = append(n.Keys, inContainer(ty.Key, v.Keys[i]))
			}
			n.Elems = append(n.Elems, inContainer(ty.El, e))
		}
	}
	return &n
}

// scramble makes the message of a struct as another program may send it: fields in any
// order, some left out, others that this program does not know.
func scramble(t *pbt.T, ty *Ty, v *vm.Val, foreign bool) *vm.Val {
	ty = ty.True()
	n := *v
	switch ty.Is() {
	case "list", "set", "map":
		n.Elems, n.Keys = nil, nil
		for i, e := range v.Elems {
			if ty.K == "map" {
				n.Keys = append(n.Keys, scramble(t, ty.Key, v.Keys[i], foreign))
			}
			n.Elems = append(n.Elems, scramble(t, ty.El, e, foreign))
		}
	case "struct", "exception":
		n.Fields = nil
		for _, f := range v.Fields {
			f.V = scramble(t, ty.Ref.field(f.ID).Ty, f.V, foreign)
			n.Fields = append(n.Fields, f)
		}
		if foreign {
			t.Repeat(3, 1, func(i int) {
				f := vm.Fld{ID: int16(t.I64()), Name: "zz" + strconv.Itoa(i)}
				for used := true; used; {
					used = f.ID <= 0 || ty.Ref.field(f.ID) != nil
					for _, g := range n.Fields {
						used = used || g.ID == f.ID
					}
					if used {
						f.ID++
					}
				}
				f.V = vm.Gen(t, vm.Opts{Depth: 2, Text: true, ScalarKey: true, Binary: true, MaxStr: 40})
				n.Fields = append(n.Fields, f)
			})
		}
		for i := len(n.Fields) - 1; i > 0 && t.Chance(2, 3); i-- {
			j := t.N(uint64(i + 1))
			n.Fields[i], n.Fields[j] = n.Fields[j], n.Fields[i]
		}
	}
	return &n
}

// Received: a struct takes from a message the fields that are its own, whatever their order,
// leaves out the others, and what is not in the message is as in a new struct.
func Received(pr vm.Proto, foreign bool) func(*pbt.T) {
	return guarded(func(t *pbt.T) {
		d, ty := pickStruct(t)
		v := GenFields(t, d, 3)
		w := scramble(t, ty, v, foreign)
		t.Note("message: %s", w)
		if len(w.Fields) > 1 {
			t.NonTrivial()
		}
		var raw []byte
		switch pr.Name {
		case "compact":
			raw = vm.RefCompact(nil, w)
		case "binary", "binary-strict", "binary-old":
			raw = vm.RefBinary(nil, w)
		default:
			buf := thrift.NewTMemoryBuffer()
			p := pr.New(buf)
			if e := vm.Write(p, w); e != nil {
				t.Failf("writing the message fails: %v", e)
			}
			p.Flush()
			raw = append(raw, buf.Bytes()...)
		}
		tap := vm.NewTap(raw)
		p := pr.New(tap)
		y := Construct(d)
		if e := vm.E(y.(reader).Read(p)); e != nil {
			t.Failf("reading fails: %v: %q", e, raw)
		}
		want := given(d, v)
		if s := Diff(ty, FromGo(ty, reflect.ValueOf(y)), want, "read "+d.Name); s != "" {
			t.Failf("%s", s)
		}
		if n := len(tap.Rest()); n != 0 && !pr.Text {
			t.Failf("%d bytes of the message are not read", n)
		}
	})
}

// given is a new struct with the fields of v.
func given(d *Decl, v *vm.Val) *vm.Val {
	o := &vm.Val{T: vm.STRUCT, Name: d.Name}
	for _, f := range d.Fields {
		e := field(v, f.ID)
		if e == nil {
			e = Initial(f)
		} else {
			e = givenIn(f.Ty, e)
		}
		if e != nil {
			o.Fields = append(o.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
		}
	}
	return o
}

func givenIn(ty *Ty, v *vm.Val) *vm.Val {
	ty = ty.True()
	n := *v
	switch ty.Is() {
	case "struct", "exception":
		return given(ty.Ref, v)
	case "list", "set", "map":
		n.Elems, n.Keys = nil, nil
		for i, e := range v.Elems {
			if ty.K == "map" {
				n.Keys = append(n.Keys, givenIn(ty.Key, v.Keys[i]))
			}
			n.Elems = append(n.Elems, givenIn(ty.El, e))
		}
	}
	return &n
}

// Faults: a struct that cannot be written or read whole says so.
func Faults(pr vm.Proto) func(*pbt.T) {
	return guarded(func(t *pbt.T) {
		d, ty := pickStruct(t)
		x, _ := random(t, d, ty)
		buf := thrift.NewTMemoryBuffer()
		p := pr.New(buf)
		if e := vm.E(x.(writer).Write(p)); e != nil {
			t.Failf("writing fails: %v", e)
		}
		p.Flush()
		raw := append([]byte(nil), buf.Bytes()...)
		if len(raw) < 2 {
			return
		}
		for k := 0; k < 12; k++ {
			at := t.N(uint64(len(raw)))
			if k == 0 {
				at = uint64(len(raw) - 1)
			}
			y := Construct(d)
			if e := vm.E(y.(reader).Read(pr.New(vm.NewTap(append([]byte(nil), raw[:at]...))))); e == nil {
				t.Failf("reading %d of %d bytes succeeds: %q", at, len(raw), raw[:at])
			}
			f := &failing{TMemoryBuffer: thrift.NewTMemoryBuffer(), left: int(at), once: k%3 == 2}
			q := pr.New(f)
			e := vm.E(x.(writer).Write(q))
			if e == nil {
				e = vm.E(q.Flush())
			}
			if e == nil && f.hit {
				t.Failf("writing succeeds though the transport fails after %d of %d bytes (only once: %v)", at, len(raw), f.once)
			}
		}
	})
}

type failing struct {
	*thrift.TMemoryBuffer
	left int
	hit  bool
	once bool // it fails once, and works again
}

func (f *failing) Write(b []byte) (int, error) {
	if f.once && f.hit {
		return len(b), nil
	}
	if len(b) > f.left {
		f.hit = true
		n := f.left
		f.left = 0
		return n, fmt.Errorf("the transport fails")
	}
	f.left -= len(b)
	return len(b), nil
}
func (f *failing) WriteByte(c byte) error            { _, e := f.Write([]byte{c}); return e }
func (f *failing) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *failing) Flush() error {
	if f.hit && !f.once {
		return fmt.Errorf("the transport fails")
	}
	return nil
}

type described interface {
	ThriftName() string
	TStructName() string
	TStructFields() thrift.TFieldContainer
	AttributeByFieldId(int) interface{}
	CompareTo(interface{}) (int, bool)
	String() string
}

// Described: a struct knows its name and its fields, gives their values by id, and compares.
func Described(t *pbt.T) {
	guarded(func(t *pbt.T) {
		d, ty := pickStruct(t)
		x, m := random(t, d, ty)
		s, ok := x.(described)
		if !ok {
			t.Failf("%T lacks methods of a struct", x)
		}
		if n := s.ThriftName(); n != d.Name {
			t.Failf("ThriftName is %q", n)
		}
		if n := s.TStructName(); n != GoName(d.Name) {
			t.Failf("TStructName is %q", n)
		}
		for k, fs := range []thrift.TFieldContainer{s.TStructFields(), reflect.ValueOf(x).Elem().FieldByName("TStruct").Interface().(thrift.TStruct).TStructFields(),
			reflect.ValueOf(x).Elem().FieldByName("TStruct").Interface().(thrift.TFieldContainer)} {
			if fs.Len() != len(d.Fields) {
				t.Failf("%d fields are described, not %d", fs.Len(), len(d.Fields))
			}
			for _, f := range d.Fields {
				g := fs.FieldFromFieldId(f.ID)
				if g == nil || g.Name() != f.Name || g.Id() != f.ID || g.TypeId() != declared(f.Ty) {
					t.Failf("field %d %s is described as %v (%d)", f.ID, f.Name, g, k)
				}
				if h := fs.FieldFromFieldName(f.Name); h == nil || h.Id() != f.ID || fs.FieldIdFromFieldName(f.Name) != f.ID || fs.FieldNameFromFieldId(f.ID) != f.Name {
					t.Failf("field %s has the id %d, and %d the name %q (%d)", f.Name, fs.FieldIdFromFieldName(f.Name), f.ID, fs.FieldNameFromFieldId(f.ID), k)
				}
			}
		}
		for _, f := range d.Fields {
			a := s.AttributeByFieldId(f.ID)
			v := FromGo(f.Ty, reflect.ValueOf(a))
			w := field(m, f.ID)
			if (v == nil) != (w == nil) || v != nil && Diff(f.Ty, v, w, f.Name) != "" {
				t.Failf("AttributeByFieldId(%d) is %v, the field holds %v", f.ID, v, w)
			}
		}
		for k := 0; k < 3; k++ {
			if id := int16(t.I64()); d.field(id) == nil {
				if a := s.AttributeByFieldId(int(id)); a != nil {
					t.Failf("AttributeByFieldId(%d) is %v", id, a)
				}
			}
		}
		if len(s.String()) < len(GoName(d.Name)) {
			t.Failf("String is %q", s.String())
		}
		if c, ok := s.CompareTo(nil); !ok || c <= 0 {
			t.Failf("compared to nil: %d %v", c, ok)
		}
		if c, ok := s.CompareTo(7); ok {
			t.Failf("compares with 7: %d", c)
		}
		if hasNaN(m) {
			return
		}
		y := ToElem(ty, m)
		for _, f := range d.Fields {
			if rv := goField(y, f); field(m, f.ID) == nil && rv.Kind() != reflect.Int64 {
				rv.Set(reflect.Zero(rv.Type()))
			}
		}
		if c, ok := s.CompareTo(y); !ok || c != 0 {
			t.Failf("compared to a struct with the same fields: %d %v\n  %v\n  %v", c, ok, x, y)
		}
		// one field changed
		var cand []*Field
		for _, f := range d.Fields {
			if !nested(f.Ty) && field(m, f.ID) != nil {
				cand = append(cand, f)
			}
		}
		if len(cand) == 0 {
			return
		}
		f := cand[t.N(uint64(len(cand)))]
		v := GenValue(t, f.Ty, 1)
		if v.D != v.D || Canon(v) == Canon(field(m, f.ID)) || v.T == vm.DOUBLE && v.D == field(m, f.ID).D {
			return
		}
		rv := goField(y, f)
		rv.Set(ToGo(f.Ty, v, rv.Type()))
		t.Note("with %s %s", f.Name, v)
		c1, ok1 := s.CompareTo(y)
		c2, ok2 := y.(described).CompareTo(x)
		if !ok1 || !ok2 || c1 == 0 || c1 != -c2 {
			t.Failf("compared to a struct that differs in %s: %d %v, the other way %d %v", f.Name, c1, ok1, c2, ok2)
		}
	})(t)
}

func hasNaN(v *vm.Val) bool {
	if v.T == vm.DOUBLE && v.D != v.D {
		return true
	}
	for _, f := range v.Fields {
		if hasNaN(f.V) {
			return true
		}
	}
	for _, e := range append(append([]*vm.Val(nil), v.Elems...), v.Keys...) {
		if hasNaN(e) {
			return true
		}
	}
	return false
}

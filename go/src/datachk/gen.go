// Package datachk states the properties of the library's data structures: lists, sets,
// maps, struct and field metadata, comparison, coercion, numbers and exceptions.
package datachk

import (
	"fmt"
	"math"
	"pbt"
	"simple"
	"sort"
	"strconv"
	"strings"
	"thrift"
)

// Ty describes the values of one pool.
type Ty struct {
	T    thrift.TType
	Elem *Ty // lists and sets; the value of maps
	Key  *Ty
}

func (y *Ty) String() string {
	switch y.T {
	case thrift.LIST, thrift.SET:
		return y.T.String() + "<" + y.Elem.String() + ">"
	case thrift.MAP:
		return "MAP<" + y.Key.String() + "," + y.Elem.String() + ">"
	case thrift.UTF8:
		return "UTF8"
	}
	return y.T.String()
}

var scalars = []thrift.TType{thrift.I32, thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY, thrift.UTF8, thrift.UTF16}

func genTy(t *pbt.T, depth int) *Ty {
	if depth <= 0 || t.Chance(1, 2) {
		return &Ty{T: scalars[t.N(uint64(len(scalars)))]}
	}
	switch t.Pick(2, 2, 2, 2) {
	case 0:
		return &Ty{T: thrift.STRUCT}
	case 1:
		return &Ty{T: thrift.LIST, Elem: genTy(t, depth-1)}
	case 2:
		return &Ty{T: thrift.SET, Elem: genTy(t, depth-1)}
	}
	return &Ty{T: thrift.MAP, Key: genTy(t, depth-1), Elem: genTy(t, depth-1)}
}

// D describes a value; every build makes a new Go value of it.
type D struct {
	Ty    *Ty
	B     bool
	I     int64
	F     float64
	S     string
	Elems []*D // list in order; set distinct; map key, value, key, value with distinct keys
	Kind  int  // structs
	Name  string
	Flds  []fld
	Order []int // of building sets and maps
}

type fld struct {
	id   int
	name string
	ty   *Ty
	v    *D // nil: not set
}

// Kinds of structs.
const (
	generated = iota // the generated sample struct
	custom           // provides its attributes by AttributeByFieldId
	older            // provides them by AttributeFromFieldId and has its own Equals
	bare             // metadata only
)

func small(t *pbt.T) int64 {
	if t.Chance(3, 4) {
		return int64(t.N(6)) - 2
	}
	return t.I64()
}

func gen(t *pbt.T, y *Ty, size int) *D {
	d := &D{Ty: y}
	switch y.T {
	case thrift.BOOL:
		d.B = t.Bool()
	case thrift.BYTE:
		d.I = int64(byte(small(t)))
	case thrift.I16:
		d.I = int64(int16(small(t)))
	case thrift.I32:
		d.I = int64(int32(small(t)))
	case thrift.I64:
		d.I = small(t)
	case thrift.DOUBLE:
		if t.Chance(1, 2) {
			d.F = float64(t.N(7)) - 3
		} else {
			d.F = t.F64()
		}
		if math.IsNaN(d.F) {
			d.F = 0.25
		}
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		if t.Chance(1, 2) {
			d.S = []string{"", "a", "b", "ab", "A", "10", "9"}[t.N(7)]
		} else {
			d.S = t.Text(40)
		}
	case thrift.BINARY:
		if t.Chance(1, 2) {
			d.S = []string{"", "a", "b", "ab", "\x00", "\xff"}[t.N(6)]
		} else {
			d.S = string(t.Bytes(40))
		}
	case thrift.LIST, thrift.SET, thrift.MAP:
		n := t.Int(0, size)
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			t.Begin()
			e := y.Elem
			if y.T == thrift.MAP {
				e = y.Key
			}
			v := gen(t, e, size-1)
			var w *D
			if y.T == thrift.MAP {
				w = gen(t, y.Elem, size-1)
			}
			t.End()
			if y.T != thrift.LIST {
				if seen[v.Key()] {
					continue
				}
				seen[v.Key()] = true
			}
			d.Elems = append(d.Elems, v)
			if w != nil {
				d.Elems = append(d.Elems, w)
			}
		}
	case thrift.STRUCT:
		d.Kind = t.Pick(3, 4, 1, 1)
		switch d.Kind {
		case generated:
			d.Name = "ContainerOfEnums"
			for i := 0; i < 9; i++ {
				v := int64(0)
				if t.Chance(1, 3) {
					v = int64(t.N(3))
				}
				if t.Chance(1, 12) {
					v = int64(int32(t.I64()))
				} else if t.Chance(1, 12) { // not set, and the value that is the same to 32 bits
					v = []int64{math.MinInt32 - 1, math.MaxInt32, math.MinInt32}[t.N(3)]
				}
				d.Flds = append(d.Flds, fld{id: i + 1, ty: &Ty{T: thrift.I32}, v: &D{Ty: &Ty{T: thrift.I32}, I: v}})
			}
		case bare, custom, older:
			// a name belongs to one Go type
			d.Name = []string{"", "S", "Old", "Bare"}[d.Kind] + []string{"", "T"}[t.Pick(4, 1)]
			n := t.Int(0, 3)
			id := 0
			for i := 0; i < n; i++ {
				t.Begin()
				id += 1 + t.Pick(6, 1, 1)
				f := fld{id: id, name: []string{"f", "g", "h", "k"}[i]}
				if t.Chance(1, 8) {
					f.name = "x"
				}
				dep := 0
				if size > 2 {
					dep = 1
				}
				f.ty = genTy(t, dep)
				if d.Kind != bare && t.Chance(5, 6) {
					f.v = gen(t, f.ty, size-1)
				}
				d.Flds = append(d.Flds, f)
				t.End()
			}
		}
	}
	return d
}

// Key is equal for equal values only.
func (d *D) Key() string {
	if d == nil {
		return "nil"
	}
	switch d.Ty.T {
	case thrift.BOOL:
		return strconv.FormatBool(d.B)
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		return strconv.FormatInt(d.I, 10)
	case thrift.DOUBLE:
		if d.F == 0 {
			return "0"
		}
		return strconv.FormatFloat(d.F, 'g', -1, 64)
	case thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY:
		return strconv.Quote(d.S)
	case thrift.LIST:
		var s []string
		for _, e := range d.Elems {
			s = append(s, e.Key())
		}
		return d.Ty.String1() + "[" + strings.Join(s, ",") + "]"
	case thrift.SET:
		var s []string
		for _, e := range d.Elems {
			s = append(s, e.Key())
		}
		sort.Strings(s)
		return d.Ty.String1() + "{" + strings.Join(s, ",") + "}"
	case thrift.MAP:
		var s []string
		for i := 0; i < len(d.Elems); i += 2 {
			s = append(s, d.Elems[i].Key()+"=>"+d.Elems[i+1].Key())
		}
		sort.Strings(s)
		return d.Ty.String1() + "{" + strings.Join(s, ",") + "}"
	case thrift.STRUCT:
		var s []string
		for _, f := range d.Flds {
			s = append(s, fmt.Sprintf("%d%s:%s=%s", f.id, f.name, f.ty.T, f.v.Key()))
		}
		k := "custom"
		switch d.Kind {
		case generated:
			k = "gen"
		case bare:
			k = "bare"
		case older:
			k = "older"
		}
		return k + strconv.Quote(d.Name) + "(" + strings.Join(s, ",") + ")"
	}
	panic("key")
}

// String1: a container knows the types of its elements but not what those contain.
func (y *Ty) String1() string {
	if y.T == thrift.MAP {
		return fmt.Sprintf("%d<%d,%d>", y.T, y.Key.T, y.Elem.T)
	}
	return fmt.Sprintf("%d<%d>", y.T, y.Elem.T)
}

func (d *D) String() string { return d.Key() }

type rec struct {
	thrift.TStruct
	d *D
}

func (r *rec) AttributeByFieldId(id int) interface{} {
	for _, f := range r.d.Flds {
		if f.id == id && f.v != nil {
			return f.v.Build()
		}
	}
	return nil
}

type oldRec struct {
	thrift.TStruct
	d *D
}

func (r *oldRec) AttributeFromFieldId(id int) interface{} {
	for _, f := range r.d.Flds {
		if f.id == id && f.v != nil {
			return f.v.Build()
		}
	}
	return nil
}

func (r *oldRec) Equals(other interface{}) bool {
	o, ok := other.(*oldRec)
	return ok && r.d.Key() == o.d.Key()
}

// Build makes a Go value of the description.
func (d *D) Build() interface{} {
	switch d.Ty.T {
	case thrift.BOOL:
		return d.B
	case thrift.BYTE:
		return byte(d.I)
	case thrift.I16:
		return int16(d.I)
	case thrift.I32:
		return int32(d.I)
	case thrift.I64:
		return d.I
	case thrift.DOUBLE:
		return d.F
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		return d.S
	case thrift.BINARY:
		return []byte(d.S)
	case thrift.LIST:
		l := thrift.NewTList(d.Ty.Elem.T, len(d.Elems))
		for _, e := range d.Elems {
			l.Push(e.Build())
		}
		return l
	case thrift.SET:
		s := thrift.NewTSet(d.Ty.Elem.T, len(d.Elems))
		for _, i := range d.order(len(d.Elems)) {
			s.Add(d.Elems[i].Build())
		}
		return s
	case thrift.MAP:
		m := thrift.NewTMap(d.Ty.Key.T, d.Ty.Elem.T, len(d.Elems)/2)
		for _, i := range d.order(len(d.Elems) / 2) {
			m.Set(d.Elems[2*i].Build(), d.Elems[2*i+1].Build())
		}
		return m
	case thrift.STRUCT:
		switch d.Kind {
		case generated:
			g := simple.NewContainerOfEnums()
			g.First = simple.UndefinedValues(d.Flds[0].v.I)
			g.Second = simple.DefinedValues(d.Flds[1].v.I)
			g.Third = simple.HeterogeneousValues(d.Flds[2].v.I)
			g.OptionalFourth = simple.UndefinedValues(d.Flds[3].v.I)
			g.OptionalFifth = simple.DefinedValues(d.Flds[4].v.I)
			g.OptionalSixth = simple.HeterogeneousValues(d.Flds[5].v.I)
			g.DefaultSeventh = simple.UndefinedValues(d.Flds[6].v.I)
			g.DefaultEighth = simple.DefinedValues(d.Flds[7].v.I)
			g.DefaultNineth = simple.HeterogeneousValues(d.Flds[8].v.I)
			return g
		case custom:
			return &rec{TStruct: thrift.NewTStruct(d.Name, d.fields()), d: d}
		case older:
			return &oldRec{TStruct: thrift.NewTStruct(d.Name, d.fields()), d: d}
		}
		return thrift.NewTStruct(d.Name, d.fields())
	}
	panic("build")
}

func (d *D) order(n int) []int {
	if len(d.Order) == n {
		return d.Order
	}
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func (d *D) fields() []thrift.TField {
	var f []thrift.TField
	for _, i := range d.order(len(d.Flds)) {
		x := d.Flds[i]
		f = append(f, thrift.NewTField(x.name, x.ty.T, x.id))
	}
	return f
}

func shuffle(t *pbt.T, n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - int(t.N(uint64(i+1)))
		o[i], o[j] = o[j], o[i]
	}
	return o
}

// other describes an equal value that is built in another order.
func (d *D) other(t *pbt.T) *D {
	if d == nil {
		return nil
	}
	e := *d
	e.Elems = nil
	for _, x := range d.Elems {
		e.Elems = append(e.Elems, x.other(t))
	}
	e.Flds = nil
	for _, f := range d.Flds {
		f.v = f.v.other(t)
		e.Flds = append(e.Flds, f)
	}
	switch d.Ty.T {
	case thrift.SET:
		e.Order = shuffle(t, len(d.Elems))
	case thrift.MAP:
		e.Order = shuffle(t, len(d.Elems)/2)
	case thrift.STRUCT:
		e.Order = shuffle(t, len(d.Flds))
	case thrift.DOUBLE:
		if d.F == 0 && t.Bool() {
			e.F = -d.F
		}
	}
	return &e
}

// near describes a value that differs from d in one place, if it differs.
func (d *D) near(t *pbt.T) *D {
	e := *d
	e.Order = nil
	switch {
	case d.Ty.T == thrift.STRUCT && len(d.Flds) > 0:
		e.Flds = append([]fld(nil), d.Flds...)
		i := t.N(uint64(len(e.Flds)))
		if f := &e.Flds[i]; f.v == nil {
			if d.Kind != bare {
				f.v = gen(t, f.ty, 1)
			}
		} else if d.Kind != generated && t.Chance(1, 4) {
			f.v = nil
		} else if d.Kind == generated {
			n := int64(t.N(4))
			switch {
			case f.v.I == math.MinInt32-1 && t.Bool():
				n = math.MaxInt32
			case f.v.I == math.MaxInt32 && t.Bool():
				n = math.MinInt32 - 1
			}
			f.v = &D{Ty: f.v.Ty, I: n}
		} else {
			f.v = f.v.near(t)
		}
		return &e
	case len(d.Elems) > 0 && d.Ty.T == thrift.LIST:
		e.Elems = append([]*D(nil), d.Elems...)
		i := t.N(uint64(len(e.Elems)))
		e.Elems[i] = e.Elems[i].near(t)
		return &e
	case len(d.Elems) > 0 && d.Ty.T == thrift.MAP:
		e.Elems = append([]*D(nil), d.Elems...)
		i := 2*t.N(uint64(len(e.Elems)/2)) + 1
		e.Elems[i] = e.Elems[i].near(t)
		return &e
	case len(d.Elems) > 0 && d.Ty.T == thrift.SET:
		e.Elems = append([]*D(nil), d.Elems[1:]...)
		n := d.Elems[0].near(t)
		for _, x := range e.Elems {
			if x.Key() == n.Key() {
				return &e
			}
		}
		e.Elems = append(e.Elems, n)
		return &e
	}
	return gen(t, d.Ty, 2)
}

// retype describes a container with the same contents and other types of elements or keys, or
// nil if there is none.
func (d *D) retype(t *pbt.T) *D {
	families := [][]thrift.TType{{thrift.I16, thrift.I32, thrift.I64, thrift.BYTE}, {thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY}}
	other := func(y *Ty) *Ty {
		for _, f := range families {
			for i, x := range f {
				if y.T == x {
					return &Ty{T: f[(i+t.Int(1, len(f)-1))%len(f)]}
				}
			}
		}
		return &Ty{T: thrift.I32}
	}
	e, y := *d, *d.Ty
	e.Ty, e.Elems = &y, append([]*D(nil), d.Elems...)
	step, off := 1, 0
	of := &y.Elem
	if y.T == thrift.MAP {
		if step = 2; t.Bool() {
			of = &y.Key
		} else {
			off = 1
		}
	}
	was := *of
	*of = other(was)
	for i := off; i < len(e.Elems); i += step {
		x := *e.Elems[i]
		x.Ty = *of
		switch {
		case (*of).T == thrift.I32 && was.T != thrift.I16 && was.T != thrift.I64 && was.T != thrift.BYTE:
			return nil
		case (*of).T == thrift.I16 && x.I != int64(int16(x.I)), (*of).T == thrift.I32 && x.I != int64(int32(x.I)), (*of).T == thrift.BYTE && x.I != int64(byte(x.I)):
			return nil
		}
		e.Elems[i] = &x
	}
	return &e
}

// pool draws n values of a type, among them equal and nearly equal ones.
func pool(t *pbt.T, y *Ty, n, size int) []*D {
	var p []*D
	for i := 0; i < n; i++ {
		t.Begin()
		switch {
		case i > 0 && t.Chance(1, 3):
			p = append(p, p[t.N(uint64(i))].near(t))
		case i > 0 && t.Chance(1, 5):
			p = append(p, p[t.N(uint64(i))].other(t))
		default:
			p = append(p, gen(t, y, size))
		}
		t.End()
	}
	return p
}

// natural compares values of types with an order everybody knows; ok is false for others.
func natural(a, b *D) (int, bool) {
	c := func(less, more bool) int {
		if less {
			return -1
		}
		if more {
			return 1
		}
		return 0
	}
	switch a.Ty.T {
	case thrift.BOOL:
		return c(!a.B && b.B, a.B && !b.B), true
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		return c(a.I < b.I, a.I > b.I), true
	case thrift.DOUBLE:
		return c(a.F < b.F, a.F > b.F), true
	case thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY:
		return c(a.S < b.S, a.S > b.S), true
	}
	return 0, false
}

// Describe renders a value of the library in the form of D.Key.
func describe(x interface{}, y *Ty) string {
	if x == nil {
		return "nil"
	}
	bad := func() string { return fmt.Sprintf("%T(%v) where %s is due", x, x, y) }
	switch y.T {
	case thrift.BOOL:
		if v, ok := x.(bool); ok {
			return strconv.FormatBool(v)
		}
	case thrift.BYTE:
		if v, ok := x.(byte); ok {
			return strconv.Itoa(int(v))
		}
	case thrift.I16:
		if v, ok := x.(int16); ok {
			return strconv.Itoa(int(v))
		}
	case thrift.I32:
		if v, ok := x.(int32); ok {
			return strconv.Itoa(int(v))
		}
	case thrift.I64:
		if v, ok := x.(int64); ok {
			return strconv.FormatInt(v, 10)
		}
	case thrift.DOUBLE:
		if v, ok := x.(float64); ok {
			return (&D{Ty: y, F: v}).Key()
		}
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		if v, ok := x.(string); ok {
			return strconv.Quote(v)
		}
	case thrift.BINARY:
		if v, ok := x.([]byte); ok {
			return strconv.Quote(string(v))
		}
	case thrift.LIST:
		if v, ok := x.(thrift.TList); ok {
			var s []string
			for i := 0; i < v.Len(); i++ {
				s = append(s, describe(v.At(i), y.Elem))
			}
			return fmt.Sprintf("%d<%d>", thrift.LIST, v.ElemType()) + "[" + strings.Join(s, ",") + "]"
		}
	case thrift.SET:
		if v, ok := x.(thrift.TSet); ok {
			var s []string
			for _, e := range v.Values() {
				s = append(s, describe(e, y.Elem))
			}
			sort.Strings(s)
			return fmt.Sprintf("%d<%d>", thrift.SET, v.ElemType()) + "{" + strings.Join(s, ",") + "}"
		}
	case thrift.MAP:
		if v, ok := x.(thrift.TMap); ok {
			var s []string
			for e := range v.Iter() {
				s = append(s, describe(e.Key(), y.Key)+"=>"+describe(e.Value(), y.Elem))
			}
			sort.Strings(s)
			return fmt.Sprintf("%d<%d,%d>", thrift.MAP, v.KeyType(), v.ValueType()) + "{" + strings.Join(s, ",") + "}"
		}
	case thrift.STRUCT:
		switch v := x.(type) {
		case *rec:
			return v.d.Key()
		case *oldRec:
			return v.d.Key()
		case *simple.ContainerOfEnums:
			d := &D{Ty: y, Kind: generated, Name: v.ThriftName()}
			for i, n := range []int64{int64(v.First), int64(v.Second), int64(v.Third), int64(v.OptionalFourth), int64(v.OptionalFifth), int64(v.OptionalSixth), int64(v.DefaultSeventh), int64(v.DefaultEighth), int64(v.DefaultNineth)} {
				ty := &Ty{T: thrift.I32}
				d.Flds = append(d.Flds, fld{id: i + 1, ty: ty, v: &D{Ty: ty, I: n}})
			}
			return d.Key()
		case thrift.TStruct:
			d := &D{Ty: y, Kind: bare, Name: v.ThriftName()}
			for f := range v.TStructFields().Iter() {
				d.Flds = append(d.Flds, fld{id: f.Id(), name: f.Name(), ty: &Ty{T: f.TypeId()}})
			}
			return d.Key()
		}
	}
	return bad()
}

// coercible gives another Go value that converts to d, which is of a scalar type.
func coercible(t *pbt.T, d *D) (interface{}, bool) {
	switch d.Ty.T {
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		switch t.Pick(3, 2, 2, 2, 1, 6, 1) {
		case 5:
			if x, ok := goInt(t, d.I, d.Ty.T == thrift.BYTE); ok {
				return x, true
			}
		case 6:
			if d.I == 0 || d.I == 1 {
				return d.I == 1, true
			}
		case 0:
			return int(d.I), true
		case 1:
			return strconv.FormatInt(d.I, 10), true
		case 2:
			return d.I, true
		case 3:
			if d.I >= 0 {
				return uint64(d.I), true
			}
		case 4:
			if d.I >= -(1<<40) && d.I <= 1<<40 {
				return float64(d.I), true
			}
		}
		return d.I, true
	case thrift.DOUBLE:
		if d.F == math.Trunc(d.F) && math.Abs(d.F) < 1<<50 {
			if t.Bool() && !math.Signbit(d.F) {
				if x, ok := goInt(t, int64(d.F), false); ok {
					return x, true
				}
			}
			return int(d.F), true
		}
		return strconv.FormatFloat(d.F, 'g', -1, 64), true
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		return []byte(d.S), true
	case thrift.BINARY:
		return d.S, true
	}
	return nil, false
}

// goInt is i as one of Go's integer types that hold it; bytes may be given signed.
func goInt(t *pbt.T, i int64, bits8 bool) (x interface{}, ok bool) {
	same := func(j int64) bool { return j == i || bits8 && byte(j) == byte(i) }
	switch t.N(9) {
	case 0:
		return int8(i), same(int64(int8(i)))
	case 1:
		return int16(i), same(int64(int16(i)))
	case 2:
		return int32(i), same(int64(int32(i)))
	case 3:
		return uint8(i), same(int64(uint8(i)))
	case 4:
		return uint16(i), same(int64(uint16(i)))
	case 5:
		return uint32(i), same(int64(uint32(i)))
	case 6:
		return uint(i), i >= 0
	case 7:
		return float32(i), i >= 0 && int64(float32(i)) == i && i < 1<<24
	}
	return int(i), true
}

// unfit gives a Go value that does not convert to the type.
func unfit(y *Ty) interface{} {
	switch y.T {
	case thrift.BOOL:
		return thrift.NewTListDefault()
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE:
		return "one"
	case thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY:
		return thrift.NewTMapDefault()
	case thrift.STRUCT:
		return 7
	case thrift.LIST:
		return thrift.NewTSetDefault()
	}
	return thrift.NewTListDefault()
}

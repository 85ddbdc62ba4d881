package datachk

import (
	"bytes"
	"fmt"
	"math"
	"pbt"
	"simple"
	"strconv"
	"thrift"
)

type stringer string

func (s stringer) String() string { return string(s) }

// source is a Go value and what the conversions should make of it.
type source struct {
	v     interface{}
	what  string
	isInt bool // a whole number that int64 or uint64 can express
	i     int64
	u     uint64
	isF   bool // a float; its whole part fits an int64
	f     float64
	bits  int
	text  *string // a text
	raw   []byte
	b     *bool
	num   thrift.Numeric
	enum  thrift.Enumer
	cont  thrift.TType // a container or struct
	junk  bool
}

// Go types as they are generated for typedefs of the IDL
type (
	namedBool   bool
	namedByte   byte
	namedI16    int16
	namedI32    int32
	namedI64    int64
	namedDouble float64
	namedString string
	namedBinary []byte
)

// genSource draws a value, sometimes of a typedef.
func genSource(t *pbt.T) source {
	s := genPlain(t)
	if !t.Chance(1, 6) {
		return s
	}
	switch v := s.v.(type) {
	case bool:
		s.v = namedBool(v)
	case byte:
		s.v = namedByte(v)
	case int16:
		s.v = namedI16(v)
	case int32:
		s.v = namedI32(v)
	case int64:
		s.v = namedI64(v)
	case float64:
		s.v = namedDouble(v)
	case string:
		s.v = namedString(v)
	case []byte:
		s.v = namedBinary(v)
	default:
		return s
	}
	s.what += fmt.Sprintf(" (%T)", s.v)
	return s
}

func genPlain(t *pbt.T) source {
	whole := func(v interface{}, i int64, u uint64) source {
		return source{v: v, isInt: true, i: i, u: u, what: fmt.Sprintf("%T %v", v, v)}
	}
	i := small(t)
	switch t.Pick(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 6, 2, 3, 2, 2, 1, 1) {
	case 0:
		return whole(int(i), i, uint64(i))
	case 1:
		return whole(int8(i), int64(int8(i)), uint64(int8(i)))
	case 2:
		return whole(int16(i), int64(int16(i)), uint64(int16(i)))
	case 3:
		return whole(int32(i), int64(int32(i)), uint64(int32(i)))
	case 4:
		return whole(i, i, uint64(i))
	case 5:
		return whole(uint(i), i, uint64(uint(i)))
	case 6:
		return whole(uint8(i), int64(uint8(i)), uint64(uint8(i)))
	case 7:
		return whole(uint16(i), int64(uint16(i)), uint64(uint16(i)))
	case 8:
		return whole(uint32(i), int64(uint32(i)), uint64(uint32(i)))
	case 9:
		return whole(uint64(i), i, uint64(i))
	case 10:
		f := t.F64()
		if math.IsNaN(f) || math.Abs(f) >= 1<<62 {
			f = 2.75
		}
		return source{v: f, isF: true, f: f, bits: 64, what: fmt.Sprintf("float64 %v", f)}
	case 11:
		f := float32(t.F64())
		if f != f || math.Abs(float64(f)) >= 1<<62 {
			f = 2.75
		}
		return source{v: f, isF: true, f: float64(f), bits: 32, what: fmt.Sprintf("float32 %v", f)}
	case 12:
		b := t.Bool()
		return source{v: b, b: &b, what: fmt.Sprint(b)}
	case 13:
		var s string
		switch t.Pick(4, 2, 2, 1) {
		case 0:
			s = strconv.FormatInt(i, 10)
		case 1:
			f := t.F64()
			if math.IsNaN(f) {
				f = 0.5
			}
			s = strconv.FormatFloat(f, 'g', -1, 64)
		case 2:
			s = t.Text(20)
		case 3:
			s = []string{"", "true", "false", "0", "1", "-", "1x", "x1", " 1", "1 ", "0x10", "1.5", "99999999999999999999", "one"}[t.N(14)]
		}
		if t.Chance(1, 6) {
			return source{v: stringer(s), text: &s, what: fmt.Sprintf("Stringer %q", s)}
		}
		return source{v: s, text: &s, what: fmt.Sprintf("%q", s)}
	case 14:
		b := t.Bytes(12)
		return source{v: b, raw: b, what: fmt.Sprintf("bytes %q", b)}
	case 15:
		var n thrift.Numeric
		switch t.Pick(2, 1, 2) {
		case 0:
			n = thrift.NewNumericFromI64(i)
		case 1:
			n = thrift.NewNumericFromI32(int32(i))
		case 2:
			n = thrift.NewNumericFromString(strconv.FormatInt(i, 10))
		}
		return source{v: n, num: n, what: "Numeric " + n.String()}
	case 16:
		var e thrift.Enumer
		switch t.N(3) {
		case 0:
			e = simple.UndefinedValues(i)
		case 1:
			e = simple.DefinedValues(i)
		case 2:
			e = simple.HeterogeneousValues(i)
		}
		return source{v: e, enum: e, what: fmt.Sprintf("%T %d", e, i)}
	case 17:
		c := []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP, thrift.STRUCT}[t.N(4)]
		d := gen(t, containerTy(t, c), 2)
		return source{v: d.Build(), cont: c, what: d.Key()}
	case 18:
		return source{what: "nil"}
	}
	return source{v: []interface{}{map[string]int{}, struct{}{}, []int{1}, complex(1, 2)}[t.N(4)], junk: true, what: "something else"}
}

func containerTy(t *pbt.T, c thrift.TType) *Ty {
	switch c {
	case thrift.STRUCT:
		return &Ty{T: c}
	case thrift.MAP:
		return &Ty{T: c, Key: genTy(t, 0), Elem: genTy(t, 0)}
	}
	return &Ty{T: c, Elem: genTy(t, 0)}
}

func wholeAs(ty thrift.TType, i int64) interface{} {
	switch ty {
	case thrift.BYTE:
		return byte(i)
	case thrift.I16:
		return int16(i)
	case thrift.I32:
		return int32(i)
	}
	return i
}

// fits: whether the integer type holds the number without loss.
func fits(ty thrift.TType, i int64) bool {
	switch ty {
	case thrift.BYTE:
		return i >= 0 && i <= 255
	case thrift.I16:
		return int64(int16(i)) == i
	case thrift.I32:
		return int64(int32(i)) == i
	}
	return true
}

// expected gives what the conversion should make of the source. known is false where the
// library is free to choose.
func expected(s source, ty thrift.TType) (want interface{}, ok, known bool) {
	isInt := ty == thrift.BYTE || ty == thrift.I16 || ty == thrift.I32 || ty == thrift.I64
	isText := ty == thrift.STRING || ty == thrift.UTF8 || ty == thrift.UTF16
	txt := func(v string) (interface{}, bool, bool) {
		if isText {
			return v, true, true
		}
		return []byte(v), true, true
	}
	if ty == thrift.LIST || ty == thrift.SET || ty == thrift.MAP || ty == thrift.STRUCT {
		if s.v == nil {
			return nil, true, false // an empty one
		}
		if s.cont == ty {
			return s.v, true, true
		}
		return nil, false, true
	}
	text := isText || ty == thrift.BINARY
	switch {
	case s.v == nil:
		switch {
		case ty == thrift.BOOL:
			return false, true, true
		case isInt:
			return wholeAs(ty, 0), true, true
		case ty == thrift.DOUBLE:
			return float64(0), true, true
		case isText:
			return "", true, true
		}
		return nil, true, true
	case s.isInt || s.enum != nil && !text || s.num != nil && !text:
		i, u := s.i, s.u
		if s.enum != nil {
			i = int64(s.enum.Value())
			u = uint64(i)
		}
		if s.num != nil {
			i = s.num.Int64()
			u = uint64(i)
		}
		big := false
		switch s.v.(type) {
		case uint, uint64:
			big = i < 0
		}
		switch {
		case ty == thrift.BOOL:
			return i != 0, true, true
		case isInt:
			return wholeAs(ty, i), true, true
		case ty == thrift.DOUBLE:
			if big {
				return float64(u), true, true
			}
			return float64(i), true, true
		}
		if big {
			return txt(strconv.FormatUint(u, 10))
		}
		return txt(strconv.FormatInt(i, 10))
	case s.enum != nil:
		return txt(s.enum.String())
	case s.num != nil:
		return txt(s.num.String())
	case s.isF:
		switch {
		case ty == thrift.BOOL:
			return s.f != 0, true, true
		case isInt:
			return wholeAs(ty, int64(s.f)), true, true
		case ty == thrift.DOUBLE:
			return s.f, true, true
		}
		return txt(strconv.FormatFloat(s.f, 'g', -1, s.bits))
	case s.b != nil:
		switch {
		case ty == thrift.BOOL:
			return *s.b, true, true
		case isInt:
			return wholeAs(ty, b2i(*s.b)), true, true
		case ty == thrift.DOUBLE:
			return float64(b2i(*s.b)), true, true
		}
		return txt(strconv.FormatBool(*s.b))
	case s.text != nil:
		switch {
		case ty == thrift.BOOL:
			return *s.text != "" && *s.text != "0" && *s.text != "false", true, true
		case isInt:
			i, err := strconv.ParseInt(*s.text, 10, 64)
			if err != nil {
				return nil, false, true
			}
			return wholeAs(ty, i), true, fits(ty, i)
		case ty == thrift.DOUBLE:
			f, err := strconv.ParseFloat(*s.text, 64)
			if err != nil {
				return nil, false, true
			}
			return f, true, true
		}
		return txt(*s.text)
	case s.raw != nil:
		if text {
			return txt(string(s.raw))
		}
		return nil, false, false
	case s.cont == thrift.STRUCT && ty != thrift.BOOL:
		return nil, false, false // may show itself as a text
	case s.cont == thrift.STRUCT:
		return nil, false, false
	}
	return nil, false, true
}

// Coerce: converting Go values to the types of the protocol.
func Coerce(t *pbt.T) {
	s := genSource(t)
	all := append([]thrift.TType{thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST}, scalars...)
	ty := all[t.N(uint64(len(all)))]
	t.Note("%s.CoerceData(%s)", ty, s.what)
	want, ok, known := expected(s, ty)
	got, gok := ty.CoerceData(s.v)
	if known {
		if gok != ok {
			t.Failf("converts = %v (%T %v), want %v", gok, got, got, ok)
		}
		if ok {
			same := false
			if a, isB := want.([]byte); isB {
				b, isB := got.([]byte)
				same = isB && bytes.Equal(a, b)
			} else if f, isF := want.(float64); isF {
				g, isF := got.(float64)
				same = isF && (f == g || f != f && g != g)
			} else {
				same = want == got
			}
			if !same {
				t.Failf("converted to %T %#v, want %T %#v", got, got, want, want)
			}
		}
		t.NonTrivial()
	}
	if gok && got != nil {
		// what a conversion gives is a value of the type: converting it again changes nothing
		again, ok := ty.CoerceData(got)
		if !ok {
			t.Failf("%T %v is not a value of the type", got, got)
		}
		if c, ok := ty.Compare(again, got); (!ok || c != 0) && got == got {
			t.Failf("converting again gives %v for %v", again, got)
		}
	}
	if s.v == nil && ty.IsContainer() {
		n := -1
		switch c := got.(type) {
		case thrift.TMap:
			if ty == thrift.MAP {
				n = c.Len()
			}
		case thrift.TList:
			if ty == thrift.LIST {
				n = c.Len()
			}
		case thrift.TSet:
			if ty == thrift.SET {
				n = c.Len()
			}
		}
		if !gok || n != 0 {
			t.Failf("nil converted to %T %v, %v", got, got, gok)
		}
	}
	t.Label(fmt.Sprintf("%s %v", ty, gok))
}

// TypeOf: the type of a Go value.
func TypeOf(t *pbt.T) {
	y := genTy(t, 1)
	d := gen(t, y, 2)
	v := d.Build()
	want := y.T
	if !untyped(y) {
		want = thrift.STRING
	}
	if y.T == thrift.I32 && t.Bool() {
		v = int(d.I)
	}
	if y.T == thrift.DOUBLE && t.Bool() {
		v = float32(d.F)
	}
	if y.T == thrift.BYTE && t.Bool() {
		v = int8(d.I)
	}
	t.Note("%T %v", v, v)
	got := thrift.TypeFromValue(v)
	if got != want {
		t.Failf("TypeFromValue(%T) = %s, want %s", v, got, want)
	}
	if x, ok := got.CoerceData(v); !ok || describe(x, y) != d.Key() && !isF32(v) {
		t.Failf("%v is not a value of its type: %T %v, %v", v, x, x, ok)
	}
	for _, v := range []interface{}{map[string]int{}, struct{}{}, []string{"a"}} {
		if g := thrift.TypeFromValue(v); g != thrift.STOP {
			t.Failf("TypeFromValue(%T) = %s", v, g)
		}
	}
	if g := thrift.TypeFromValue(nil); !g.IsEmptyType() {
		t.Failf("TypeFromValue(nil) = %s", g)
	}
	t.NonTrivial()
	t.Label(y.T.String())
}

func isF32(v interface{}) bool { _, ok := v.(float32); return ok }

var typeNames = map[byte]string{0: "STOP", 1: "VOID", 2: "BOOL", 3: "BYTE", 4: "DOUBLE", 6: "I16", 8: "I32", 10: "I64", 11: "STRING", 12: "STRUCT", 13: "MAP", 14: "SET", 15: "LIST"}

// TypeCodes: what the library says about type codes.
func TypeCodes(t *pbt.T) {
	c := byte(t.N(20))
	if t.Chance(1, 4) {
		c = byte(t.N(256))
	}
	p := thrift.TType(c)
	in := func(l ...byte) bool { return bytes.IndexByte(l, c) >= 0 }
	t.Note("type %d", c)
	chk := func(what string, got, want bool) {
		if got != want {
			t.Failf("%s of type %d is %v", what, c, got)
		}
	}
	chk("IsBaseType", p.IsBaseType(), in(2, 3, 4, 6, 8, 10, 11, 16, 17, 18))
	chk("IsEmptyType", p.IsEmptyType(), in(0, 1))
	chk("IsNumericType", p.IsNumericType(), in(2, 3, 4, 6, 8, 10, 16))
	chk("IsStringType", p.IsStringType(), in(11, 16, 17, 18))
	chk("IsContainer", p.IsContainer(), in(13, 14, 15))
	chk("IsStruct", p.IsStruct(), c == 12)
	chk("IsMap", p.IsMap(), c == 13)
	chk("IsSet", p.IsSet(), c == 14)
	chk("IsList", p.IsList(), c == 15)
	chk("IsInt", p.IsInt(), in(3, 6, 8, 10))
	chk("IsEnum", p.IsEnum(), c == 16)
	if n, ok := typeNames[c]; ok && p.String() != n {
		t.Failf("type %d is called %s", c, p)
	}
	wire := c
	if c == thrift.BINARY {
		wire = thrift.STRING
	}
	if got := p.ThriftTypeId(); got != wire {
		t.Failf("type %d goes on the wire as %d", c, got)
	}
	d := byte(t.N(20))
	q := thrift.TType(d)
	for _, o := range []interface{}{q, d, int(d), int32(d), int64(d), uint(d), uint32(d), uint64(d), float64(d)} {
		if got := p.Equals(o); got != (c == d) {
			t.Failf("type %d equals %T %v: %v", c, o, o, got)
		}
		if got := p.LessType(o); got != (c < d) {
			t.Failf("type %d is less than %T %v: %v", c, o, o, got)
		}
		if p.Coerce(o) != q {
			t.Failf("%T %v is type %d", o, o, p.Coerce(o))
		}
	}
	t.NonTrivial()
}

// Numbers: numbers made from one representation and asked for another.
func Numbers(t *pbt.T) {
	var n thrift.Numeric
	i := t.I64()
	same := func(f, g float64) bool { return f == g || f != f && g != g }
	whole := func(n thrift.Numeric, i int64) {
		t.NonTrivial()
		if n.Int64() != i || n.Int32() != int32(i) || n.Int16() != int16(i) || n.Byte() != byte(i) || n.Int() != int(i) {
			t.Failf("Int64 %d, Int32 %d, Int16 %d, Byte %d, Int %d", n.Int64(), n.Int32(), n.Int16(), n.Byte(), n.Int())
		}
	}
	float := func(n thrift.Numeric, f float64) {
		if !same(n.Float64(), f) || !same(float64(n.Float32()), float64(float32(f))) {
			t.Failf("Float64 %v, Float32 %v", n.Float64(), n.Float32())
		}
	}
	text := func(s string) thrift.Numeric {
		if t.Bool() {
			return thrift.NewNumericFromString(s)
		}
		return thrift.NewNumericFromJSONString(s, false)
	}
	f := t.F64()
	fits := math.Abs(f) < 1<<62
	switch t.Pick(2, 1, 3, 2, 3, 1) {
	case 0:
		t.Note("from int64 %d", i)
		n = thrift.NewNumericFromI64(i)
		whole(n, i)
		float(n, float64(i))
		if n.String() != strconv.FormatInt(i, 10) {
			t.Failf("String %q", n.String())
		}
	case 1:
		i = int64(int32(i))
		t.Note("from int32 %d", i)
		n = thrift.NewNumericFromI32(int32(i))
		whole(n, i)
		float(n, float64(i))
		if n.String() != strconv.FormatInt(i, 10) {
			t.Failf("String %q", n.String())
		}
	case 2:
		t.Note("from float64 %v", f)
		n = thrift.NewNumericFromDouble(f)
		float(n, f)
		if fits {
			whole(n, int64(f))
		}
		if back := thrift.NewNumericFromString(n.String()); !same(back.Float64(), f) {
			t.Failf("String %q gives %v", n.String(), back.Float64())
		}
	case 3:
		s := strconv.FormatInt(i, 10)
		t.Note("from text %s", s)
		n = text(s)
		whole(n, i)
		float(n, float64(i))
		if n.String() != s {
			t.Failf("String %q", n.String())
		}
	case 4:
		s := strconv.FormatFloat(f, []byte{'g', 'e', 'f'}[t.N(3)], -1, 64)
		switch {
		case math.IsInf(f, 1):
			s = "Infinity"
		case math.IsInf(f, -1):
			s = "-Infinity"
		}
		t.Note("from text %s", s)
		n = text(s)
		float(n, f)
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			whole(n, i)
		} else if fits {
			whole(n, int64(f))
		}
		if n.String() != s {
			t.Failf("String %q", n.String())
		}
	case 5:
		n = thrift.NewNumericFromJSONString("", true)
		t.Note("null")
		whole(n, 0)
		float(n, 0)
	}
}

package datachk

import (
	"fmt"
	"pbt"
	"simple"
	"strings"
	"thrift"
)

type comparer interface {
	CompareTo(other interface{}) (int, bool)
	Equals(other interface{}) bool
}

func sign(c int) int {
	if c < 0 {
		return -1
	}
	if c > 0 {
		return 1
	}
	return 0
}

// Compare: the laws of the order of values of each type.
func Compare(t *pbt.T) {
	y := genTy(t, 2)
	p := pool(t, y, 5, 3)
	if (y.T == thrift.LIST || y.T == thrift.SET || y.T == thrift.MAP) && t.Chance(1, 4) {
		z := *y
		z.Elem = genTy(t, 1)
		p = append(p, pool(t, &z, 2, 2)...) // containers of something else
		t.Label("different elements")
	}
	a, b, c := p[t.N(uint64(len(p)))], p[t.N(uint64(len(p)))], p[t.N(uint64(len(p)))]
	if t.Bool() {
		b = a.other(t)
	} else if t.Bool() {
		b = a.near(t)
	}
	if (y.T == thrift.LIST || y.T == thrift.SET || y.T == thrift.MAP) && t.Chance(1, 6) {
		if r := a.retype(t); r != nil {
			b = r
			t.Label("the same with other types")
		}
	}
	t.Note("type %s", y.T)
	t.Note("a = %s", a)
	t.Note("b = %s", b)
	t.Note("c = %s", c)
	va, vb, vc := a.Build(), b.Build(), c.Build()
	cmp := func(n, m string, x, z interface{}) int {
		r, ok := y.T.Compare(x, z)
		if !ok {
			t.Failf("%s and %s do not compare", n, m)
		}
		if got := y.T.Less(x, z); got != (r < 0) {
			t.Failf("Compare(%s, %s) = %d and Less = %v", n, m, r, got)
		}
		return sign(r)
	}
	for i, v := range []interface{}{va, vb, vc} {
		n := string(rune('a' + i))
		if r := cmp(n, n, v, v); r != 0 {
			t.Failf("Compare(%s, %s) = %d", n, n, r)
		}
		if r := cmp("nil", n, nil, v); r != -1 {
			t.Failf("Compare(nil, %s) = %d", n, r)
		}
		if r := cmp(n, "nil", v, nil); r != 1 {
			t.Failf("Compare(%s, nil) = %d", n, r)
		}
	}
	if r := cmp("nil", "nil", nil, nil); r != 0 {
		t.Failf("Compare(nil, nil) = %d", r)
	}
	ab, ba, bc, ac := cmp("a", "b", va, vb), cmp("b", "a", vb, va), cmp("b", "c", vb, vc), cmp("a", "c", va, vc)
	if ab != -ba {
		t.Failf("Compare(a, b) = %d, Compare(b, a) = %d", ab, ba)
	}
	if same := a.Key() == b.Key(); same != (ab == 0) {
		t.Failf("Compare(a, b) = %d", ab)
	}
	if same := a.Key() == c.Key(); same != (ac == 0) {
		t.Failf("Compare(a, c) = %d", ac)
	}
	if want, ok := natural(a, b); ok && ab != want {
		t.Failf("Compare(a, b) = %d, want %d", ab, want)
	}
	if ab <= 0 && bc <= 0 && ac > 0 || ab >= 0 && bc >= 0 && ac < 0 {
		t.Failf("not transitive: Compare(a, b) = %d, Compare(b, c) = %d, Compare(a, c) = %d", ab, bc, ac)
	}
	if x, ok := va.(comparer); ok && y.T != thrift.STRUCT {
		if r, ok := x.CompareTo(vb); !ok || sign(r) != ab {
			t.Failf("a.CompareTo(b) = %d, %v and Compare(a, b) = %d", r, ok, ab)
		}
		if got := x.Equals(vb); got != (ab == 0) {
			t.Failf("a.Equals(b) = %v and Compare(a, b) = %d", got, ab)
		}
		if x.Equals(nil) {
			t.Failf("a.Equals(nil)")
		}
	}
	if g, ok := va.(*simple.ContainerOfEnums); ok {
		if r, ok := g.CompareTo(vb); a.Kind == b.Kind && (!ok || sign(r) != ab) {
			t.Failf("a.CompareTo(b) = %d, %v and Compare(a, b) = %d", r, ok, ab)
		}
		if r := cmp("a", "unset", va, (*simple.ContainerOfEnums)(nil)); r != 1 {
			t.Failf("Compare of a struct and an unset one gives %d", r)
		}
		if r := cmp("unset", "a", (*simple.ContainerOfEnums)(nil), va); r != -1 {
			t.Failf("Compare of an unset struct and one gives %d", r)
		}
		// within structs
		x, z := simple.NewEchoArgs(), simple.NewEchoArgs()
		x.Message = g
		if h, ok := vb.(*simple.ContainerOfEnums); ok {
			z.Message = h
			if r, ok := x.CompareTo(z); !ok || sign(r) != ab {
				t.Failf("structs of a and b compare as %d, %v", r, ok)
			}
			z.Message = nil
		}
		if r, ok := x.CompareTo(z); !ok || r <= 0 {
			t.Failf("struct with a and struct without compare as %d, %v", r, ok)
		}
		if r, ok := z.CompareTo(x); !ok || r >= 0 {
			t.Failf("struct without and struct with a compare as %d, %v", r, ok)
		}
		if r, ok := simple.NewEchoArgs().CompareTo(z); !ok || r != 0 {
			t.Failf("structs without a value compare as %d, %v", r, ok)
		}
	}
	// arrays of values
	xs, zs := []interface{}{va, vb}, []interface{}{va, vc}
	if r, ok := y.T.CompareValueArrays(xs, zs); !ok || sign(r) != bc {
		t.Failf("CompareValueArrays([a b], [a c]) = %d, %v and Compare(b, c) = %d", r, ok, bc)
	}
	if r, ok := y.T.CompareValueArrays(xs, xs[:1]); !ok || r <= 0 {
		t.Failf("CompareValueArrays([a b], [a]) = %d, %v", r, ok)
	}
	if r, ok := y.T.CompareValueArrays(xs[:1], xs); !ok || r >= 0 {
		t.Failf("CompareValueArrays([a], [a b]) = %d, %v", r, ok)
	}
	if ab != 0 || ac != 0 {
		t.NonTrivial()
	}
	t.Label(fmt.Sprintf("%s %+d", y.T, ab))
}

// Uncomparable: comparing anything by any type gives an answer, the same both ways.
func Uncomparable(t *pbt.T) {
	all := append([]thrift.TType{thrift.STOP, thrift.VOID, thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST}, scalars...)
	ty := all[t.N(uint64(len(all)))]
	any := func() interface{} {
		switch t.Pick(6, 1, 1, 1, 1, 1, 1, 1) {
		case 1:
			return nil
		case 2:
			return (*simple.ContainerOfEnums)(nil)
		case 3:
			return map[string]int{"a": 1}
		case 4:
			return []interface{}{1}
		case 5:
			return struct{ f func() }{}
		case 6:
			return simple.DefinedValues(t.N(5))
		case 7:
			return thrift.NewNumericFromI64(t.I64())
		}
		return gen(t, genTy(t, 2), 2).Build()
	}
	a, b := any(), any()
	t.Note("%s.Compare(%T %v, %T %v)", ty, a, a, b, b)
	var r, s int
	var ok, ok2 bool
	if msg := pbt.Guard(func() {
		r, ok = ty.Compare(a, b)
		s, ok2 = ty.Compare(b, a)
		ty.Less(a, b)
	}); msg != "" {
		t.Failf("%s", msg)
	}
	for _, v := range []interface{}{a, b} {
		if x, _ := thrift.TType(thrift.DOUBLE).CoerceData(v); x != x {
			return // not a number: it has no place in the order
		}
	}
	if ok != ok2 || ok && sign(r) != -sign(s) {
		t.Failf("Compare gives %d, %v and in reverse %d, %v", r, ok, s, ok2)
	}
	t.NonTrivial()
	t.Label(ty.String())
}

// Helpers: the comparison functions that generated code and users call.
func Helpers(t *pbt.T) {
	i, j := small(t), small(t)
	want := func(name string, got, w int) {
		if sign(got) != w {
			t.Failf("%s(%d, %d) = %d, want %d", name, i, j, got, w)
		}
	}
	ord := func(a, b int64) int {
		if a < b {
			return -1
		}
		if a > b {
			return 1
		}
		return 0
	}
	t.Note("%d %d", i, j)
	want("CompareInt", thrift.CompareInt(int(i), int(j)), ord(i, j))
	want("CompareInt16", thrift.CompareInt16(int16(i), int16(j)), ord(int64(int16(i)), int64(int16(j))))
	want("CompareInt32", thrift.CompareInt32(int32(i), int32(j)), ord(int64(int32(i)), int64(int32(j))))
	want("CompareInt64", thrift.CompareInt64(i, j), ord(i, j))
	want("CompareByte", thrift.CompareByte(byte(i), byte(j)), ord(int64(byte(i)), int64(byte(j))))
	want("CompareBool", thrift.CompareBool(i > 0, j > 0), ord(b2i(i > 0), b2i(j > 0)))
	f, g := float64(i)/8, float64(j)/8
	d := 0
	if f < g {
		d = -1
	} else if f > g {
		d = 1
	}
	want("CompareDouble", thrift.CompareDouble(f, g), d)
	d = 0
	if float32(f) < float32(g) {
		d = -1
	} else if float32(f) > float32(g) {
		d = 1
	}
	want("CompareFloat", thrift.CompareFloat(float32(f), float32(g)), d)
	words := func() []string {
		var w []string
		t.Repeat(3, 2, func(int) { w = append(w, []string{"", "a", "b", "ab"}[t.N(4)]) })
		return w
	}
	v, w := words(), words()
	t.Note("%q %q", v, w)
	a, b := strings.Join(v, ""), strings.Join(w, "")
	if got := thrift.CompareString(a, b); sign(got) != strings.Compare(a, b) {
		t.Failf("CompareString(%q, %q) = %d", a, b, got)
	}
	got, back := thrift.CompareStringArray(v, w), thrift.CompareStringArray(w, v)
	if sign(got) != -sign(back) || (got == 0) != (fmt.Sprintf("%q", v) == fmt.Sprintf("%q", w)) {
		t.Failf("CompareStringArray(%q, %q) = %d, in reverse %d", v, w, got, back)
	}
	if i != j {
		t.NonTrivial()
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

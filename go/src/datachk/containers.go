package datachk

import (
	"pbt"
	"runtime"
	"simple"
	"sort"
	"strings"
	"thrift"
	"time"
)

// untyped: whether TypeFromValue gives the pool's type for an element of an untyped
// container. UTF8 and UTF16 values are strings like any other.
func untyped(y *Ty) bool { return y.T != thrift.UTF8 && y.T != thrift.UTF16 }

// abandon reads k elements of an iterator and leaves it.
func settled(before int) bool {
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= before {
			return true
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	return false
}

// List: a list against a slice.
func List(t *pbt.T) {
	y := genTy(t, 2)
	p := pool(t, y, 5, 3)
	t.Note("elements of type %s", y)
	for i, d := range p {
		t.Note("v%d = %s", i, d)
	}
	var l thrift.TList
	var m []*D
	late := untyped(y) && t.Chance(1, 4)
	if late {
		l = thrift.NewTListDefault()
		t.Note("list without a type")
	} else {
		l = thrift.NewTList(y.T, t.Int(0, 3)*int(t.N(4)))
	}
	start := runtime.NumGoroutine()
	draw := func() *D { return p[t.N(uint64(len(p)))] }
	// the Go value to hand in: mostly the value itself, else one that converts to it
	arg := func(d *D) interface{} {
		if !(late && len(m) == 0) && t.Chance(1, 8) {
			if x, ok := coercible(t, d); ok {
				t.Label("converted")
				return x
			}
		}
		return d.Build()
	}
	kinds := map[string]bool{}
	op := func(name string) { kinds[name] = true }
	n := t.Repeat(40, 14, func(int) {
		switch t.Pick(6, 3, 3, 3, 3, 2, 4, 3, 2, 1) {
		case 0:
			d := draw()
			l.Push(arg(d))
			m = append(m, d)
			t.Note("Push %s", d)
			op("push")
		case 1:
			i, d := t.Int(0, len(m)), draw()
			l.Insert(i, arg(d))
			m = append(m[:i], append([]*D{d}, m[i:]...)...)
			t.Note("Insert %d %s", i, d)
			op("insert")
		case 2:
			i, d := t.Int(0, len(m)), draw()
			l.Set(i, arg(d))
			if i == len(m) {
				m = append(m, d)
			} else {
				m[i] = d
			}
			t.Note("Set %d %s", i, d)
			op("set")
		case 3:
			if len(m) == 0 {
				return
			}
			got, want := describe(l.Pop(), y), m[len(m)-1]
			m = m[:len(m)-1]
			t.Note("Pop")
			if got != want.Key() {
				t.Failf("Pop gave %s, want %s", got, want)
			}
			op("pop")
		case 4:
			if len(m) == 0 {
				return
			}
			i := t.Int(0, len(m)-1)
			l.Delete(i)
			m = append(m[:i], m[i+1:]...)
			t.Note("Delete %d", i)
			op("delete")
		case 5:
			if len(m) == 0 {
				return
			}
			i, j := t.Int(0, len(m)-1), t.Int(0, len(m)-1)
			l.Swap(i, j)
			m[i], m[j] = m[j], m[i]
			t.Note("Swap %d %d", i, j)
			op("swap")
		case 6:
			d := draw().other(t)
			want := false
			for _, e := range m {
				want = want || e.Key() == d.Key()
			}
			t.Note("Contains %s", d)
			if late && len(m) == 0 && l.ElemType().IsEmptyType() {
				return
			}
			if got := l.Contains(arg(d)); got != want {
				t.Failf("Contains(%s) = %v, want %v", d, got, want)
			}
			op("contains")
		case 7:
			if len(m) == 0 {
				return
			}
			i, j := t.Int(0, len(m)-1), t.Int(0, len(m)-1)
			if c, ok := natural(m[i], m[j]); ok {
				t.Note("Less %d %d", i, j)
				if got := l.Less(i, j); got != (c < 0) {
					t.Failf("Less(%d, %d) = %v for %s and %s", i, j, got, m[i], m[j])
				}
				op("less")
			} else if m[i].Key() == m[j].Key() {
				if l.Less(i, j) {
					t.Failf("Less(%d, %d) of equal elements", i, j)
				}
			} else if l.Less(i, j) == l.Less(j, i) {
				t.Failf("Less(%d, %d) and Less(%d, %d) are both %v for %s and %s", i, j, j, i, l.Less(i, j), m[i], m[j])
			}
		case 8:
			if len(m) < 2 {
				return
			}
			k := t.Int(0, len(m)-1)
			t.Note("Iter, left after %d", k)
			it := l.Iter()
			for i := 0; i < k; i++ {
				if got := describe(<-it, y); got != m[i].Key() {
					t.Failf("Iter gave %s as element %d, want %s", got, i, m[i])
				}
			}
			op("abandon")
		case 9:
			if late && len(m) == 0 {
				return
			}
			t.Note("Push of a value that does not convert")
			switch t.N(3) {
			case 0:
				l.Push(unfit(y))
			case 1:
				l.Insert(t.Int(0, len(m)), unfit(y))
			case 2:
				l.Set(t.Int(0, len(m)), unfit(y))
			}
			op("unfit")
		}
		checkList(t, l, m, y)
	})
	if !settled(start) {
		t.Failf("%d goroutines are left behind", runtime.NumGoroutine()-start)
	}
	if late && len(m) == 0 {
		return
	}
	// the same elements in another list
	d := &D{Ty: &Ty{T: thrift.LIST, Elem: y}, Elems: m}
	if o := d.other(t).Build().(thrift.TList); !l.Equals(o) || !o.Equals(l) {
		t.Failf("a list of the same elements is not equal")
	} else if c, ok := l.CompareTo(o); c != 0 || !ok {
		t.Failf("CompareTo a list of the same elements gives %d, %v", c, ok)
	}
	if len(m) > 0 {
		if o := d.near(t); o.Key() != d.Key() && (l.Equals(o.Build()) || o.Build().(thrift.TList).Equals(l)) {
			t.Failf("equal to the list %s", o)
		}
	}
	if n >= 4 && len(kinds) >= 3 {
		t.NonTrivial()
	}
	for k := range kinds {
		t.Label(k)
	}
	t.Label("of " + y.T.String())
}

func checkList(t *pbt.T, l thrift.TList, m []*D, y *Ty) {
	if l.Len() != len(m) {
		t.Failf("Len = %d, want %d", l.Len(), len(m))
	}
	if len(m) > 0 && l.ElemType() != y.T {
		t.Failf("ElemType = %s, want %s", l.ElemType(), y)
	}
	for i, d := range m {
		if got := describe(l.At(i), y); got != d.Key() {
			t.Failf("At(%d) = %s, want %s", i, got, d)
		}
	}
	i := 0
	for x := range l.Iter() {
		if i >= len(m) {
			t.Failf("Iter gives more than %d elements", len(m))
		}
		if got := describe(x, y); got != m[i].Key() {
			t.Failf("Iter gave %s as element %d, want %s", got, i, m[i])
		}
		i++
	}
	if i != len(m) {
		t.Failf("Iter gave %d elements, want %d", i, len(m))
	}
}

// Set: a set against a set of keys.
func Set(t *pbt.T) {
	y := genTy(t, 2)
	p := pool(t, y, 6, 3)
	t.Note("elements of type %s", y)
	for i, d := range p {
		t.Note("v%d = %s", i, d)
	}
	var s thrift.TSet
	late := untyped(y) && t.Chance(1, 4)
	if late {
		s = thrift.NewTSetDefault()
	} else {
		s = thrift.NewTSet(y.T, t.Int(0, 3)*int(t.N(4)))
	}
	m := map[string]*D{}
	some := false
	arg := func(d *D) interface{} {
		if !(late && !some) && t.Chance(1, 8) {
			if x, ok := coercible(t, d); ok {
				t.Label("converted")
				return x
			}
		}
		return d.Build()
	}
	dup, removed := false, false
	n := t.Repeat(30, 12, func(int) {
		d := p[t.N(uint64(len(p)))].other(t)
		switch t.Pick(6, 2, 4, 1) {
		case 0:
			t.Note("Add %s", d)
			s.Add(arg(d))
			some = true
			dup = dup || m[d.Key()] != nil
			m[d.Key()] = d
		case 1:
			if !some {
				return
			}
			t.Note("Remove %s", d)
			s.Remove(arg(d))
			removed = removed || m[d.Key()] != nil
			delete(m, d.Key())
		case 2:
			if !some {
				return
			}
			t.Note("Contains %s", d)
			if got, want := s.Contains(arg(d)), m[d.Key()] != nil; got != want {
				t.Failf("Contains(%s) = %v, want %v", d, got, want)
			}
		case 3:
			if !some {
				return
			}
			t.Note("Add of a value that does not convert")
			s.Add(unfit(y))
		}
		checkSet(t, s, m, y)
	})
	if !some {
		return
	}
	// the same elements added in another order
	d := &D{Ty: &Ty{T: thrift.SET, Elem: y}}
	for _, k := range sortedKeys(m) {
		d.Elems = append(d.Elems, m[k])
	}
	o := d.other(t).Build().(thrift.TSet)
	if !s.Equals(o) || !o.Equals(s) || s.Less(o) || o.Less(s) {
		t.Failf("a set of the same elements is not equal: %s", describe(o, d.Ty))
	}
	v, w := s.Values(), o.Values()
	for i := range v {
		if a, b := describe(v[i], y), describe(w[i], y); a != b {
			t.Failf("Values depend on the order of adding: %s and %s at %d", a, b, i)
		}
	}
	if len(m) > 0 {
		if x := d.near(t); x.Key() != d.Key() {
			o := x.Build().(thrift.TSet)
			if s.Equals(o) || o.Equals(s) {
				t.Failf("equal to the set %s", x)
			}
			if s.Less(o) == o.Less(s) {
				t.Failf("Less is %v both ways with the set %s", s.Less(o), x)
			}
		}
	}
	if n >= 4 && dup && len(m) >= 2 {
		t.NonTrivial()
	}
	if dup {
		t.Label("added again")
	}
	if removed {
		t.Label("removed")
	}
	t.Label("of " + y.T.String())
}

func sortedKeys(m map[string]*D) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func checkSet(t *pbt.T, s thrift.TSet, m map[string]*D, y *Ty) {
	if s.Len() != len(m) {
		t.Failf("Len = %d, want %d (%s)", s.Len(), len(m), strings.Join(sortedKeys(m), " "))
	}
	if len(m) > 0 && s.ElemType() != y.T {
		t.Failf("ElemType = %s, want %s", s.ElemType(), y)
	}
	want := strings.Join(sortedKeys(m), " ")
	var a, b, c []string
	for _, x := range s.Values() {
		a = append(a, describe(x, y))
	}
	for e := s.Front(); e != nil; e = e.Next() {
		b = append(b, describe(e.Value, y))
	}
	for e := s.Back(); e != nil; e = e.Prev() {
		c = append(c, describe(e.Value, y))
	}
	for i := range b {
		if i >= len(a) || a[i] != b[i] || len(c) != len(b) || c[len(c)-1-i] != b[i] {
			t.Failf("Values %v, from Front %v, from Back %v", a, b, c)
		}
	}
	sort.Strings(a)
	if got := strings.Join(a, " "); got != want {
		t.Failf("elements %s, want %s", got, want)
	}
}

// Map: a map against a map of keys.
func Map(t *pbt.T) {
	ky, vy := genTy(t, 2), genTy(t, 2)
	kp, vp := pool(t, ky, 5, 3), pool(t, vy, 3, 3)
	t.Note("map of %s to %s", ky, vy)
	for i, d := range kp {
		t.Note("k%d = %s", i, d)
	}
	for i, d := range vp {
		t.Note("v%d = %s", i, d)
	}
	var m thrift.TMap
	late := untyped(ky) && untyped(vy) && t.Chance(1, 4)
	if late {
		m = thrift.NewTMapDefault()
	} else {
		m = thrift.NewTMap(ky.T, vy.T, t.Int(0, 3)*int(t.N(4)))
	}
	type entry struct {
		k, v *D
		vk   string // describes the value
	}
	mod := map[string]entry{}
	some := false
	unset := func() bool { // whether some value is nil
		for _, e := range mod {
			if e.vk == "nil" {
				return true
			}
		}
		return false
	}
	arg := func(d *D) interface{} {
		if !(late && !some) && t.Chance(1, 8) {
			if x, ok := coercible(t, d); ok {
				t.Label("converted key or value")
				return x
			}
		}
		return d.Build()
	}
	start := runtime.NumGoroutine()
	replaced := false
	n := t.Repeat(30, 12, func(int) {
		k := kp[t.N(uint64(len(kp)))].other(t)
		switch t.Pick(6, 3, 3, 1, 1) {
		case 0:
			v := vp[t.N(uint64(len(vp)))]
			vk := v.Key()
			if some && vy.T.IsBaseType() && t.Chance(1, 10) {
				// nil is the value that says nothing
				v = &D{Ty: vy}
				if vk = v.Key(); vy.T == thrift.BINARY {
					vk = "nil"
				}
				t.Note("Set %s nil", k)
				m.Set(arg(k), nil)
				t.Label("nil value")
			} else {
				t.Note("Set %s %s", k, v)
				m.Set(arg(k), arg(v))
			}
			some = true
			if _, ok := mod[k.Key()]; ok {
				replaced = true
			}
			mod[k.Key()] = entry{k, v, vk}
		case 1:
			t.Note("Get %s", k)
			x, ok := m.Get(arg(k))
			e, want := mod[k.Key()]
			if ok != want {
				t.Failf("Get(%s) found = %v, want %v", k, ok, want)
			}
			if ok && describe(x, vy) != e.vk {
				t.Failf("Get(%s) = %s, want %s", k, describe(x, vy), e.v)
			}
			if !ok && x != nil {
				t.Failf("Get(%s) found nothing and gives %v", k, x)
			}
		case 2:
			t.Note("Contains %s", k)
			_, want := mod[k.Key()]
			if got := m.Contains(arg(k)); got != want {
				t.Failf("Contains(%s) = %v, want %v", k, got, want)
			}
		case 3:
			if len(mod) < 2 {
				return
			}
			t.Note("iterators left after one element")
			<-m.Iter()
			<-m.KeyIter()
			<-m.ValueIter()
			t.Label("abandoned")
		case 4:
			if !some {
				return
			}
			if t.Chance(1, 2) {
				t.Note("Set %s to a value that does not convert", k)
				m.Set(k.Build(), unfit(vy))
			} else {
				t.Note("Set of a key that does not convert")
				m.Set(unfit(ky), vp[0].Build())
			}
		}
		// the content
		if m.Len() != len(mod) {
			t.Failf("Len = %d, want %d", m.Len(), len(mod))
		}
		if len(mod) > 0 && (m.KeyType() != ky.T || m.ValueType() != vy.T) {
			t.Failf("map of %s to %s, want %s to %s", m.KeyType(), m.ValueType(), ky, vy)
		}
		var want []string
		for k, e := range mod {
			want = append(want, k+"=>"+e.vk)
		}
		sort.Strings(want)
		same := func(what string, ks, vs []interface{}) {
			if len(ks) != len(vs) {
				t.Failf("%s: %d keys and %d values", what, len(ks), len(vs))
			}
			var got []string
			for i := range ks {
				got = append(got, describe(ks[i], ky)+"=>"+describe(vs[i], vy))
			}
			sort.Strings(got)
			if a, b := strings.Join(got, " "), strings.Join(want, " "); a != b {
				t.Failf("%s: %s, want %s", what, a, b)
			}
		}
		same("Keys and Values", m.Keys(), m.Values())
		var a, b, c, d []interface{}
		for e := range m.Iter() {
			a, b = append(a, e.Key()), append(b, e.Value())
		}
		same("Iter", a, b)
		for k := range m.KeyIter() {
			c = append(c, k)
		}
		for v := range m.ValueIter() {
			d = append(d, v)
		}
		if len(c) != len(mod) || len(d) != len(mod) {
			t.Failf("KeyIter gave %d and ValueIter %d elements of %d", len(c), len(d), len(mod))
		}
		var kk, vv, wk, wv []string
		for i := range c {
			kk, vv = append(kk, describe(c[i], ky)), append(vv, describe(d[i], vy))
		}
		for k, e := range mod {
			wk, wv = append(wk, k), append(wv, e.vk)
		}
		for _, s := range [][]string{kk, vv, wk, wv} {
			sort.Strings(s)
		}
		if x, y := strings.Join(kk, " "), strings.Join(wk, " "); x != y {
			t.Failf("KeyIter: %s, want %s", x, y)
		}
		if x, y := strings.Join(vv, " "), strings.Join(wv, " "); x != y {
			t.Failf("ValueIter: %s, want %s", x, y)
		}
	})
	if !settled(start) {
		t.Failf("%d goroutines are left behind", runtime.NumGoroutine()-start)
	}
	if !some || unset() {
		return
	}
	d := &D{Ty: &Ty{T: thrift.MAP, Key: ky, Elem: vy}}
	var ks []string
	for k := range mod {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		d.Elems = append(d.Elems, mod[k].k, mod[k].v)
	}
	o := d.other(t).Build().(thrift.TMap)
	if !m.Equals(o) || !o.Equals(m) || m.Less(o) || o.Less(m) {
		t.Failf("a map of the same content is not equal: %s", describe(o, d.Ty))
	}
	x, z := m.Keys(), o.Keys()
	for i := range x {
		if a, b := describe(x[i], ky), describe(z[i], ky); a != b {
			t.Failf("Keys depend on the order of setting: %s and %s at %d", a, b, i)
		}
	}
	if len(mod) > 0 {
		if e := d.near(t); e.Key() != d.Key() {
			o := e.Build().(thrift.TMap)
			if m.Equals(o) || o.Equals(m) {
				t.Failf("equal to the map %s", e)
			}
			if m.Less(o) == o.Less(m) {
				t.Failf("Less is %v both ways with the map %s", m.Less(o), e)
			}
		}
	}
	if n >= 4 && replaced && len(mod) >= 2 {
		t.NonTrivial()
	}
	if replaced {
		t.Label("replaced")
	}
	t.Label("keyed by " + ky.T.String())
}

// EnumValues: maps, lists and sets as generated code fills them with enums.
func EnumValues(t *pbt.T) {
	n := t.Int(1, 12)
	l := thrift.NewTList(thrift.I32, n)
	m := thrift.NewTMap(thrift.I32, thrift.I32, n)
	s := thrift.NewTSet(thrift.I32, n)
	mod := map[int32]int32{}
	set := map[int32]bool{}
	for i := 0; i < n; i++ {
		k, v := int32(small(t)), int32(small(t))
		t.Note("%d -> %d", k, v)
		l.Push(simple.DefinedValues(k))
		m.Set(simple.UndefinedValues(k), v)
		s.Add(simple.HeterogeneousValues(k))
		mod[k], set[k] = v, true
		if l.At(i) != k {
			t.Failf("list of enums holds %T %v for %d", l.At(i), l.At(i), k)
		}
		if !l.Contains(simple.DefinedValues(k)) || !l.Contains(k) || !s.Contains(simple.DefinedValues(k)) || !s.Contains(k) || !m.Contains(k) || !m.Contains(simple.UndefinedValues(k)) {
			t.Failf("enum %d is not found", k)
		}
	}
	if s.Len() != len(set) || m.Len() != len(mod) {
		t.Failf("set of %d, want %d; map of %d, want %d", s.Len(), len(set), m.Len(), len(mod))
	}
	for k, v := range mod {
		if got, ok := m.Get(simple.UndefinedValues(k)); !ok || got != v {
			t.Failf("Get(%d) = %v, %v, want %d", k, got, ok, v)
		}
	}
	if n > 2 {
		t.NonTrivial()
	}
}

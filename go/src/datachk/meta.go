package datachk

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"pbt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"thrift"
)

type fspec struct {
	name string
	ty   thrift.TType
	id   int
}

func (f fspec) field() thrift.TField { return thrift.NewTField(f.name, f.ty, f.id) }

func genFields(t *pbt.T) []fspec {
	var fs []fspec
	ids, names := map[int]bool{}, map[string]bool{}
	t.Repeat(8, 4, func(i int) {
		f := fspec{name: fmt.Sprintf("f%d", t.N(12)), ty: allTypes[t.N(uint64(len(allTypes)))], id: int(small(t) & 0x7fff)}
		if t.Chance(1, 10) {
			f.id = -f.id
		}
		if t.Chance(1, 10) {
			f.name = "f" + t.Text(20)
		}
		if ids[f.id] || names[f.name] {
			return
		}
		ids[f.id], names[f.name] = true, true
		fs = append(fs, f)
	})
	return fs
}

var allTypes = append([]thrift.TType{thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST}, scalars...)

// Fields: field containers and structs against a list of fields.
func Fields(t *pbt.T) {
	fs := genFields(t)
	var in []thrift.TField
	for _, i := range shuffle(t, len(fs)) {
		in = append(in, fs[i].field())
		t.Note("%+v", fs[i])
	}
	want := append([]fspec(nil), fs...)
	sort.Slice(want, func(i, j int) bool { return want[i].id < want[j].id })
	name := t.Text(10)
	s := thrift.NewTStruct(name, in)
	if s.TStructName() != name || s.ThriftName() != name || s.String() != name {
		t.Failf("struct %q is called %q, %q, %q", name, s.TStructName(), s.ThriftName(), s.String())
	}
	start := runtime.NumGoroutine()
	for _, c := range []thrift.TFieldContainer{thrift.NewTFieldContainer(in), s, s.TStructFields()} {
		if c.Len() != len(fs) {
			t.Failf("Len = %d, want %d", c.Len(), len(fs))
		}
		i := 0
		for f := range c.Iter() {
			if i >= len(want) || f.Name() != want[i].name || f.Id() != want[i].id || f.TypeId() != want[i].ty {
				t.Failf("Iter gives %s as number %d", f, i)
			}
			i++
		}
		if i != len(want) {
			t.Failf("Iter gives %d fields", i)
		}
		if len(want) > 1 {
			<-c.Iter() // and leave it
		}
		for _, f := range want {
			for _, g := range []thrift.TField{c.FieldFromFieldId(f.id), c.FieldFromFieldName(f.name)} {
				if g.Name() != f.name || g.Id() != f.id || g.TypeId() != f.ty {
					t.Failf("looking up %+v gives %s", f, g)
				}
			}
			if c.FieldNameFromFieldId(f.id) != f.name {
				t.Failf("name of field %d is %q", f.id, c.FieldNameFromFieldId(f.id))
			}
			if c.FieldIdFromFieldName(f.name) != f.id {
				t.Failf("id of field %q is %d", f.name, c.FieldIdFromFieldName(f.name))
			}
			if !c.Contains(f.id) || !c.Contains(int16(f.id)) || !c.Contains(f.name) || !c.Contains(f.field()) {
				t.Failf("does not contain %+v", f)
			}
		}
		// what is not there
		id, nm := int(small(t)&0x7fff), fmt.Sprintf("f%d", t.N(12))
		var byID, byName *fspec
		for i := range fs {
			if fs[i].id == id {
				byID = &fs[i]
			}
			if fs[i].name == nm {
				byName = &fs[i]
			}
		}
		if byID == nil {
			if c.Contains(id) || c.FieldNameFromFieldId(id) != "" || c.FieldFromFieldId(id).Name() != "" || c.FieldFromFieldId(id).TypeId() != thrift.STOP {
				t.Failf("finds field %d", id)
			}
		}
		if byName == nil {
			if c.Contains(nm) || c.FieldIdFromFieldName(nm) != -1 || c.FieldFromFieldName(nm).Name() != "" || c.FieldFromFieldName(nm).TypeId() != thrift.STOP {
				t.Failf("finds field %q", nm)
			}
		}
		// equality, with the fields in another order, and with one changed
		var o []thrift.TField
		for _, i := range shuffle(t, len(fs)) {
			o = append(o, fs[i].field())
		}
		d := thrift.NewTFieldContainer(o)
		cc := thrift.NewTFieldContainer(in)
		if !cc.Equals(d) || !d.Equals(cc) {
			t.Failf("not equal with the same fields in another order")
		}
		if r, ok := cc.CompareTo(d); r != 0 || !ok {
			t.Failf("CompareTo gives %d, %v with the same fields in another order", r, ok)
		}
		if len(fs) > 0 {
			g := append([]fspec(nil), fs...)
			k := t.N(uint64(len(g)))
			what := "another type"
			switch t.N(3) {
			case 0:
				g[k].ty = thrift.STRUCT
				if fs[k].ty == thrift.STRUCT {
					g[k].ty = thrift.I64
				}
			case 1:
				what = "another id"
				g[k].id = 40000 + g[k].id
			case 2:
				what = "one field less"
				g = append(g[:k], g[k+1:]...)
			}
			var o []thrift.TField
			for _, i := range shuffle(t, len(g)) {
				o = append(o, g[i].field())
			}
			d := thrift.NewTFieldContainer(o)
			if cc.Equals(d) || d.Equals(cc) {
				t.Failf("equal with %s", what)
			}
			r, ok := cc.CompareTo(d)
			q, ok2 := d.CompareTo(cc)
			if !ok || !ok2 || r == 0 || sign(r) != -sign(q) {
				t.Failf("CompareTo gives %d, %v and in reverse %d, %v with %s", r, ok, q, ok2, what)
			}
		}
		if cc.Equals(nil) {
			t.Failf("equal to nil")
		}
		if r, ok := cc.CompareTo(cc); r != 0 || !ok || !cc.Equals(cc) {
			t.Failf("CompareTo gives %d, %v with itself", r, ok)
		}
		if r, ok := cc.CompareTo(nil); r <= 0 || !ok {
			t.Failf("CompareTo gives %d, %v with nil", r, ok)
		}
	}
	if !settled(start) {
		t.Failf("%d goroutines are left behind", runtime.NumGoroutine()-start)
	}
	if len(fs) > 1 {
		t.NonTrivial()
	}
}

// Field: single fields and messages.
func Field(t *pbt.T) {
	gen := func() fspec {
		return fspec{name: []string{"a", "b", "a b", t.Text(8)}[t.N(4)], ty: allTypes[t.N(uint64(len(allTypes)))], id: int(int16(small(t)))}
	}
	a, b := gen(), gen()
	if t.Bool() {
		b = a
		if t.Bool() {
			b.id = int(int16(small(t)))
		}
	}
	t.Note("%+v %+v", a, b)
	f, g := a.field(), b.field()
	if f.Name() != a.name || f.TypeId() != a.ty || f.Id() != a.id {
		t.Failf("field %s made of %+v", f, a)
	}
	if s := f.String(); !strings.Contains(s, a.name) || !strings.Contains(s, strconv.Itoa(a.id)) || !strings.Contains(s, a.ty.String()) {
		t.Failf("field %+v shows as %q", a, s)
	}
	if got, want := f.Equals(g), a.id == b.id && a.ty == b.ty; got != want || g.Equals(f) != want {
		t.Failf("Equals = %v, in reverse %v", got, g.Equals(f))
	}
	r, ok := f.CompareTo(g)
	q, ok2 := g.CompareTo(f)
	if !ok || !ok2 || sign(r) != -sign(q) || (r == 0) != (a == b) {
		t.Failf("CompareTo gives %d, %v and in reverse %d, %v", r, ok, q, ok2)
	}
	if a.id != b.id && (r < 0) != (a.id < b.id) {
		t.Failf("CompareTo gives %d", r)
	}
	if r, ok := f.CompareTo(nil); !ok || r <= 0 || f.Equals(nil) {
		t.Failf("compared with nil: %d, %v, equal %v", r, ok, f.Equals(nil))
	}
	// messages
	mt := thrift.TMessageType(t.N(6))
	if t.Bool() {
		// a sequence number is wider than the id of a field
		a.id = int(int32(t.I64()))
		if t.Bool() {
			b.id = a.id ^ 1<<t.N(32)
		}
	}
	m := thrift.NewTMessage(a.name, mt, a.id)
	if m.Name() != a.name || m.TypeId() != mt || m.SeqId() != a.id {
		t.Failf("message %q %d %d made of %q %d %d", m.Name(), m.TypeId(), m.SeqId(), a.name, mt, a.id)
	}
	mt2 := mt
	if t.Bool() {
		mt2 = thrift.TMessageType(t.N(6))
	}
	n := thrift.NewTMessage(b.name, mt2, b.id)
	if got, want := m.Equals(n), a.name == b.name && a.id == b.id && mt == mt2; got != want {
		t.Failf("messages equal: %v", got)
	}
	if s, ok := m.(fmt.Stringer); ok {
		if s := s.String(); !strings.Contains(s, a.name) || !strings.Contains(s, strconv.Itoa(a.id)) {
			t.Failf("message %q %d shows as %q", a.name, a.id, s)
		}
	}
	if d := thrift.NewTMessageDefault(); d.Name() != "" || d.SeqId() != 0 || d.TypeId() != 0 {
		t.Failf("default message %v", d)
	}
	if a != b {
		t.NonTrivial()
	}
}

// Errors: errors handed from layer to layer.
func Errors(t *pbt.T) {
	msg := t.Text(30)
	ty := int(t.N(6))
	if t.Chance(1, 5) {
		ty = int(int32(t.I64()))
	}
	isNil := func(what string, e interface{}) {
		if e != nil {
			t.Failf("%s of no error gives %v", what, e)
		}
	}
	isNil("NewTTransportExceptionFromOsError", thrift.NewTTransportExceptionFromOsError(nil))
	isNil("NewTProtocolExceptionFromOsError", thrift.NewTProtocolExceptionFromOsError(nil))
	isNil("NewTProtocolExceptionFromTransportException", thrift.NewTProtocolExceptionFromTransportException(nil))
	isNil("NewTExceptionFromOsError", thrift.NewTExceptionFromOsError(nil))
	is := func(what string, e interface {
		Error() string
		TypeId() int
	}, ty int, msg string) {
		if e == nil {
			t.Failf("%s: no error", what)
		}
		if e.TypeId() != ty || e.Error() != msg {
			t.Failf("%s: (%d, %q), want (%d, %q)", what, e.TypeId(), e.Error(), ty, msg)
		}
	}
	is("NewTTransportExceptionDefault", thrift.NewTTransportExceptionDefault(), 0, "")
	is("NewTTransportExceptionDefaultType", thrift.NewTTransportExceptionDefaultType(ty), ty, "")
	is("NewTTransportExceptionDefaultString", thrift.NewTTransportExceptionDefaultString(msg), 0, msg)
	is("NewTProtocolExceptionDefault", thrift.NewTProtocolExceptionDefault(), 0, "")
	is("NewTProtocolExceptionDefaultType", thrift.NewTProtocolExceptionDefaultType(ty), ty, "")
	is("NewTProtocolExceptionDefaultString", thrift.NewTProtocolExceptionDefaultString(msg), 0, msg)
	tr, pr := thrift.NewTTransportException(ty, msg), thrift.NewTProtocolException(ty, msg)
	is("NewTTransportException", tr, ty, msg)
	is("NewTProtocolException", pr, ty, msg)
	plain := errors.New(msg)
	is("transport error of an error", thrift.NewTTransportExceptionFromOsError(plain), thrift.UNKNOWN_TRANSPORT_EXCEPTION, msg)
	for _, e := range []error{io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress} {
		is("transport error of an error", thrift.NewTTransportExceptionFromOsError(e), thrift.UNKNOWN_TRANSPORT_EXCEPTION, e.Error())
		is("protocol error of an error", thrift.NewTProtocolExceptionFromOsError(e), thrift.UNKNOWN_PROTOCOL_EXCEPTION, e.Error())
	}
	is("transport error of the end of data", thrift.NewTTransportExceptionFromOsError(io.EOF), thrift.END_OF_FILE, "EOF")
	is("transport error of a transport error", thrift.NewTTransportExceptionFromOsError(tr), ty, msg)
	is("protocol error of an error", thrift.NewTProtocolExceptionFromOsError(plain), thrift.UNKNOWN_PROTOCOL_EXCEPTION, msg)
	is("protocol error of a protocol error", thrift.NewTProtocolExceptionFromOsError(pr), ty, msg)
	is("protocol error of a transport error", thrift.NewTProtocolExceptionFromOsError(tr), ty, msg)
	is("protocol error of a transport error", thrift.NewTProtocolExceptionFromTransportException(tr), ty, msg)
	corrupt := base64.CorruptInputError(t.N(100))
	is("protocol error of corrupt base64", thrift.NewTProtocolExceptionFromOsError(corrupt), thrift.INVALID_DATA, corrupt.Error())
	if e := thrift.NewTExceptionFromOsError(plain); e.Error() != msg {
		t.Failf("exception of %q says %q", msg, e.Error())
	}
	if e := thrift.NewTException(msg); e.Error() != msg {
		t.Failf("exception %q says %q", msg, e.Error())
	}
	// the context of a protocol error
	e, n := pr, 0
	t.Note("(%d, %q)", ty, msg)
	t.Repeat(4, 2, func(int) {
		id, fn, sn := int(int16(small(t))), "f"+t.Text(6), "s"+t.Text(6)
		prev := e
		k := t.N(4)
		switch k {
		case 0:
			e = thrift.NewTProtocolExceptionReadField(id, fn, sn, e)
		case 1:
			e = thrift.NewTProtocolExceptionWriteField(id, fn, sn, e)
		case 2:
			e = thrift.NewTProtocolExceptionReadStruct(sn, e)
		case 3:
			e = thrift.NewTProtocolExceptionWriteStruct(sn, e)
		}
		t.Note("context %d: %d %q %q", k, id, fn, sn)
		n++
		want := prev.TypeId()
		if want == thrift.UNKNOWN_PROTOCOL_EXCEPTION {
			want = thrift.INVALID_DATA
		}
		if e.TypeId() != want {
			t.Failf("type %d becomes %d", prev.TypeId(), e.TypeId())
		}
		s := e.Error()
		if !strings.Contains(s, prev.Error()) || !strings.Contains(s, sn) || k < 2 && (!strings.Contains(s, fn) || !strings.Contains(s, strconv.Itoa(id))) {
			t.Failf("message %q", s)
		}
	})
	if n > 0 {
		t.NonTrivial()
	}
}

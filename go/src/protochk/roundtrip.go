// Package protochk holds the executable statements shared by the wire protocol checks.
package protochk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"pbt"
	"thrift"
	"vm"
)

func Opts(pr vm.Proto, depth int) vm.Opts {
	return vm.Opts{Depth: depth, Text: pr.Text, Wild: true}
}

func fail(t *pbt.T, what string, err error, wire []byte) {
	if len(wire) > 300 {
		t.Note("wire (%d bytes): %x...", len(wire), wire[:300])
	} else {
		t.Note("wire (%d bytes): %x  %q", len(wire), wire, wire)
	}
	if m, ok := err.(*vm.Mismatch); ok {
		t.Failf("%s: %s", what, m.S)
	}
	t.Failf("%s: error %v", what, err)
}

// Messages: a history of messages written through one protocol object is read back
// identically, through the same or another protocol object, and nothing is left over.
func Messages(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		var msgs []*vm.Msg
		t.Repeat(4, 1, func(int) { msgs = append(msgs, vm.GenMsg(t, Opts(pr, 3))) })
		if len(msgs) == 0 {
			msgs = append(msgs, vm.GenMsg(t, Opts(pr, 4)))
		}
		same := t.Bool()
		interleave := t.Bool()
		deep := 0
		for _, m := range msgs {
			t.Note("%s %s", pr.Name, m)
			if d := m.Body.Depth(); d > deep {
				deep = d
			}
		}
		if deep >= 2 {
			t.NonTrivial()
		}
		t.Label(fmt.Sprintf("depth %d", deep))
		tap := vm.NewTap(nil)
		tap.Loop = true
		w := pr.New(tap)
		r := w
		if !same {
			r = pr.New(tap)
		}
		rd := func(i int) {
			if e := vm.ReadMsg(r, pr, msgs[i]); e != nil {
				fail(t, fmt.Sprintf("message %d of %d", i+1, len(msgs)), e, tap.W)
			}
		}
		for i, m := range msgs {
			if e := vm.WriteMsg(w, m); e != nil {
				t.Failf("writing message %d: %v", i+1, e)
			}
			if e := w.Flush(); e != nil {
				t.Failf("flush: %v", e)
			}
			if interleave {
				rd(i)
			}
		}
		if !interleave {
			for i := range msgs {
				rd(i)
			}
		}
		end(t, pr, r, tap)
	}
}

func end(t *pbt.T, pr vm.Proto, r thrift.TProtocol, tap *vm.Tap) {
	if !pr.Text && tap.Pos != len(tap.W) {
		t.Failf("%d of %d bytes written were not consumed", len(tap.W)-tap.Pos, len(tap.W))
	}
	if _, _, _, e := r.ReadMessageBegin(); e == nil {
		t.Failf("a further message was read after the last one")
	}
}

// Values: a value of any type on its own.
func Values(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		v := vm.Gen(t, Opts(pr, 4))
		if pr.Text && v.T < vm.STRUCT { // a bare JSON number does not say where it ends
			v = &vm.Val{T: vm.LIST, ET: v.T, Elems: []*vm.Val{v}}
		}
		t.Note("%s %s", pr.Name, v)
		t.Label("top " + vm.TypeName(v.T))
		if v.Composite() {
			t.NonTrivial()
		}
		tap := vm.NewTap(nil)
		w := pr.New(tap)
		if e := vm.Write(w, v); e != nil {
			t.Failf("writing: %v", e)
		}
		w.Flush()
		rt := vm.NewTap(tap.W)
		if e := vm.Read(pr.New(rt), pr, v, "value"); e != nil {
			fail(t, "reading back", e, tap.W)
		}
		if !pr.Text && len(rt.Rest()) != 0 {
			t.Failf("%d of %d bytes were not consumed", len(rt.Rest()), len(tap.W))
		}
	}
}

// Scalars: long runs of scalars (boundaries of the number encodings), as the elements of a list.
func Scalars(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		o := Opts(pr, 0)
		ty := vm.GenType(t, o, 0)
		v := &vm.Val{T: vm.LIST, ET: ty.T}
		n := t.Int(1, 40)
		for i := 0; i < n; i++ {
			v.Elems = append(v.Elems, vm.GenVal(t, o, ty, 0))
		}
		t.Note("%s %s", pr.Name, v)
		t.Label(vm.TypeName(ty.T))
		t.NonTrivial()
		tap := vm.NewTap(nil)
		if e := vm.Write(pr.New(tap), v); e != nil {
			t.Failf("writing: %v", e)
		}
		if e := vm.Read(pr.New(vm.NewTap(tap.W)), pr, v, "list"); e != nil {
			fail(t, "reading back", e, tap.W)
		}
	}
}

// Big: collections and strings around the sizes where headers or buffers change.
func Big(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		edges := []int{0, 14, 15, 16, 127, 128, 129, 255, 256, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536}
		n := edges[t.N(uint64(len(edges)))] + t.Int(0, 2)
		body := &vm.Val{T: vm.STRUCT, Name: "Big"}
		var v *vm.Val
		switch t.Pick(2, 1, 1, 1) {
		case 0:
			v = &vm.Val{T: vm.STRING, Bin: t.Bool()}
			b := t.SeedBytes(n)
			for i := range b {
				if !v.Bin {
					b[i] = " abcdefghij\"\\\n\x7f"[int(b[i])%15]
				}
			}
			v.S = string(b)
		case 1:
			v = &vm.Val{T: vm.LIST, ET: vm.I32}
			for i := 0; i < n; i++ {
				v.Elems = append(v.Elems, &vm.Val{T: vm.I32, I: int64(int32(i * 7919))})
			}
		case 2:
			v = &vm.Val{T: vm.SET, ET: vm.BOOL}
			for i := 0; i < n; i++ {
				v.Elems = append(v.Elems, &vm.Val{T: vm.BOOL, B: i%3 == 0})
			}
		default:
			v = &vm.Val{T: vm.MAP, KT: vm.I64, ET: vm.BYTE}
			for i := 0; i < n; i++ {
				v.Keys = append(v.Keys, &vm.Val{T: vm.I64, I: int64(i) << 30})
				v.Elems = append(v.Elems, &vm.Val{T: vm.BYTE, I: int64(int8(i))})
			}
		}
		body.Fields = []vm.Fld{{ID: 1, Name: "a", V: v}, {ID: 2, Name: "b", V: &vm.Val{T: vm.I32, I: 77}}}
		t.Note("%s %s of size %d", pr.Name, vm.TypeName(v.T), n)
		t.Key(fmt.Sprint(v.T, v.Bin, n))
		if n > 14 {
			t.NonTrivial()
		}
		m := &vm.Msg{Name: "big", Type: 1, Seq: 5, Body: body}
		tap := vm.NewTap(nil)
		if e := vm.WriteMsg(pr.New(tap), m); e != nil {
			t.Failf("writing: %v", e)
		}
		if e := vm.ReadMsg(pr.New(vm.NewTap(tap.W)), pr, m); e != nil {
			t.Failf("reading back %s of size %d: %v", vm.TypeName(v.T), n, e)
		}
	}
}

// Deep: structs nested in structs, lists and maps to a chosen depth, with sibling
// fields after every nested one.
func Deep(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		d := t.Int(1, 60)
		o := Opts(pr, 0)
		v := &vm.Val{T: vm.STRUCT, Name: "leaf"}
		for i := 0; i < d; i++ {
			var in *vm.Val
			switch t.Pick(4, 1, 1, 1) {
			case 0:
				in = v
			case 1:
				in = &vm.Val{T: vm.LIST, ET: v.T, Elems: []*vm.Val{v}}
			case 2:
				in = &vm.Val{T: vm.SET, ET: v.T, Elems: []*vm.Val{v}}
			default:
				in = &vm.Val{T: vm.MAP, KT: vm.STRING, ET: v.T, Keys: []*vm.Val{{T: vm.STRING, S: "k"}}, Elems: []*vm.Val{v}}
			}
			if in != v && t.Bool() {
				v = in
				continue
			}
			id := int16(t.Int(1, 30))
			s := &vm.Val{T: vm.STRUCT, Name: "N"}
			if t.Bool() {
				s.Fields = append(s.Fields, vm.Fld{ID: id, Name: "before", V: vm.GenVal(t, o, vm.GenType(t, o, 0), 0)})
				id += int16(t.Int(1, 20))
			}
			s.Fields = append(s.Fields, vm.Fld{ID: id, Name: "nested", V: in})
			if t.Bool() {
				id += int16(t.Int(1, 20))
				s.Fields = append(s.Fields, vm.Fld{ID: id, Name: "after", V: vm.GenVal(t, o, vm.GenType(t, o, 0), 0)})
			}
			v = s
		}
		t.Note("%s nesting %d: %s", pr.Name, d, v)
		t.Label(fmt.Sprintf("nesting %d0s", d/10))
		t.NonTrivial()
		tap := vm.NewTap(nil)
		if e := vm.Write(pr.New(tap), v); e != nil {
			t.Failf("writing: %v", e)
		}
		if e := vm.Read(pr.New(vm.NewTap(tap.W)), pr, v, "value"); e != nil {
			fail(t, "reading back", e, tap.W)
		}
	}
}

// ---- wire conformance

type Ref struct {
	Val func([]byte, *vm.Val) []byte
	Msg func(*vm.Msg) []byte
}

// Encode: what the writer emits is exactly what the specification's encoder emits.
func Encode(pr vm.Proto, ref Ref) func(*pbt.T) {
	return func(t *pbt.T) {
		m := vm.GenMsg(t, Opts(pr, 4))
		t.Note("%s %s", pr.Name, m)
		if m.Body.Composite() {
			t.NonTrivial()
		}
		tap := vm.NewTap(nil)
		if e := vm.WriteMsg(pr.New(tap), m); e != nil {
			t.Failf("writing: %v", e)
		}
		want := ref.Msg(m)
		if !bytes.Equal(tap.W, want) {
			i := 0
			for i < len(want) && i < len(tap.W) && want[i] == tap.W[i] {
				i++
			}
			t.Note("emitted  %x", tap.W)
			t.Note("expected %x", want)
			t.Failf("emitted bytes differ from the specification at offset %d (%d bytes, want %d)", i, len(tap.W), len(want))
		}
	}
}

// Decode: the reader decodes what the specification's encoder emits.
func Decode(pr vm.Proto, ref Ref) func(*pbt.T) {
	return func(t *pbt.T) {
		m := vm.GenMsg(t, Opts(pr, 4))
		t.Note("%s %s", pr.Name, m)
		if m.Body.Composite() {
			t.NonTrivial()
		}
		wire := ref.Msg(m)
		tap := vm.NewTap(wire)
		if e := vm.ReadMsg(pr.New(tap), pr, m); e != nil {
			fail(t, "decoding specification bytes", e, wire)
		}
		if !pr.Text && len(tap.Rest()) != 0 {
			t.Failf("%d bytes left over", len(tap.Rest()))
		}
	}
}

// JSONText: the text is one well-formed JSON document of the documented shape.
func JSONText(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		m := vm.GenMsg(t, Opts(pr, 4))
		t.Note("%s %s", pr.Name, m)
		if m.Body.Composite() {
			t.NonTrivial()
		}
		tap := vm.NewTap(nil)
		if e := vm.WriteMsg(pr.New(tap), m); e != nil {
			t.Failf("writing: %v", e)
		}
		d := json.NewDecoder(bytes.NewReader(tap.W))
		d.UseNumber()
		var j interface{}
		if e := d.Decode(&j); e != nil {
			t.Note("text %q", tap.W)
			t.Failf("the text is not well-formed JSON: %v", e)
		}
		if _, e := d.Token(); e != io.EOF {
			t.Failf("text after the JSON document: %q", tap.W)
		}
		a, ok := j.([]interface{})
		var head []interface{}
		if !pr.Named {
			head = append(head, json.Number("1"))
		}
		head = append(head, m.Name, json.Number(fmt.Sprint(int(m.Type))), json.Number(fmt.Sprint(m.Seq)))
		if !ok || len(a) != len(head)+1 {
			t.Failf("message is not an array of %d: %q", len(head)+1, tap.W)
		}
		for i := range head {
			if a[i] != head[i] {
				t.Failf("message header item %d is %v, want %v", i, a[i], head[i])
			}
		}
		if e := vm.CheckJSON(a[len(head)], m.Body, pr.Named, "body"); e != nil {
			fail(t, "text", e, tap.W)
		}
	}
}

// Reformat: JSON text that an independent encoder rewrites (white space anywhere JSON
// allows it, other escapes in strings) reads back the same.
func Reformat(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		m := vm.GenMsg(t, Opts(pr, 3))
		t.Note("%s %s", pr.Name, m)
		tap := vm.NewTap(nil)
		if e := vm.WriteMsg(pr.New(tap), m); e != nil {
			t.Failf("writing: %v", e)
		}
		out := ReformatJSON(t, tap.W)
		if !bytes.Equal(out, tap.W) {
			t.NonTrivial()
		}
		rt := vm.NewTap(out)
		if t.Chance(1, 3) {
			rt.Chunk = chunker(t)
		}
		if e := vm.ReadMsg(pr.New(rt), pr, m); e != nil {
			fail(t, "reading reformatted text", e, out)
		}
	}
}

// ReformatJSON inserts white space between tokens and rewrites string escapes.
func ReformatJSON(t *pbt.T, in []byte) []byte {
	density := []int{0, 2, 6}[t.Pick(1, 2, 1)]
	escapes := t.Bool()
	var out []byte
	ws := func() {
		for density > 0 && t.Chance(density, 12) {
			out = append(out, " \n\t\r"[t.N(4)])
		}
	}
	for i := 0; i < len(in); {
		c := in[i]
		switch {
		case c == '"':
			j := i + 1
			for in[j] != '"' {
				if in[j] == '\\' {
					j++
				}
				j++
			}
			s := in[i+1 : j]
			out = append(out, '"')
			for k := 0; k < len(s); k++ {
				if s[k] == '\\' {
					w := 2
					if s[k+1] == 'u' {
						w = 6
					}
					out = append(out, s[k:k+w]...)
					k += w - 1
				} else if escapes && s[k] < 0x80 && t.Chance(1, 6) && IsPlainJSONString(s) {
					out = append(out, fmt.Sprintf("\\u%04x", s[k])...)
				} else {
					out = append(out, s[k])
				}
			}
			out = append(out, '"')
			i = j + 1
			if i < len(in) {
				ws()
			}
		case c == '{' || c == '[' || c == ',' || c == ':' || c == '}' || c == ']':
			out = append(out, c)
			i++
			if i < len(in) {
				ws()
			}
		default:
			j := i
			for j < len(in) && bytes.IndexByte([]byte("{}[],:\" \n"), in[j]) < 0 {
				j++
			}
			out = append(out, in[i:j]...)
			i = j
			if i < len(in) {
				ws()
			}
		}
	}
	return out
}

// IsPlainJSONString excludes strings whose escapes carry meaning of their own to a
// reader of numbers or base64 (digits, special float names, base64 text).
func IsPlainJSONString(s []byte) bool {
	return bytes.IndexByte(s, ' ') >= 0
}

// TypedHeaders: the string type aliases of the library (binary, UTF-7) are
// carried in field and container headers as their wire types.
func TypedHeaders(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		alias := []struct {
			ty thrift.TType
			v  *vm.Val
		}{
			{thrift.BINARY, &vm.Val{T: vm.STRING, Bin: true, S: string(t.Bytes(40))}},
			{thrift.UTF7, &vm.Val{T: vm.STRING, S: t.Text(40)}},
		}
		s := &vm.Val{T: vm.STRUCT}
		tap := vm.NewTap(nil)
		p := pr.New(tap)
		p.WriteStructBegin("S")
		id := int16(0)
		n := t.Int(1, 4)
		for i := 0; i < n; i++ {
			a := alias[t.N(uint64(len(alias)))]
			id += int16(t.Int(1, 20))
			v := a.v
			name := fmt.Sprintf("f%d", id)
			var err error
			switch shape := t.Pick(4, 1, 1, 1, 1); shape {
			case 0:
				t.Note("%s field %d type %d = %s", pr.Name, id, int(a.ty), v)
				err = vm.E(p.WriteFieldBegin(name, a.ty, id))
				vm.Write(p, v)
			case 1, 2:
				v = &vm.Val{T: vm.LIST, ET: vm.STRING, Elems: []*vm.Val{a.v, a.v}}
				if shape == 2 {
					v.T = vm.SET
				}
				t.Note("%s field %d %s of type %d = %s", pr.Name, id, vm.TypeName(v.T), int(a.ty), v)
				p.WriteFieldBegin(name, thrift.TType(v.T), id)
				if shape == 1 {
					err = vm.E(p.WriteListBegin(a.ty, 2))
				} else {
					err = vm.E(p.WriteSetBegin(a.ty, 2))
				}
				vm.Write(p, a.v)
				vm.Write(p, a.v)
				if shape == 1 {
					p.WriteListEnd()
				} else {
					p.WriteSetEnd()
				}
			default:
				i32 := &vm.Val{T: vm.I32, I: 5}
				v = &vm.Val{T: vm.MAP, KT: vm.STRING, ET: vm.I32, Keys: []*vm.Val{a.v}, Elems: []*vm.Val{i32}}
				kt, vt := a.ty, thrift.TType(thrift.I32)
				if shape == 4 {
					v.KT, v.ET, v.Keys, v.Elems = v.ET, v.KT, v.Elems, v.Keys
					kt, vt = vt, kt
				}
				t.Note("%s field %d map of types %d, %d = %s", pr.Name, id, int(kt), int(vt), v)
				p.WriteFieldBegin(name, thrift.MAP, id)
				err = vm.E(p.WriteMapBegin(kt, vt, 1))
				vm.Write(p, v.Keys[0])
				vm.Write(p, v.Elems[0])
				p.WriteMapEnd()
			}
			if err != nil {
				t.Failf("type %d: %v", int(a.ty), err)
			}
			p.WriteFieldEnd()
			s.Fields = append(s.Fields, vm.Fld{ID: id, Name: name, V: v})
		}
		p.WriteFieldStop()
		p.WriteStructEnd()
		t.NonTrivial()
		if e := vm.Read(pr.New(vm.NewTap(tap.W)), pr, s, "struct"); e != nil {
			fail(t, "reading back", e, tap.W)
		}
	}
}

// BigEncode: Encode for the sizes where header forms change.
func BigEncode(pr vm.Proto, ref Ref) func(*pbt.T) {
	return func(t *pbt.T) {
		edges := []int{0, 13, 14, 15, 16, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65536}
		n := edges[t.N(uint64(len(edges)))]
		body := &vm.Val{T: vm.STRUCT, Name: "Big"}
		id := int16(0)
		for k := 0; k < 3; k++ {
			var v *vm.Val
			switch t.N(3) {
			case 0:
				v = &vm.Val{T: vm.STRING, S: string(t.SeedBytes(n))}
			case 1:
				v = &vm.Val{T: byte(vm.SET + t.N(2)), ET: vm.BOOL}
				for i := 0; i < n; i++ {
					v.Elems = append(v.Elems, &vm.Val{T: vm.BOOL, B: i%3 == 0})
				}
			default:
				v = &vm.Val{T: vm.MAP, KT: vm.I64, ET: vm.BYTE}
				for i := 0; i < n; i++ {
					v.Keys = append(v.Keys, &vm.Val{T: vm.I64, I: int64(i) << 30})
					v.Elems = append(v.Elems, &vm.Val{T: vm.BYTE, I: int64(int8(i))})
				}
			}
			id += int16(t.Int(1, 40))
			body.Fields = append(body.Fields, vm.Fld{ID: id, Name: fmt.Sprint("f", k), V: v})
		}
		t.NonTrivial()
		m := &vm.Msg{Name: "big", Type: 1, Seq: int32(t.I64()), Body: body}
		t.Note("%s sizes %d", pr.Name, n)
		tap := vm.NewTap(nil)
		if e := vm.WriteMsg(pr.New(tap), m); e != nil {
			t.Failf("writing: %v", e)
		}
		if !bytes.Equal(tap.W, ref.Msg(m)) {
			t.Failf("a message with collections of size %d is not encoded as specified", n)
		}
	}
}

package main

import (
	"pbt"
	pc "protochk"
	"thrift"
	"vm"
)

func main() {
	ref := pc.Ref{Val: vm.RefCompact, Msg: vm.RefCompactMsg}
	fac := vm.Proto{Name: "compact-factory", NoType: true, New: func(t thrift.TTransport) thrift.TProtocol {
		return thrift.NewTCompactProtocolFactory().GetProtocol(t)
	}}
	subs := []pbt.Sub{
		{Name: "encode", Quick: 90000, Thorough: 600000, Fn: pc.Encode(vm.Compact, ref)},
		{Name: "decode", Quick: 90000, Thorough: 600000, Fn: pc.Decode(vm.Compact, ref)},
		{Name: "encode/factory", Quick: 6000, Thorough: 10000, Fn: pc.Encode(fac, ref)},
		{Name: "big/encode", Quick: 600, Thorough: 2000, Fn: pc.BigEncode(vm.Compact, ref)},
		{Name: "alternatives", Quick: 48000, Thorough: 300000, Fn: alternatives},
		{Name: "typed-headers", Quick: 18000, Thorough: 50000, Fn: pc.TypedHeaders(vm.Compact)},
		{Name: "header", Quick: 60000, Thorough: 200000, Fn: header},
	}
	pbt.Main(pbt.Property{ID: "C02", Subs: subs,
		Rule: "random messages are encoded by the library and by an independent encoder written from the Thrift compact protocol specification, and each decodes the other's bytes, including the long forms a foreign writer may choose; non-trivial = a non-empty body or a header that must be refused"})
}

// alternatives: encodings other writers may emit for the same value: the long form of a
// field header or of a list header, over-long varints.
func alternatives(t *pbt.T) {
	v := vm.GenStruct(t, pc.Opts(vm.Compact, 3), 3)
	t.Note("%s", v)
	changed := 0
	wire := enc(t, nil, v, &changed)
	if changed > 0 {
		t.NonTrivial()
	}
	tap := vm.NewTap(wire)
	if e := vm.Read(vm.Compact.New(tap), vm.Compact, v, "struct"); e != nil {
		t.Note("wire %x", wire)
		t.Failf("decoding equivalent bytes: %v", e)
	}
	if len(tap.Rest()) != 0 {
		t.Failf("%d bytes left over", len(tap.Rest()))
	}
}

var ct = map[byte]byte{vm.BOOL: 1, vm.BYTE: 3, vm.I16: 4, vm.I32: 5, vm.I64: 6, vm.DOUBLE: 7, vm.STRING: 8, vm.LIST: 9, vm.SET: 10, vm.MAP: 11, vm.STRUCT: 12}

func uv(t *pbt.T, b []byte, u uint64, changed *int) []byte {
	n := 1
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
		n++
	}
	// At most 5 groups for up to 32 bits and 10 for 64, as the encoding allows.
	if u < 0x40 && n != 5 && n < 10 && t.Chance(1, 12) { // one redundant group
		*changed++
		return append(b, byte(u)|0x80, 0)
	}
	return append(b, byte(u))
}

func zz(i int64) uint64 { return uint64(i<<1) ^ uint64(i>>63) }

func enc(t *pbt.T, b []byte, v *vm.Val, changed *int) []byte {
	switch v.T {
	case vm.I16, vm.I32, vm.I64:
		return uv(t, b, zz(v.I), changed)
	case vm.STRING:
		return append(uv(t, b, uint64(len(v.S)), changed), v.S...)
	case vm.STRUCT:
		last := int16(0)
		for _, f := range v.Fields {
			c := ct[f.V.T]
			if f.V.T == vm.BOOL && !f.V.B {
				c = 2
			}
			if d := int(f.ID) - int(last); d > 0 && d <= 15 && !t.Chance(1, 4) {
				b = append(b, byte(d)<<4|c)
			} else {
				*changed++
				b = uv(t, append(b, c), zz(int64(f.ID)), changed)
			}
			last = f.ID
			if f.V.T != vm.BOOL {
				b = enc(t, b, f.V, changed)
			}
		}
		return append(b, 0)
	case vm.LIST, vm.SET:
		c := ct[v.ET]
		if n := len(v.Elems); n <= 14 && !t.Chance(1, 4) {
			b = append(b, byte(n)<<4|c)
		} else {
			*changed++
			b = uv(t, append(b, 0xf0|c), uint64(n), changed)
		}
		for _, x := range v.Elems {
			b = enc(t, b, x, changed)
		}
		return b
	case vm.MAP:
		if len(v.Elems) == 0 {
			return append(b, 0)
		}
		b = uv(t, b, uint64(len(v.Elems)), changed)
		b = append(b, ct[v.KT]<<4|ct[v.ET])
		for i, x := range v.Elems {
			b = enc(t, b, v.Keys[i], changed)
			b = enc(t, b, x, changed)
		}
		return b
	}
	return vm.RefCompact(b, v)
}

// header: only protocol id 0x82 with version 1 is accepted.
func header(t *pbt.T) {
	id, vt := byte(0x82), byte(t.Int(1, 4))<<5|1
	switch t.Pick(1, 1, 1, 1) {
	case 1:
		id = byte(t.N(256))
	case 2:
		vt = byte(t.N(256))
	case 3:
		id, vt = byte(t.N(256)), byte(t.N(256))
	}
	seq := uint32(t.I64())
	var dummy int
	wire := uv(t, []byte{id, vt}, uint64(seq), &dummy)
	name := t.Text(30)
	wire = append(wire, byte(len(name)))
	if len(name) > 127 {
		t.Discard()
	}
	wire = append(wire, name...)
	t.Note("header %02x %02x seq %d name %q", id, vt, int32(seq), name)
	tap := vm.NewTap(wire)
	n, ty, s, e := vm.Compact.New(tap).ReadMessageBegin()
	if id != 0x82 || vt&0x1f != 1 {
		t.NonTrivial()
		t.Label("refused")
		if e == nil {
			t.Failf("a message with header %02x %02x is accepted", id, vt)
		}
		if e.TypeId() != thrift.BAD_VERSION {
			t.Failf("header %02x %02x is refused with type %d, want BAD_VERSION", id, vt, e.TypeId())
		}
		return
	}
	if e != nil {
		t.Failf("header %02x %02x refused: %v", id, vt, e)
	}
	if n != name || byte(ty) != vt>>5 || s != int32(seq) {
		t.Failf("read (%q,%d,%d), want (%q,%d,%d)", n, int(ty), s, name, vt>>5, int32(seq))
	}
}

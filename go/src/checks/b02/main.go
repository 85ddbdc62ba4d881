package main

import (
	"encoding/binary"
	"fmt"
	"pbt"
	pc "protochk"
	"thrift"
	"vm"
)

func main() {
	strict := pc.Ref{Val: vm.RefBinary, Msg: func(m *vm.Msg) []byte { return vm.RefBinaryMsg(m, true) }}
	old := pc.Ref{Val: vm.RefBinary, Msg: func(m *vm.Msg) []byte { return vm.RefBinaryMsg(m, false) }}
	subs := []pbt.Sub{
		{Name: "encode/strict", Quick: 48000, Thorough: 400000, Fn: pc.Encode(vm.BinaryStrict, strict)},
		{Name: "encode/default", Quick: 24000, Thorough: 100000, Fn: pc.Encode(vm.Binary, strict)},
		{Name: "encode/old", Quick: 24000, Thorough: 100000, Fn: pc.Encode(vm.BinaryLenient, old)},
		{Name: "decode/strict-by-strict", Quick: 36000, Thorough: 200000, Fn: pc.Decode(vm.BinaryStrict, strict)},
		{Name: "decode/strict-by-default", Quick: 18000, Thorough: 100000, Fn: pc.Decode(vm.Binary, strict)},
		{Name: "decode/strict-by-old", Quick: 18000, Thorough: 100000, Fn: pc.Decode(vm.BinaryLenient, strict)},
		{Name: "decode/old-by-default", Quick: 18000, Thorough: 100000, Fn: pc.Decode(vm.Binary, old)},
		{Name: "decode/old-by-old", Quick: 18000, Thorough: 100000, Fn: pc.Decode(vm.BinaryLenient, old)},
		{Name: "version", Quick: 120000, Thorough: 400000, Fn: version},
		{Name: "typed-headers", Quick: 18000, Thorough: 50000, Fn: pc.TypedHeaders(vm.BinaryStrict)},
		{Name: "big/encode", Quick: 600, Thorough: 2000, Fn: pc.BigEncode(vm.BinaryStrict, strict)},
		{Name: "factory", Quick: 12000, Thorough: 40000, Fn: factory},
	}
	pbt.Main(pbt.Property{ID: "B02", Subs: subs,
		Rule: "random messages are encoded by the library and by an independent encoder written from the Thrift binary protocol specification, and each decodes the other's bytes; header words are enumerated around the version mask; non-trivial = a non-empty body, or a header word with its top bit set"})
}

// version: which first words a reader accepts. Top bit set: only 0x8001 in the upper
// half is a version; top bit clear: the old header, refused by a strict reader.
func version(t *pbt.T) {
	var word uint32
	switch t.Pick(3, 2, 2, 2) {
	case 0:
		word = 0x80010000 | uint32(t.Int(1, 4))
	case 1:
		word = 0x80000000 | uint32(t.N(1<<31))
	case 2:
		word = 0x80010000 ^ 1<<t.N(31)
	default:
		word = uint32(t.Int(0, 40))
	}
	name := t.Text(40)
	if word < 0x80000000 {
		if word > 64 {
			t.Discard()
		}
		name = string(t.SeedBytes(int(word)))
	}
	mode := t.N(3)
	seq := uint32(t.I64())
	ty := byte(t.Int(1, 4))
	var w []byte
	w = binary.BigEndian.AppendUint32(w, word)
	if word >= 0x80000000 {
		w = binary.BigEndian.AppendUint32(w, uint32(len(name)))
		w = append(w, name...)
	} else {
		w = append(w, name...)
		w = append(w, ty)
	}
	w = binary.BigEndian.AppendUint32(w, seq)
	t.Note("first word %08x mode %d name %q", word, mode, name)
	pr := []vm.Proto{vm.BinaryStrict, vm.Binary, vm.BinaryLenient}[mode]
	tap := vm.NewTap(w)
	n, mt, s, e := pr.New(tap).ReadMessageBegin()
	bad := false
	if word >= 0x80000000 {
		t.NonTrivial()
		bad = word>>16 != 0x8001
		ty = byte(word)
	} else {
		bad = mode == 0
	}
	if bad {
		t.Label("refused")
		if e == nil {
			t.Failf("%s accepts a message that starts with %08x", pr.Name, word)
		}
		if e.TypeId() != thrift.BAD_VERSION {
			t.Failf("%s refuses %08x with type %d, want BAD_VERSION", pr.Name, word, e.TypeId())
		}
		return
	}
	t.Label("accepted")
	if e != nil {
		t.Failf("%s refuses %08x: %v", pr.Name, word, e)
	}
	if n != name || byte(mt) != ty || uint32(s) != seq || len(tap.Rest()) != 0 {
		t.Failf("%s reads (%q,%d,%d), want (%q,%d,%d)", pr.Name, n, int(mt), s, name, ty, int32(seq))
	}
}

// factory: protocols made by the factories behave as configured.
func factory(t *pbt.T) {
	sr, sw := t.Bool(), t.Bool()
	def := t.Chance(1, 4)
	var f thrift.TProtocolFactory = thrift.NewTBinaryProtocolFactory(sr, sw)
	if def {
		sr, sw = false, true
		f = thrift.NewTBinaryProtocolFactoryDefault()
	}
	m := vm.GenMsg(t, vm.Opts{Depth: 1, Wild: true})
	t.Note("factory strictRead=%v strictWrite=%v %s", sr, sw, m)
	t.NonTrivial()
	tap := vm.NewTap(nil)
	if e := vm.WriteMsg(f.GetProtocol(tap), m); e != nil {
		t.Failf("writing: %v", e)
	}
	if w := vm.RefBinaryMsg(m, sw); fmt.Sprintf("%x", w) != fmt.Sprintf("%x", tap.W) {
		t.Failf("factory(%v,%v) protocol emits %x, want %x", sr, sw, tap.W, w)
	}
	e := vm.ReadMsg(f.GetProtocol(vm.NewTap(tap.W)), vm.Binary, m)
	if (e != nil) != (sr && !sw) {
		t.Failf("factory(%v,%v) protocol reading its own message: %v", sr, sw, e)
	}
}

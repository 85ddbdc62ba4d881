package main

import (
	"fmt"
	"pbt"
	pc "protochk"
	"thrift"
	"vm"
)

func main() {
	fac := vm.Proto{Name: "json-factory", Text: true, New: func(t thrift.TTransport) thrift.TProtocol {
		return thrift.NewTJSONProtocolFactory().GetProtocol(t)
	}}
	sfac := vm.Proto{Name: "simplejson-factory", Text: true, Named: true, New: func(t thrift.TTransport) thrift.TProtocol {
		return thrift.NewTSimpleJSONProtocolFactory().GetProtocol(t)
	}}
	subs := []pbt.Sub{
		{Name: "text/json", Quick: 72000, Thorough: 500000, Fn: pc.JSONText(vm.JSON)},
		{Name: "text/simplejson", Quick: 72000, Thorough: 500000, Fn: pc.JSONText(vm.SimpleJSON)},
		{Name: "text/json-factory", Quick: 6000, Thorough: 10000, Fn: pc.JSONText(fac)},
		{Name: "text/simplejson-factory", Quick: 6000, Thorough: 10000, Fn: pc.JSONText(sfac)},
		{Name: "reformat/json", Quick: 72000, Thorough: 500000, Fn: pc.Reformat(vm.JSON)},
		{Name: "reformat/simplejson", Quick: 72000, Thorough: 500000, Fn: pc.Reformat(vm.SimpleJSON)},
		{Name: "typed-headers/json", Quick: 18000, Thorough: 50000, Fn: pc.TypedHeaders(vm.JSON)},
		{Name: "typed-headers/simplejson", Quick: 18000, Thorough: 50000, Fn: pc.TypedHeaders(vm.SimpleJSON)},
		{Name: "version", Quick: 60000, Thorough: 200000, Fn: version},
	}
	pbt.Main(pbt.Property{ID: "J02", Subs: subs,
		Rule: "random messages are written by both JSON protocols and the text is decoded by encoding/json and compared with the value's documented shape; the text is also rewritten with white space and other escapes and must read back the same; non-trivial = non-empty body, or text that the rewriting changed"})
}

// version: only messages of version 1 are JSON protocol messages.
func version(t *pbt.T) {
	m := vm.GenMsg(t, vm.Opts{Depth: 1})
	tap := vm.NewTap(nil)
	if e := vm.WriteMsg(vm.JSON.New(tap), m); e != nil {
		t.Failf("writing: %v", e)
	}
	if len(tap.W) < 3 || string(tap.W[:3]) != "[1," {
		t.Failf("a message starts with %q, want [1,", tap.W)
	}
	v := int64(int32(t.I64()))
	if t.Bool() {
		v = int64(t.Int(-3, 20))
	}
	w := append([]byte(fmt.Sprintf("[%d", v)), tap.W[2:]...)
	t.Note("%s", w)
	t.NonTrivial()
	name, mt, seq, e := vm.JSON.New(vm.NewTap(w)).ReadMessageBegin()
	if v != 1 && e == nil {
		t.Failf("a message of version %d is accepted", v)
	}
	if v == 1 && (e != nil || name != m.Name || byte(mt) != byte(m.Type) || seq != m.Seq) {
		t.Failf("read (%q,%d,%d), %v", name, mt, seq, e)
	}
}

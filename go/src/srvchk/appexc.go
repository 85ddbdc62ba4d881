package srvchk

import (
	"fmt"
	"pbt"
	"thrift"
	"vm"
)

func text(t *pbt.T, pr vm.Proto, max int) string {
	if pr.Text || t.Bool() {
		return t.Text(max)
	}
	return string(t.Bytes(max))
}

// excVal is the wire form of an application exception.
func excVal(msg string, ty int32) *vm.Val {
	v := &vm.Val{T: vm.STRUCT, Name: "TApplicationException"}
	if msg != "" {
		v.Fields = append(v.Fields, vm.Fld{ID: 1, Name: "message", V: &vm.Val{T: vm.STRING, S: msg}})
	}
	v.Fields = append(v.Fields, vm.Fld{ID: 2, Name: "type", V: &vm.Val{T: vm.I32, I: int64(ty)}})
	return v
}

// Exceptions: application exceptions written and read back, on their own, one after
// another and between other values; and read from structs that another version of the
// library could have written.
func Exceptions(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		tap := vm.NewTap(nil)
		w := pr.New(tap)
		type item struct {
			exc  bool
			msg  string
			ty   int32
			seq  int32
			body *vm.Val
		}
		var items []item
		t.Repeat(6, 3, func(int) {
			it := item{seq: int32(t.I64())}
			m := &vm.Msg{Name: "x" + t.Text(10), Type: thrift.EXCEPTION, Seq: it.seq}
			switch t.Pick(4, 4, 1) {
			case 0: // written by the library
				it.exc = true
				var x thrift.TApplicationException
				switch t.Pick(5, 1, 1, 1) {
				case 0:
					it.msg, it.ty = text(t, pr, 200), int32(t.I64())
					x = thrift.NewTApplicationException(it.ty, it.msg)
				case 1:
					it.msg, it.ty = "UNKNOWN", int32(t.I64())
					x = thrift.NewTApplicationExceptionType(it.ty)
				case 2:
					it.msg = text(t, pr, 200)
					x = thrift.NewTApplicationExceptionMessage(it.msg)
				case 3:
					it.msg = "UNKNOWN"
					x = thrift.NewTApplicationExceptionDefault()
				}
				if x.TypeId() != it.ty || x.Error() != it.msg {
					t.Failf("exception (%d, %q) made of (%d, %q)", x.TypeId(), x.Error(), it.ty, it.msg)
				}
				t.Note("exception %d %q", it.ty, it.msg)
				if e := w.WriteMessageBegin(m.Name, m.Type, m.Seq); e != nil {
					t.Failf("writing: %v", e)
				}
				if e := x.Write(w); e != nil {
					t.Failf("writing: %v", e)
				}
				if e := w.WriteMessageEnd(); e != nil {
					t.Failf("writing: %v", e)
				}
				m.Body = excVal(it.msg, it.ty)
				it.body = m.Body
			case 1: // another version's
				it.exc = true
				it.body = &vm.Val{T: vm.STRUCT, Name: "TApplicationException"}
				if t.Chance(3, 4) {
					it.msg = text(t, pr, 60)
					it.body.Fields = append(it.body.Fields, vm.Fld{ID: 1, Name: "message", V: &vm.Val{T: vm.STRING, S: it.msg}})
				}
				if t.Chance(3, 4) {
					it.ty = int32(t.I64())
					it.body.Fields = append(it.body.Fields, vm.Fld{ID: 2, Name: "type", V: &vm.Val{T: vm.I32, I: int64(it.ty)}})
				}
				if !pr.Named && t.Chance(1, 4) && len(it.body.Fields) > 0 { // a field of another type is not the known one
					i := t.Int(0, len(it.body.Fields)-1)
					f := &it.body.Fields[i]
					ty := f.V.T
					if v := vm.Gen(t, vm.Opts{Depth: 2, Text: pr.Text, MaxStr: 40}); v.T != ty {
						f.V = v
						if f.ID == 1 {
							it.msg = ""
						} else {
							it.ty = 0
						}
						t.Label("field of another type")
					}
				}
				disturb(t, pr, it.body, 2, 1)
				m.Body = it.body
				t.Note("%s", m)
				if e := vm.WriteMsg(w, m); e != nil {
					t.Failf("writing: %v", e)
				}
			case 2:
				m.Body = vm.GenStruct(t, vm.Opts{Depth: 2, Text: pr.Text, Wild: true, MaxStr: 60}, 2)
				it.body = m.Body
				t.Note("%s", m)
				if e := vm.WriteMsg(w, m); e != nil {
					t.Failf("writing: %v", e)
				}
			}
			items = append(items, it)
		})
		if len(items) > 1 {
			t.NonTrivial()
		}
		in := vm.NewTap(tap.W)
		if t.Chance(1, 3) {
			n := t.Int(1, 7)
			in.Chunk = func() int { return n }
		}
		r := pr.New(in)
		check := t.Bool() // read what the library wrote by hand as well
		for i, it := range items {
			_, ty, seq, e := r.ReadMessageBegin()
			if e != nil || ty != thrift.EXCEPTION || seq != it.seq {
				t.Failf("message %d: header %d %d, %v; want number %d", i, int(ty), seq, e, it.seq)
			}
			if it.exc && !(check && i%2 == 0) {
				fresh := thrift.NewTApplicationException(77, "stale")
				x, err := fresh.Read(r)
				if err != nil {
					t.Failf("message %d: %v", i, err)
				}
				if x.TypeId() != it.ty || x.Error() != it.msg {
					t.Failf("message %d: exception (%d, %q), want (%d, %q)", i, x.TypeId(), x.Error(), it.ty, it.msg)
				}
			} else if e := vm.Read(r, pr, it.body, fmt.Sprint("message ", i)); e != nil {
				t.Failf("message %d: %v", i, e)
			}
			if e := r.ReadMessageEnd(); e != nil {
				t.Failf("message %d: %v", i, e)
			}
		}
		if len(in.Rest()) > 0 {
			t.Failf("%d bytes are left", len(in.Rest()))
		}
	}
}

// ExceptionFaults: an application exception that does not get through, either way, is
// reported by the call that writes or reads it.
func ExceptionFaults(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		msg, ty := text(t, pr, 60), int32(t.I64())
		x := thrift.NewTApplicationException(ty, msg)
		tap := vm.NewTap(nil)
		if e := x.Write(pr.New(tap)); e != nil {
			t.Failf("writing: %v", e)
		}
		wire := tap.W
		t.Note("%s exception %d %q: %d bytes", pr.Name, ty, msg, len(wire))
		t.NonTrivial()
		for k := 0; k < len(wire); k++ {
			bad := vm.NewTap(nil)
			bad.WriteErrAfter = k
			p := pr.New(bad)
			var err error
			if g := pbt.Guard(func() {
				if err = x.Write(p); err == nil {
					err = vm.E(p.Flush())
				}
			}); g != "" {
				t.Failf("writing fails after %d of %d bytes: %s", k, len(wire), g)
			}
			if err == nil {
				t.Failf("writing fails after %d of %d bytes, and no call reports it", k, len(wire))
			}
			for _, cut := range []bool{false, true} {
				in := vm.NewTap(wire)
				in.ReadErrAfter = k
				if cut {
					in = vm.NewTap(wire[:k])
				}
				in.MaxEOFs = 300
				var y thrift.TApplicationException
				if g := pbt.Guard(func() { y, err = thrift.NewTApplicationExceptionDefault().Read(pr.New(in)) }); g != "" {
					t.Failf("the data ends or fails after %d of %d bytes: %s", k, len(wire), g)
				}
				if err == nil {
					t.Failf("the data ends or fails after %d of %d bytes, and reading reports exception %v", k, len(wire), y)
				}
			}
		}
		// failures that pass
		for at := 1; at <= tap.Writes && at <= 60; at++ {
			bad := vm.NewTap(nil)
			bad.WriteErrAt = at
			p := pr.New(bad)
			var err error
			if g := pbt.Guard(func() {
				if err = x.Write(p); err == nil {
					err = vm.E(p.Flush())
				}
			}); g != "" {
				t.Failf("write %d of %d fails once: %s", at, tap.Writes, g)
			}
			if err == nil && string(bad.W) != string(wire) {
				t.Failf("write %d of %d fails once, no call reports an error, and %x arrives instead of %x", at, tap.Writes, bad.W, wire)
			}
		}
		for at := 1; at <= 60; at++ {
			in := vm.NewTap(wire)
			in.ReadErrAt = at
			in.MaxEOFs = 300
			var y thrift.TApplicationException
			var err error
			if g := pbt.Guard(func() { y, err = thrift.NewTApplicationExceptionDefault().Read(pr.New(in)) }); g != "" {
				t.Failf("read %d fails once: %s", at, g)
			}
			if err == nil && (y == nil || y.TypeId() != x.TypeId() || y.Error() != x.Error()) {
				t.Failf("read %d fails once, and reading reports exception %v instead of (%d, %q)", at, y, x.TypeId(), x.Error())
			}
			if in.Reads < at {
				break
			}
		}
	}
}

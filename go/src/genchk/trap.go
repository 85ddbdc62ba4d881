package genchk

import (
	"pbt"
	"strconv"
	"strings"
	"thrift"
	"vm"
)

// trap is a protocol whose nth call fails, and those after it.
type trap struct {
	thrift.TProtocol
	n, depth int    // calls so far; the depth of the struct
	at       int    // the call that fails; -1: none
	field    string // of the outermost struct, in which the call that failed was made
	now      string
	call     string
	boxes    int  // containers of the outermost struct that are being written or read
	inside   bool // whether the call that failed was made within one, or within another struct
	err      thrift.TProtocolException
}

func (p *trap) hit(call string) bool {
	p.n++
	if p.at < 0 || p.n <= p.at {
		return false
	}
	if p.n == p.at+1 {
		p.field, p.call, p.inside = p.now, call, p.boxes > 0 || p.depth > 1 || p.depth == 1 && call == "WriteStructBegin" || strings.HasSuffix(call, "MapBegin") || strings.HasSuffix(call, "ListBegin") || strings.HasSuffix(call, "SetBegin")
	}
	return true
}

// enter and leave follow the fields of the outermost struct.
func (p *trap) enter(name string) {
	if p.depth == 1 {
		p.now = name
	}
}

func (p *trap) leave() {
	if p.depth == 1 {
		p.now = ""
	}
}

func (p *trap) WriteStructBegin(name string) thrift.TProtocolException {
	if p.hit("WriteStructBegin") {
		return p.err
	}
	p.depth++
	return p.TProtocol.WriteStructBegin(name)
}

func (p *trap) WriteStructEnd() thrift.TProtocolException {
	if p.hit("WriteStructEnd") {
		return p.err
	}
	p.depth--
	return p.TProtocol.WriteStructEnd()
}

func (p *trap) WriteFieldBegin(name string, ty thrift.TType, id int16) thrift.TProtocolException {
	p.enter(name)
	if p.hit("WriteFieldBegin") {
		return p.err
	}
	return p.TProtocol.WriteFieldBegin(name, ty, id)
}

func (p *trap) WriteFieldEnd() thrift.TProtocolException {
	if p.hit("WriteFieldEnd") {
		return p.err
	}
	p.leave()
	return p.TProtocol.WriteFieldEnd()
}

func (p *trap) WriteFieldStop() thrift.TProtocolException {
	if p.hit("WriteFieldStop") {
		return p.err
	}
	return p.TProtocol.WriteFieldStop()
}

func (p *trap) WriteMapBegin(k, v thrift.TType, n int) thrift.TProtocolException {
	if p.hit("WriteMapBegin") {
		return p.err
	}
	p.boxes++
	return p.TProtocol.WriteMapBegin(k, v, n)
}

func (p *trap) WriteMapEnd() thrift.TProtocolException {
	if p.hit("WriteMapEnd") {
		return p.err
	}
	p.boxes--
	return p.TProtocol.WriteMapEnd()
}

func (p *trap) WriteListBegin(e thrift.TType, n int) thrift.TProtocolException {
	if p.hit("WriteListBegin") {
		return p.err
	}
	p.boxes++
	return p.TProtocol.WriteListBegin(e, n)
}

func (p *trap) WriteListEnd() thrift.TProtocolException {
	if p.hit("WriteListEnd") {
		return p.err
	}
	p.boxes--
	return p.TProtocol.WriteListEnd()
}

func (p *trap) WriteSetBegin(e thrift.TType, n int) thrift.TProtocolException {
	if p.hit("WriteSetBegin") {
		return p.err
	}
	p.boxes++
	return p.TProtocol.WriteSetBegin(e, n)
}

func (p *trap) WriteSetEnd() thrift.TProtocolException {
	if p.hit("WriteSetEnd") {
		return p.err
	}
	p.boxes--
	return p.TProtocol.WriteSetEnd()
}

func (p *trap) WriteBool(v bool) thrift.TProtocolException {
	if p.hit("WriteBool") {
		return p.err
	}
	return p.TProtocol.WriteBool(v)
}

func (p *trap) WriteByte(v byte) thrift.TProtocolException {
	if p.hit("WriteByte") {
		return p.err
	}
	return p.TProtocol.WriteByte(v)
}

func (p *trap) WriteI16(v int16) thrift.TProtocolException {
	if p.hit("WriteI16") {
		return p.err
	}
	return p.TProtocol.WriteI16(v)
}

func (p *trap) WriteI32(v int32) thrift.TProtocolException {
	if p.hit("WriteI32") {
		return p.err
	}
	return p.TProtocol.WriteI32(v)
}

func (p *trap) WriteI64(v int64) thrift.TProtocolException {
	if p.hit("WriteI64") {
		return p.err
	}
	return p.TProtocol.WriteI64(v)
}

func (p *trap) WriteDouble(v float64) thrift.TProtocolException {
	if p.hit("WriteDouble") {
		return p.err
	}
	return p.TProtocol.WriteDouble(v)
}

func (p *trap) WriteString(v string) thrift.TProtocolException {
	if p.hit("WriteString") {
		return p.err
	}
	return p.TProtocol.WriteString(v)
}

func (p *trap) WriteBinary(v []byte) thrift.TProtocolException {
	if p.hit("WriteBinary") {
		return p.err
	}
	return p.TProtocol.WriteBinary(v)
}

func (p *trap) ReadStructEnd() thrift.TProtocolException {
	if p.hit("ReadStructEnd") {
		return p.err
	}
	p.depth--
	return p.TProtocol.ReadStructEnd()
}

func (p *trap) ReadFieldEnd() thrift.TProtocolException {
	if p.hit("ReadFieldEnd") {
		return p.err
	}
	p.leave()
	return p.TProtocol.ReadFieldEnd()
}

func (p *trap) ReadMapEnd() thrift.TProtocolException {
	if p.hit("ReadMapEnd") {
		return p.err
	}
	p.boxes--
	return p.TProtocol.ReadMapEnd()
}

func (p *trap) ReadListEnd() thrift.TProtocolException {
	if p.hit("ReadListEnd") {
		return p.err
	}
	p.boxes--
	return p.TProtocol.ReadListEnd()
}

func (p *trap) ReadSetEnd() thrift.TProtocolException {
	if p.hit("ReadSetEnd") {
		return p.err
	}
	p.boxes--
	return p.TProtocol.ReadSetEnd()
}

func (p *trap) Skip(ty thrift.TType) thrift.TProtocolException {
	if p.hit("Skip") {
		return p.err
	}
	return p.TProtocol.Skip(ty)
}

func (p *trap) ReadStructBegin() (name string, err thrift.TProtocolException) {
	if p.hit("ReadStructBegin") {
		err = p.err
		return
	}
	p.depth++
	name, err = p.TProtocol.ReadStructBegin()
	return
}

func (p *trap) ReadFieldBegin() (name string, ty thrift.TType, id int16, err thrift.TProtocolException) {
	if p.hit("ReadFieldBegin") {
		err = p.err
		return
	}
	name, ty, id, err = p.TProtocol.ReadFieldBegin()
	if p.depth == 1 && err == nil && ty != thrift.STOP {
		p.now = name
		if name == "" {
			p.now = "#" + strconv.Itoa(int(id))
		}
	}
	return
}

func (p *trap) ReadMapBegin() (k, v thrift.TType, n int, err thrift.TProtocolException) {
	if p.hit("ReadMapBegin") {
		err = p.err
		return
	}
	p.boxes++
	k, v, n, err = p.TProtocol.ReadMapBegin()
	return
}

func (p *trap) ReadListBegin() (e thrift.TType, n int, err thrift.TProtocolException) {
	if p.hit("ReadListBegin") {
		err = p.err
		return
	}
	p.boxes++
	e, n, err = p.TProtocol.ReadListBegin()
	return
}

func (p *trap) ReadSetBegin() (e thrift.TType, n int, err thrift.TProtocolException) {
	if p.hit("ReadSetBegin") {
		err = p.err
		return
	}
	p.boxes++
	e, n, err = p.TProtocol.ReadSetBegin()
	return
}

func (p *trap) ReadBool() (v bool, err thrift.TProtocolException) {
	if p.hit("ReadBool") {
		err = p.err
		return
	}
	v, err = p.TProtocol.ReadBool()
	return
}

func (p *trap) ReadByte() (v byte, err thrift.TProtocolException) {
	if p.hit("ReadByte") {
		err = p.err
		return
	}
	v, err = p.TProtocol.ReadByte()
	return
}

func (p *trap) ReadI16() (v int16, err thrift.TProtocolException) {
	if p.hit("ReadI16") {
		err = p.err
		return
	}
	v, err = p.TProtocol.ReadI16()
	return
}

func (p *trap) ReadI32() (v int32, err thrift.TProtocolException) {
	if p.hit("ReadI32") {
		err = p.err
		return
	}
	v, err = p.TProtocol.ReadI32()
	return
}

func (p *trap) ReadI64() (v int64, err thrift.TProtocolException) {
	if p.hit("ReadI64") {
		err = p.err
		return
	}
	v, err = p.TProtocol.ReadI64()
	return
}

func (p *trap) ReadDouble() (v float64, err thrift.TProtocolException) {
	if p.hit("ReadDouble") {
		err = p.err
		return
	}
	v, err = p.TProtocol.ReadDouble()
	return
}

func (p *trap) ReadString() (v string, err thrift.TProtocolException) {
	if p.hit("ReadString") {
		err = p.err
		return
	}
	v, err = p.TProtocol.ReadString()
	return
}

func (p *trap) ReadBinary() (v []byte, err thrift.TProtocolException) {
	if p.hit("ReadBinary") {
		err = p.err
		return
	}
	v, err = p.TProtocol.ReadBinary()
	return
}

// Errors: what stops the reading or the writing of a struct is reported with the struct's
// name, and that of the field it was at.
func Errors(pr vm.Proto) func(*pbt.T) {
	return guarded(func(t *pbt.T) {
		d, ty := pickStruct(t)
		x, _ := random(t, d, ty)
		buf := thrift.NewTMemoryBuffer()
		w := &trap{TProtocol: pr.New(buf), at: -1}
		if e := vm.E(x.(writer).Write(w)); e != nil {
			t.Failf("writing fails: %v", e)
		}
		w.Flush()
		raw := append([]byte(nil), buf.Bytes()...)
		r := &trap{TProtocol: pr.New(vm.NewTap(raw)), at: -1}
		if e := vm.E(Construct(d).(reader).Read(r)); e != nil {
			t.Failf("reading fails: %v", e)
		}
		code, msg := int(t.N(6)), "the cause "+strconv.Itoa(int(t.N(1000)))
		look := func(what string, p *trap, e error) {
			what += " stopped by " + p.call + " in field " + strconv.Quote(p.field)
			te, ok := e.(thrift.TProtocolException)
			if !ok || te == nil {
				t.Failf("%s: %T %v", what, e, e)
			}
			s := te.Error()
			want := code
			if code == thrift.UNKNOWN_PROTOCOL_EXCEPTION {
				want = thrift.INVALID_DATA
			}
			if te.TypeId() != want {
				t.Failf("%s with an error of type %d gives one of type %d: %s", what, code, te.TypeId(), s)
			}
			if !strings.Contains(s, msg) {
				t.Failf("%s: the error %q is lost: %s", what, msg, s)
			}
			if p.inside && what[0] == 'w' {
				return // names the container or the struct within
			}
			if !strings.Contains(s, d.Name) {
				t.Failf("%s: the error does not name the struct %s: %s", what, d.Name, s)
			}
			f := p.field
			if strings.HasPrefix(f, "#") {
				id, _ := strconv.Atoi(f[1:])
				f = d.field(int16(id)).Name
			}
			if !strings.Contains(s, f) {
				t.Failf("%s: the error does not name the field %s: %s", what, f, s)
			}
			t.Label(p.call)
		}
		for k := 0; k < 6; k++ {
			cause := thrift.NewTProtocolException(code, msg)
			p := &trap{TProtocol: pr.New(thrift.NewTMemoryBuffer()), at: int(t.N(uint64(w.n))), err: cause}
			if e := vm.E(x.(writer).Write(p)); e == nil {
				t.Failf("writing succeeds though %s failed", p.call)
			} else {
				look("writing", p, e)
			}
			p = &trap{TProtocol: pr.New(vm.NewTap(append([]byte(nil), raw...))), at: int(t.N(uint64(r.n))), err: cause}
			if e := vm.E(Construct(d).(reader).Read(p)); e == nil {
				t.Failf("reading succeeds though %s failed", p.call)
			} else {
				look("reading", p, e)
			}
		}
		if w.n > 6 {
			t.NonTrivial()
		}
	})
}

package protochk

import (
	"pbt"
	"thrift"
	"vm"
)

// stubborn hands every write on to a protocol and keeps the first error to itself, as a
// program does that goes on writing after a failure.
type stubborn struct {
	thrift.TProtocol
	first thrift.TProtocolException
}

func (p *stubborn) keep(e thrift.TProtocolException) thrift.TProtocolException {
	if p.first == nil {
		p.first = e
	}
	return nil
}

func (p *stubborn) WriteMessageBegin(n string, y thrift.TMessageType, s int32) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteMessageBegin(n, y, s))
}
func (p *stubborn) WriteMessageEnd() thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteMessageEnd())
}
func (p *stubborn) WriteStructBegin(n string) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteStructBegin(n))
}
func (p *stubborn) WriteStructEnd() thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteStructEnd())
}
func (p *stubborn) WriteFieldBegin(n string, y thrift.TType, id int16) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteFieldBegin(n, y, id))
}
func (p *stubborn) WriteFieldEnd() thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteFieldEnd())
}
func (p *stubborn) WriteFieldStop() thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteFieldStop())
}
func (p *stubborn) WriteMapBegin(k, v thrift.TType, n int) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteMapBegin(k, v, n))
}
func (p *stubborn) WriteMapEnd() thrift.TProtocolException { return p.keep(p.TProtocol.WriteMapEnd()) }
func (p *stubborn) WriteListBegin(y thrift.TType, n int) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteListBegin(y, n))
}
func (p *stubborn) WriteListEnd() thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteListEnd())
}
func (p *stubborn) WriteSetBegin(y thrift.TType, n int) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteSetBegin(y, n))
}
func (p *stubborn) WriteSetEnd() thrift.TProtocolException { return p.keep(p.TProtocol.WriteSetEnd()) }
func (p *stubborn) WriteBool(x bool) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteBool(x))
}
func (p *stubborn) WriteByte(x byte) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteByte(x))
}
func (p *stubborn) WriteI16(x int16) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteI16(x))
}
func (p *stubborn) WriteI32(x int32) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteI32(x))
}
func (p *stubborn) WriteI64(x int64) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteI64(x))
}
func (p *stubborn) WriteDouble(x float64) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteDouble(x))
}
func (p *stubborn) WriteString(x string) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteString(x))
}
func (p *stubborn) WriteBinary(x []byte) thrift.TProtocolException {
	return p.keep(p.TProtocol.WriteBinary(x))
}

// send writes and flushes a message, going on after failures if it is told to, and gives
// the first error.
func send(t *pbt.T, p thrift.TProtocol, m *vm.Msg, goOn bool) error {
	if !goOn {
		e := vm.WriteMsg(p, m)
		if e == nil {
			e = vm.E(p.Flush())
		}
		return e
	}
	s := &stubborn{TProtocol: p}
	var e error
	if why := pbt.Guard(func() {
		if e = vm.WriteMsg(s, m); e == nil {
			e = vm.E(s.first)
		}
		if f := vm.E(p.Flush()); e == nil {
			e = f
		}
	}); why != "" {
		t.Failf("a program that goes on writing after a failure: %s", why)
	}
	return e
}

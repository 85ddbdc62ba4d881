package srvchk

import (
	"errors"
	"fmt"
	"math"
	"pbt"
	"simple"
	"thrift"
	"vm"
)

// Generated code: the service of the golden sample, its client and its processor.

// line is one direction of a connection within one thread.
type line struct {
	b     []byte
	flush int // bytes flushed
}

// wireEnd is a transport that reads one line and writes another, and is never late.
type wireEnd struct {
	in, out *line
	chunk   func() int
}

func (e *wireEnd) IsOpen() bool { return true }
func (e *wireEnd) Peek() bool   { return true }
func (e *wireEnd) Open() error  { return nil }
func (e *wireEnd) Close() error { return nil }
func (e *wireEnd) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(e.in.b) == 0 {
		return 0, thrift.NewTTransportException(thrift.END_OF_FILE, "the line is empty")
	}
	n := len(b)
	if e.chunk != nil {
		if c := e.chunk(); c < n {
			n = c
		}
	}
	n = copy(b[:n], e.in.b)
	e.in.b = e.in.b[n:]
	return n, nil
}
func (e *wireEnd) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(e, b) }
func (e *wireEnd) Write(b []byte) (int, error) {
	e.out.b = append(e.out.b, b...)
	return len(b), nil
}
func (e *wireEnd) Flush() error { e.out.flush = len(e.out.b); return nil }

var enumNames = []string{"first", "second", "third", "optional_fourth", "optional_fifth", "optional_sixth", "default_seventh", "default_eighth", "default_nineth"}

// box is the model of the sample struct: one value per field, or unset.
type box struct {
	v   [9]int64
	set [9]bool
}

const unset = math.MinInt32 - 1

func genBox(t *pbt.T) *box {
	if t.Chance(1, 12) {
		return nil
	}
	b := &box{}
	for i := range b.v {
		switch t.Pick(4, 2, 2) {
		case 0:
			b.set[i], b.v[i] = true, int64(t.Int(0, 4))
		case 1:
		default:
			b.set[i], b.v[i] = true, int64(int32(t.I64()))
		}
	}
	return b
}

func (b *box) make() *simple.ContainerOfEnums {
	if b == nil {
		return nil
	}
	x := simple.NewContainerOfEnums()
	v := func(i int) int64 {
		if b.set[i] {
			return b.v[i]
		}
		return unset
	}
	x.First, x.Second, x.Third = simple.UndefinedValues(v(0)), simple.DefinedValues(v(1)), simple.HeterogeneousValues(v(2))
	x.OptionalFourth, x.OptionalFifth, x.OptionalSixth = simple.UndefinedValues(v(3)), simple.DefinedValues(v(4)), simple.HeterogeneousValues(v(5))
	x.DefaultSeventh, x.DefaultEighth, x.DefaultNineth = simple.UndefinedValues(v(6)), simple.DefinedValues(v(7)), simple.HeterogeneousValues(v(8))
	return x
}

// arrived is the box as a receiver sees it: fields with a default have it when they are
// not sent.
func (b *box) arrived() *box {
	if b == nil {
		return nil
	}
	c := *b
	for i, d := range map[int]int64{6: 0, 7: 1, 8: 0} {
		if !c.set[i] {
			c.set[i], c.v[i] = true, d
		}
	}
	return &c
}

func unmake(x *simple.ContainerOfEnums) *box {
	if x == nil {
		return nil
	}
	b := &box{}
	for i, f := range []struct {
		v   int64
		set bool
	}{{int64(x.First), x.IsSetFirst()}, {int64(x.Second), x.IsSetSecond()}, {int64(x.Third), x.IsSetThird()},
		{int64(x.OptionalFourth), x.IsSetOptionalFourth()}, {int64(x.OptionalFifth), x.IsSetOptionalFifth()}, {int64(x.OptionalSixth), x.IsSetOptionalSixth()},
		{int64(x.DefaultSeventh), x.IsSetDefaultSeventh()}, {int64(x.DefaultEighth), x.IsSetDefaultEighth()}, {int64(x.DefaultNineth), x.IsSetDefaultNineth()}} {
		if b.set[i] = f.set; f.set {
			b.v[i] = f.v
		}
	}
	return b
}

func (b *box) same(c *box) bool {
	if b == nil || c == nil {
		return b == c
	}
	for i := range b.v {
		if b.set[i] != c.set[i] || b.set[i] && b.v[i] != c.v[i] {
			return false
		}
	}
	return true
}

func (b *box) String() string {
	if b == nil {
		return "nil"
	}
	s := "{"
	for i := range b.v {
		if b.set[i] {
			s += fmt.Sprintf(" %d:%d", i+1, b.v[i])
		}
	}
	return s + " }"
}

// val is the box on the wire.
func (b *box) val() *vm.Val {
	v := &vm.Val{T: vm.STRUCT, Name: "ContainerOfEnums"}
	for i := range b.v {
		if b.set[i] {
			v.Fields = append(v.Fields, vm.Fld{ID: int16(i + 1), Name: enumNames[i], V: &vm.Val{T: vm.I32, I: b.v[i]}})
		}
	}
	return v
}

func wrapBox(name string, id int16, structName string, b *box) *vm.Val {
	v := &vm.Val{T: vm.STRUCT, Name: structName}
	if b != nil {
		v.Fields = []vm.Fld{{ID: id, Name: name, V: b.val()}}
	}
	return v
}

// disturb reorders the fields and, where the protocol says what they are, adds fields
// that the receiver does not know.
func disturb(t *pbt.T, pr vm.Proto, v *vm.Val, known int16, low int16) {
	for i := len(v.Fields) - 1; i > 0; i-- {
		j := t.Int(0, i)
		v.Fields[i], v.Fields[j] = v.Fields[j], v.Fields[i]
	}
	if pr.Named {
		return
	}
	o := vm.Opts{Depth: 2, Text: pr.Text, Wild: true, MaxStr: 60}
	t.Repeat(3, 1, func(k int) {
		id := int16(t.I64())
		if id >= low && id <= known {
			id = known + 1 + int16(k)
		}
		f := vm.Fld{ID: id, Name: fmt.Sprintf("unknown%d", k), V: vm.Gen(t, o)}
		at := t.Int(0, len(v.Fields))
		v.Fields = append(v.Fields[:at], append([]vm.Fld{f}, v.Fields[at:]...)...)
		t.Label("unknown field")
	})
}

type handler struct {
	got   []*box
	reply *box
	err   error
}

func (h *handler) Echo(m *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	h.got = append(h.got, unmake(m))
	if h.err != nil {
		return nil, h.err
	}
	return h.reply.make(), nil
}

type factory func(thrift.TTransport) thrift.TProtocol

func (f factory) GetProtocol(t thrift.TTransport) thrift.TProtocol { return f(t) }

// Calls: a history of calls on one connection, made by the generated client or by the
// check itself, and answered by the generated processor.
func Calls(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		up, down := &line{}, &line{}
		ce, se := &wireEnd{in: down, out: up}, &wireEnd{in: up, out: down}
		if t.Chance(1, 3) {
			n := t.Int(1, 9)
			ce.chunk, se.chunk = func() int { return n }, func() int { return n }
		}
		var ct, st thrift.TTransport = ce, se
		if t.Chance(1, 3) {
			ct, st = thrift.NewTFramedTransport(ce), thrift.NewTFramedTransport(se)
			t.Label("framed")
		}
		h := &handler{}
		proc := simple.NewContainerOfEnumsTestServiceProcessor(h)
		cl := simple.NewContainerOfEnumsTestServiceClientFactory(ct, factory(pr.New))
		sp := pr.New(st)
		raw := pr.New(ct)
		seq := int32(0)
		calls := 0
		t.Repeat(8, 4, func(int) {
			h.got, h.err = nil, nil
			in := genBox(t)
			h.reply = genBox(t)
			failing := t.Chance(1, 4)
			text := ""
			if failing {
				text = t.Text(30)
				h.err = errors.New(text)
			}
			byHand := false
			kind := t.Pick(6, 3, 2, 2)
			if pr.Named && kind == 2 {
				kind = 0
			}
			name := "echo"
			var want *vm.Msg
			switch kind {
			case 0: // by the generated client
				if calls%2 == 0 {
					t.Note("call %s, reply %s, error %v", in, h.reply, h.err)
				} else {
					t.Note("again %s, reply %s, error %v", in, h.reply, h.err)
				}
				seq++
				if e := cl.SendEcho(in.make()); e != nil {
					t.Failf("sending: %v", e)
				}
				if cl.SeqId != seq {
					t.Failf("the client's request number is %d, not %d", cl.SeqId, seq)
				}
			case 1, 2: // by hand; 2: a method that the service does not have
				byHand = true
				body := wrapBox("message", 1, "echo_args", in)
				if in != nil {
					disturb(t, pr, body.Fields[0].V, 9, 1)
				}
				disturb(t, pr, body, 1, 1)
				m := &vm.Msg{Name: "echo", Type: thrift.CALL, Seq: int32(t.I64()), Body: body}
				if kind == 2 {
					name = t.Text(20)
					if name == "echo" {
						name = "Echo"
					}
					m.Name = name
					m.Body = vm.GenStruct(t, vm.Opts{Depth: 2, Text: pr.Text, Wild: true, MaxStr: 60}, 2)
					t.Label("unknown method")
				}
				t.Note("by hand %s, reply %s, error %v", m, h.reply, h.err)
				if e := vm.WriteMsg(raw, m); e != nil {
					t.Failf("writing: %v", e)
				}
				if e := ct.Flush(); e != nil {
					t.Failf("flush: %v", e)
				}
				want = &vm.Msg{Name: name, Type: thrift.REPLY, Seq: m.Seq}
			case 3: // a reply with another number
				seq++
				t.Note("call %s, answered out of sequence", in)
				if e := cl.SendEcho(in.make()); e != nil {
					t.Failf("sending: %v", e)
				}
				up.b = nil
				// what the processor's side has read of the request is nothing, so both lines are clean
				s := int32(t.I64())
				if s == seq {
					s++
				}
				m := &vm.Msg{Name: "echo", Type: thrift.REPLY, Seq: s, Body: wrapBox("success", 0, "echo_result", in)}
				if e := vm.WriteMsg(pr.New(st), m); e != nil {
					t.Failf("writing: %v", e)
				}
				if e := st.Flush(); e != nil {
					t.Failf("flush: %v", e)
				}
				_, err := cl.RecvEcho()
				x, ok := err.(thrift.TApplicationException)
				if !ok || x.TypeId() != thrift.BAD_SEQUENCE_ID {
					t.Failf("answer number %d to request number %d: %v (%T)", s, seq, err, err)
				}
				t.Label("out of sequence")
				t.NonTrivial()
				down.b = nil
				// the client stopped in the middle of the answer: this connection is of no more use
				ct, st = renew(ct, st, ce, se)
				cl = simple.NewContainerOfEnumsTestServiceClientFactory(ct, factory(pr.New))
				sp, raw, seq = pr.New(st), pr.New(ct), 0
				return
			}
			if up.flush != len(up.b) && len(up.b) > 0 && up.flush < len(up.b) {
				t.Failf("%d bytes of a request are not flushed", len(up.b)-up.flush)
			}
			ok, perr := proc.Process(sp, sp)
			if kind == 2 {
				x, isApp := perr.(thrift.TApplicationException)
				if ok || !isApp || x.TypeId() != thrift.UNKNOWN_METHOD || len(h.got) != 0 {
					t.Failf("an unknown method: processed %v, %v, handled %v", ok, perr, h.got)
				}
				failing = true
			} else {
				if len(h.got) != 1 || !h.got[0].same(in.arrived()) {
					t.Failf("handled %v, sent %v", h.got, in.arrived())
				}
				if ok == failing || (perr != nil) != failing {
					t.Failf("processed %v, %v", ok, perr)
				}
			}
			if len(up.b) != 0 {
				t.Failf("%d bytes of the request are left: %q", len(up.b), up.b)
			}
			if down.flush != 0 && down.flush < len(down.b) {
				t.Failf("%d bytes of a reply are not flushed", len(down.b)-down.flush)
			}
			if byHand {
				if !failing {
					want.Body = wrapBox("success", 0, "echo_result", h.reply)
				} else {
					want.Type = thrift.EXCEPTION
					id := int64(thrift.INTERNAL_ERROR)
					text = "Internal error processing echo: " + text
					if kind == 2 {
						id, text = thrift.UNKNOWN_METHOD, "Unknown function "+name
					}
					want.Body = &vm.Val{T: vm.STRUCT, Fields: []vm.Fld{{ID: 1, Name: "message", V: &vm.Val{T: vm.STRING, S: text}}, {ID: 2, Name: "type", V: &vm.Val{T: vm.I32, I: id}}}}
				}
				if e := vm.ReadMsg(raw, pr, want); e != nil {
					t.Failf("reply: %v, want %s", e, want)
				}
			} else {
				got, err := cl.RecvEcho()
				if failing {
					x, isApp := err.(thrift.TApplicationException)
					if !isApp || x.TypeId() != thrift.INTERNAL_ERROR || x.Error() != "Internal error processing echo: "+text || got != nil {
						t.Failf("the handler's error %q arrives as %v, %v (%T)", text, unmake(got), err, err)
					}
					t.Label("handler error")
				} else {
					if err != nil {
						t.Failf("receiving: %v", err)
					}
					if g := unmake(got); !g.same(h.reply.arrived()) {
						t.Failf("received %v, want %v", g, h.reply.arrived())
					}
				}
			}
			if len(down.b) != 0 {
				t.Failf("%d bytes of the reply are left: %q", len(down.b), down.b)
			}
			calls++
			if calls > 1 || failing || byHand {
				t.NonTrivial()
			}
		})
	}
}

func renew(ct, st thrift.TTransport, ce, se *wireEnd) (thrift.TTransport, thrift.TTransport) {
	ce.in.b, ce.out.b = nil, nil
	if _, ok := ct.(*thrift.TFramedTransport); ok {
		return thrift.NewTFramedTransport(ce), thrift.NewTFramedTransport(se)
	}
	return ce, se
}

// CutRequests: the processor reports a request that ends early and does not handle it;
// when it knows what is asked it answers with an exception.
func CutRequests(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		in := genBox(t)
		body := wrapBox("message", 1, "echo_args", in)
		if in != nil {
			disturb(t, pr, body.Fields[0].V, 9, 1)
		}
		disturb(t, pr, body, 1, 1)
		m := &vm.Msg{Name: "echo", Type: thrift.CALL, Seq: int32(t.I64()), Body: body}
		tap := vm.NewTap(nil)
		p := pr.New(tap)
		if e := p.WriteMessageBegin(m.Name, m.Type, m.Seq); e != nil {
			t.Failf("writing: %v", e)
		}
		head := len(tap.W)
		if e := vm.Write(p, body); e != nil {
			t.Failf("writing: %v", e)
		}
		wire := tap.W // the end of the message is not needed to handle it
		if !pr.Text {
			// nothing follows
		} else if len(wire) > 0 {
			wire = wire[:len(wire)-1] // the closing brace of the struct may be all that matters
		}
		t.Note("%s %s", pr.Name, m)
		t.NonTrivial()
		for k := 0; k < len(wire); k++ {
			h := &handler{}
			proc := simple.NewContainerOfEnumsTestServiceProcessor(h)
			up, down := &line{b: append([]byte{}, wire[:k]...)}, &line{}
			se := &wireEnd{in: up, out: down}
			var ok bool
			var err thrift.TException
			if p := pbt.Guard(func() { s := pr.New(se); ok, err = proc.Process(s, s) }); p != "" {
				t.Failf("the first %d of %d bytes %q: %s", k, len(wire), wire[:k], p)
			}
			if ok || err == nil || len(h.got) != 0 {
				t.Failf("the first %d of %d bytes %q: processed %v, %v, handled %v", k, len(wire), wire[:k], ok, err, h.got)
			}
			if k < head {
				continue
			}
			if len(down.b) == 0 {
				if k > head {
					t.Failf("the first %d of %d bytes %q are not answered", k, len(wire), wire[:k])
				}
				continue
			}
			c := pr.New(vm.NewTap(down.b))
			name, ty, seq, e := c.ReadMessageBegin()
			if e != nil || name != "echo" || ty != thrift.EXCEPTION || seq != m.Seq {
				t.Failf("the first %d of %d bytes are answered with %q %d %d, %v", k, len(wire), name, int(ty), seq, e)
			}
			x, e2 := thrift.NewTApplicationExceptionDefault().Read(c)
			if e2 != nil || x.TypeId() != thrift.PROTOCOL_ERROR || x.Error() == "" {
				t.Failf("the first %d of %d bytes are answered with exception %v, %v", k, len(wire), x, e2)
			}
		}
	}
}

package genchk

import (
	"errors"
	"fmt"
	"genreg"
	"pbt"
	"reflect"
	"thrift"
	"vm"
)

// Services: the generated client and processor of random services, at the ends of one line.

// wire is one direction of a connection within one thread.
type wire struct {
	b     []byte
	flush int // bytes flushed
}

// post is a transport that reads one wire and writes another, and is never late.
type post struct {
	in, out *wire
	chunk   int
	onFlush func()
	fail    int // writes fail after that many bytes, if not negative
	hit     bool
	late    bool // only the flush failed
	once    bool // it fails once, and works again
}

func (e *post) IsOpen() bool { return true }
func (e *post) Peek() bool   { return true }
func (e *post) Open() error  { return nil }
func (e *post) Close() error { return nil }
func (e *post) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(e.in.b) == 0 {
		return 0, thrift.NewTTransportException(thrift.END_OF_FILE, "the line is empty")
	}
	if e.chunk > 0 && len(b) > e.chunk {
		b = b[:e.chunk]
	}
	n := copy(b, e.in.b)
	e.in.b = e.in.b[n:]
	return n, nil
}
func (e *post) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(e, b) }
func (e *post) Write(b []byte) (int, error) {
	if e.hit || e.fail >= 0 && len(b) > e.fail {
		if e.hit && e.once {
			return len(b), nil
		}
		e.hit = true
		return 0, errors.New("the line is cut")
	}
	if e.fail >= 0 {
		e.fail -= len(b)
	}
	e.out.b = append(e.out.b, b...)
	return len(b), nil
}
func (e *post) Flush() error {
	if e.once && e.hit {
		return nil
	}
	if e.fail == 0 || e.hit {
		e.late = !e.hit
		e.hit = true
		return errors.New("the line is cut")
	}
	e.out.flush = len(e.out.b)
	if e.onFlush != nil {
		e.onFlush()
	}
	return nil
}

type protocols func(thrift.TTransport) thrift.TProtocol

func (f protocols) GetProtocol(t thrift.TTransport) thrift.TProtocol { return f(t) }

// method is a function with the structs that its calls and answers are.
type method struct {
	*Function
	args, res *Decl
}

func methodOf(f *Function) *method {
	m := &method{Function: f, args: &Decl{Kind: "struct", Name: f.Name + "_args", Fields: f.Args}, res: &Decl{Kind: "struct", Name: f.Name + "_result"}}
	if f.Ret != nil {
		m.res.Fields = append(m.res.Fields, &Field{ID: 0, Req: Default, Name: "success", Ty: f.Ret})
	}
	m.res.Fields = append(m.res.Fields, f.Throws...)
	return m
}

func ty(d *Decl) *Ty { return &Ty{K: "named", Ref: d} }

// methodsOf lists the functions of a service and of those it extends.
func methodsOf(s *Service) (ms []*method) {
	for ; s != nil; s = s.Extends {
		for _, f := range s.Fns {
			ms = append(ms, methodOf(f))
		}
	}
	return
}

// world is a client and a server of one service.
type world struct {
	t        *pbt.T
	pr       vm.Proto
	svc      *Service
	ms       []*method
	up, down *wire
	ce, se   *post
	ct, st   thrift.TTransport
	framed   bool
	client   reflect.Value
	proc     thrift.TProcessor
	sp       thrift.TProtocol
	seq      int32
	// what the handler got, and answers
	got    []handled
	answer func(m *method) []interface{}
}

type handled struct {
	name string
	args []interface{}
}

func newWorld(t *pbt.T, pr vm.Proto, frames bool) *world {
	s := pick(t, func(s *Schema) bool {
		for _, p := range s.Programs {
			for _, v := range p.Services {
				if len(methodsOf(v)) > 0 {
					return true
				}
			}
		}
		return false
	})
	var all []*Service
	for _, p := range s.Programs {
		for _, v := range p.Services {
			if len(methodsOf(v)) > 0 {
				all = append(all, v)
			}
		}
	}
	w := &world{t: t, pr: pr, svc: all[t.N(uint64(len(all)))], up: &wire{}, down: &wire{}}
	w.ms = methodsOf(w.svc)
	w.ce, w.se = &post{in: w.down, out: w.up, fail: -1}, &post{in: w.up, out: w.down, fail: -1}
	if t.Chance(1, 3) {
		n := t.Int(1, 9)
		w.ce.chunk, w.se.chunk = n, n
	}
	w.framed = frames && t.Chance(1, 4)
	w.ct, w.st = w.ce, w.se
	if w.framed {
		w.ct, w.st = thrift.NewTFramedTransport(w.ce), thrift.NewTFramedTransport(w.se)
	}
	seen := map[*Decl]bool{}
	for v := w.svc; v != nil; v = v.Extends {
		for _, f := range v.Fns {
			m := methodOf(f)
			needsOf(t, m.args, seen)
			needsOf(t, m.res, seen)
		}
		t.Note("%s: %s", v.P.Import(), v.IDL())
	}
	reg := genreg.Services[w.svc.P.Import()+"."+w.svc.Name]
	if reg == nil {
		panic(Missing("the code of service " + w.svc.Name + " has no client or no processor"))
	}
	w.client = reflect.ValueOf(reg.NewClient(w.ct, protocols(pr.New)))
	w.proc = reg.NewProcessor(func(name string, args []interface{}) []interface{} {
		w.got = append(w.got, handled{name, args})
		for _, m := range w.ms {
			if GoName(m.Name) == name && w.answer != nil {
				return w.answer(m)
			}
		}
		panic("check error: handler of " + name)
	})
	w.sp = pr.New(w.st)
	return w
}

func needsOf(t *pbt.T, d *Decl, seen map[*Decl]bool) {
	for _, f := range d.Fields {
		for _, x := range refs(f.Ty) {
			needs(t, x, seen)
		}
	}
}

func refs(ty *Ty) (ds []*Decl) {
	if ty == nil {
		return nil
	}
	if ty.Ref != nil {
		ds = append(ds, ty.Ref)
	}
	return append(append(ds, refs(ty.Key)...), refs(ty.El)...)
}

func (w *world) method(name string) reflect.Value {
	m := w.client.MethodByName(name)
	if !m.IsValid() {
		panic(Missing(fmt.Sprintf("%T has no method %s", w.client.Interface(), name)))
	}
	return m
}

// numIn checks how many arguments and results a method of the client has.
func (w *world) shape(f reflect.Value, name string, in, out int) {
	if f.Type().NumIn() != in || f.Type().NumOut() != out {
		panic(Missing(fmt.Sprintf("%s has %d arguments and %d results, not %d and %d", name, f.Type().NumIn(), f.Type().NumOut(), in, out)))
	}
}

// drawArgs makes the arguments of a call: the Go values, and what they are.
func (w *world) drawArgs(m *method, ts func(int) reflect.Type) ([]reflect.Value, *vm.Val) {
	v := &vm.Val{T: vm.STRUCT, Name: m.args.Name}
	var in []reflect.Value
	for i, f := range m.args.Fields {
		w.t.Begin()
		rt := ts(i)
		a := reflect.New(rt).Elem()
		switch {
		case w.t.Chance(1, 8) && Initial(&Field{Ty: f.Ty}) == nil && f.Ty.Is() != "enum":
			// nil
		case w.t.Chance(1, 8) && f.Ty.Is() == "enum":
			a.SetInt(unset)
		default:
			a = ToGo(f.Ty, GenValue(w.t, f.Ty, 2), rt)
		}
		if e := FromGo(f.Ty, a); e != nil {
			v.Fields = append(v.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
		}
		in = append(in, a)
		w.t.End()
	}
	return in, v
}

// outcome is what a handler answers.
type outcome struct {
	res *vm.Val       // the result struct: the result, or an exception
	out []interface{} // as the handler returns it,
	is  *vm.Val       // and what that is: with the defaults of what is not set
	err error
	exc bool
}

func (o *outcome) String() string {
	if o.err != nil {
		return fmt.Sprintf("error %q", o.err.Error())
	}
	return o.res.String()
}

func (w *world) drawOutcome(m *method) *outcome {
	t := w.t
	o := &outcome{res: &vm.Val{T: vm.STRUCT, Name: m.res.Name}}
	if t.Chance(1, 6) {
		o.err = errors.New(t.Text(40))
		return o
	}
	if len(m.Throws) > 0 && t.Chance(1, 2) {
		f := m.Throws[t.N(uint64(len(m.Throws)))]
		o.exc = true
		o.res.Fields = append(o.res.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: GenValue(t, f.Ty, 2)})
		return o
	}
	if m.Ret != nil && (Initial(&Field{Ty: m.Ret}) != nil || t.Chance(7, 8)) {
		o.res.Fields = append(o.res.Fields, vm.Fld{ID: 0, Name: "success", V: GenValue(t, m.Ret, 3)})
	}
	return o
}

// toGo makes the values that the handler returns; ts are the result types of the client.
func (w *world) toGo(m *method, o *outcome, ts func(int) reflect.Type) {
	o.is = &vm.Val{T: vm.STRUCT, Name: m.res.Name}
	for i, f := range m.res.Fields {
		x := reflect.New(ts(i)).Elem()
		if v := field(o.res, f.ID); v != nil {
			x = ToGo(f.Ty, v, ts(i))
		} else if f.Ty.Is() == "enum" {
			x.SetInt(unset)
		}
		if o.exc && f.ID == 0 && w.t.Chance(1, 3) { // a result beside the exception
			x = ToGo(f.Ty, GenValue(w.t, f.Ty, 2), ts(i))
		}
		if e := FromGo(f.Ty, x); e != nil && !(o.exc && f.ID == 0) { // the exception goes before the result
			o.is.Fields = append(o.is.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
		}
		o.out = append(o.out, x.Interface())
	}
	var err interface{}
	if o.err != nil {
		err = o.err
	}
	o.out = append(o.out, err)
}

// results of the client as the struct they came in.
func (w *world) results(m *method, outs []reflect.Value) (*vm.Val, error) {
	v := &vm.Val{T: vm.STRUCT, Name: m.res.Name}
	for i, f := range m.res.Fields {
		if e := FromGo(f.Ty, outs[i]); e != nil {
			v.Fields = append(v.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
		}
	}
	err, _ := outs[len(outs)-1].Interface().(error)
	return v, err
}

// body decodes a message: its header, and its struct where there is a reference for it.
func (w *world) body(raw []byte) (name string, ty thrift.TMessageType, seq int32, body *vm.Val, e error) {
	if w.framed {
		if len(raw) < 4 {
			return "", 0, 0, nil, fmt.Errorf("%d bytes are no frame", len(raw))
		}
		raw = raw[4:]
	}
	tap := vm.NewTap(append([]byte(nil), raw...))
	p := w.pr.New(tap)
	name, ty, seq, pe := p.ReadMessageBegin()
	if e = vm.E(pe); e != nil {
		return
	}
	rest := tap.Rest()
	used := 0
	switch w.pr.Name {
	case "compact":
		body, used, e = vm.DecodeCompact(rest, vm.STRUCT)
	case "binary":
		body, used, e = vm.DecodeBinary(rest, vm.STRUCT)
	default:
		return
	}
	if e == nil && used != len(rest) {
		e = fmt.Errorf("%d bytes are behind the message", len(rest)-used)
	}
	return
}

// put writes a message of the check's own.
func (w *world) put(on thrift.TTransport, m *vm.Msg) {
	if e := vm.WriteMsg(w.pr.New(on), m); e != nil {
		w.t.Failf("writing a message: %v", e)
	}
	if e := on.Flush(); e != nil {
		w.t.Failf("flushing a message: %v", e)
	}
}

func (w *world) clean(what string) {
	if n := len(w.up.b); n != 0 {
		w.t.Failf("%s: %d bytes of a request are left", what, n)
	}
	if n := len(w.down.b); n != 0 {
		w.t.Failf("%s: %d bytes of an answer are left: %q", what, n, w.down.b)
	}
}

// setSeq gives the client the number of the request that it waits for an answer to.
func (w *world) setSeq(n int32) {
	f := w.client.Elem().FieldByName("SeqId")
	if !f.IsValid() {
		panic(Missing("the client has no SeqId"))
	}
	f.SetInt(int64(n))
}

func (w *world) seqId() int32 { return int32(w.client.Elem().FieldByName("SeqId").Int()) }

// handledAs checks what the handler was called with.
func (w *world) handledAs(m *method, want *vm.Val) {
	t := w.t
	if len(w.got) != 1 {
		t.Failf("%s: the handler is called %d times", m.Name, len(w.got))
	}
	g := w.got[0]
	if g.name != GoName(m.Name) {
		t.Failf("%s: the handler's %s is called", m.Name, g.name)
	}
	v := &vm.Val{T: vm.STRUCT, Name: m.args.Name}
	if len(g.args) != len(m.args.Fields) {
		t.Failf("%s: the handler has %d arguments", m.Name, len(g.args))
	}
	for i, f := range m.args.Fields {
		if e := FromGo(f.Ty, reflect.ValueOf(g.args[i])); e != nil {
			v.Fields = append(v.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: e})
		}
	}
	if s := Diff(ty(m.args), v, want, "handled "+m.Name); s != "" {
		t.Failf("%s", s)
	}
}

func (w *world) received(m *method, o *outcome, outs []reflect.Value, byHand bool) {
	t := w.t
	got, err := w.results(m, outs)
	if o.err != nil {
		x, ok := err.(thrift.TApplicationException)
		want := "Internal error processing " + m.Name + ": " + o.err.Error()
		if !ok || x.TypeId() != thrift.INTERNAL_ERROR || x.Error() != want {
			t.Failf("%s: the handler's error %q arrives as %v (%T)", m.Name, o.err, err, err)
		}
		return
	}
	if err != nil {
		t.Failf("%s: the client reports %v, the answer was %s", m.Name, err, o)
	}
	var want *vm.Val
	if byHand {
		want = given(m.res, o.res)
	} else {
		want = onRead(m.res, o.is, nil)
	}
	if o.exc && m.Ret != nil { // the result beside an exception means nothing
		for i := range got.Fields {
			if got.Fields[i].ID == 0 {
				got.Fields = append(got.Fields[:i:i], got.Fields[i+1:]...)
				break
			}
		}
		for i := range want.Fields {
			if want.Fields[i].ID == 0 {
				want.Fields = append(want.Fields[:i:i], want.Fields[i+1:]...)
				break
			}
		}
	}
	if s := Diff(ty(m.res), got, want, "received "+m.Name); s != "" {
		t.Failf("%s", s)
	}
}

// repliesAs checks the bytes of an answer.
func (w *world) repliesAs(m *method, name string, seq int32, o *outcome) {
	t := w.t
	if w.down.flush != len(w.down.b) {
		t.Failf("%d bytes of an answer are not flushed", len(w.down.b)-w.down.flush)
	}
	n, ty0, s, body, e := w.body(w.down.b)
	if e != nil {
		t.Failf("%s: the answer is not of the format: %v: %q", name, e, w.down.b)
	}
	want := thrift.TMessageType(thrift.REPLY)
	if o == nil || o.err != nil {
		want = thrift.EXCEPTION
	}
	if n != name && !(w.pr.Lax) || ty0 != want || s != seq {
		t.Failf("%s: the answer is (%q, %d, %d), want (%q, %d, %d)", name, n, ty0, s, name, want, seq)
	}
	if body == nil || want != thrift.REPLY {
		return
	}
	if e := Typed(ty(m.res), body, m.res.Name); e != nil {
		t.Failf("the answer is wrong: %v", e)
	}
	if s := Diff(ty(m.res), body, o.is, "answer: "+m.res.Name); s != "" {
		t.Failf("%s", s)
	}
}

// Calls: a history of calls on one connection.
func Calls(pr vm.Proto) func(*pbt.T) {
	return guarded(func(t *pbt.T) {
		w := newWorld(t, pr, true)
		n := 0
		t.Repeat(6, 3, func(int) {
			w.got = nil
			w.up.flush, w.down.flush = 0, 0
			m := w.ms[t.N(uint64(len(w.ms)))]
			whole := w.method(GoName(m.Name))
			w.shape(whole, m.Name, len(m.args.Fields), len(m.res.Fields)+1)
			o := w.drawOutcome(m)
			w.toGo(m, o, whole.Type().Out)
			w.answer = func(*method) []interface{} { return o.out }
			n++
			if n > 1 || o.err != nil || o.exc {
				t.NonTrivial()
			}
			kinds := []int{4, 4, 4, 1, 1, 1}
			if pr.Named {
				kinds[3] = 0 // cannot skip what it does not know
			}
			if m.Oneway && o.err == nil {
				o.res.Fields = nil
			}
			switch t.Pick(kinds...) {
			case 0: // the whole call
				in, sent := w.drawArgs(m, whole.Type().In)
				t.Note("%s(%s) -> %s", m.Name, sent, o)
				served := 0
				w.ce.onFlush = func() {
					if len(w.up.b) > 0 {
						served++
						ok, e := w.proc.Process(w.sp, w.sp)
						w.processed(m, o, ok, e)
					}
				}
				outs := whole.Call(in)
				w.ce.onFlush = nil
				if served != 1 {
					t.Failf("%s: %d requests are sent: %q", m.Name, served, w.up.b)
				}
				w.handledAs(m, onRead(m.args, sent, nil))
				if m.Oneway {
					if err, _ := outs[0].Interface().(error); err != nil {
						t.Failf("the oneway call of %s fails: %v", m.Name, err)
					}
				} else {
					w.received(m, o, outs, false)
				}
				w.clean(m.Name)
			case 1: // in steps
				send := w.method("Send" + GoName(m.Name))
				w.shape(send, "Send"+GoName(m.Name), len(m.args.Fields), 1)
				in, sent := w.drawArgs(m, send.Type().In)
				t.Note("send %s(%s) -> %s", m.Name, sent, o)
				before := w.seqId()
				if err, _ := send.Call(in)[0].Interface().(error); err != nil {
					t.Failf("sending %s: %v", m.Name, err)
				}
				if w.up.flush != len(w.up.b) {
					t.Failf("%d bytes of a request are not flushed", len(w.up.b)-w.up.flush)
				}
				name, ty0, seq, body, e := w.body(w.up.b)
				if e != nil {
					t.Failf("%s: the request is not of the format: %v: %q", m.Name, e, w.up.b)
				}
				if name != m.Name && !pr.Lax || !(ty0 == thrift.CALL || m.Oneway && ty0 == thrift.ONEWAY) || seq == before {
					t.Failf("%s: the request is (%q, %d, %d) after number %d", m.Name, name, ty0, seq, before)
				}
				if body != nil {
					if e := Typed(ty(m.args), body, m.args.Name); e != nil {
						t.Failf("the request is wrong: %v", e)
					}
					if s := Diff(ty(m.args), body, sent, "request: "+m.args.Name); s != "" {
						t.Failf("%s", s)
					}
				}
				ok, pe := w.proc.Process(w.sp, w.sp)
				w.processed(m, o, ok, pe)
				w.handledAs(m, onRead(m.args, sent, nil))
				if !m.Oneway {
					w.repliesAs(m, m.Name, seq, o)
					recv := w.method("Recv" + GoName(m.Name))
					w.shape(recv, "Recv"+GoName(m.Name), 0, len(m.res.Fields)+1)
					w.received(m, o, recv.Call(nil), false)
				}
				w.clean(m.Name)
			case 2: // a request by hand: any order, with unknown fields, some left out
				v := &vm.Val{T: vm.STRUCT, Name: m.args.Name}
				for _, f := range m.args.Fields {
					if t.Chance(4, 5) {
						v.Fields = append(v.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: GenValue(t, f.Ty, 2)})
					}
				}
				msg := &vm.Msg{Name: m.Name, Type: thrift.CALL, Seq: int32(t.I64()), Body: scramble(t, ty(m.args), v, !pr.Named)}
				if m.Oneway && t.Bool() {
					msg.Type = thrift.ONEWAY
				}
				t.Note("by hand %s -> %s", msg, o)
				w.put(w.ct, msg)
				ok, pe := w.proc.Process(w.sp, w.sp)
				w.processed(m, o, ok, pe)
				w.handledAs(m, given(m.args, v))
				if !m.Oneway {
					w.repliesAs(m, m.Name, msg.Seq, o)
					w.setSeq(msg.Seq)
					w.received(m, o, w.method("Recv"+GoName(m.Name)).Call(nil), false)
				}
				w.clean(m.Name)
			case 3: // no method of the service
				name := t.Text(20)
				for _, x := range w.ms {
					if x.Name == name {
						name += "?"
					}
				}
				if t.Chance(1, 3) {
					name = GoName(w.ms[0].Name) + "_"
				}
				msg := &vm.Msg{Name: name, Type: thrift.CALL, Seq: int32(t.I64()), Body: vm.GenStruct(t, vm.Opts{Depth: 2, Text: pr.Text, ScalarKey: true, MaxStr: 60}, 2)}
				t.Note("unknown %s", msg)
				w.put(w.ct, msg)
				ok, pe := w.proc.Process(w.sp, w.sp)
				x, isApp := pe.(thrift.TApplicationException)
				if ok || !isApp || x.TypeId() != thrift.UNKNOWN_METHOD || len(w.got) != 0 {
					t.Failf("an unknown method: processed %v, %v, handled %v", ok, pe, w.got)
				}
				w.repliesAs(nil, name, msg.Seq, nil)
				recv := (*method)(nil)
				for _, y := range w.ms {
					if !y.Oneway {
						recv = y
					}
				}
				if recv == nil {
					w.down.b = nil
					if w.framed {
						w.st, w.ct = thrift.NewTFramedTransport(w.se), thrift.NewTFramedTransport(w.ce)
					}
					t.Enough()
				}
				w.setSeq(msg.Seq)
				_, err := w.results(recv, w.method("Recv"+GoName(recv.Name)).Call(nil))
				if x, ok := err.(thrift.TApplicationException); !ok || x.TypeId() != thrift.UNKNOWN_METHOD {
					t.Failf("the answer to an unknown method arrives as %v (%T)", err, err)
				}
				w.clean(name)
			case 4: // an answer by hand
				if m.Oneway {
					return
				}
				recv := w.method("Recv" + GoName(m.Name))
				seq := int32(t.I64())
				w.setSeq(seq)
				msg := &vm.Msg{Name: m.Name, Type: thrift.REPLY, Seq: seq, Body: scramble(t, ty(m.res), o.res, !pr.Named)}
				if o.err != nil { // an application's exception
					code := int32(t.Int(0, 7))
					text := o.err.Error()
					msg.Type = thrift.EXCEPTION
					msg.Body = &vm.Val{T: vm.STRUCT, Name: "TApplicationException", Fields: []vm.Fld{{ID: 1, Name: "message", V: &vm.Val{T: vm.STRING, S: text}},
						{ID: 2, Name: "type", V: &vm.Val{T: vm.I32, I: int64(code)}}}}
					t.Note("answer %s", msg)
					w.put(w.st, msg)
					_, err := w.results(m, recv.Call(nil))
					x, ok := err.(thrift.TApplicationException)
					if !ok || int32(x.TypeId()) != code || text != "" && x.Error() != text {
						t.Failf("exception %d %q arrives as %v (%T)", code, text, err, err)
					}
				} else {
					t.Note("answer %s", msg)
					w.put(w.st, msg)
					w.received(m, o, recv.Call(nil), true)
				}
				w.clean("answer of " + m.Name)
			case 5: // an answer to another request; the connection is of no more use
				if m.Oneway {
					return
				}
				seq := int32(t.I64())
				w.setSeq(seq + 1 + int32(t.N(3)))
				msg := &vm.Msg{Name: m.Name, Type: thrift.REPLY, Seq: seq, Body: o.res}
				t.Note("answer %s to request number %d", msg, w.seqId())
				w.put(w.st, msg)
				_, err := w.results(m, w.method("Recv"+GoName(m.Name)).Call(nil))
				if x, ok := err.(thrift.TApplicationException); !ok || x.TypeId() != thrift.BAD_SEQUENCE_ID {
					t.Failf("an answer to another request arrives as %v (%T)", err, err)
				}
				t.Enough()
			}
		})
	})
}

// processed checks what the processor reports of a call that came well.
func (w *world) processed(m *method, o *outcome, ok bool, e thrift.TException) {
	if ok != (o.err == nil) || (e != nil) != (o.err != nil) {
		w.t.Failf("%s -> %s is processed %v, %v", m.Name, o, ok, e)
	}
	if m.Oneway && len(w.down.b) != 0 {
		w.t.Failf("the oneway function %s is answered: %q", m.Name, w.down.b)
	}
}

// Broken: calls that cannot be taken or answered whole are reported.
func Broken(pr vm.Proto) func(*pbt.T) {
	return guarded(func(t *pbt.T) {
		w := newWorld(t, pr, false)
		m := w.ms[t.N(uint64(len(w.ms)))]
		whole := w.method(GoName(m.Name))
		o := w.drawOutcome(m)
		w.toGo(m, o, whole.Type().Out)
		w.answer = func(*method) []interface{} { return o.out }
		v := &vm.Val{T: vm.STRUCT, Name: m.args.Name}
		for _, f := range m.args.Fields {
			v.Fields = append(v.Fields, vm.Fld{ID: int16(f.ID), Name: f.Name, V: GenValue(t, f.Ty, 2)})
		}
		seq := int32(t.I64())
		cut := func(name string, ty thrift.TMessageType, body *vm.Val) ([]byte, int) {
			tap := vm.NewTap(nil)
			p := pr.New(tap)
			if e := p.WriteMessageBegin(name, ty, seq); e != nil {
				t.Failf("writing: %v", e)
			}
			head := len(tap.W)
			if e := vm.Write(p, body); e != nil {
				t.Failf("writing: %v", e)
			}
			if pr.Text {
				head++ // the number of the message ends behind it
			}
			if len(tap.W) <= head {
				t.Discard()
			}
			at := t.Int(head, len(tap.W)-1)
			return tap.W[:at:at], head
		}
		kind := t.Pick(2, 2, 2, 2)
		if m.Oneway && kind != 3 {
			kind = 0
		}
		switch kind {
		case 0:
			raw, _ := cut(m.Name, thrift.CALL, v)
			t.Note("request %q", raw)
			t.NonTrivial()
			w.up.b = raw
			ok, e := w.proc.Process(w.sp, w.sp)
			if ok || e == nil || len(w.got) != 0 {
				t.Failf("a request that ends early is processed %v, %v, handled %v", ok, e, w.got)
			}
			if m.Oneway {
				if len(w.down.b) != 0 {
					t.Failf("the oneway function is answered: %q", w.down.b)
				}
				return
			}
			w.repliesAs(m, m.Name, seq, nil)
			w.setSeq(seq)
			ce := errorOf(w.method("Recv" + GoName(m.Name)).Call(nil))
			x, ok := ce.(thrift.TApplicationException)
			if !ok || x.TypeId() != thrift.PROTOCOL_ERROR {
				t.Failf("a request that ends early: the client gets %v (%T)", ce, ce)
			}
		case 1:
			if o.err != nil {
				return
			}
			raw, _ := cut(m.Name, thrift.REPLY, o.res)
			t.Note("answer %q", raw)
			t.NonTrivial()
			w.down.b = raw
			w.setSeq(seq)
			if e := errorOf(w.method("Recv" + GoName(m.Name)).Call(nil)); e == nil {
				t.Failf("an answer that ends early is received")
			}
		case 3: // the ends of requests are a recorded finding
			send := w.method("Send" + GoName(m.Name))
			in, sent := w.drawArgs(m, send.Type().In)
			tap := vm.NewTap(nil)
			p := pr.New(tap)
			if e := p.WriteMessageBegin(m.Name, thrift.CALL, 1); e != nil {
				t.Failf("writing: %v", e)
			}
			head := len(tap.W)
			if e := vm.Write(p, sent); e != nil {
				t.Failf("writing: %v", e)
			}
			if len(tap.W) == 0 || pr.Text {
				return // the rest is written with the end
			}
			w.ce.fail = t.Int(0, 200) % len(tap.W)
			w.ce.once = w.ce.fail >= head // the header is part of the recorded finding
			t.Note("send %s%s, and the line fails after %d bytes (only once: %v)", m.Name, sent, w.ce.fail, w.ce.once)
			e := errorOf(send.Call(in))
			if w.ce.hit {
				t.NonTrivial()
				if e == nil && !w.ce.late {
					t.Failf("the request cannot be sent, and is sent")
				}
			}
		case 2:
			msg := &vm.Msg{Name: m.Name, Type: thrift.CALL, Seq: seq, Body: v}
			w.put(w.ce, msg)
			w.se.fail = t.Int(0, 40)
			w.se.once = t.Chance(1, 3)
			t.Note("%s -> %s, and the line fails after %d bytes (only once: %v)", msg, o, w.se.fail, w.se.once)
			ok, e := w.proc.Process(w.sp, w.sp)
			if len(w.got) != 1 {
				t.Failf("handled %v", w.got)
			}
			if w.se.hit {
				t.NonTrivial()
				if ok || e == nil {
					t.Failf("the answer cannot be sent, and is processed %v, %v", ok, e)
				}
			}
		}
	})
}

func errorOf(outs []reflect.Value) error {
	e, _ := outs[len(outs)-1].Interface().(error)
	return e
}

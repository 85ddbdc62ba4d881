package srvchk

import (
	"fmt"
	"pbt"
	"sync"
	"thrift"
	"vm"
)

// echo is the service of the checks: it reads a request struct, records it per
// connection, and answers as its name says.
type echo struct {
	mu   sync.Mutex
	log  map[int][]string
	live map[int]int
	hook func(conn int, name string) // runs in the handler, before the reply
}

func newEcho() *echo { return &echo{log: map[int][]string{}} }

func (e *echo) seen(id int) []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]string{}, e.log[id]...)
}

// GetProcessor makes one processor per connection, knowing which it serves.
func (e *echo) GetProcessor(t thrift.TTransport) thrift.TProcessor {
	id := -1
	if x, ok := t.(*end); ok {
		id = x.id
	}
	return &echoProcessor{e, id}
}

type echoProcessor struct {
	e  *echo
	id int
}

var pErr = thrift.NewTException("processing failed")

func (p *echoProcessor) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	name, ty, seq, err := in.ReadMessageBegin()
	if err != nil {
		return false, err
	}
	n, s, e2 := readArgs(in)
	if e2 != nil {
		return false, e2
	}
	if err := in.ReadMessageEnd(); err != nil {
		return false, err
	}
	p.e.mu.Lock()
	p.e.log[p.id] = append(p.e.log[p.id], fmt.Sprintf("%s/%d/%d/%d/%s", name, int(ty), seq, n, s))
	hook := p.e.hook
	p.e.mu.Unlock()
	if hook != nil {
		hook(p.id, name)
	}
	if name == "boom" {
		return n%2 == 1, pErr // an error ends the connection, whatever comes with it
	}
	if ty != thrift.ONEWAY {
		if err := writeReply(out, name, thrift.REPLY, seq, n, s); err != nil {
			return false, err
		}
	}
	return name != "bye", nil
}

func writeStruct(p thrift.TProtocol, n int32, s string) error {
	for _, f := range []func() error{
		func() error { return wrap(p.WriteStructBegin("args")) },
		func() error { return wrap(p.WriteFieldBegin("n", thrift.I32, 1)) },
		func() error { return wrap(p.WriteI32(n)) },
		func() error { return wrap(p.WriteFieldEnd()) },
		func() error { return wrap(p.WriteFieldBegin("s", thrift.STRING, 2)) },
		func() error { return wrap(p.WriteString(s)) },
		func() error { return wrap(p.WriteFieldEnd()) },
		func() error { return wrap(p.WriteFieldStop()) },
		func() error { return wrap(p.WriteStructEnd()) },
	} {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func wrap(e thrift.TProtocolException) error {
	if e == nil {
		return nil
	}
	return e
}

func writeMessage(p thrift.TProtocol, name string, ty thrift.TMessageType, seq, n int32, s string) error {
	if e := p.WriteMessageBegin(name, ty, seq); e != nil {
		return e
	}
	if e := writeStruct(p, n, s); e != nil {
		return e
	}
	if e := p.WriteMessageEnd(); e != nil {
		return e
	}
	return p.Transport().Flush()
}

// writeReply answers with the arguments changed, so that a reply is not its request.
func writeReply(p thrift.TProtocol, name string, ty thrift.TMessageType, seq, n int32, s string) error {
	return writeMessage(p, name, ty, seq, n+1, s+"!")
}

func readArgs(p thrift.TProtocol) (n int32, s string, err error) {
	if _, e := p.ReadStructBegin(); e != nil {
		return 0, "", e
	}
	for {
		name, ty, id, e := p.ReadFieldBegin()
		if e != nil {
			return 0, "", e
		}
		if ty == thrift.STOP {
			break
		}
		switch {
		case id == 1 || id < 0 && name == "n":
			if n, e = p.ReadI32(); e != nil {
				return 0, "", e
			}
		case id == 2 || id < 0 && name == "s":
			if s, e = p.ReadString(); e != nil {
				return 0, "", e
			}
		default:
			return 0, "", fmt.Errorf("field %d %q of type %v", id, name, ty)
		}
		if e := p.ReadFieldEnd(); e != nil {
			return 0, "", e
		}
	}
	if e := p.ReadStructEnd(); e != nil {
		return 0, "", e
	}
	return
}

type framedFactory struct{}

// config is one way to set up a server; the client mirrors it.
type config struct {
	simple    bool
	inP, outP int // index into protos
	inF, outF bool
	how       int
	in, out   thrift.TProtocolFactory
	inT, outT thrift.TTransportFactory
}

func factories() []thrift.TProtocolFactory {
	return []thrift.TProtocolFactory{thrift.NewTBinaryProtocolFactoryDefault(), thrift.NewTCompactProtocolFactory(), thrift.NewTJSONProtocolFactory(), thrift.NewTSimpleJSONProtocolFactory()}
}

func genConfig(t *pbt.T) config {
	c := config{simple: t.Bool(), how: t.Pick(1, 2, 3)}
	fs := factories()
	plain := thrift.NewTTransportFactory()
	framed := thrift.NewTFramedTransportFactory(plain)
	tf := func(f bool) thrift.TTransportFactory {
		if f {
			return framed
		}
		return plain
	}
	switch c.how {
	case 0: // defaults: plain transport, binary protocol
	case 1:
		c.inP = int(t.N(4))
		c.outP = c.inP
		c.inF = t.Bool()
		c.outF = c.inF
	case 2:
		c.inP, c.outP = int(t.N(4)), int(t.N(4))
		c.inF, c.outF = t.Bool(), t.Bool()
	}
	c.in, c.out, c.inT, c.outT = fs[c.inP], fs[c.outP], tf(c.inF), tf(c.outF)
	t.Note("simple %v, constructor %d, in %d framed %v, out %d framed %v", c.simple, c.how, c.inP, c.inF, c.outP, c.outF)
	t.Label([]string{"2 arguments", "4 arguments", "6 arguments"}[c.how])
	return c
}

// make builds the server, by a processor factory or (single) by one processor.
func (c config) make(t *pbt.T, pf thrift.TProcessorFactory, single thrift.TProcessor, st thrift.TServerTransport) thrift.TServer {
	if single != nil {
		if c.simple {
			switch c.how {
			case 0:
				return thrift.NewTSimpleServer2(single, st)
			case 1:
				return thrift.NewTSimpleServer4(single, st, c.inT, c.in)
			}
			return thrift.NewTSimpleServer6(single, st, c.inT, c.outT, c.in, c.out)
		}
		switch c.how {
		case 0:
			return thrift.NewTNonblockingServer2(single, st)
		case 1:
			return thrift.NewTNonblockingServer4(single, st, c.inT, c.in)
		}
		return thrift.NewTNonblockingServer6(single, st, c.inT, c.outT, c.in, c.out)
	}
	if c.simple {
		switch c.how {
		case 0:
			return thrift.NewTSimpleServerFactory2(pf, st)
		case 1:
			return thrift.NewTSimpleServerFactory4(pf, st, c.inT, c.in)
		}
		return thrift.NewTSimpleServerFactory6(pf, st, c.inT, c.outT, c.in, c.out)
	}
	switch c.how {
	case 0:
		return thrift.NewTNonblockingServerFactory2(pf, st)
	case 1:
		return thrift.NewTNonblockingServerFactory4(pf, st, c.inT, c.in)
	}
	return thrift.NewTNonblockingServerFactory6(pf, st, c.inT, c.outT, c.in, c.out)
}

// client is the check's own end of a connection.
type client struct {
	id        int
	c, s      *end
	in, out   thrift.TProtocol // what the client reads (the server's output) and writes
	sent      []string         // requests the server has in full
	replies   []reply          // expected, in order
	pending   []byte           // rest of a request sent in part
	pendLog   string
	pendReply *reply
	pendLast  bool
	last      bool // the server will end this connection
	closed    bool
	seq       int32
}

type reply struct {
	name string
	seq  int32
	n    int32
	s    string
}

func (c config) connect(id int) *client {
	x := &client{id: id}
	x.c, x.s = connection(id)
	x.in = c.out.GetProtocol(c.outT.GetTransport(x.c))
	return x
}

// encode makes the bytes of one request.
func (c config) encode(name string, ty thrift.TMessageType, seq, n int32, s string) []byte {
	tap := vm.NewTap(nil)
	if err := writeMessage(c.in.GetProtocol(c.inT.GetTransport(tap)), name, ty, seq, n, s); err != nil {
		panic(err)
	}
	return tap.W
}

func (x *client) expect(t *pbt.T) {
	r := x.replies[0]
	x.replies = x.replies[1:]
	name, ty, seq, e := x.in.ReadMessageBegin()
	if e != nil {
		t.Failf("connection %d: no reply to %s: %v", x.id, r.name, e)
	}
	n, s, err := readArgs(x.in)
	if err != nil {
		t.Failf("connection %d: reply to %s: %v", x.id, r.name, err)
	}
	if e := x.in.ReadMessageEnd(); e != nil {
		t.Failf("connection %d: end of the reply to %s: %v", x.id, r.name, e)
	}
	t.Note("connection %d: reply %s %d", x.id, name, seq)
	if name != r.name || ty != thrift.REPLY || seq != r.seq || n != r.n+1 || s != r.s+"!" {
		t.Failf("connection %d: reply (%q, %d, %d, %d, %q) to request (%q, %d, %d, %q)", x.id, name, int(ty), seq, n, s, r.name, r.seq, r.n, r.s)
	}
}

// Serving: clients connect, send requests (whole, in parts, pipelined, one-way, unknown
// to each other), read replies and leave in random order. Every request is handled once,
// in its connection's order, and answered on its connection; a connection that ends,
// fails or stalls disturbs no other.
func Serving(t *pbt.T) {
	cfg := genConfig(t)
	acc := newAcceptor()
	svc := newEcho()
	single := t.Chance(1, 4)
	var srv thrift.TServer
	if single {
		srv = cfg.make(t, nil, svc.GetProcessor(nil), acc)
	} else {
		srv = cfg.make(t, svc, nil, acc)
	}
	if srv.ServerTransport() != thrift.TServerTransport(acc) || srv.ProcessorFactory() == nil {
		t.Failf("the server does not know its parts")
	}
	served := make(chan struct{})
	var serveErr error
	go func() { serveErr = srv.Serve(); close(served) }()
	var cs []*client
	current := 0 // the client a simple server serves
	active := func(x *client) bool { return !cfg.simple || x.id == current }
	done := func(x *client) { // the server has ended this connection
		if cfg.simple && x.id == current {
			current++
			for current < len(cs) && cs[current].closed {
				// a connection that was left before its turn: everything it sent is handled
				current++
			}
		}
	}
	defer func() {
		for _, x := range cs {
			x.c.Close()
		}
		srv.Stop()
	}()
	t.Repeat(40, 15, func(i int) {
		var open []*client
		for _, x := range cs {
			if !x.closed {
				open = append(open, x)
			}
		}
		if len(open) == 0 || len(open) < 4 && t.Chance(1, 6) {
			x := cfg.connect(len(cs))
			cs = append(cs, x)
			acc.give(x.s, nil)
			t.Note("connection %d", x.id)
			return
		}
		x := open[t.N(uint64(len(open)))]
		switch t.Pick(6, 5, 2, 1, 1) {
		case 0, 2: // a request
			if x.last {
				return
			}
			if x.pending != nil { // the rest of the one begun
				t.Note("connection %d: the rest of %s", x.id, x.pendLog)
				x.c.Write(x.pending)
				x.sent = append(x.sent, x.pendLog)
				if x.pendReply != nil {
					x.replies = append(x.replies, *x.pendReply)
				}
				x.last, x.pending, x.pendReply = x.pendLast, nil, nil
				return
			}
			name := "m" + t.Text(6)
			ty := thrift.TMessageType(thrift.CALL)
			ends := false
			switch t.Pick(10, 3, 1, 1) {
			case 1:
				ty = thrift.ONEWAY
			case 2:
				name, ends = "boom", true
			case 3:
				name, ends = "bye", true
			}
			x.seq += int32(t.Int(1, 1000))
			n, s := int32(t.Int(0, 100000)), t.Text(20)
			b := cfg.encode(name, ty, x.seq, n, s)
			var r *reply
			if ty == thrift.CALL && name != "boom" {
				r = &reply{name, x.seq, n, s}
			}
			log := fmt.Sprintf("%s/%d/%d/%d/%s", name, int(ty), x.seq, n, s)
			if t.Chance(1, 4) {
				cut := t.Int(1, len(b)-1)
				t.Note("connection %d: %d of %d bytes of %s", x.id, cut, len(b), log)
				x.c.Write(b[:cut])
				x.pending, x.pendLog, x.pendReply, x.pendLast = b[cut:], log, r, ends
				t.Label("stalled request")
				return
			}
			t.Note("connection %d: %s", x.id, log)
			x.c.Write(b)
			x.sent = append(x.sent, log)
			if r != nil {
				x.replies = append(x.replies, *r)
			}
			if len(x.replies) > 1 {
				t.Label("pipelined")
			}
			x.last = ends
		case 1: // a reply
			if len(x.replies) == 0 || !active(x) {
				return
			}
			if len(open) > 1 {
				t.NonTrivial()
			}
			x.expect(t)
		default: // leave
			if !active(x) && !t.Chance(1, 3) {
				return
			}
			t.Note("connection %d leaves", x.id)
			wasActive := active(x)
			x.closed = true
			if wasActive {
				for len(x.replies) > 0 {
					x.expect(t)
				}
			}
			x.c.Close()
			if wasActive {
				if !within(x.s.gone) {
					t.Failf("connection %d: the server does not close its end", x.id)
				}
				done(x)
			}
		}
		if x.last && active(x) && !x.closed {
			// the server ends the connection after the last reply
			for len(x.replies) > 0 {
				x.expect(t)
			}
			if !within(x.s.gone) {
				t.Failf("connection %d: the server does not close its end after the last request", x.id)
			}
			if n, err := x.c.Read(make([]byte, 1)); n != 0 || err == errPatience {
				t.Failf("connection %d: more data after the last reply (%d, %v)", x.id, n, err)
			}
			x.closed = true
			x.c.Close()
			done(x)
			t.Label("server ended")
		}
	})
	// everyone leaves; the server catches up
	for _, x := range cs {
		for len(x.replies) > 0 && !x.closed && active(x) {
			x.expect(t)
		}
		x.c.Close()
		if !within(x.s.gone) {
			t.Failf("connection %d: the server does not close its end", x.id)
		}
		x.closed = true
		if cfg.simple && current <= x.id {
			current = x.id + 1
		}
	}
	if !acc.settle() {
		t.Failf("the server does not go on accepting")
	}
	want, got := []string{}, []string{}
	for _, x := range cs {
		if single {
			want = append(want, x.sent...)
			continue
		}
		if g := svc.seen(x.id); fmt.Sprint(g) != fmt.Sprint(x.sent) {
			t.Failf("connection %d: handled %q, sent %q", x.id, g, x.sent)
		}
	}
	if single {
		got = svc.seen(-1)
		if !sameBag(got, want) {
			t.Failf("handled %q, sent %q", got, want)
		}
	}
	srv.Stop()
	if !within(served) {
		t.Failf("Serve does not return after Stop")
	}
	_ = serveErr
	if acc.listens != 1 {
		t.Failf("the server has listened %d times", acc.listens)
	}
	if acc.accepts > len(cs)+1 {
		t.Failf("the server has accepted %d times for %d connections", acc.accepts, len(cs))
	}
}

func sameBag(a, b []string) bool {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

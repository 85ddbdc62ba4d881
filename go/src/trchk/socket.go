package trchk

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"pbt"
	"sync/atomic"
	"thrift"
	"time"
	"vm"
)

type sock interface {
	thrift.TTransport
	SetTimeout(int64) error
}

func typeOf(err error) int {
	if te, ok := err.(thrift.TTransportException); ok && te != nil {
		return te.TypeId()
	}
	return -1
}

func wantNotOpen(t *pbt.T, what string, n int, err error) {
	if n != 0 || err == nil || typeOf(err) != thrift.NOT_OPEN {
		t.Failf("%s of a closed socket = %d, %v, want a not-open exception", what, n, err)
	}
}

// deadline checks the deadline in force at an operation: the timeout counts from it.
func deadline(t *pbt.T, what string, dl, now time.Time, timeout time.Duration) {
	if timeout <= 0 {
		if !dl.IsZero() {
			t.Failf("%s without a timeout has a deadline %v away", what, dl.Sub(now))
		}
		return
	}
	if dl.IsZero() {
		t.Failf("%s with timeout %v has no deadline", what, timeout)
	}
	if d := dl.Sub(now); d > timeout || d < timeout-10*time.Minute {
		t.Failf("%s with timeout %v has a deadline %v away", what, timeout, d)
	}
}

// SocketHistory: a socket transport over a scripted connection.
func SocketHistory(t *pbt.T) {
	c := &fakeConn{n: []int{0, 1, 3, 100, 5000}[t.N(5)], endErr: io.EOF, werrAfter: -1}
	nb := t.Bool()
	timeout := time.Duration(0)
	hours := func() time.Duration { return time.Duration(t.N(4)) * time.Hour }
	var s sock
	switch {
	case nb:
		s, _ = thrift.NewTNonblockingSocketConn(c)
		t.Label("nonblocking")
	case t.Bool():
		s, _ = thrift.NewTSocketConn(c)
		t.Label("blocking")
	default:
		timeout = hours()
		s, _ = thrift.NewTSocketConnTimeout(c, int64(timeout))
		t.Label("blocking")
	}
	t.Note("nonblocking %v, pieces of %d, timeout %v", nb, c.n, timeout)
	if b, ok := s.(*thrift.TSocket); ok && b.Conn() != net.Conn(c) {
		t.Failf("Conn() is not the connection given")
	}
	var written, queue []byte
	flushed := 0
	open, closes := true, 1
	t.Repeat(30, 10, func(i int) {
		if s.IsOpen() != open || s.Peek() != open {
			t.Failf("IsOpen() = %v, Peek() = %v, want %v", s.IsOpen(), s.Peek(), open)
		}
		nr, nw := len(c.readDl), len(c.writeDl)
		switch t.Pick(5, 4, 5, 4, 2, 1) {
		case 0:
			if !open {
				n, err := s.Write([]byte("x"))
				wantNotOpen(t, "Write", n, err)
				break
			}
			written = writeOp(t, s, written)
		case 1:
			err := s.Flush()
			t.Note("Flush = %v", err)
			if !open {
				wantNotOpen(t, "Flush", 0, err)
				break
			}
			if err != nil {
				t.Failf("Flush: %v", err)
			}
			if !bytes.Equal(c.out, written) {
				t.Failf("after the flush the connection got %d bytes %s, want %d bytes %s", len(c.out), some(c.out), len(written), some(written))
			}
			if len(written) > flushed {
				t.NonTrivial()
			}
			flushed = len(written)
		case 2:
			if !open {
				n, err := s.Read(make([]byte, 3))
				wantNotOpen(t, "Read", n, err)
				n, err = s.ReadAll(make([]byte, 3))
				if err == nil || n != 0 {
					t.Failf("ReadAll of a closed socket = %d, %v", n, err)
				}
				break
			}
			if len(queue) > 0 {
				t.NonTrivial()
			}
			queue = readStream(t, s, queue)
		case 3:
			b := t.SeedBytes(size(t))
			c.in = append(c.in, b...)
			queue = append(queue, b...)
			t.Note("%d bytes arrive", len(b))
		case 4:
			timeout = hours()
			if err := s.SetTimeout(int64(timeout)); err != nil {
				t.Failf("SetTimeout: %v", err)
			}
			t.Note("timeout %v", timeout)
		case 5:
			if t.Chance(1, 2) {
				err := s.Open()
				if open && typeOf(err) != thrift.ALREADY_OPEN {
					t.Failf("Open of an open socket = %v, want an already-open exception", err)
				}
				break
			}
			if open && t.Chance(1, 4) {
				c.closeErr = vm.ErrInjected
				err := s.Close()
				c.closeErr = nil
				t.Note("failing Close = %v", err)
				if err == nil {
					t.Failf("Close hides the error of the connection")
				}
				open, closes = false, 0
				break
			}
			if t.Chance(2, 3) {
				break // keep histories long
			}
			err := s.Close()
			t.Note("Close = %v", err)
			if err != nil {
				t.Failf("Close: %v", err)
			}
			open = false
			if c.closed != closes {
				t.Failf("the connection has been closed %d times", c.closed)
			}
		}
		for ; nr < len(c.readDl); nr++ {
			deadline(t, "a read", c.readDl[nr], c.readNow[nr], timeout)
		}
		for ; nw < len(c.writeDl); nw++ {
			deadline(t, "a write", c.writeDl[nw], c.writeNow[nw], timeout)
		}
		if !nb && len(c.out) > flushed {
			t.Failf("%d bytes were sent before they were flushed", len(c.out)-flushed)
		}
		if n := len(c.out); n > len(written) || !bytes.Equal(c.out, written[:n]) {
			t.Failf("the connection got %s, written were %s", some(c.out), some(written))
		}
	})
}

// SocketFaults: failures of the connection reach the caller.
func SocketFaults(t *pbt.T) {
	c := &fakeConn{endErr: []error{io.EOF, vm.ErrInjected}[t.N(2)], werrAfter: t.Int(0, 40)}
	var s sock
	if t.Bool() {
		s, _ = thrift.NewTNonblockingSocketConn(c)
	} else {
		s, _ = thrift.NewTSocketConn(c)
	}
	t.NonTrivial()
	total := 0
	var all []byte
	failed := false
	t.Repeat(12, 5, func(i int) {
		if failed {
			return
		}
		b := t.SeedBytes(t.Int(0, 20))
		n, err := s.Write(b)
		total += len(b)
		all = append(all, b...)
		if err == nil {
			err = s.Flush()
			if n != len(b) {
				t.Failf("Write of %d bytes = %d without an error", len(b), n)
			}
		}
		t.Note("write and flush %d bytes: %v", len(b), err)
		if (err != nil) != (total > c.werrAfter) {
			t.Failf("writing and flushing %d bytes over a connection that takes %d gives %v", total, c.werrAfter, err)
		}
		failed = err != nil
		if !bytes.Equal(c.out, all[:min(total, c.werrAfter)]) {
			t.Failf("the connection got %s of %s", some(c.out), some(all))
		}
	})
	n, err := s.Read(make([]byte, 4))
	if n != 0 || err == nil {
		t.Failf("Read = %d, %v although the connection fails", n, err)
	}
	if c.endErr == io.EOF && typeOf(err) != thrift.END_OF_FILE {
		t.Failf("the end of the stream is reported as %v, want an end-of-file exception", err)
	}
}

type strAddr struct{ n, s string }

func (a strAddr) Network() string { return a.n }
func (a strAddr) String() string  { return a.s }

var portCount int64

// Address makes a loopback address nobody else uses.
func Address() net.Addr {
	pid := os.Getpid()
	k := atomic.AddInt64(&portCount, 1)
	ip := net.IPv4(127, byte(1+pid>>8%200), byte(pid), byte(1+k%250))
	a := &net.TCPAddr{IP: ip, Port: 20000 + int(k/250)%10000}
	if l, err := net.Listen("tcp", a.String()); err == nil {
		l.Close()
		return a
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("no loopback port: " + err.Error())
	}
	defer l.Close()
	return l.Addr()
}

type pair struct {
	c, s         sock
	toS, toC     []byte // flushed, not read
	unC, unS     []byte // written, not flushed
	nbC          bool
	cOpen, sOpen bool
}

// Loopback: real connections between every kind of socket, opened, accepted, used and
// closed in random order.
func Loopback(t *pbt.T) {
	a := Address()
	var srv interface {
		thrift.TServerTransport
		thrift.TTransport
	}
	kind := t.Pick(2, 2, 1, 1, 1)
	const long = int64(20 * time.Second)
	given := kind == 2
	switch kind {
	case 0:
		srv, _ = thrift.NewTServerSocketAddrTimeout(a, long)
	case 1:
		srv, _ = thrift.NewTNonblockingServerSocketAddrTimeout(a, long)
	case 2:
		l, err := net.Listen("tcp", a.String())
		if err != nil {
			t.Discard()
		}
		x, _ := thrift.NewTNonblockingServerSocketListener(l)
		x.SetTimeout(long)
		srv = x
	case 3:
		switch t.N(3) {
		case 0:
			srv = thrift.NewTServerSocketTransportFactory(a, long).GetTransport(nil).(*thrift.TServerSocket)
		case 1: // made from something else
			srv = thrift.NewTServerSocketTransportFactory(a, long).GetTransport(thrift.NewTMemoryBuffer()).(*thrift.TServerSocket)
		case 2: // made from another one, whose address and timeout it takes
			x, _ := thrift.NewTServerSocketAddrTimeout(a, long)
			srv = thrift.NewTServerSocketTransportFactory(nowhere, 1).GetTransport(x).(*thrift.TServerSocket)
		}
	case 4:
		var x *thrift.TNonblockingServerSocket
		switch t.N(3) {
		case 0:
			x = thrift.NewTNonblockingServerSocketTransportFactory(a).GetTransport(nil).(*thrift.TNonblockingServerSocket)
		case 1:
			x = thrift.NewTNonblockingServerSocketTransportFactory(a).GetTransport(thrift.NewTMemoryBuffer()).(*thrift.TNonblockingServerSocket)
		case 2:
			y, _ := thrift.NewTNonblockingServerSocketAddr(a)
			x = thrift.NewTNonblockingServerSocketTransportFactory(nowhere).GetTransport(y).(*thrift.TNonblockingServerSocket)
		}
		x.SetTimeout(long)
		srv = x
	}
	t.Note("server socket kind %d", kind)
	if kind == 0 && t.Chance(1, 12) {
		acceptedTimeout(t, a)
		return
	}
	if t.Chance(1, 20) { // a server socket that is given a connection closes it
		fc := &fakeConn{werrAfter: -1, endErr: io.EOF}
		x := thrift.NewTServerSocketConn(fc)
		if t.Bool() {
			x = thrift.NewTServerSocketConnTimeout(fc, long)
		}
		for i := 0; i < 2; i++ {
			if err := x.Close(); err != nil || fc.closed != 1 {
				t.Failf("Close of a server socket over a connection = %v, the connection has been closed %d times", err, fc.closed)
			}
		}
	}
	if srv.IsOpen() != given || srv.Peek() != given {
		t.Failf("IsOpen() = %v before the socket is opened", srv.IsOpen())
	}
	mkClient := func() (sock, bool) {
		switch t.Pick(2, 1, 2, 1, 1) {
		case 0:
			return thrift.NewTSocket(a, long), false
		case 1:
			return thrift.NewTSocketAddr(a), false
		case 2:
			s, _ := thrift.NewTNonblockingSocketAddrTimeout(a, long)
			return s, true
		case 3:
			s, _ := thrift.NewTNonblockingSocketAddr(a)
			return s, true
		default:
			switch t.N(3) {
			case 0:
				return thrift.NewTNonblockingSocketTransportFactory(a).GetTransport(nil).(*thrift.TNonblockingSocket), true
			case 1:
				return thrift.NewTNonblockingSocketTransportFactory(a).GetTransport(thrift.NewTMemoryBuffer()).(*thrift.TNonblockingSocket), true
			}
			s, _ := thrift.NewTNonblockingSocketAddrTimeout(a, long)
			return thrift.NewTNonblockingSocketTransportFactory(nowhere).GetTransport(s).(*thrift.TNonblockingSocket), true
		}
	}
	if !given {
		if t.Chance(1, 4) {
			c, _ := mkClient()
			err := c.Open()
			if typeOf(err) != thrift.NOT_OPEN || c.IsOpen() {
				t.Failf("Open of a socket to nobody = %v, IsOpen() = %v", err, c.IsOpen())
			}
			t.Label("refused")
		}
		if t.Chance(1, 6) { // somebody else listens there
			other, err := net.Listen("tcp", a.String())
			if err != nil {
				t.Discard()
			}
			for i := t.Int(1, 2); i > 0; i-- {
				if t.Bool() {
					err = srv.Listen()
				} else {
					err = srv.Open()
				}
				if err == nil || srv.IsOpen() {
					t.Failf("listening where another one listens = %v, IsOpen() = %v", err, srv.IsOpen())
				}
			}
			if t.Bool() {
				if x, err := srv.Accept(); err == nil {
					t.Failf("Accept where another one listens = %v, %v", x, err)
				}
			}
			if t.Bool() {
				if err := srv.Close(); err != nil {
					t.Failf("Close of a server socket that does not listen = %v", err)
				}
			}
			other.Close()
			t.Label("taken")
		}
		var err error
		how := t.N(3)
		switch how {
		case 0:
			err = srv.Listen()
		default:
			err = srv.Open()
		}
		if err != nil {
			t.Discard() // the port is taken
		}
	}
	defer srv.Close()
	if !srv.IsOpen() {
		t.Failf("a listening socket is not open")
	}
	if t.Chance(1, 3) {
		if err := srv.Open(); typeOf(err) != thrift.ALREADY_OPEN {
			t.Failf("Open of an open server socket = %v, want an already-open exception", err)
		}
	}
	if t.Chance(1, 3) {
		if err := srv.Listen(); err != nil {
			t.Failf("Listen of a listening socket = %v", err)
		}
	}
	for _, f := range []func() (int, error){
		func() (int, error) { return srv.Read(make([]byte, 1)) }, func() (int, error) { return srv.Write([]byte{1}) },
		func() (int, error) { return 0, srv.Flush() }, func() (int, error) { return srv.ReadAll(make([]byte, 1)) }} {
		if n, err := f(); n != 0 || err == nil {
			t.Failf("data call on a server socket = %d, %v", n, err)
		}
	}
	var ps []*pair
	defer func() {
		for _, p := range ps {
			p.c.Close()
			p.s.Close()
		}
	}()
	check := func(p *pair) {
		if p.c.IsOpen() != p.cOpen || p.s.IsOpen() != p.sOpen {
			t.Failf("IsOpen() = %v/%v, want %v/%v", p.c.IsOpen(), p.s.IsOpen(), p.cOpen, p.sOpen)
		}
	}
	accept := func() sock {
		x, err := srv.Accept()
		if err != nil || x == nil {
			t.Failf("Accept = %v, %v", x, err)
		}
		s, ok := x.(sock)
		if !ok {
			t.Failf("Accept returned a %T", x)
		}
		return s
	}
	t.Repeat(25, 12, func(i int) {
		if len(ps) == 0 || len(ps) < 3 && t.Chance(1, 6) {
			p := &pair{cOpen: true, sOpen: true}
			p.c, p.nbC = mkClient()
			if p.c.IsOpen() {
				t.Failf("a new socket is open")
			}
			n, err := p.c.Write([]byte{1})
			wantNotOpen(t, "Write", n, err)
			if err := p.c.Open(); err != nil {
				t.Failf("Open: %v", err)
			}
			p.s = accept()
			t.Note("connection %d, nonblocking %v", len(ps), p.nbC)
			ps = append(ps, p)
			check(p)
			return
		}
		p := ps[t.N(uint64(len(ps)))]
		toServer := t.Bool()
		from, to, un, fl := p.c, p.s, &p.unC, &p.toS
		fo, too := p.cOpen, p.sOpen
		if !toServer {
			from, to, un, fl = p.s, p.c, &p.unS, &p.toC
			fo, too = p.sOpen, p.cOpen
		}
		switch t.Pick(10, 10, 12, 2, 2, 2, 1) {
		case 6: // interrupted, a client can still be closed and opened again
			if !p.cOpen || !p.sOpen || len(p.toC) > 0 || len(p.unC) > 0 || t.Bool() {
				return
			}
			i, ok := p.c.(interface{ Interrupt() error })
			if !ok {
				t.Failf("%T cannot be interrupted", p.c)
			}
			if err := i.Interrupt(); err != nil {
				t.Failf("Interrupt: %v", err)
			}
			t.Note("interrupt, nonblocking %v", p.nbC)
			if n, err := p.c.Read(make([]byte, 1)); n != 0 || err == nil {
				t.Failf("Read of an interrupted socket = %d, %v", n, err)
			}
			p.c.Close() // may say that the connection is closed already
			p.s.Close()
			p.cOpen, p.sOpen = false, false
			check(p)
			if err := p.c.Open(); err != nil {
				t.Failf("Open after Interrupt and Close: %v", err)
			}
			p.s = accept()
			p.cOpen, p.sOpen = true, true
			p.unC, p.toS, p.unS, p.toC = nil, nil, nil, nil
			check(p)
			t.Label("interrupted")
		case 0: // write
			if !fo || !too || len(*un)+len(*fl) > 30000 {
				return
			}
			b := t.SeedBytes(t.Int(0, 3000))
			if n, err := from.Write(b); n != len(b) || err != nil {
				t.Failf("Write of %d bytes = %d, %v", len(b), n, err)
			}
			t.Note("write %d, to server %v", len(b), toServer)
			*un = append(*un, b...)
		case 1:
			if !fo || !too {
				return
			}
			if err := from.Flush(); err != nil {
				t.Failf("Flush: %v", err)
			}
			t.Note("flush, to server %v", toServer)
			*fl = append(*fl, *un...)
			*un = nil
		case 2:
			if !too || len(*fl) == 0 {
				return
			}
			n := t.Int(1, len(*fl))
			b := make([]byte, n)
			all := t.Bool()
			var got int
			var err error
			if all {
				got, err = to.ReadAll(b)
			} else {
				got, err = to.Read(b)
			}
			t.Note("read %d of %d = %d, %v", n, len(*fl), got, err)
			if err != nil || got == 0 || got > n || all && got != n {
				t.Failf("reading %d of %d bytes (all %v) = %d, %v", n, len(*fl), all, got, err)
			}
			if !bytes.Equal(b[:got], (*fl)[:got]) {
				t.Failf("read %s, want %s", some(b[:got]), some(*fl))
			}
			t.NonTrivial()
			*fl = (*fl)[got:]
		case 3: // close one end; the other gets the rest, then the end of the stream
			if !fo || !too || len(*un) > 0 || t.Bool() {
				return
			}
			// unread data at the closing end would reset the connection
			back := p.toC
			if !toServer {
				back = p.toS
			}
			if p.nbC && len(p.unC) > 0 {
				return // sent at once
			}
			if len(back) > 0 {
				return
			}
			if err := from.Close(); err != nil {
				t.Failf("Close: %v", err)
			}
			if toServer {
				p.cOpen = false
			} else {
				p.sOpen = false
			}
			check(p)
			t.Note("close, server end %v", !toServer)
			rest := make([]byte, len(*fl))
			if n, err := to.ReadAll(rest); err != nil || !bytes.Equal(rest, *fl) {
				t.Failf("the rest after the close: %d of %d bytes, %v", n, len(rest), err)
			}
			*fl = nil
			n, err := to.Read(make([]byte, 4))
			if n != 0 || typeOf(err) != thrift.END_OF_FILE {
				t.Failf("Read after the peer has closed = %d, %v, want end of file", n, err)
			}
			t.Label("peer closed")
			n, err = from.Write([]byte{1})
			wantNotOpen(t, "Write", n, err)
			n, err = from.Read(make([]byte, 1))
			wantNotOpen(t, "Read", n, err)
			wantNotOpen(t, "Flush", 0, from.Flush())
			if err := from.Close(); err != nil {
				t.Failf("second Close: %v", err)
			}
			to.Close()
			p.cOpen, p.sOpen = false, false
		case 4: // nothing to read: a short timeout fails, and later reads work again
			if !too || len(*fl) > 0 || p.nbC && toServer && len(*un) > 0 || !t.Chance(1, 4) {
				return
			}
			to.SetTimeout(int64(t.Int(1, 3)) * int64(time.Millisecond))
			n, err := to.Read(make([]byte, 5))
			t.Note("read with a timeout = %d, %v", n, err)
			if n != 0 || err == nil {
				t.Failf("Read of no data = %d, %v", n, err)
			}
			t.Label("timeout")
			to.SetTimeout([]int64{0, long}[t.N(2)])
		case 5: // reconnect the client with data unsent
			if !p.cOpen || !p.sOpen || p.nbC || len(p.toC) > 0 || t.Bool() {
				return
			}
			if err := p.c.Close(); err != nil {
				t.Failf("Close: %v", err)
			}
			p.s.Close()
			if err := p.c.Open(); err != nil {
				t.Failf("Open: %v", err)
			}
			t.Note("reconnect with %d bytes unsent", len(p.unC))
			p.s = accept()
			if len(p.unC) > 0 {
				t.Label("reconnected with unsent data")
			}
			p.unC, p.toS, p.unS, p.toC = nil, nil, nil, nil
			p.sOpen = true
			check(p)
			b := t.SeedBytes(t.Int(1, 50))
			p.c.Write(b)
			if err := p.c.Flush(); err != nil {
				t.Failf("Flush: %v", err)
			}
			p.toS = b
		}
		check(p)
	})
	interrupted := t.Bool()
	if interrupted {
		t.Note("interrupt")
		if err := srv.Interrupt(); err != nil {
			t.Failf("Interrupt: %v", err)
		}
		done := make(chan string, 1)
		go func() {
			x, err := srv.Accept()
			if err == nil || x != nil {
				done <- fmt.Sprintf("Accept of an interrupted server socket = %v, %v", x, err)
			} else {
				done <- ""
			}
		}()
		select {
		case m := <-done:
			if m != "" {
				t.Failf("%s", m)
			}
		case <-time.After(20 * time.Second):
			srv.Interrupt()
			t.Failf("Accept of an interrupted server socket blocks")
		}
		t.Label("interrupted")
	}
	if err := srv.Close(); err != nil {
		t.Failf("Close of the server socket: %v", err)
	}
	if srv.IsOpen() {
		t.Failf("a closed server socket is open")
	}
	c, _ := mkClient()
	if err := c.Open(); err == nil {
		t.Failf("connecting to a closed server socket works")
	}
	if kind == 1 || kind == 4 || given || interrupted {
		if x, err := srv.Accept(); x != nil || typeOf(err) != thrift.NOT_OPEN {
			t.Failf("Accept of a closed server socket = %v, %v", x, err)
		}
	}
	if t.Chance(1, 3) { // and opens again
		if err := srv.Listen(); err != nil {
			t.Label("port taken")
			return
		}
		c, _ := mkClient()
		if err := c.Open(); err != nil {
			t.Failf("Open after listening again: %v", err)
		}
		s := accept()
		c.Write([]byte("hi"))
		c.Flush()
		b := make([]byte, 2)
		if n, err := s.ReadAll(b); n != 2 || err != nil || string(b) != "hi" {
			t.Failf("after listening again: %d, %v, %q", n, err, b)
		}
		c.Close()
		s.Close()
	}
}

// nowhere is an address that nothing listens on.
var nowhere = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}

// acceptedTimeout: the client timeout of a server socket bounds the reads of the sockets it
// accepts, and leaves them that long.
func acceptedTimeout(t *pbt.T, a net.Addr) {
	ms := t.Int(20, 60)
	d := time.Duration(ms) * time.Millisecond
	var srv thrift.TServerTransport
	if t.Bool() {
		srv, _ = thrift.NewTServerSocketAddrTimeout(a, int64(d))
	} else {
		srv = thrift.NewTServerSocketTransportFactory(a, int64(d)).GetTransport(nil).(*thrift.TServerSocket)
	}
	if err := srv.Listen(); err != nil {
		t.Discard()
	}
	defer srv.Close()
	c, err := net.Dial("tcp", a.String())
	if err != nil {
		t.Discard()
	}
	defer c.Close()
	s, err := srv.Accept()
	if err != nil {
		t.Failf("Accept: %v", err)
	}
	defer s.Close()
	t.Label("client timeout")
	t.NonTrivial()
	c.Write([]byte("ab"))
	b := make([]byte, 2)
	if n, err := s.ReadAll(b); string(b) != "ab" {
		t.Failf("ReadAll of what was sent = %d, %v", n, err)
	}
	for i := 0; i < 2; i++ {
		done := make(chan error, 1)
		start := time.Now()
		go func() { _, err := s.Read(b); done <- err }()
		select {
		case err = <-done:
		case <-time.After(20 * time.Second):
			t.Failf("with a client timeout of %v a read of an accepted socket blocks", d)
		}
		took := time.Since(start)
		if err == nil || took < d-time.Millisecond {
			t.Failf("with a client timeout of %v a read of an accepted socket gives %v after %v", d, err, took)
		}
	}
}

// BadAddresses: opening without a usable address is refused.
func BadAddresses(t *pbt.T) {
	t.NonTrivial()
	var a net.Addr
	switch t.N(4) {
	case 1:
		a = strAddr{"", "127.0.0.1:9"}
	case 2:
		a = strAddr{"tcp", ""}
	case 3:
		a = strAddr{"tcp", fmt.Sprintf("127.0.0.1:%d", 70000+t.Int(0, 1000))}
	}
	if a != nil && t.Chance(1, 3) {
		var x thrift.TServerTransport
		var y thrift.TTransport
		if t.Bool() {
			v, _ := thrift.NewTServerSocketAddrTimeout(a, 0)
			x, y = v, v
		} else {
			v, _ := thrift.NewTNonblockingServerSocketAddrTimeout(a, 0)
			x, y = v, v
		}
		if a.String() == "" || a.Network() == "" && t.Bool() { // any address, and a network is not needed
			return
		}
		t.Note("%T at %v", x, a)
		var err error
		if a.Network() == "" || t.Bool() {
			err = y.Open()
		} else {
			err = x.Listen()
		}
		if err == nil || y.IsOpen() {
			t.Failf("listening at %v = %v, IsOpen() = %v", a, err, y.IsOpen())
		}
		return
	}
	var s sock
	if t.Bool() {
		s = thrift.NewTSocket(a, int64(t.N(2))*int64(time.Second))
	} else {
		s, _ = thrift.NewTNonblockingSocketAddrTimeout(a, int64(t.N(2))*int64(time.Second))
	}
	t.Note("%T to %v", s, a)
	if err := s.Open(); typeOf(err) != thrift.NOT_OPEN {
		t.Failf("Open of %v = %v, want a not-open exception", a, err)
	}
	if s.IsOpen() {
		t.Failf("open after a failed Open")
	}
	n, err := s.Read(make([]byte, 1))
	wantNotOpen(t, "Read", n, err)
	if err := s.Close(); err != nil {
		t.Failf("Close of a socket that is not open: %v", err)
	}
}

var _ = errors.New

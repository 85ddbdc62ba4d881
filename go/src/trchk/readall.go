package trchk

import (
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"pbt"
	"thrift"
	"time"
	"vm"
)

// fakeConn is an in-memory net.Conn whose reads, writes and deadlines are recorded.
type fakeConn struct {
	in, out           []byte
	n                 int // piece size
	eofWithData       bool
	endErr            error // what a read at the end gives
	werrAfter         int   // <0: never
	closed            int
	closeErr          error
	rdl, wdl          time.Time
	rdlSet, wdlSet    int
	readDl, writeDl   []time.Time // deadline in force at each read / write
	readNow, writeNow []time.Time
}

func (c *fakeConn) Read(b []byte) (int, error) {
	c.readDl = append(c.readDl, c.rdl)
	c.readNow = append(c.readNow, time.Now())
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		return 0, c.endErr
	}
	n := len(c.in)
	if c.n > 0 && n > c.n {
		n = c.n
	}
	n = copy(b, c.in[:n])
	c.in = c.in[n:]
	if c.eofWithData && len(c.in) == 0 {
		return n, c.endErr
	}
	return n, nil
}

func (c *fakeConn) Write(b []byte) (int, error) {
	c.writeDl = append(c.writeDl, c.wdl)
	c.writeNow = append(c.writeNow, time.Now())
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if c.werrAfter >= 0 && len(c.out)+len(b) > c.werrAfter {
		n := c.werrAfter - len(c.out)
		c.out = append(c.out, b[:n]...)
		return n, vm.ErrInjected
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *fakeConn) Close() error {
	if c.closeErr != nil {
		return c.closeErr
	}
	c.closed++
	return nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *fakeConn) LocalAddr() net.Addr  { return addr("127.0.0.1:1") }
func (c *fakeConn) RemoteAddr() net.Addr { return addr("127.0.0.1:2") }
func (c *fakeConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *fakeConn) SetReadDeadline(t time.Time) error  { c.rdl = t; c.rdlSet++; return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { c.wdl = t; c.wdlSet++; return nil }

// plain is a transport that only its author's Read makes; ReadAll is the library's helper.
// ReadAll: over every kind of transport, reading n bytes gives all n or an error.
func ReadAll(t *pbt.T) {
	data := t.SeedBytes(size(t) + size(t))
	end := io.EOF
	if t.Bool() {
		end = vm.ErrInjected
	}
	with := t.Chance(1, 3)
	d := &fakeConn{in: append([]byte{}, data...), n: []int{0, 1, 2, 7, 100, 4096}[t.N(6)], eofWithData: with, endErr: end, werrAfter: -1}
	queue := data
	var tr thrift.TTransport
	kind := t.Pick(2, 1, 1, 1, 1, 1, 1, 1)
	if t.Chance(1, 40) {
		kind = 8
	}
	switch kind {
	case 0:
		tap := vm.NewTap(data)
		if d.n > 0 {
			tap.Chunk = func() int { return d.n }
		}
		if end == io.EOF {
			tap.EOFWithData = with
		} else {
			tap.ReadErrAfter = len(data)
		}
		tr = tap
	case 1:
		m := thrift.NewTMemoryBuffer()
		m.Write(data)
		tr = m
	case 2:
		tr = thrift.NewTIOStreamTransportR(d)
	case 3:
		tr = thrift.NewTIOStreamTransportRW(d)
	case 4:
		tr, _ = thrift.NewTSocketConn(d)
	case 5:
		tr, _ = thrift.NewTNonblockingSocketConn(d)
	case 6, 7: // framed, over a socket or a stream
		d.in = nil
		rest := data
		for len(rest) > 0 {
			n := t.Int(0, len(rest))
			d.in = binary.BigEndian.AppendUint32(d.in, uint32(n))
			d.in = append(d.in, rest[:n]...)
			rest = rest[n:]
			if n == 0 && t.Chance(1, 2) {
				break
			}
		}
		queue = data[:len(data)-len(rest)]
		var u thrift.TTransport
		if kind == 6 {
			u, _ = thrift.NewTSocketConn(d)
		} else {
			u = thrift.NewTIOStreamTransportR(d)
		}
		tr = thrift.NewTFramedTransport(u)
	case 8: // the response to a request; its pieces are longer than the buffers on the way
		if t.Chance(2, 3) {
			data = t.SeedBytes(t.Int(0, 60000))
			queue = data
		}
		end = io.EOF
		url, done := serve(data, t.Int(2000, 9000))
		defer done()
		if t.Bool() {
			tr, _ = thrift.NewTHttpClient(url)
		} else {
			tr, _ = thrift.NewTHttpPostClient(url)
			tr.Write([]byte("request"))
			if err := tr.Flush(); err != nil {
				t.Failf("request: %v", err)
			}
		}
		defer tr.Close()
	}
	t.Label([]string{"own", "memory", "stream", "stream-rw", "socket", "nonblocking", "framed-socket", "framed-stream", "http"}[kind])
	t.Note("kind %d, %d bytes, pieces of %d, %v at the end, with the last bytes %v", kind, len(data), d.n, end, with)
	t.Repeat(20, 5, func(i int) {
		var n int
		switch t.Pick(3, 2, 1) {
		case 0:
			n = size(t)
		case 1:
			n = len(queue) + t.Int(-1, 2)
		default:
			n = t.Int(0, len(queue))
		}
		if n < 0 {
			n = 0
		}
		if n > 0 {
			t.NonTrivial()
		}
		b := bytes.Repeat([]byte{0x5a}, n)
		var got int
		var err error
		if t.Bool() {
			got, err = tr.ReadAll(b)
		} else {
			got, err = thrift.ReadAllTransport(tr, b)
		}
		t.Note("ReadAll(%d) = %d, %v (%d available)", n, got, err, len(queue))
		if n <= len(queue) {
			if err != nil || got != n {
				t.Failf("ReadAll(%d) = %d, %v although %d bytes arrive", n, got, err, len(queue))
			}
		} else {
			t.Label("short")
			if err == nil {
				t.Failf("ReadAll(%d) = %d without an error although only %d bytes arrive", n, got, len(queue))
			}
			if got != len(queue) {
				t.Failf("ReadAll(%d) says %d bytes were read before %v, the transport gave %d", n, got, err, len(queue))
			}
		}
		if !bytes.Equal(b[:got], queue[:got]) {
			t.Failf("ReadAll returned %s, want %s", some(b[:got]), some(queue[:got]))
		}
		for _, c := range b[got:] {
			if c != 0x5a {
				t.Failf("ReadAll of %d wrote past the %d bytes it reports", n, got)
			}
		}
		queue = queue[got:]
	})
}

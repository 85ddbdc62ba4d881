package trchk

import (
	"bytes"
	"errors"
	"io"
	"pbt"
	"thrift"
	"vm"
)

// Memory: a memory buffer is a byte queue, whichever of its calls is used.
func Memory(t *pbt.T) {
	var m *thrift.TMemoryBuffer
	switch t.Pick(2, 2, 1, 1) {
	case 0:
		m = thrift.NewTMemoryBuffer()
	case 1:
		m = thrift.NewTMemoryBufferLen(size(t))
	case 2:
		m = thrift.NewTMemoryBufferTransportFactory(size(t)).GetTransport(nil).(*thrift.TMemoryBuffer)
	default:
		other := thrift.NewTMemoryBufferLen(size(t))
		other.WriteString("not this")
		m = thrift.NewTMemoryBufferTransportFactory(size(t)).GetTransport(other).(*thrift.TMemoryBuffer)
		defer func() {
			if other.String() != "not this" {
				t.Failf("the factory's new buffer shares data with the old one")
			}
		}()
	}
	var queue []byte
	check := func() {
		if m.Len() != len(queue) {
			t.Failf("Len() = %d, want %d", m.Len(), len(queue))
		}
		if !bytes.Equal(m.Bytes(), queue) || m.String() != string(queue) {
			t.Failf("content is %s, want %s", some(m.Bytes()), some(queue))
		}
		if !m.IsOpen() || !m.Peek() {
			t.Failf("a memory buffer is always open: %v %v", m.IsOpen(), m.Peek())
		}
	}
	check()
	t.Repeat(30, 10, func(i int) {
		if len(queue) > 0 {
			t.NonTrivial()
		}
		switch t.Pick(6, 3, 6, 2, 2, 2, 1, 1, 1) {
		case 0:
			queue = writeOp(t, m, queue)
		case 1:
			s := string(t.SeedBytes(size(t)))
			n, err := m.WriteString(s)
			t.Note("WriteString(%d) = %d, %v", len(s), n, err)
			if n != len(s) || err != nil {
				t.Failf("WriteString(%d bytes) = %d, %v", len(s), n, err)
			}
			queue = append(queue, s...)
		case 2:
			queue = readOp(t, m, queue)
		case 3:
			b, err := m.ReadByte()
			t.Note("ReadByte = %d, %v", b, err)
			if len(queue) == 0 {
				if err == nil {
					t.Failf("ReadByte of an empty buffer gives %d", b)
				}
			} else if err != nil || b != queue[0] {
				t.Failf("ReadByte = %d, %v, want %d", b, err, queue[0])
			} else {
				queue = queue[1:]
			}
		case 4:
			b := t.SeedBytes(size(t))
			n, err := m.ReadFrom(&pieces{b: append([]byte{}, b...), n: t.Int(1, 700)})
			t.Note("ReadFrom(%d bytes) = %d, %v", len(b), n, err)
			if n != int64(len(b)) || err != nil {
				t.Failf("ReadFrom(%d bytes) = %d, %v", len(b), n, err)
			}
			queue = append(queue, b...)
		case 5:
			if t.Bool() {
				var out bytes.Buffer
				n, err := m.WriteTo(&out)
				t.Note("WriteTo = %d, %v", n, err)
				if n != int64(len(queue)) || err != nil || !bytes.Equal(out.Bytes(), queue) {
					t.Failf("WriteTo gave %s (%d, %v), want %s", some(out.Bytes()), n, err, some(queue))
				}
				queue = nil
			} else {
				max := t.Int(0, 40)
				out := &limited{max: max}
				n, err := m.WriteTo(out)
				t.Note("WriteTo(failing after %d) = %d, %v", max, n, err)
				if int(n) != len(out.b) || !bytes.Equal(out.b, queue[:n]) {
					t.Failf("WriteTo gave %s (%d, %v), want the start of %s", some(out.b), n, err, some(queue))
				}
				if err == nil && int(n) < len(queue) {
					t.Failf("WriteTo wrote %d of %d bytes without an error", n, len(queue))
				}
				queue = queue[n:]
			}
		case 6:
			if err := m.Flush(); err != nil {
				t.Failf("Flush: %v", err)
			}
			t.Note("Flush")
		case 7:
			t.Note("Close")
			if err := m.Close(); err != nil {
				t.Failf("Close: %v", err)
			}
			queue = nil
		case 8:
			if t.Bool() {
				t.Note("Open")
				if err := m.Open(); err != nil {
					t.Failf("Open: %v", err)
				}
				break
			}
			t.Note("Reset")
			m.Reset()
			queue = nil
		}
		check()
	})
}

type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := p.n
	if n > len(p.b) {
		n = len(p.b)
	}
	n = copy(b, p.b[:n])
	p.b = p.b[n:]
	return n, nil
}

type limited struct {
	b   []byte
	max int
}

var errLimit = errors.New("limit reached")

func (p *limited) Write(b []byte) (int, error) {
	if n := p.max - len(p.b); n < len(b) {
		p.b = append(p.b, b[:n]...)
		return n, errLimit
	}
	p.b = append(p.b, b...)
	return len(b), nil
}

// ---- stream transport

// duplex is an io.ReadWriteCloser with two separate directions.
type duplex struct {
	in, out       []byte
	n             int // piece size, 0 = all
	eofWithData   bool
	closed, flush int
	werr          int  // fail writes after that many bytes, -1 never
	buffers       bool // keeps what is written until it is flushed
	held          []byte
}

func (d *duplex) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(d.in) == 0 {
		return 0, io.EOF
	}
	n := len(d.in)
	if d.n > 0 && n > d.n {
		n = d.n
	}
	n = copy(b, d.in[:n])
	d.in = d.in[n:]
	if d.eofWithData && len(d.in) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func (d *duplex) Write(b []byte) (int, error) {
	if d.buffers {
		d.held = append(d.held, b...)
		return len(b), nil
	}
	d.out = append(d.out, b...)
	return len(b), nil
}

func (d *duplex) Flush() error {
	d.flush++
	d.out, d.held = append(d.out, d.held...), nil
	return nil
}
func (d *duplex) Close() error { d.closed++; return nil }

// Stream: histories on a stream transport made by every constructor and by the factory.
func Stream(t *pbt.T) {
	d := &duplex{werr: -1}
	kind := t.Pick(3, 2, 3, 3, 1)
	d.n = []int{0, 1, 3, 100, 5000}[t.N(5)]
	d.eofWithData = t.Chance(1, 4)
	d.buffers = kind == 0 && t.Chance(1, 3)
	canR, canW := kind == 0 || kind == 1 || kind == 3, kind == 0 || kind == 2 || kind == 3
	var s thrift.TTransport
	mk := func(fac bool) {
		var r io.Reader
		var w io.Writer
		switch kind {
		case 0:
			if fac {
				s = thrift.NewTIOStreamTransportFactory(d, d, true).GetTransport(nil)
			} else {
				s = thrift.NewTIOStreamTransportRW(d)
			}
			return
		case 1:
			r = d
			s = thrift.NewTIOStreamTransportR(d)
		case 2:
			w = d
			s = thrift.NewTIOStreamTransportW(d)
		case 3:
			r, w = d, d
			s = thrift.NewTIOStreamTransportRAndW(d, d)
		default:
			s = thrift.NewTIOStreamTransportDefault()
		}
		if fac {
			s = thrift.NewTIOStreamTransportFactory(r, w, false).GetTransport(nil)
		}
		if fac && t.Bool() { // as another one, by a factory made for something else
			other := &duplex{}
			f := []*thrift.TIOStreamTransportFactory{
				thrift.NewTIOStreamTransportFactory(other, other, true), thrift.NewTIOStreamTransportFactory(other, other, false),
				thrift.NewTIOStreamTransportFactory(other, nil, false), thrift.NewTIOStreamTransportFactory(nil, other, false),
				thrift.NewTIOStreamTransportFactory(nil, nil, false)}[t.N(5)]
			s = f.GetTransport(s)
			t.Label("as a template")
		}
	}
	fac := t.Chance(1, 3)
	mk(fac)
	names := []string{"RW", "R", "W", "RAndW", "default"}
	t.Note("constructor %s, by factory %v, pieces of %d", names[kind], fac, d.n)
	if d.buffers {
		t.Note("a stream that keeps what is written until it is flushed")
	}
	t.Label(names[kind])
	var written, queue []byte // written and not known to be sent; to be read
	sent := 0
	eofDone := false
	closed := false
	notOpen := func(what string, n int, err error) {
		te, ok := err.(thrift.TTransportException)
		if n != 0 || !ok || te.TypeId() != thrift.NOT_OPEN {
			t.Failf("%s = %d, %v, want a not-open exception", what, n, err)
		}
	}
	total := func() []byte { return written }
	t.Repeat(30, 10, func(i int) {
		if !s.IsOpen() && !closed {
			t.Failf("a stream transport is open from the start")
		}
		switch t.Pick(4, 3, 5, 4, 1) {
		case 0: // write
			if closed || !canW {
				n, err := s.Write([]byte("x"))
				notOpen("Write", n, err)
				return
			}
			written = writeOp(t, s, written)
		case 1:
			err := s.Flush()
			t.Note("Flush = %v", err)
			if closed || !canW {
				notOpen("Flush", 0, err)
				return
			}
			if err != nil {
				t.Failf("Flush: %v", err)
			}
			if !bytes.Equal(d.out, total()) {
				t.Failf("after the flush the stream holds %d bytes %s, want %d bytes %s", len(d.out), some(d.out), len(total()), some(total()))
			}
			if len(written) > sent {
				t.NonTrivial()
			}
			sent = len(written)
		case 2: // read
			if closed || !canR {
				n, err := s.Read(make([]byte, 3))
				notOpen("Read", n, err)
				return
			}
			if len(queue) > 0 {
				t.NonTrivial()
			}
			queue = readStream(t, s, queue)
			eofDone = true
		case 3: // more data arrives
			if eofDone && d.eofWithData {
				return // the stream has announced its end
			}
			b := t.SeedBytes(size(t))
			d.in = append(d.in, b...)
			queue = append(queue, b...)
			t.Note("%d bytes arrive", len(b))
		case 4:
			if t.Chance(2, 3) {
				if err := s.Open(); err != nil {
					t.Failf("Open: %v", err)
				}
				return
			}
			err := s.Close()
			t.Note("Close = %v", err)
			if err != nil {
				t.Failf("Close: %v", err)
			}
			if kind == 0 && !closed && d.closed != 1 {
				t.Failf("closing closed the stream %d times", d.closed)
			}
			if d.closed > 1 {
				t.Failf("the stream has been closed %d times", d.closed)
			}
			closed = true
		}
		if n := len(d.out); n > len(total()) || !bytes.Equal(d.out, total()[:n]) {
			t.Failf("the stream holds %s, written were %s", some(d.out), some(total()))
		}
		if len(d.out) < sent {
			t.Failf("flushed data is gone")
		}
		if kind == 0 && !d.buffers && !bytes.Equal(d.out, total()) {
			t.Failf("a two-way stream transport holds data back")
		}
	})
}

// readStream: as readOp, where an error may come along with the last bytes.
func readStream(t *pbt.T, tr thrift.TTransport, queue []byte) []byte {
	n := size(t)
	if t.Chance(1, 4) {
		n = len(queue) + t.Int(0, 1)
	}
	b := make([]byte, n)
	if t.Bool() {
		got, err := tr.ReadAll(b)
		t.Note("ReadAll(%d) = %d, %v (%d available)", n, got, err, len(queue))
		if n <= len(queue) && (got != n || err != nil) {
			t.Failf("ReadAll(%d) = %d, %v although %d bytes are there", n, got, err, len(queue))
		}
		if n > len(queue) && (err == nil || got != len(queue)) {
			t.Failf("ReadAll(%d) = %d, %v although only %d bytes are there", n, got, err, len(queue))
		}
		if !bytes.Equal(b[:got], queue[:got]) {
			t.Failf("ReadAll returned %s, want %s", some(b[:got]), some(queue))
		}
		return queue[got:]
	}
	got, err := tr.Read(b)
	t.Note("Read(%d) = %d, %v (%d available)", n, got, err, len(queue))
	if got < 0 || got > n || got > len(queue) || !bytes.Equal(b[:got], queue[:got]) {
		t.Failf("Read(%d) = %d bytes %s, want the start of %s", n, got, some(b[:max(0, min(got, n))]), some(queue))
	}
	if n > 0 && got == 0 && (len(queue) > 0 || err == nil) {
		t.Failf("Read(%d) = 0, %v although %d bytes are there", n, err, len(queue))
	}
	if err != nil && got < len(queue) && n > 0 {
		t.Failf("Read(%d) = %d, %v although %d bytes are there", n, got, err, len(queue))
	}
	return queue[got:]
}

var _ = vm.ErrInjected

// faulty is a stream that fails: after max bytes written with werr, or by taking less
// than it was given without an error, or when it is flushed; reading ends with rerr.
type faulty struct {
	in, out    []byte
	max        int
	werr, rerr error
	short      bool
	flushErr   error
	flushes    int
}

func (d *faulty) Read(b []byte) (int, error) {
	if len(d.in) == 0 {
		return 0, d.rerr
	}
	n := copy(b, d.in)
	d.in = d.in[n:]
	return n, nil
}

func (d *faulty) Write(b []byte) (int, error) {
	if n := d.max - len(d.out); n < len(b) {
		d.out = append(d.out, b[:n]...)
		if d.short && n > 0 {
			return n, nil
		}
		return n, d.werr
	}
	d.out = append(d.out, b...)
	return len(b), nil
}

type faultyFlusher struct{ *faulty }

func (d faultyFlusher) Flush() error {
	d.flushes++
	return d.flushErr
}

// StreamFaults: when the writer or the reader behind a stream transport fails, the caller
// is told; no flush succeeds while data is missing at the writer.
func StreamFaults(t *pbt.T) {
	errs := []error{errLimit, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}
	d := &faulty{max: size(t) + size(t), werr: errs[t.N(5)], rerr: errs[t.N(5)]}
	kind := t.N(3)
	d.short = kind != 0 && t.Chance(1, 3)
	var rw io.ReadWriter = d
	if t.Bool() {
		rw = faultyFlusher{d}
		if kind == 0 && t.Bool() {
			d.flushErr = errs[t.N(5)]
		}
	}
	var s thrift.TTransport
	switch kind {
	case 0:
		s = thrift.NewTIOStreamTransportRW(rw)
	case 1:
		s = thrift.NewTIOStreamTransportW(rw)
	default:
		s = thrift.NewTIOStreamTransportRAndW(rw, rw)
	}
	t.Note("kind %d, the writer takes %d bytes, short writes %v, error %v, flush error %v", kind, d.max, d.short, d.werr, d.flushErr)
	var written []byte
	failed := false
	t.Repeat(12, 5, func(i int) {
		if failed {
			return
		}
		b := t.SeedBytes(size(t))
		n, err := s.Write(b)
		t.Note("Write(%d) = %d, %v", len(b), n, err)
		written = append(written, b...)
		if err == nil && n != len(b) {
			t.Failf("Write of %d bytes = %d without an error", len(b), n)
		}
		if err == nil && t.Bool() {
			err = s.Flush()
			t.Note("Flush = %v", err)
			if err == nil && (!bytes.Equal(d.out, written) || d.flushErr != nil) {
				t.Failf("a flush succeeds although the writer has %d of %d bytes (flush error %v)", len(d.out), len(written), d.flushErr)
			}
		}
		if err != nil {
			failed = true
			t.NonTrivial()
			if len(written) <= d.max && d.flushErr == nil {
				t.Failf("%v although the writer has taken everything", err)
			}
		}
	})
	if !failed {
		err := s.Flush()
		t.Note("Flush = %v", err)
		if (err == nil) != (len(written) <= d.max && d.flushErr == nil) {
			t.Failf("the last flush = %v, %d bytes for a writer that takes %d", err, len(written), d.max)
		}
	}
	if n := len(d.out); n > len(written) || !bytes.Equal(d.out, written[:n]) {
		t.Failf("the writer got %s of %s", some(d.out), some(written))
	}
	if kind == 1 {
		return
	}
	d.in = t.SeedBytes(t.Int(0, 50))
	in := d.in
	b := make([]byte, len(in)+1)
	n, err := s.ReadAll(b)
	t.Note("ReadAll(%d) = %d, %v", len(b), n, err)
	if n != len(in) || !bytes.Equal(b[:n], in) || err == nil {
		t.Failf("ReadAll(%d) of %d bytes before a failure = %d, %v", len(b), len(in), n, err)
	}
	if n, err := s.Read(b); n != 0 || err == nil {
		t.Failf("Read of a failing reader = %d, %v", n, err)
	}
}

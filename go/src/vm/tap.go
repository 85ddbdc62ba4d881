package vm

import (
	"errors"
	"io"
	"thrift"
)

// ErrInjected is the fault the Tap injects.
var ErrInjected = errors.New("injected transport fault")

// Budget is the panic value of a Tap whose reader does not stop.
type Budget struct{ Why string }

func (b Budget) String() string { return "no progress: " + b.Why }

// Tap is our own in-memory transport: writes append to W, reads consume R. It can hand
// data out in chunks, end with or after the last byte, and fail at a chosen operation.
type Tap struct {
	W, R           []byte
	Chunk          func() int // maximal size of the next read; nil = unlimited
	EOFWithData    bool       // the read that takes the last byte also returns io.EOF
	ReadErrAfter   int        // >=0: after this many bytes reads fail with ErrInjected
	WriteErrAfter  int        // >=0: after this many bytes writes fail (short write)
	FlushErr       bool
	ReadErrAt      int    // >0: the read of this number fails, and only that one
	WriteErrAt     int    // >0: the write of this number fails, and only that one
	Starve         func() // called when a read finds nothing
	Loop           bool   // writes become readable
	Reads, Writes  int
	Flushes        int
	EOFs           int
	MaxEOFs        int // panic(Budget) after this many reads at the end of data
	Pos            int
	WriteAfterFail int
	failed         bool
}

func NewTap(r []byte) *Tap {
	return &Tap{R: r, ReadErrAfter: -1, WriteErrAfter: -1, MaxEOFs: 1 << 16}
}

func (p *Tap) IsOpen() bool { return true }
func (p *Tap) Open() error  { return nil }
func (p *Tap) Close() error { return nil }
func (p *Tap) Peek() bool   { return true }

func (p *Tap) Read(b []byte) (int, error) {
	p.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	if p.Reads == p.ReadErrAt {
		return 0, thrift.NewTTransportExceptionFromOsError(ErrInjected)
	}
	if p.Loop {
		p.R = p.W
	}
	n := len(p.R) - p.Pos
	if p.ReadErrAfter >= 0 {
		if m := p.ReadErrAfter - p.Pos; m < n {
			n = m
		}
		if n <= 0 && p.Pos >= p.ReadErrAfter {
			p.EOFs++
			if p.EOFs > p.MaxEOFs {
				panic(Budget{"reading on and on after a transport failure"})
			}
			return 0, thrift.NewTTransportExceptionFromOsError(ErrInjected)
		}
	}
	if n <= 0 {
		if p.Starve != nil {
			p.Starve()
		}
		p.EOFs++
		if p.EOFs > p.MaxEOFs {
			panic(Budget{"reading on and on after the end of the data"})
		}
		return 0, thrift.NewTTransportExceptionFromOsError(io.EOF)
	}
	if p.Chunk != nil {
		if c := p.Chunk(); c < n {
			n = c
		}
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.R[p.Pos:p.Pos+n])
	p.Pos += n
	if p.EOFWithData && p.Pos == len(p.R) {
		return n, io.EOF
	}
	return n, nil
}

func (p *Tap) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(p, b) }

func (p *Tap) Write(b []byte) (int, error) {
	p.Writes++
	if p.failed {
		p.WriteAfterFail++
	}
	if p.Writes == p.WriteErrAt {
		n := 0
		if len(b) > 1 {
			n = len(b) / 2
		}
		p.W = append(p.W, b[:n]...)
		return n, thrift.NewTTransportExceptionFromOsError(ErrInjected)
	}
	if p.WriteErrAfter >= 0 && len(p.W)+len(b) > p.WriteErrAfter {
		n := p.WriteErrAfter - len(p.W)
		p.W = append(p.W, b[:n]...)
		p.failed = true
		return n, thrift.NewTTransportExceptionFromOsError(ErrInjected)
	}
	p.W = append(p.W, b...)
	return len(b), nil
}

func (p *Tap) Flush() error {
	p.Flushes++
	if p.FlushErr {
		return thrift.NewTTransportExceptionFromOsError(ErrInjected)
	}
	return nil
}

// Rest is what has not been read yet.
func (p *Tap) Rest() []byte { return p.R[p.Pos:] }

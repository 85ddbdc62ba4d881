// Package trchk holds the checks of the transports: histories of calls against a byte
// queue as the reference model.
package trchk

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"pbt"
	"thrift"
	"vm"
)

// size draws a buffer size, including 0, small sizes and sizes around internal buffers.
func size(t *pbt.T) int {
	switch t.Pick(10, 3, 2, 1) {
	case 1:
		return t.Int(16, 300)
	case 2:
		return []int{1023, 1024, 1025, 4095, 4096, 4097}[t.N(6)]
	case 3:
		return t.Int(5000, 70000)
	}
	return t.Int(0, 16)
}

func some(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x.. (%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// reader performs one read operation on tr against the queue of bytes that are there and
// returns what is left of the queue. sofar: data that may arrive is all in queue.
func readOp(t *pbt.T, tr thrift.TTransport, queue []byte) []byte {
	n := size(t)
	if t.Chance(1, 4) && len(queue) > 0 && len(queue) < 1<<17 {
		n = len(queue) + t.Int(-1, 1)
	}
	return readN(t, tr, queue, n, t.Bool())
}

func readN(t *pbt.T, tr thrift.TTransport, queue []byte, n int, all bool) []byte {
	buf := bytes.Repeat([]byte{0xa5}, n+3)
	b := buf[:n:n]
	var got int
	var err error
	call := "Read"
	if all {
		call = "ReadAll"
		got, err = tr.ReadAll(b)
	} else {
		got, err = tr.Read(b)
	}
	t.Note("%s(%d) = %d, %v (%d available)", call, n, got, err, len(queue))
	if got < 0 || got > n {
		t.Failf("%s of %d bytes claims %d", call, n, got)
	}
	if got > len(queue) {
		t.Failf("%s returned %d bytes, only %d were written", call, got, len(queue))
	}
	if !bytes.Equal(b[:got], queue[:got]) {
		t.Failf("%s returned %s, want %s", call, some(b[:got]), some(queue[:got]))
	}
	if !bytes.Equal(buf[n:], []byte{0xa5, 0xa5, 0xa5}) {
		t.Failf("%s wrote past the end of the caller's buffer", call)
	}
	switch {
	case all && n <= len(queue):
		if err != nil || got != n {
			t.Failf("ReadAll(%d) = %d, %v although %d bytes are there", n, got, err, len(queue))
		}
	case all:
		if err == nil {
			t.Failf("ReadAll(%d) = %d without an error although only %d bytes are there", n, got, len(queue))
		}
		// how much of the rest has been taken is the count returned
	case n == 0:
		if got != 0 {
			t.Failf("Read of nothing returned %d", got)
		}
	case len(queue) > 0:
		if err != nil || got == 0 {
			t.Failf("Read(%d) = %d, %v although %d bytes are there", n, got, err, len(queue))
		}
	default:
		if err == nil || got != 0 {
			t.Failf("Read at the end of the data = %d, %v", got, err)
		}
	}
	if all && err != nil {
		if got != len(queue) {
			t.Failf("ReadAll(%d) failed after %d bytes although %d are there", n, got, len(queue))
		}
	}
	return queue[got:]
}

// writeOp performs one Write and returns the queue with the data appended.
func writeOp(t *pbt.T, tr thrift.TTransport, queue []byte) []byte {
	b := t.SeedBytes(size(t))
	keep := append([]byte{}, b...)
	n, err := tr.Write(b)
	t.Note("Write(%d bytes) = %d, %v", len(b), n, err)
	if err != nil || n != len(b) {
		t.Failf("Write of %d bytes = %d, %v", len(b), n, err)
	}
	if !bytes.Equal(b, keep) {
		t.Failf("Write changed the caller's buffer")
	}
	for i := range b {
		b[i] ^= 0xff // the transport must not keep the caller's buffer
	}
	return append(queue, keep...)
}

func chunk(t *pbt.T, tap *vm.Tap) {
	switch t.Pick(2, 1, 2) {
	case 1:
		tap.Chunk = func() int { return 1 }
	case 2:
		m := []int{2, 3, 5, 8, 64, 1000, 5000}[t.N(7)]
		seed := t.U64()
		tap.Chunk = func() int {
			seed = seed*6364136223846793005 + 1442695040888963407
			return 1 + int(seed>>33)%m
		}
	}
	tap.EOFWithData = t.Chance(1, 4)
}

// FramedHistory: writes, flushes and reads through framed transports over one
// stream. Nothing reaches the stream before a flush, each flush sends one frame, and
// the reader sees the flushed bytes in order.
func FramedHistory(t *pbt.T) {
	tap := vm.NewTap(nil)
	tap.Loop = true
	chunk(t, tap)
	tap.EOFWithData = false
	base := thrift.TTransport(tap)
	mem := t.Chance(1, 3)
	var mb *thrift.TMemoryBuffer
	if mem {
		mb = thrift.NewTMemoryBuffer()
		base = mb
	}
	mk := func(b thrift.TTransport) thrift.TTransport {
		if t.Chance(1, 5) {
			return thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory()).GetTransport(b)
		}
		return thrift.NewTFramedTransport(b)
	}
	w := mk(base)
	r := w
	if t.Bool() {
		r = mk(base)
		t.Label("two ends")
	} else {
		t.Label("one object")
	}
	t.Note("memory buffer %v, same object %v", mem, r == w)
	var pending, queue, wire []byte
	ops := t.Repeat(30, 9, func(i int) {
		switch t.Pick(4, 3, 5) {
		case 0:
			pending = writeOp(t, w, pending)
		case 1:
			var old int
			if !mem {
				old = len(tap.W)
				if old != len(wire) {
					t.Failf("%d bytes reached the stream before the flush", old-len(wire))
				}
			}
			if err := w.Flush(); err != nil {
				t.Failf("Flush: %v", err)
			}
			t.Note("Flush of %d bytes", len(pending))
			if len(pending) == 0 {
				t.Label("empty flush")
				if !mem && len(tap.W) == old {
					return // no frame for no data is as good
				}
			}
			wire = binary.BigEndian.AppendUint32(wire, uint32(len(pending)))
			wire = append(wire, pending...)
			queue = append(queue, pending...)
			pending = nil
			if !mem && !bytes.Equal(tap.W, wire) {
				t.Failf("after the flush the stream holds %s, want %s", some(tap.W[old:]), some(wire[old:]))
			}
			if !mem && tap.Flushes == 0 {
				t.Failf("Flush does not flush the underlying transport")
			}
		default:
			if len(queue) > 0 {
				t.NonTrivial()
			}
			queue = readOp(t, r, queue)
		}
	})
	_ = ops
	// everything flushed can still be read
	for len(queue) > 0 {
		n := size(t)
		if n == 0 {
			n = 1
		}
		if n > len(queue) {
			n = len(queue)
		}
		queue = readN(t, r, queue, n, t.Bool())
	}
	readN(t, r, nil, 1, false)
}

// FramedForeign: frames made by someone else, delivered in pieces, possibly cut short.
// All of the complete frames' data and nothing else comes out, then an error.
func FramedForeign(t *pbt.T) {
	var wire, data []byte
	var ends []int // wire length after each frame
	var sums []int
	t.Repeat(8, 3, func(i int) {
		n := size(t)
		if i > 0 && n == 0 {
			t.Label("empty frame")
		}
		b := t.SeedBytes(n)
		wire = binary.BigEndian.AppendUint32(wire, uint32(n))
		wire = append(wire, b...)
		data = append(data, b...)
		ends = append(ends, len(wire))
		sums = append(sums, len(data))
		t.Note("frame of %d", n)
	})
	cut := len(wire)
	if t.Bool() && len(wire) > 0 {
		f := int(t.N(uint64(len(ends))))
		lo := 0
		if f > 0 {
			lo = ends[f-1]
		}
		switch t.Pick(1, 1) {
		case 0:
			cut = lo + t.Int(0, 4)
		default:
			cut = t.Int(lo, ends[f])
		}
		t.Note("cut after %d of %d bytes", cut, len(wire))
		t.Label("cut")
	}
	have := 0
	for i, e := range ends {
		if e <= cut {
			have = sums[i]
		}
	}
	tap := vm.NewTap(wire[:cut])
	chunk(t, tap)
	r := thrift.NewTFramedTransport(tap)
	queue := data[:have]
	if len(queue) > 0 || cut < len(wire) {
		t.NonTrivial()
	}
	t.Repeat(40, 12, func(i int) { queue = readOp(t, r, queue) })
	for len(queue) > 0 {
		queue = readN(t, r, queue, t.Int(1, 4000), false)
	}
	readN(t, r, nil, t.Int(1, 20), false)
	readN(t, r, nil, t.Int(1, 20), true)
}

// recorder counts the calls that a wrapping transport passes down.
type recorder struct {
	vm.Tap
	open, peek        bool
	opens, closes     int
	openErr, closeErr error
}

func (p *recorder) IsOpen() bool { return p.open }
func (p *recorder) Peek() bool   { return p.peek }
func (p *recorder) Open() error {
	p.opens++
	if p.openErr == nil {
		p.open = true
	}
	return p.openErr
}
func (p *recorder) Close() error {
	p.closes++
	if p.closeErr == nil {
		p.open = false
	}
	return p.closeErr
}

// FramedState: opening, closing and asking go to the underlying transport.
func FramedState(t *pbt.T) {
	rec := &recorder{open: t.Bool(), peek: t.Bool()}
	if t.Chance(1, 3) {
		rec.openErr = vm.ErrInjected
	}
	if t.Chance(1, 3) {
		rec.closeErr = vm.ErrInjected
	}
	var f thrift.TTransport = thrift.NewTFramedTransport(rec)
	rec.Tap = *vm.NewTap(nil)
	opens, closes := 0, 0
	t.Repeat(20, 8, func(i int) {
		t.NonTrivial()
		switch t.Pick(1, 1, 1, 1, 1) {
		case 4: // whatever it says of its state, it is given the data and flushed
			b := t.SeedBytes(t.Int(1, 20))
			f.Write(b)
			rec.FlushErr = t.Chance(1, 3)
			w, n := len(rec.W), rec.Flushes
			if err := f.Flush(); (err != nil) != rec.FlushErr {
				t.Failf("Flush() = %v, the underlying transport fails: %v", err, rec.FlushErr)
			}
			if rec.Flushes != n+1 || len(rec.W) != w+4+len(b) {
				t.Failf("Flush() passed on %d bytes and %d flushes for a frame of %d", len(rec.W)-w, rec.Flushes-n, len(b))
			}
		case 0:
			if got := f.IsOpen(); got != rec.open {
				t.Failf("IsOpen() = %v, the underlying transport says %v", got, rec.open)
			}
		case 1:
			rec.peek = t.Bool()
			if got := f.Peek(); got != rec.peek {
				t.Failf("Peek() = %v, the underlying transport says %v", got, rec.peek)
			}
		case 2:
			opens++
			if err := f.Open(); (err != nil) != (rec.openErr != nil) || rec.opens != opens {
				t.Failf("Open() = %v, %d calls passed down of %d", err, rec.opens, opens)
			}
		case 3:
			closes++
			if err := f.Close(); (err != nil) != (rec.closeErr != nil) || rec.closes != closes {
				t.Failf("Close() = %v, %d calls passed down of %d", err, rec.closes, closes)
			}
		}
	})
}

package protochk

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"pbt"
	"runtime"
	"syscall"
	"thrift"
	"vm"
)

// ---- adversarial inputs

var soup = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "NaN", "Infinity", "-Infinity", "\"NaN\"", "\"-Infinity\"", "\"rec\"", "\"lst\"", "\"set\"", "\"map\"",
	"\"str\"", "\"i8\"", "\"i16\"", "\"i32\"", "\"i64\"", "\"dbl\"", "\"tf\"", "\"gen\"", "\"stp\"", "\"zzz\"", "0", "1", "-1", "12", "99999999999999999999", "-5", "1e999", "1e", ".", "-", "+", "\"1\"", "\"2\"",
	"{\"1\":{\"rec\":", "{\"1\":{\"lst\":[12,3,", "[15,2,", "[0,2147483647]", "[1,", "[13,1,[\"str\",\"i32\",2,", "\"a\\\"b\"", "\"\\u00", "\"\\ud800\"", "tru", "fals", "nul", "Infin", "\x00", " ", "\n", "\xff", "\"QQ==\"", "\"Q\""}

// Mutate damages an encoded message.
func Mutate(t *pbt.T, in []byte, text bool) []byte {
	b := append([]byte(nil), in...)
	for k, n := 0, t.Int(1, 4); k < n; k++ {
		pos := 0
		if len(b) > 0 {
			pos = t.Int(0, len(b)-1)
		}
		switch t.Pick(3, 3, 2, 2, 2, 2, 3) {
		case 0:
			if len(b) > 0 {
				b[pos] ^= 1 << t.N(8)
			}
		case 1:
			if len(b) > 0 {
				b[pos] = "\x00\x01\x02\x03\x05\x07\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x1c\x7f\x80\x81\xf0\xfc\xff{}[]\":,n9-e"[t.N(31)]
			}
		case 2: // delete
			end := pos + t.Int(0, 8)
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:pos:pos], b[end:]...)
		case 3: // duplicate
			end := pos + t.Int(0, 12)
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:end:end], b[pos:]...)
		case 4: // insert
			b = append(b[:pos:pos], append(t.Bytes(10), b[pos:]...)...)
		case 5: // truncate
			b = b[:pos]
		default:
			if text {
				b = append(b[:pos:pos], append([]byte(soup[t.N(uint64(len(soup)))]), b[pos:]...)...)
			} else { // a size or an integer replaced by an extreme one
				big := [][]byte{{0x7f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 1, 0, 0}, {0x40, 0, 0, 0},
					{0xff, 0xff, 0xff, 0xff, 0x07}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}}[t.N(9)]
				end := pos + len(big)
				if end > len(b) {
					end = len(b)
				}
				b = append(b[:pos:pos], append(append([]byte(nil), big...), b[end:]...)...)
			}
		}
	}
	return b
}

func adversarial(t *pbt.T, pr vm.Proto) (in []byte, m *vm.Msg, class string) {
	o := Opts(pr, 3)
	o.MaxStr = 60
	m = vm.GenMsg(t, o)
	tap := vm.NewTap(nil)
	switch t.Pick(6, 1, 1) {
	case 0:
		if e := vm.WriteMsg(pr.New(tap), m); e != nil {
			t.Failf("writing: %v", e)
		}
		return Mutate(t, tap.W, pr.Text), m, "damaged message"
	case 1:
		vm.Write(pr.New(tap), m.Body)
		return Mutate(t, tap.W, pr.Text), m, "damaged value"
	}
	if pr.Text {
		t.Repeat(40, 12, func(int) { in = append(in, soup[t.N(uint64(len(soup)))]...) })
		return in, m, "token soup"
	}
	in = t.Bytes(200)
	switch t.Pick(2, 1, 1) {
	case 1:
		in = append([]byte{0x82, 0x21, 1, 1, 'x'}, in...)
	case 2:
		in = append(binary.BigEndian.AppendUint32(nil, 0x80010001), append([]byte{0, 0, 0, 1, 'x', 0, 0, 0, 1}, in...)...)
	}
	return in, m, "random bytes"
}

// Transports over an input, all of which deliver exactly the input's bytes.
func overInput(t *pbt.T, in []byte) (thrift.TTransport, string) {
	tap := vm.NewTap(in)
	tap.MaxEOFs = 300
	switch t.Pick(4, 2, 1, 1, 1) {
	case 1:
		tap.Chunk = chunker(t)
		return tap, "in pieces"
	case 2:
		b := thrift.NewTMemoryBuffer()
		b.Write(in)
		return b, "memory buffer"
	case 3:
		tap.EOFWithData = true
		return tap, "end of data with the last bytes"
	case 4:
		return thrift.NewTIOStreamTransportR(tap), "stream"
	}
	return tap, "whole"
}

func chunker(t *pbt.T) func() int {
	if t.Bool() {
		return func() int { return 1 }
	}
	s := t.U64()
	return func() int {
		s = s*6364136223846793005 + 1442695040888963407
		return 1 + int(s>>33)%9
	}
}

// Effort measures CPU time and allocation of f.
func Effort(f func()) (cpu float64, alloc uint64) {
	var a, b syscall.Rusage
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	syscall.Getrusage(syscall.RUSAGE_SELF, &a)
	f()
	syscall.Getrusage(syscall.RUSAGE_SELF, &b)
	runtime.ReadMemStats(&m2)
	sec := func(r syscall.Rusage) float64 {
		return float64(r.Utime.Sec+r.Stime.Sec) + float64(r.Utime.Usec+r.Stime.Usec)/1e6
	}
	return sec(b) - sec(a), m2.TotalAlloc - m1.TotalAlloc
}

// Sober runs f, which reads an adversarial input of n bytes: no panic, no endless
// reading, and effort in proportion to the input.
func Sober(t *pbt.T, n int, what string, f func()) {
	var p string
	cpu, alloc := Effort(func() { p = pbt.Guard(f) })
	if p != "" {
		t.Failf("%s: %s", what, p)
	}
	if cpu > 3 {
		t.Failf("%s: %.1f s of CPU time for %d bytes of input", what, cpu, n)
	}
	if alloc > 4<<20+uint64(n)*4000 {
		t.Failf("%s: allocates %d MB for %d bytes of input", what, alloc>>20, n)
	}
}

// Malformed: any input is read or refused soberly.
func Malformed(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		in, m, class := adversarial(t, pr)
		tr, how := overInput(t, in)
		t.Note("%s, %s (%s): %q", pr.Name, class, how, in)
		t.Label(class)
		p := pr.New(tr)
		bins := t.U64()
		bin := func() bool { bins = bins>>1 | bins<<63; return bins&1 == 1 }
		budget := 2*len(in) + 64
		var err error
		switch k := t.Pick(3, 3, 2, 2); {
		case k == 3:
			t.Label("any calls")
			Sober(t, len(in), "reading with any calls", func() { err = anyCalls(t, p) })
		case k == 0 && !pr.Named:
			Sober(t, len(in), "reading by the announced types", func() {
				if _, _, _, e := p.ReadMessageBegin(); e != nil {
					err = e
					return
				}
				if _, err = vm.Walk(p, vm.STRUCT, bin, &budget); err == nil {
					err = vm.E(p.ReadMessageEnd())
				}
			})
		case k == 2:
			ty := []byte{12, 15, 14, 13, 11, 2, 3, 4, 6, 8, 10, 0, 1, 5, 7, 9, 16, 17, 18, 127, 200}[t.Pick(8, 4, 4, 4, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
			t.Note("skip type %d", ty)
			Sober(t, len(in), "skipping", func() { err = vm.E(p.Skip(thrift.TType(ty))) })
		default:
			lax := pr
			lax.Lax = true
			Sober(t, len(in), "reading as the undamaged message", func() { err = vm.ReadMsg(p, lax, m) })
		}
		if err != nil {
			t.Label("refused")
			t.NonTrivial()
		} else {
			t.Label("read")
		}
	}
}

// anyCalls reads with any calls, each beginning with its end, and goes on after errors.
func anyCalls(t *pbt.T, p thrift.TProtocol) (first error) {
	see := func(e error) {
		if first == nil {
			first = e
		}
	}
	var value func(depth int)
	values := func(depth int) {
		t.Repeat(5, 2, func(int) { value(depth) })
	}
	value = func(depth int) {
		k := t.Pick(1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 2, 2, 2)
		if depth <= 0 && k > 8 {
			k = 3
		}
		switch k {
		case 0:
			_, e := p.ReadBool()
			see(vm.E(e))
		case 1:
			_, e := p.ReadByte()
			see(vm.E(e))
		case 2:
			_, e := p.ReadI16()
			see(vm.E(e))
		case 3:
			_, e := p.ReadI32()
			see(vm.E(e))
		case 4:
			_, e := p.ReadI64()
			see(vm.E(e))
		case 5:
			_, e := p.ReadDouble()
			see(vm.E(e))
		case 6:
			_, e := p.ReadString()
			see(vm.E(e))
		case 7:
			_, e := p.ReadBinary()
			see(vm.E(e))
		case 8:
			see(vm.E(p.Skip(thrift.TType(t.Int(0, 18)))))
		case 9:
			_, e := p.ReadStructBegin()
			see(vm.E(e))
			t.Repeat(4, 2, func(int) {
				_, _, _, e := p.ReadFieldBegin()
				see(vm.E(e))
				value(depth - 1)
				see(vm.E(p.ReadFieldEnd()))
			})
			see(vm.E(p.ReadStructEnd()))
		case 10:
			_, _, e := p.ReadListBegin()
			see(vm.E(e))
			values(depth - 1)
			see(vm.E(p.ReadListEnd()))
		case 11:
			_, _, e := p.ReadSetBegin()
			see(vm.E(e))
			values(depth - 1)
			see(vm.E(p.ReadSetEnd()))
		case 12:
			_, _, _, e := p.ReadMapBegin()
			see(vm.E(e))
			values(depth - 1)
			see(vm.E(p.ReadMapEnd()))
		}
	}
	t.Repeat(3, 1, func(int) {
		_, _, _, e := p.ReadMessageBegin()
		see(vm.E(e))
		value(3)
		see(vm.E(p.ReadMessageEnd()))
	})
	return
}

// Differential: on arbitrary bytes the reader and an independent decoder agree on
// acceptance, value and extent.
func Differential(pr vm.Proto, decode func([]byte, byte) (*vm.Val, int, error)) func(*pbt.T) {
	return func(t *pbt.T) {
		var in []byte
		ty := byte(vm.STRUCT)
		if t.Chance(7, 8) {
			o := Opts(pr, 3)
			o.MaxStr = 60
			v := vm.Gen(t, o)
			ty = v.T
			tap := vm.NewTap(nil)
			vm.Write(pr.New(tap), v)
			in = Mutate(t, tap.W, false)
		} else {
			in = t.Bytes(100)
		}
		agree(t, pr, decode, in, ty)
	}
}

// Sizes: a value in which one string or container announces another size than it has
// is read as an independent decoder reads it.
func Sizes(pr vm.Proto, encode func([]byte, *vm.Val) []byte, decode func([]byte, byte) (*vm.Val, int, error)) func(*pbt.T) {
	return func(t *pbt.T) {
		o := Opts(pr, 4)
		o.MaxStr = 60
		v := vm.Gen(t, o)
		for tries := 0; v.T < vm.STRUCT && v.T != vm.STRING && tries < 5; tries++ {
			v = vm.Gen(t, o)
		}
		var nodes []*vm.Val
		var collect func(v *vm.Val)
		collect = func(v *vm.Val) {
			if v.T == vm.STRING || v.T > vm.STRUCT {
				nodes = append(nodes, v)
			}
			for _, f := range v.Fields {
				collect(f.V)
			}
			for i := range v.Elems {
				if v.T == vm.MAP {
					collect(v.Keys[i])
				}
				collect(v.Elems[i])
			}
		}
		collect(v)
		if len(nodes) == 0 {
			t.Discard()
		}
		at := nodes[t.N(uint64(len(nodes)))]
		n := len(at.S) + len(at.Elems)
		size := []int{-1, n - 1, n + 1, math.MinInt32, math.MaxInt32, -2 - t.Int(0, 1<<20), t.Int(0, 30), t.Int(0, 1<<20), -n, n ^ 1<<31, n + 1<<16}[t.N(11)]
		vm.LieAt, vm.LieSize = at, int(int32(size))
		in := encode(nil, v)
		vm.LieAt = nil
		t.Note("a %s of %d announced as %d", vm.TypeName(at.T), n, int32(size))
		t.Label(vm.TypeName(at.T))
		agree(t, pr, decode, in, v.T)
	}
}

func agree(t *pbt.T, pr vm.Proto, decode func([]byte, byte) (*vm.Val, int, error), in []byte, ty byte) {
	bins := t.U64()
	bin := func() bool { bins = bins>>1 | bins<<63; return bins&1 == 1 }
	t.Note("%s %s from %x", pr.Name, vm.TypeName(ty), in)
	want, n, werr := decode(in, ty)
	tap := vm.NewTap(in)
	tap.MaxEOFs = 300
	budget := 2*len(in) + 64
	var got *vm.Val
	var gerr error
	Sober(t, len(in), "reading", func() { got, gerr = vm.Walk(pr.New(tap), ty, bin, &budget) })
	if werr != nil {
		t.Label("malformed")
		t.NonTrivial()
		if gerr == nil {
			t.Failf("malformed input (%v) is read as %s", werr, got)
		}
	} else {
		t.Label("well-formed")
		if gerr != nil {
			t.Failf("well-formed input, %s, is refused: %v", want, gerr)
		}
		if !vm.Same(want, got) {
			t.Failf("read %s, the bytes mean %s", got, want)
		}
		if tap.Pos != n {
			t.Failf("%d bytes consumed, the value has %d", tap.Pos, n)
		}
	}
	// Skip agrees too
	st := vm.NewTap(in)
	st.MaxEOFs = 300
	var serr error
	Sober(t, len(in), "skipping", func() { serr = vm.E(pr.New(st).Skip(thrift.TType(ty))) })
	if werr != nil && serr == nil {
		t.Failf("malformed input (%v) is skipped without an error", werr)
	}
	if werr == nil && (serr != nil || st.Pos != n) {
		t.Failf("Skip of %s: error %v, %d bytes consumed, the value has %d", want, serr, st.Pos, n)
	}
}

// Truncated: no strict prefix of a message reads as a message, and no value read from
// it differs from the one written.
func Truncated(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		o := Opts(pr, 3)
		o.MaxStr = 80
		m := vm.GenMsg(t, o)
		if t.Chance(1, 8) {
			m.Body.Fields = append(m.Body.Fields, vm.Fld{ID: 32767, Name: "big", V: &vm.Val{T: vm.STRING, Bin: t.Bool(), S: "x" + string(make([]byte, t.Int(60000, 140000)))}})
			if len(m.Body.Fields) > 1 && m.Body.Fields[len(m.Body.Fields)-2].ID == 32767 {
				t.Discard()
			}
			if pr.Text {
				m.Body.Fields[len(m.Body.Fields)-1].V.Bin = true
			}
		}
		tap := vm.NewTap(nil)
		if e := vm.WriteMsg(pr.New(tap), m); e != nil {
			t.Failf("writing: %v", e)
		}
		wire := tap.W
		t.Note("%s %s", pr.Name, m)
		if len(wire) > 8 {
			t.NonTrivial()
		}
		kind := t.Pick(3, 1, 1)
		one := func(k int) {
			p2 := pr
			var tr thrift.TTransport
			switch kind {
			case 1: // reports the end as io.EOF, at which a bare number may end as well
				b := thrift.NewTMemoryBuffer()
				b.Write(wire[:k])
				tr = b
				p2.Lax = true
			case 2:
				x := vm.NewTap(wire[:k])
				x.EOFWithData, x.MaxEOFs = true, 300
				x.Chunk = func() int { return 7 }
				tr = x
				p2.Lax = pr.Text
			default:
				x := vm.NewTap(wire[:k])
				x.MaxEOFs = 300
				tr = x
			}
			var err error
			if p := pbt.Guard(func() { err = vm.ReadMsg(p2.New(tr), p2, m) }); p != "" {
				t.Failf("the first %d of %d bytes: %s", k, len(wire), p)
			}
			if err == nil {
				t.Note("wire %q", wire)
				t.Failf("the first %d of %d bytes read as the whole message", k, len(wire))
			}
			if mm, ok := err.(*vm.Mismatch); ok && !p2.Lax {
				t.Note("wire %q", wire)
				t.Failf("the first %d of %d bytes: %s", k, len(wire), mm.S)
			}
		}
		if len(wire) <= 250 {
			for k := 0; k < len(wire); k++ {
				one(k)
			}
			return
		}
		one(len(wire) - 1)
		for i := 0; i < 40; i++ {
			one(t.Int(0, len(wire)-1))
		}
	}
}

// TruncatedSkip: skipping over a cut value reports an error.
func TruncatedSkip(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		o := Opts(pr, 3)
		o.MaxStr = 60
		v := vm.Gen(t, o)
		if pr.Text && v.T < vm.STRUCT {
			v = &vm.Val{T: vm.LIST, ET: v.T, Elems: []*vm.Val{v}}
		}
		tap := vm.NewTap(nil)
		vm.Write(pr.New(tap), v)
		t.Note("%s skip of a cut %s", pr.Name, v)
		t.NonTrivial()
		step := 1 + len(tap.W)/200
		for k := 0; k < len(tap.W); k += step {
			x := vm.NewTap(tap.W[:k])
			x.MaxEOFs = 300
			var err error
			if p := pbt.Guard(func() { err = vm.E(pr.New(x).Skip(thrift.TType(v.T))) }); p != "" {
				t.Failf("the first %d of %d bytes: %s", k, len(tap.W), p)
			}
			if err == nil {
				t.Note("wire %q", tap.W)
				t.Failf("the first %d of %d bytes are skipped without an error", k, len(tap.W))
			}
		}
	}
}

// ---- skipping

func depthOf(v *vm.Val) int {
	d := 0
	for _, f := range v.Fields {
		if x := depthOf(f.V); x > d {
			d = x
		}
	}
	for i, e := range v.Elems {
		if x := depthOf(e); x > d {
			d = x
		}
		if v.T == vm.MAP {
			if x := depthOf(v.Keys[i]); x > d {
				d = x
			}
		}
	}
	return d + 1
}

// Skipping: a reader that skips any of the values stays in step with the rest.
func Skipping(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		o := Opts(pr, 4)
		o.MaxStr = 100
		m := vm.GenMsg(t, o)
		tap := vm.NewTap(nil)
		tap.Chunk = nil
		if e := vm.WriteMsg(pr.New(tap), m); e != nil {
			t.Failf("writing: %v", e)
		}
		m2 := &vm.Msg{Name: "next", Type: 1, Seq: 7, Body: &vm.Val{T: vm.STRUCT, Fields: []vm.Fld{{ID: 1, Name: "f", V: &vm.Val{T: vm.I32, I: 42}}}}}
		if e := vm.WriteMsg(pr.New(tap), m2); e != nil {
			t.Failf("writing: %v", e)
		}
		t.Note("%s %s", pr.Name, m)
		rt := vm.NewTap(tap.W)
		rt.MaxEOFs = 300
		if t.Chance(1, 3) {
			rt.Chunk = chunker(t)
		}
		p := pr.New(rt)
		ps := t.Pick(2, 1, 1)
		skipped := 0
		ctx := func(v *vm.Val) bool {
			if t.Chance([]int{2, 5, 9}[ps], 10) {
				skipped++
				if v.Composite() {
					t.NonTrivial()
				}
				return true
			}
			return false
		}
		skip := func(v *vm.Val) error {
			switch t.Pick(3, 1, 1) {
			case 1:
				return vm.E(thrift.SkipDefaultDepth(p, thrift.TType(v.T)))
			case 2:
				return vm.E(thrift.Skip(p, thrift.TType(v.T), depthOf(v)+t.Int(0, 2)))
			}
			return vm.E(p.Skip(thrift.TType(v.T)))
		}
		n, ty, seq, e := p.ReadMessageBegin()
		if e != nil || n != m.Name || ty != m.Type || seq != m.Seq {
			t.Failf("header: %v", e)
		}
		if err := readSkipping(p, pr, m.Body, "body", ctx, skip, t); err != nil {
			fail(t, fmt.Sprintf("after %d skips", skipped), err, tap.W)
		}
		if e := p.ReadMessageEnd(); e != nil {
			t.Failf("message end after %d skips: %v", skipped, e)
		}
		if err := vm.ReadMsg(p, pr, m2); err != nil {
			fail(t, fmt.Sprintf("next message after %d skips", skipped), err, tap.W)
		}
		t.Label(fmt.Sprintf("skips %d+", skipped/5*5))
	}
}

func readSkipping(p thrift.TProtocol, pr vm.Proto, v *vm.Val, path string, choose func(*vm.Val) bool, skip func(*vm.Val) error, t *pbt.T) error {
	if choose(v) {
		t.Note("skip %s", path)
		if e := skip(v); e != nil {
			return fmt.Errorf("skipping %s: %v", path, e)
		}
		return nil
	}
	sub := func(x *vm.Val, path string) error { return readSkipping(p, pr, x, path, choose, skip, t) }
	switch v.T {
	case vm.STRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return e
		}
		for _, f := range v.Fields {
			_, ty, id, e := p.ReadFieldBegin()
			if e != nil {
				return e
			}
			fp := fmt.Sprintf("%s.%d", path, f.ID)
			if byte(ty) != f.V.T || id != f.ID {
				return &vm.Mismatch{S: fmt.Sprintf("%s: field (type %d, id %d), want (type %d, id %d)", fp, int(ty), id, f.V.T, f.ID)}
			}
			if e := sub(f.V, fp); e != nil {
				return e
			}
			if e := p.ReadFieldEnd(); e != nil {
				return e
			}
		}
		_, ty, id, e := p.ReadFieldBegin()
		if e != nil {
			return e
		}
		if byte(ty) != vm.STOP {
			return &vm.Mismatch{S: fmt.Sprintf("%s: extra field (type %d, id %d)", path, int(ty), id)}
		}
		return vm.E(p.ReadStructEnd())
	case vm.LIST, vm.SET:
		var et thrift.TType
		var n int
		var e thrift.TProtocolException
		if v.T == vm.LIST {
			et, n, e = p.ReadListBegin()
		} else {
			et, n, e = p.ReadSetBegin()
		}
		if e != nil {
			return e
		}
		if n != len(v.Elems) || byte(et) != v.ET {
			return &vm.Mismatch{S: fmt.Sprintf("%s: %d elements of type %d", path, n, int(et))}
		}
		for i, x := range v.Elems {
			if e := sub(x, fmt.Sprintf("%s[%d]", path, i)); e != nil {
				return e
			}
		}
		if v.T == vm.LIST {
			return vm.E(p.ReadListEnd())
		}
		return vm.E(p.ReadSetEnd())
	case vm.MAP:
		_, _, n, e := p.ReadMapBegin()
		if e != nil {
			return e
		}
		if n != len(v.Elems) {
			return &vm.Mismatch{S: fmt.Sprintf("%s: map of %d", path, n)}
		}
		for i, x := range v.Elems {
			if e := sub(v.Keys[i], fmt.Sprintf("%s.key%d", path, i)); e != nil {
				return e
			}
			if e := sub(x, fmt.Sprintf("%s.val%d", path, i)); e != nil {
				return e
			}
		}
		return vm.E(p.ReadMapEnd())
	}
	return vm.Read(p, pr, v, path)
}

// SkipDepth: the depth limit refuses exactly the values that are nested deeper.
func SkipDepth(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		o := Opts(pr, 4)
		o.MaxStr = 30
		v := vm.Gen(t, o)
		if pr.Text && v.T < vm.STRUCT {
			v = &vm.Val{T: vm.LIST, ET: v.T, Elems: []*vm.Val{v}}
		}
		tap := vm.NewTap(nil)
		vm.Write(pr.New(tap), v)
		d := depthOf(v)
		lim := t.Int(1, d+1)
		global := t.Bool()
		t.Note("%s limit %d (global %v) depth %d: %s", pr.Name, lim, global, d, v)
		t.Label(fmt.Sprintf("depth %d limit %+d", d, lim-d))
		if d > 1 {
			t.NonTrivial()
		}
		rt := vm.NewTap(tap.W)
		rt.MaxEOFs = 300
		p := pr.New(rt)
		var e error
		if global {
			old := thrift.MaxSkipDepth
			thrift.SetMaxSkipDepth(lim)
			func() {
				defer thrift.SetMaxSkipDepth(old)
				e = vm.E(p.Skip(thrift.TType(v.T)))
			}()
		} else {
			e = vm.E(thrift.Skip(p, thrift.TType(v.T), lim))
		}
		if d > lim && e == nil {
			t.Failf("a value nested %d deep is skipped under the limit %d", d, lim)
		}
		if d <= lim && e != nil {
			t.Failf("a value nested %d deep is refused under the limit %d: %v", d, lim, e)
		}
	}
}

// ---- transport faults

// FaultyIO is an io.ReadWriter with the Tap's faults and no thrift methods.
type FaultyIO struct{ T *vm.Tap }

func (f FaultyIO) Read(b []byte) (int, error) {
	n, e := f.T.Read(b)
	if e != nil {
		if f.T.Reads != f.T.ReadErrAt && (f.T.ReadErrAfter < 0 || f.T.Pos < f.T.ReadErrAfter) {
			e = io.EOF
		} else {
			e = vm.ErrInjected
		}
	}
	return n, e
}
func (f FaultyIO) Write(b []byte) (int, error) {
	n, e := f.T.Write(b)
	if e != nil {
		e = vm.ErrInjected
	}
	return n, e
}

// stacked puts a transport under test over a Tap.
func stacked(kind int, tap *vm.Tap) (thrift.TTransport, string) {
	switch kind {
	case 1:
		return thrift.NewTFramedTransport(tap), "framed"
	case 2:
		return thrift.NewTIOStreamTransportRAndW(FaultyIO{tap}, FaultyIO{tap}), "buffered stream"
	case 3:
		return thrift.NewTIOStreamTransportRW(FaultyIO{tap}), "stream"
	case 4:
		return thrift.NewTFramedTransport(thrift.NewTIOStreamTransportRAndW(FaultyIO{tap}, FaultyIO{tap})), "framed stream"
	case 5:
		s, _ := thrift.NewTSocketConn(Conn{tap})
		return s, "socket"
	case 6:
		s, _ := thrift.NewTNonblockingSocketConn(Conn{tap})
		return s, "nonblocking socket"
	case 7:
		s, _ := thrift.NewTSocketConn(Conn{tap})
		return thrift.NewTFramedTransport(s), "framed socket"
	}
	return tap, "direct"
}

// WriteFaults: when the transport fails after any number of bytes, some call reports
// it, and what got through is a prefix of the undisturbed encoding.
func WriteFaults(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		o := Opts(pr, 3)
		o.MaxStr = 100
		m := vm.GenMsg(t, o)
		if t.Chance(1, 10) {
			m.Body.Fields = append(m.Body.Fields, vm.Fld{ID: 32767, Name: "big", V: &vm.Val{T: vm.STRING, Bin: true, S: string(t.SeedBytes(t.Int(3000, 9000)))}})
		}
		sh := t.Pick(3, 2, 2, 1, 1, 1, 1, 1)
		mk := func(tap *vm.Tap) (thrift.TTransport, string) { return stacked(sh, tap) }
		good := vm.NewTap(nil)
		tr, how := mk(good)
		p := pr.New(tr)
		if e := vm.WriteMsg(p, m); e != nil {
			t.Failf("writing: %v", e)
		}
		if e := p.Flush(); e != nil {
			t.Failf("flush: %v", e)
		}
		t.Note("%s over %s: %s", pr.Name, how, m)
		t.Label(how)
		try := func(k int, flush bool) {
			bad := vm.NewTap(nil)
			bad.WriteErrAfter, bad.FlushErr = k, flush
			tr, _ := mk(bad)
			p := pr.New(tr)
			e := send(t, p, m, t.Chance(1, 4))
			if e == nil {
				t.Failf("the transport fails after %d of %d bytes (flush fails: %v), and no call reports an error", k, len(good.W), flush)
			}
			if len(bad.W) > len(good.W) || string(bad.W) != string(good.W[:len(bad.W)]) {
				t.Failf("with a failure after %d bytes, %x was written instead of a prefix of %x", k, bad.W, good.W)
			}
			t.NonTrivial()
		}
		if len(good.W) <= 120 {
			for k := 0; k < len(good.W); k++ {
				try(k, false)
			}
		} else {
			for i := 0; i < 25; i++ {
				try(t.Int(0, len(good.W)-1), false)
			}
		}
		if how == "direct" || how == "framed" { // the others have nothing to flush
			try(-1, true)
		}
		// failures that pass
		for i := 0; i < 40 && i < good.Writes; i++ {
			at := i + 1
			if good.Writes > 40 {
				at = t.Int(1, good.Writes)
			}
			bad := vm.NewTap(nil)
			bad.WriteErrAt = at
			tr, _ := mk(bad)
			p := pr.New(tr)
			e := send(t, p, m, t.Chance(1, 2))
			if e == nil && string(bad.W) != string(good.W) {
				t.Failf("write %d of %d fails once, no call reports an error, and %x arrives instead of %x", at, good.Writes, bad.W, good.W)
			}
		}
	}
}

// ReadFaults: when the transport fails after any number of bytes, the reader reports it.
func ReadFaults(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		o := Opts(pr, 3)
		o.MaxStr = 100
		m := vm.GenMsg(t, o)
		sh := t.Pick(3, 2, 2, 1, 1, 1, 1, 1)
		good := vm.NewTap(nil)
		tr, how := stacked(sh, good)
		p := pr.New(tr)
		if e := vm.WriteMsg(p, m); e != nil {
			t.Failf("writing: %v", e)
		}
		if e := p.Flush(); e != nil {
			t.Failf("flush: %v", e)
		}
		t.Note("%s over %s: %s", pr.Name, how, m)
		t.Label(how)
		t.NonTrivial()
		chunk := t.Bool()
		reads := 0
		try := func(k, at int) bool {
			bad := vm.NewTap(good.W)
			bad.ReadErrAfter, bad.ReadErrAt, bad.MaxEOFs = k, at, 300
			if chunk {
				bad.Chunk = func() int { return 5 }
			}
			tr, _ := stacked(sh, bad)
			var err error
			if p := pbt.Guard(func() { err = vm.ReadMsg(pr.New(tr), pr, m) }); p != "" {
				t.Failf("the transport fails after %d of %d bytes: %s", k, len(good.W), p)
			}
			reads = bad.Reads
			if at > 0 {
				if mm, ok := err.(*vm.Mismatch); ok {
					t.Failf("read %d of the transport fails once: %s", at, mm.S)
				}
				return reads >= at
			}
			if err == nil {
				t.Failf("the transport fails after %d of %d bytes, and no call reports an error", k, len(good.W))
			}
			if mm, ok := err.(*vm.Mismatch); ok {
				t.Failf("the transport fails after %d of %d bytes: %s", k, len(good.W), mm.S)
			}
			return true
		}
		if len(good.W) <= 120 {
			for k := 0; k < len(good.W); k++ {
				try(k, 0)
			}
		} else {
			for i := 0; i < 25; i++ {
				try(t.Int(0, len(good.W)-1), 0)
			}
		}
		// failures that pass
		for at := 1; at <= 40 && try(-1, at); at++ {
		}
	}
}

// ---- delivery in pieces

// Pieces: however the transport divides the bytes over reads, the messages are the same.
func Pieces(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		var msgs []*vm.Msg
		for i, n := 0, t.Int(1, 3); i < n; i++ {
			o := Opts(pr, 3)
			msgs = append(msgs, vm.GenMsg(t, o))
		}
		if t.Chance(1, 6) {
			v := &vm.Val{T: vm.STRING, Bin: true, S: string(t.SeedBytes(t.Int(3000, 70000)))}
			if pr.Text && t.Bool() {
				v = &vm.Val{T: vm.STRING, S: t.Text(4)}
				for len(v.S) < 6000 {
					v.S += t.Text(20) + "\\\"é"
				}
			}
			msgs[0].Body.Fields = append(msgs[0].Body.Fields, vm.Fld{ID: 32767, Name: "big", V: v})
			t.Label("large")
		}
		framed := t.Chance(1, 3)
		under := t.Pick(4, 2, 1, 1)
		base := vm.NewTap(nil)
		var tr thrift.TTransport = base
		if framed {
			tr = thrift.NewTFramedTransport(base)
		}
		spaced := pr.Text && t.Bool() // with white space and other escapes, too
		w := pr.New(tr)
		for _, m := range msgs {
			t.Note("%s %s", pr.Name, m)
			if spaced {
				plain := vm.NewTap(nil)
				if e := vm.WriteMsg(pr.New(plain), m); e != nil {
					t.Failf("writing: %v", e)
				}
				if _, e := tr.Write(ReformatJSON(t, plain.W)); e != nil {
					t.Failf("writing: %v", e)
				}
				if e := tr.Flush(); e != nil {
					t.Failf("flush: %v", e)
				}
				continue
			}
			if e := vm.WriteMsg(w, m); e != nil {
				t.Failf("writing: %v", e)
			}
			if e := w.Flush(); e != nil {
				t.Failf("flush: %v", e)
			}
		}
		wire := base.W
		if framed && t.Bool() { // the same in other frames
			wire = reframe(t, wire)
		}
		rt := vm.NewTap(wire)
		rt.MaxEOFs = 300
		switch t.Pick(2, 2, 2, 1) {
		case 0:
			rt.Chunk = func() int { return 1 }
		case 1:
			rt.Chunk = chunker(t)
		case 2:
			s, max := t.U64(), t.Int(1, 5000)
			rt.Chunk = func() int {
				s = s*6364136223846793005 + 1442695040888963407
				return 1 + int(s>>33)%max
			}
		}
		rt.EOFWithData = t.Bool()
		tr = rt
		switch under {
		case 1:
			tr = thrift.NewTIOStreamTransportR(rt)
		case 2:
			tr, _ = thrift.NewTSocketConn(Conn{rt})
		case 3:
			tr, _ = thrift.NewTNonblockingSocketConn(Conn{rt})
		}
		if framed {
			tr = thrift.NewTFramedTransport(tr)
		}
		how := []string{"plain", "stream", "socket", "nonblocking socket"}[under]
		t.Note("framed %v over %s end-with-data %v", framed, how, rt.EOFWithData)
		t.Label(fmt.Sprintf("framed=%v %s", framed, how))
		t.NonTrivial()
		r := pr.New(tr)
		for i, m := range msgs {
			if e := vm.ReadMsg(r, pr, m); e != nil {
				fail(t, fmt.Sprintf("message %d of %d", i+1, len(msgs)), e, wire)
			}
		}
	}
}

// reframe divides what the frames carry over other frames.
func reframe(t *pbt.T, frames []byte) []byte {
	var data, out []byte
	for len(frames) >= 4 {
		n := int(binary.BigEndian.Uint32(frames))
		data = append(data, frames[4:4+n]...)
		frames = frames[4+n:]
	}
	for len(data) > 0 {
		n := len(data)
		switch t.Pick(2, 2, 1) {
		case 0:
			n = t.Int(1, min(n, 12))
		case 1:
			n = t.Int(0, n)
		}
		out = binary.BigEndian.AppendUint32(out, uint32(n))
		out = append(out, data[:n]...)
		data = data[n:]
	}
	return out
}

// Large: long monotonous inputs, whose reading must not take time or memory that grows
// faster than they do.
func Large(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := t.Int(1000, 300000)
		var unit []byte
		if pr.Text {
			units := append([]string{"\\\"", "\\\\", "\\u0041", "\\ud83d\\ude00", "x", "\xc3\xa9", "\\", "\"", "\\n\\\"", "a\\\"b", "QUJD", "1", "-1.5e3", "[[", "{\"1\":", "[1,", "{}", ",", "\t", "null,", "1,"}, soup...)
			t.Repeat(3, 2, func(int) { unit = append(unit, units[t.N(uint64(len(units)))]...) })
		} else {
			unit = t.Bytes(6)
		}
		if len(unit) == 0 {
			unit = []byte{'"'}
		}
		in := make([]byte, 0, n+20)
		how := t.Pick(3, 2, 1)
		if pr.Text && how == 0 {
			in = append(in, '"')
		} else if !pr.Text && how == 0 {
			in = append(in, []string{"\x00\x04\x00\x00", "\xc0\x9a\x0c", "\x0f\x00\x01\x0c\x00\x10\x00\x00", "\x1c", "\xfc\xff\xff\x03"}[t.N(5)]...)
		}
		for len(in) < n {
			in = append(in, unit...)
		}
		if pr.Text && how < 2 {
			in = append(in, '"')
		}
		op := t.N(10)
		t.Note("%s: %d bytes, %q..., operation %d", pr.Name, len(in), in[:min(len(in), 40)], op)
		t.NonTrivial()
		tap := vm.NewTap(in)
		tap.MaxEOFs = 300
		if t.Chance(1, 4) {
			tap.Chunk = chunker(t)
		}
		p := pr.New(tap)
		var err error
		Sober(t, len(in), "reading", func() {
			for i := 0; i < 4 && err == nil; i++ {
				switch op {
				case 0:
					_, err = p.ReadString()
				case 1:
					_, err = p.ReadBinary()
				case 2:
					_, err = p.ReadI64()
				case 3:
					_, err = p.ReadDouble()
				case 4:
					_, _, _, err = p.ReadMessageBegin()
				case 5, 6:
					err = vm.E(p.Skip(thrift.STRING))
				case 7:
					err = vm.E(p.Skip(thrift.STRUCT))
				case 8:
					err = vm.E(p.Skip(thrift.LIST))
				default:
					err = vm.E(p.Skip(thrift.MAP))
				}
			}
		})
	}
}

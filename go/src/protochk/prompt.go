package protochk

import (
	"bytes"
	"fmt"
	"net"
	"pbt"
	"strings"
	"thrift"
	"time"
	"vm"
)

// Prompt: a message that has arrived completely is read to its end without asking the
// transport for anything behind it, which on an open connection would wait for the
// other side's next message.
func Prompt(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := t.Int(1, 3)
		how := t.Pick(4, 2, 2, 1, 1, 1, 1)
		rt := vm.NewTap(nil)
		starved := -1
		rt.Starve = func() {
			if starved < 0 {
				starved = rt.Pos
			}
		}
		switch t.Pick(3, 1, 2) {
		case 1:
			rt.Chunk = func() int { return 1 }
		case 2:
			rt.Chunk = chunker(t)
		}
		var tr thrift.TTransport = rt
		framed := false
		switch how {
		case 1:
			tr, framed = thrift.NewTFramedTransport(rt), true
		case 2:
			tr = thrift.NewTIOStreamTransportR(FaultyIO{rt})
		case 3:
			tr, framed = thrift.NewTFramedTransport(thrift.NewTIOStreamTransportR(FaultyIO{rt})), true
		case 4:
			tr, _ = thrift.NewTSocketConn(Conn{rt})
		case 5:
			tr, _ = thrift.NewTNonblockingSocketConn(Conn{rt})
		case 6:
			s, _ := thrift.NewTSocketConn(Conn{rt})
			tr, framed = thrift.NewTFramedTransport(s), true
		}
		t.Label([]string{"direct", "framed", "stream", "framed stream", "socket", "nonblocking socket", "framed socket"}[how])
		r := pr.New(tr)
		for i := 0; i < n; i++ {
			o := Opts(pr, 2)
			if t.Bool() {
				o.Depth, o.MaxStr = 1, 2
			}
			m := vm.GenMsg(t, o)
			if t.Bool() { // a message as short as can be
				m.Body.Fields = nil
				if t.Bool() {
					m.Body.Fields = []vm.Fld{{ID: int16(t.Int(1, 3)), Name: "a", V: vm.GenVal(t, o, vm.GenType(t, o, 0), 0)}}
				}
			}
			if t.Chance(1, 25) { // as long as the buffers of the readers, or a little longer
				m.Body.Fields = append(m.Body.Fields, vm.Fld{ID: 99, Name: "b", V: &vm.Val{T: vm.STRING, S: strings.Repeat("x", 4096-t.Int(0, 80))}})
			}
			t.Note("%s %s", pr.Name, m)
			if len(m.Body.Fields) > 0 {
				t.NonTrivial()
			}
			wt := vm.NewTap(nil)
			if e := vm.WriteMsg(pr.New(wt), m); e != nil {
				t.Failf("writing: %v", e)
			}
			wire := wt.W
			if pr.Text && t.Chance(1, 3) {
				wire = bytes.TrimRight(ReformatJSON(t, wire), " \t\r\n")
			}
			if framed {
				ft := vm.NewTap(nil)
				f := thrift.NewTFramedTransport(ft)
				for rest := wire; ; {
					n := len(rest)
					if t.Chance(1, 2) {
						n = t.Int(0, n)
						if t.Bool() && len(rest) > 9 { // a short last frame
							n = len(rest) - t.Int(1, 9)
						}
					}
					f.Write(rest[:n])
					f.Flush()
					if rest = rest[n:]; len(rest) == 0 {
						break
					}
				}
				wire = ft.W
			}
			rt.R = append(rt.R, wire...)
			starved = -1
			var e error
			if !pr.Named && t.Chance(1, 4) {
				t.Note("skipping the body")
				if _, _, _, e = r.ReadMessageBegin(); e == nil {
					if e = r.Skip(vm.STRUCT); e == nil {
						e = vm.E(r.ReadMessageEnd())
					}
				}
			} else {
				e = vm.ReadMsg(r, pr, m)
			}
			if starved >= 0 {
				t.Note("the message %q", wire)
				t.Failf("message %d has arrived completely, but reading it asks for data behind it", i+1)
			}
			if e != nil {
				fail(t, fmt.Sprintf("message %d of %d", i+1, n), e, wire)
			}
		}
	}
}

// Conn is a connection over the Tap.
type Conn struct{ T *vm.Tap }

func (c Conn) Read(b []byte) (int, error)       { return FaultyIO{c.T}.Read(b) }
func (c Conn) Write(b []byte) (int, error)      { return FaultyIO{c.T}.Write(b) }
func (c Conn) Close() error                     { return nil }
func (c Conn) LocalAddr() net.Addr              { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c Conn) RemoteAddr() net.Addr             { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c Conn) SetDeadline(time.Time) error      { return nil }
func (c Conn) SetReadDeadline(time.Time) error  { return nil }
func (c Conn) SetWriteDeadline(time.Time) error { return nil }

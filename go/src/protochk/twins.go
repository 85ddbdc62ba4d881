package protochk

import (
	"fmt"
	"io"
	"pbt"
	"thrift"
	"vm"
)

// lockstep runs a number of activities one at a time: each runs until it calls yield,
// and then pick says which one goes on.
type lockstep struct {
	back chan int
	runs []chan bool
}

func runLockstep(n int, pick func(alive []int) int, act func(i int, yield func()) string) []string {
	l := &lockstep{back: make(chan int)}
	msgs := make([]string, n)
	over := make([]bool, n)
	var alive []int
	for i := 0; i < n; i++ {
		l.runs = append(l.runs, make(chan bool))
		alive = append(alive, i)
		go func(i int) {
			<-l.runs[i]
			if m := pbt.Guard(func() {
				msgs[i] = act(i, func() {
					l.back <- i
					<-l.runs[i]
				})
			}); m != "" {
				msgs[i] = m
			}
			over[i] = true
			l.back <- i
		}(i)
	}
	for len(alive) > 0 {
		k := alive[pick(alive)%len(alive)]
		l.runs[k] <- true
		<-l.back
		if over[k] {
			for j, x := range alive {
				if x == k {
					alive = append(alive[:j], alive[j+1:]...)
					break
				}
			}
		}
	}
	return msgs
}

// stepTap is a Tap that yields before every call.
type stepTap struct {
	*vm.Tap
	yield func()
}

func (p stepTap) Read(b []byte) (int, error)    { p.yield(); return p.Tap.Read(b) }
func (p stepTap) Write(b []byte) (int, error)   { p.yield(); return p.Tap.Write(b) }
func (p stepTap) Flush() error                  { p.yield(); return p.Tap.Flush() }
func (p stepTap) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(p, b) }

// Twins: several conversations with protocol objects of their own, taking turns at any
// call to the transport, do not disturb each other.
func Twins(pr vm.Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := t.Int(2, 3)
		msgs := make([][]*vm.Msg, n)
		for i := range msgs {
			t.Repeat(2, 1, func(int) { msgs[i] = append(msgs[i], vm.GenMsg(t, Opts(pr, 2))) })
			msgs[i] = append(msgs[i], vm.GenMsg(t, Opts(pr, 2)))
			for _, m := range msgs[i] {
				t.Note("%s %d: %s", pr.Name, i, m)
			}
		}
		t.NonTrivial()
		seed := t.U64()
		run := t.Int(1, 4) // how often the turn changes
		last := 0
		errs := runLockstep(n, func(alive []int) int {
			seed = seed*6364136223846793005 + 1442695040888963407
			if x := int(seed >> 33); x%run == 0 {
				last = x / run
			}
			return last
		}, func(i int, yield func()) string {
			tap := stepTap{vm.NewTap(nil), yield}
			tap.Loop = true
			w := pr.New(tap)
			r := pr.New(tap)
			read := 0
			for k, m := range msgs[i] {
				if e := vm.WriteMsg(w, m); e != nil {
					return fmt.Sprintf("writing message %d: %v", k+1, e)
				}
				w.Flush()
				if k%2 == 0 && k+1 < len(msgs[i]) {
					continue
				}
				for ; read <= k; read++ {
					if e := vm.ReadMsg(r, pr, msgs[i][read]); e != nil {
						return fmt.Sprintf("message %d: %v", read+1, e)
					}
				}
			}
			return ""
		})
		for i, e := range errs {
			if e != "" {
				t.Failf("conversation %d of %d: %s", i+1, n, e)
			}
		}
	}
}

// FromReader: binary data taken from a reader arrives like any other, and a reader that
// ends early or fails is reported.
func FromReader(t *pbt.T) {
	data := t.Bytes(3000)
	size := len(data)
	src := &vm.Source{B: append([]byte{}, data...), N: t.Int(0, 9), Err: io.EOF}
	if t.Bool() {
		src.Err = vm.ErrInjected
	}
	more := t.Int(0, 20)
	cut := t.Chance(1, 3)
	if cut {
		size += t.Int(1, 10)
	} else {
		src.B = append(src.B, make([]byte, more)...)
	}
	t.Note("source of %d bytes in pieces of %d ending in %v, size %d", len(src.B), src.N, src.Err, size)
	t.Label(fmt.Sprintf("short %v", cut))
	if len(data) > 0 {
		t.NonTrivial()
	}
	tap := vm.NewTap(nil)
	p := thrift.NewTBinaryProtocolTransport(tap)
	e := p.WriteBinaryFromReader(src, size)
	if cut {
		if e == nil {
			t.Failf("only %d of %d bytes were there, but no error is reported", len(data), size)
		}
		return
	}
	if e != nil {
		t.Failf("error %v", e)
	}
	if len(src.B) != more {
		t.Failf("%d bytes of the source are left, want %d", len(src.B), more)
	}
	b, e := thrift.NewTBinaryProtocolTransport(vm.NewTap(tap.W)).ReadBinary()
	if e != nil || string(b) != string(data) {
		t.Failf("read back %x, %v, want %x", b, e, data)
	}
}

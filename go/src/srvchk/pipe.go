// Package srvchk holds the checks of servers, generated code and exceptions.
package srvchk

import (
	"errors"
	"io"
	"sync"
	"thrift"
	"time"
)

// patience is how long a check waits for something that must happen.
const patience = 20 * time.Second

var errPatience = errors.New("nothing arrives")

// half is one direction of a connection.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	b      []byte
	closed bool
}

func newHalf() *half { h := &half{}; h.cond = sync.NewCond(&h.mu); return h }

func (h *half) write(b []byte) {
	h.mu.Lock()
	if !h.closed {
		h.b = append(h.b, b...)
	}
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) close() { h.mu.Lock(); h.closed = true; h.cond.Broadcast(); h.mu.Unlock() }

func (h *half) read(b []byte, wait time.Duration) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	late := false
	if wait > 0 {
		tm := time.AfterFunc(wait, func() { h.mu.Lock(); late = true; h.cond.Broadcast(); h.mu.Unlock() })
		defer tm.Stop()
	}
	for len(h.b) == 0 && !h.closed && !late {
		h.cond.Wait()
	}
	if len(h.b) > 0 {
		n := copy(b, h.b)
		h.b = h.b[n:]
		return n, nil
	}
	if h.closed {
		return 0, thrift.NewTTransportExceptionFromOsError(io.EOF)
	}
	return 0, errPatience
}

// end is one end of an in-memory connection; it is a transport itself.
type end struct {
	id      int
	in, out *half
	wait    time.Duration // reads give up after that long; 0 = never
	mu      sync.Mutex
	open    bool
	closes  int
	gone    chan struct{} // closed at the first Close
}

// connection returns the client's and the server's end.
func connection(id int) (c, s *end) {
	a, b := newHalf(), newHalf()
	return &end{id: id, in: a, out: b, wait: patience, open: true, gone: make(chan struct{})}, &end{id: id, in: b, out: a, open: true, gone: make(chan struct{})}
}

func (e *end) IsOpen() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.open }
func (e *end) Peek() bool   { return e.IsOpen() }
func (e *end) Open() error  { return thrift.NewTTransportException(thrift.ALREADY_OPEN, "open") }
func (e *end) Close() error {
	e.mu.Lock()
	if e.open {
		close(e.gone)
	}
	e.open = false
	e.closes++
	e.mu.Unlock()
	e.out.close()
	return nil
}
func (e *end) Read(b []byte) (int, error) {
	if !e.IsOpen() {
		return 0, thrift.NewTTransportException(thrift.NOT_OPEN, "closed")
	}
	return e.in.read(b, e.wait)
}
func (e *end) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(e, b) }
func (e *end) Write(b []byte) (int, error) {
	if !e.IsOpen() {
		return 0, thrift.NewTTransportException(thrift.NOT_OPEN, "closed")
	}
	e.out.write(b)
	return len(b), nil
}
func (e *end) Flush() error { return nil }

// acceptor is a server transport whose connections are made by the check.
type acceptor struct {
	mu                       sync.Mutex
	cond                     *sync.Cond
	queue                    []accepted
	listens, accepts, closes int
	interrupts               int
	listenErr                error
	waiting                  bool
	stopped                  bool
	afterStop                []accepted // handed out once more after an interrupt
	calls                    []string
}

type accepted struct {
	t   thrift.TTransport
	err error
}

var errInterrupted = thrift.NewTTransportException(thrift.UNKNOWN_TRANSPORT_EXCEPTION, "interrupted")

func newAcceptor() *acceptor { a := &acceptor{}; a.cond = sync.NewCond(&a.mu); return a }

func (a *acceptor) Listen() error {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.listens++
	a.calls = append(a.calls, "Listen")
	if a.listenErr == nil {
		a.stopped = false
	}
	return a.listenErr
}

func (a *acceptor) Accept() (thrift.TTransport, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.accepts++
	a.calls = append(a.calls, "Accept")
	for len(a.queue) == 0 && !a.stopped {
		a.waiting = true
		a.cond.Broadcast()
		a.cond.Wait()
	}
	a.waiting = false
	if a.stopped {
		if len(a.afterStop) > 0 {
			x := a.afterStop[0]
			a.afterStop = a.afterStop[1:]
			return x.t, x.err
		}
		return nil, errInterrupted
	}
	x := a.queue[0]
	a.queue = a.queue[1:]
	return x.t, x.err
}

func (a *acceptor) Close() error { a.mu.Lock(); a.closes++; a.mu.Unlock(); return nil }

func (a *acceptor) Interrupt() error {
	a.mu.Lock()
	a.interrupts++
	a.stopped = true
	a.calls = append(a.calls, "Interrupt")
	a.cond.Broadcast()
	a.mu.Unlock()
	return nil
}

func (a *acceptor) give(t thrift.TTransport, err error) {
	a.mu.Lock()
	a.queue = append(a.queue, accepted{t, err})
	a.cond.Broadcast()
	a.mu.Unlock()
}

// settle waits until the server is in Accept with nothing to accept.
func (a *acceptor) settle() bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	late := false
	tm := time.AfterFunc(patience, func() { a.mu.Lock(); late = true; a.cond.Broadcast(); a.mu.Unlock() })
	defer tm.Stop()
	for !(a.waiting && len(a.queue) == 0) && !late {
		a.cond.Wait()
	}
	return !late
}

func within(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	case <-time.After(patience):
		return false
	}
}

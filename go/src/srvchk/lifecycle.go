package srvchk

import (
	"errors"
	"fmt"
	"net"
	"pbt"
	"runtime"
	"sync"
	"sync/atomic"
	"thrift"
	"time"
	"trchk"
	"vm"
)

var (
	errListen = thrift.NewTTransportException(thrift.NOT_OPEN, "cannot listen")
	errAccept = thrift.NewTTransportException(thrift.TIMED_OUT, "cannot accept")
)

// exchange makes one complete call over a connection of the check.
func (x *client) exchange(t *pbt.T, c config, name string) {
	x.seq++
	r := reply{name, x.seq, int32(t.Int(0, 1000)), t.Text(20)}
	x.c.Write(c.encode(name, thrift.CALL, r.seq, r.n, r.s))
	x.replies = append(x.replies, r)
	x.expect(t)
}

// Lifecycle: a server is started, given connections, and ended by a failure to listen, a
// failure to accept, or Stop from its own handler or another thread at any moment; it can
// be started again afterwards.
func Lifecycle(t *pbt.T) {
	cfg := genConfig(t)
	acc := newAcceptor()
	svc := newEcho()
	srv := cfg.make(t, svc, nil, acc)
	id := 0
	rounds := t.Int(1, 3)
	for round := 0; round < rounds; round++ {
		if round > 0 {
			t.Label("started again")
			t.NonTrivial()
		}
		acc.mu.Lock()
		acc.listenErr, acc.afterStop, acc.queue, acc.calls = nil, nil, nil, nil
		acc.mu.Unlock()
		svc.setHook(nil)
		how := t.Pick(1, 2, 3, 3, 3, 2)
		t.Note("round %d: ends by %s", round, []string{"a failure to listen", "a failure to accept", "Stop while idle", "Stop in the handler", "Stop at any moment", "Stop while a connection arrives"}[how])
		if how == 0 {
			acc.mu.Lock()
			acc.listenErr = errListen
			acc.mu.Unlock()
		}
		served := make(chan struct{})
		var serveErr error
		go func() { serveErr = srv.Serve(); close(served) }()
		if how == 0 {
			if !within(served) {
				t.Failf("Serve does not return when it cannot listen")
			}
			if serveErr != error(errListen) {
				t.Failf("Serve = %v, the failure to listen is %v", serveErr, errListen)
			}
			if s := fmt.Sprint(acc.log()); s != "[Listen]" {
				t.Failf("after a failure to listen the server transport is asked to %s", s)
			}
			continue
		}
		var staying []*client
		stopAt := -1
		n := t.Int(0, 4)
		if how == 4 {
			stopAt = t.Int(0, n)
		}
		stopped := make(chan struct{})
		stop := func() {
			if e := srv.Stop(); e != nil {
				panic(e)
			}
			close(stopped)
		}
		for i := 0; i < n; i++ {
			if i == stopAt {
				spin := t.Int(0, 30)
				if !acc.listening() {
					t.Failf("the server does not listen")
				}
				go func() {
					for k := 0; k < spin; k++ {
						runtime.Gosched()
					}
					stop()
				}()
			}
			if t.Chance(1, 4) {
				t.Note("nil connection")
				acc.give(nil, nil)
				continue
			}
			x := cfg.connect(id)
			id++
			t.Note("connection %d", x.id)
			acc.give(x.s, nil)
			if stopAt >= 0 && i >= stopAt { // may be accepted or not
				x.c.Close()
				continue
			}
			calls := t.Repeat(3, 1, func(int) { x.exchange(t, cfg, "m") })
			if !cfg.simple && calls > 0 && t.Bool() {
				staying = append(staying, x)
				continue
			}
			x.c.Close()
			if !within(x.s.gone) {
				t.Failf("connection %d: the server does not close its end", x.id)
			}
		}
		switch how {
		case 1:
			acc.give(nil, errAccept)
			if !within(served) {
				t.Failf("Serve does not return when it cannot accept")
			}
			if serveErr != error(errAccept) {
				t.Failf("Serve = %v, the failure to accept is %v", serveErr, errAccept)
			}
		case 2:
			if !acc.settle() {
				t.Failf("the server does not go on accepting")
			}
			if ns, ok := srv.(*thrift.TNonblockingServer); ok && ns.IsStopped() {
				t.Failf("a serving server says it is stopped")
			}
			stop()
		case 3:
			x := cfg.connect(id)
			id++
			svc.setHook(func(conn int, name string) {
				if name == "stop" {
					stop()
				}
			})
			acc.give(x.s, nil)
			// connections that wait when the server is stopped are not accepted any more
			waiting := cfg.simple && t.Bool()
			x.exchange(t, cfg, "stop")
			if waiting {
				y := cfg.connect(id)
				id++
				acc.give(y.s, nil)
			}
			t.Repeat(2, 1, func(int) { x.exchange(t, cfg, "after") })
			t.NonTrivial()
			x.c.Close()
			if !within(x.s.gone) {
				t.Failf("connection %d: the server does not close its end", x.id)
			}
		case 4:
			if stopAt == n {
				if !acc.listening() {
					t.Failf("the server does not listen")
				}
				stop()
			}
			t.NonTrivial()
		case 5:
			x := cfg.connect(id)
			id++
			if !acc.settle() {
				t.Failf("the server does not go on accepting")
			}
			acc.mu.Lock()
			acc.afterStop = []accepted{{x.s, nil}}
			acc.mu.Unlock()
			stop()
			x.c.Close()
			if !within(x.s.gone) {
				t.Failf("connection %d, accepted as the server is stopped, is not closed", x.id)
			}
			t.NonTrivial()
		}
		if !within(served) {
			t.Failf("Serve does not return after Stop: %v", acc.log())
		}
		if how >= 2 {
			if !within(stopped) {
				t.Failf("Stop does not return")
			}
			if ns, ok := srv.(*thrift.TNonblockingServer); ok && !ns.IsStopped() {
				t.Failf("a stopped server says it is not")
			}
			log := acc.log()
			after := -1
			for _, s := range log {
				if s == "Interrupt" {
					after = 0
				} else if after >= 0 && s == "Accept" {
					after++
				}
			}
			if after < 0 {
				t.Failf("Stop does not interrupt the server transport: %v", log)
			}
			limit := 1 // the server may be on its way to accept
			if how == 2 || how == 3 && cfg.simple || how == 5 {
				limit = 0
			}
			if after > limit {
				t.Failf("the server accepts after Stop: %v", log)
			}
		}
		// connections that stay are served to their end
		for _, x := range staying {
			t.Repeat(2, 1, func(int) { x.exchange(t, cfg, "late"); t.Label("served after Stop") })
			x.c.Close()
			if !within(x.s.gone) {
				t.Failf("connection %d: the server does not close its end", x.id)
			}
		}
		log := acc.log()
		if len(log) == 0 || log[0] != "Listen" {
			t.Failf("the server does not listen before it accepts: %v", log)
		}
		for _, s := range log[1:] {
			if s == "Listen" {
				t.Failf("the server listens again: %v", log)
			}
		}
	}
}

func (e *echo) setHook(f func(int, string)) { e.mu.Lock(); e.hook = f; e.mu.Unlock() }

func (a *acceptor) log() []string {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]string{}, a.calls...)
}

// listening waits until the server listens.
func (a *acceptor) listening() bool {
	for end := time.Now().Add(patience); time.Now().Before(end); runtime.Gosched() {
		for _, s := range a.log() {
			if s == "Listen" {
				return true
			}
		}
	}
	return false
}

// noted counts the calls of Accept.
type noted struct {
	thrift.TServerTransport
	accepts int32
}

func (n *noted) Accept() (thrift.TTransport, error) {
	atomic.AddInt32(&n.accepts, 1)
	return n.TServerTransport.Accept()
}

// Network: servers on loopback sockets, with several clients at once, stopped at any
// moment and started again.
func Network(t *pbt.T) {
	cfg := genConfig(t)
	const long = int64(patience)
	addr := trchk.Address()
	var st interface {
		thrift.TServerTransport
		IsOpen() bool
	}
	if t.Bool() {
		st, _ = thrift.NewTServerSocketAddrTimeout(addr, long)
	} else {
		st, _ = thrift.NewTNonblockingServerSocketAddrTimeout(addr, long)
	}
	svc := newEcho()
	lst := &noted{TServerTransport: st}
	srv := cfg.make(t, nil, svc.GetProcessor(nil), lst)
	if t.Chance(1, 6) { // somebody else listens there
		other, err := net.Listen("tcp", addr.String())
		if err != nil {
			t.Discard()
		}
		t.Label("taken")
		served := make(chan error, 1)
		go func() { served <- srv.Serve() }()
		select {
		case err := <-served:
			if err == nil || st.IsOpen() || atomic.LoadInt32(&lst.accepts) > 0 {
				t.Failf("Serve where another one listens = %v, IsOpen() = %v, %d times Accept", err, st.IsOpen(), atomic.LoadInt32(&lst.accepts))
			}
		case <-time.After(patience):
			t.Failf("Serve where another one listens does not return")
		}
		other.Close()
	} else if t.Chance(1, 3) {
		if st.Listen() != nil {
			t.Discard() // the port is taken
		}
	}
	rounds := t.Int(1, 2)
	for round := 0; round < rounds; round++ {
		served := make(chan struct{})
		var serveErr error
		atomic.StoreInt32(&lst.accepts, 0)
		go func() { serveErr = srv.Serve(); close(served) }()
		up := false
		for end := time.Now().Add(patience); time.Now().Before(end) && !up; {
			select {
			case <-served:
				t.Note("Serve = %v", serveErr)
				t.Discard() // the port is taken
			default:
			}
			// (a socket that listens already says nothing about Serve)
			if up = st.IsOpen() && atomic.LoadInt32(&lst.accepts) > 0; !up {
				time.Sleep(50 * time.Microsecond)
			}
		}
		if !up {
			t.Failf("the server does not listen")
		}
		nc := t.Int(1, 4)
		calls := t.Int(1, 4)
		early := t.Chance(1, 3) // Stop while the clients are at work
		quit := t.Chance(1, 3)  // clients leave in the middle of a request
		t.Note("round %d: %d clients, %d calls, stopped early %v, leaving early %v", round, nc, calls, early, quit)
		if nc > 1 {
			t.NonTrivial()
		}
		kinds := make([]bool, nc)
		for i := range kinds {
			kinds[i] = t.Bool()
		}
		delay := time.Duration(t.Int(0, 400)) * time.Microsecond
		var started, done sync.WaitGroup
		var accepted int32
		errs := make([]error, nc)
		started.Add(nc)
		done.Add(nc)
		for i := 0; i < nc; i++ {
			i := i
			go func() {
				defer done.Done()
				var s thrift.TTransport
				if kinds[i] {
					s = thrift.NewTSocket(addr, long)
				} else {
					s, _ = thrift.NewTNonblockingSocketAddrTimeout(addr, long)
				}
				err := s.Open()
				started.Done()
				if err != nil {
					errs[i] = fmt.Errorf("open: %v", err)
					return
				}
				defer s.Close()
				out, in := cfg.in.GetProtocol(cfg.inT.GetTransport(s)), cfg.out.GetProtocol(cfg.outT.GetTransport(s))
				for k := 0; k < calls; k++ {
					n, text := int32(i*1000+k), fmt.Sprintf("client %d call %d", i, k)
					if quit && k == calls-1 {
						b := cfg.encode("cut", thrift.CALL, n, n, text)
						s.Write(b[:len(b)/2])
						s.Flush()
						return
					}
					if err := writeMessage(out, "net", thrift.CALL, n+7, n, text); err != nil {
						errs[i] = fmt.Errorf("call %d: %v", k, err)
						return
					}
					if err := s.Flush(); err != nil {
						errs[i] = fmt.Errorf("call %d: %v", k, err)
						return
					}
					name, ty, seq, e := in.ReadMessageBegin()
					if e != nil {
						errs[i] = fmt.Errorf("reply %d: %v", k, e)
						return
					}
					if k == 0 {
						atomic.AddInt32(&accepted, 1)
					}
					m, mt, err := readArgs(in)
					if err == nil {
						err = vm.E(in.ReadMessageEnd())
					}
					if err != nil {
						errs[i] = fmt.Errorf("reply %d: %v", k, err)
						return
					}
					if name != "net" || ty != thrift.REPLY || seq != n+7 || m != n+1 || mt != text+"!" {
						errs[i] = fmt.Errorf("wrong: reply %d is %q %d %d %d %q", k, name, int(ty), seq, m, mt)
						return
					}
				}
			}()
		}
		stopErr := make(chan error, 1)
		all := make(chan struct{})
		go func() { done.Wait(); close(all) }()
		if early {
			started.Wait()
			time.Sleep(delay)
			go func() { stopErr <- srv.Stop() }()
		}
		if !within(all) {
			t.Failf("clients are still waiting")
		}
		for i, e := range errs {
			if e != nil && (!early || len(e.Error()) > 5 && e.Error()[:5] == "wrong") {
				t.Failf("client %d: %v", i, e)
			}
		}
		if !early {
			go func() { stopErr <- srv.Stop() }()
		}
		select {
		case <-stopErr:
		case <-time.After(patience):
			t.Failf("Stop does not return")
		}
		if !within(served) {
			t.Failf("Serve does not return after Stop")
		}
		if st.IsOpen() {
			t.Failf("the server socket is open after Stop")
		}
		late := thrift.NewTSocket(addr, long)
		if err := late.Open(); err == nil {
			late.Close()
			t.Failf("a stopped server takes connections")
		}
		if round > 0 {
			t.Label("started again")
		}
	}
}

var _ = errors.New

package trchk

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"pbt"
	"reflect"
	"sync"
	"thrift"
	"time"
)

// script is an HTTP server that records requests and answers as told.
type script struct {
	mu     sync.Mutex
	seen   []request
	status int
	reply  []byte
	piece  int
	bad    string
}

type request struct {
	method, path, ctype string
	body                []byte
}

var (
	scripts  = map[string]*script{}
	scriptMu sync.Mutex
	server   *httptest.Server
	nextKey  int
)

func theServer() *httptest.Server {
	scriptMu.Lock()
	defer scriptMu.Unlock()
	if server == nil {
		server = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			scriptMu.Lock()
			s := scripts[r.URL.Query().Get("k")]
			scriptMu.Unlock()
			if s == nil {
				w.WriteHeader(404)
				return
			}
			body, err := io.ReadAll(r.Body)
			s.mu.Lock()
			defer s.mu.Unlock()
			if err != nil {
				s.bad = err.Error()
			}
			s.seen = append(s.seen, request{r.Method, r.URL.Path, r.Header.Get("Content-Type"), body})
			w.WriteHeader(s.status)
			rest := s.reply
			for len(rest) > 0 {
				n := s.piece
				if n == 0 || n > len(rest) {
					n = len(rest)
				}
				w.Write(rest[:n])
				rest = rest[n:]
				if s.piece > 0 {
					w.(http.Flusher).Flush()
				}
			}
		}))
		server.Start()
	}
	return server
}

// serve makes the server answer requests to the URL with the reply in pieces.
func serve(reply []byte, piece int) (url string, done func()) {
	srv := theServer()
	scriptMu.Lock()
	defer scriptMu.Unlock()
	nextKey++
	key := fmt.Sprint(nextKey)
	scripts[key] = &script{status: 200, reply: reply, piece: piece}
	return srv.URL + "/svc?k=" + key, func() {
		scriptMu.Lock()
		delete(scripts, key)
		scriptMu.Unlock()
	}
}

// HTTP: every flush of a client is one POST whose body is exactly what was written since
// the last, and reading gives exactly the body of its response.
func HTTP(t *pbt.T) {
	srv := theServer()
	scriptMu.Lock()
	nextKey++
	key := fmt.Sprint(nextKey)
	s := &script{status: 200}
	scripts[key] = s
	scriptMu.Unlock()
	defer func() {
		scriptMu.Lock()
		delete(scripts, key)
		scriptMu.Unlock()
	}()
	url := srv.URL + "/svc?k=" + key
	var c thrift.TTransport
	var err error
	get := t.Chance(1, 5)
	setReply := func() {
		s.mu.Lock()
		s.reply = t.SeedBytes(size(t))
		s.piece = []int{0, 1, 7, 1000}[t.N(4)]
		if s.piece > 0 && len(s.reply)/s.piece > 60 {
			s.piece = len(s.reply)/60 + 1
		}
		s.status = 200
		s.mu.Unlock()
	}
	setReply()
	reqs := 0
	var queue []byte
	haveResp := false
	mk := func(g bool) (thrift.TTransport, error) {
		var given thrift.TTransport
		if t.Chance(1, 3) {
			given = thrift.NewTMemoryBuffer()
		}
		switch {
		case t.Chance(1, 4) && g:
			return thrift.NewTHttpClientTransportFactory(url).GetTransport(given), nil
		case t.Chance(1, 4) && !g:
			return thrift.NewTHttpPostClientTransportFactory(url).GetTransport(given), nil
		case g:
			return thrift.NewTHttpClient(url)
		}
		return thrift.NewTHttpPostClient(url)
	}
	c, err = mk(get)
	if err != nil || c == nil {
		t.Failf("new client: %v, %v", c, err)
	}
	if t.Chance(1, 4) { // a factory makes another of the kind and the address of a client, which shares nothing
		t.Label("made from another client")
		first := c
		defer func() { first.Close() }()
		if get {
			reqs++
		} else {
			first.Write(t.SeedBytes(t.Int(1, 300)))
		}
		f := thrift.NewTHttpClientTransportFactory("http://127.0.0.1:1/x")
		if t.Bool() {
			f = thrift.NewTHttpPostClientTransportFactory("http://127.0.0.1:1/x")
		}
		if c = f.GetTransport(first); c == nil || reflect.ValueOf(c).IsNil() || c == first {
			t.Failf("a factory makes %v from a client", c)
		}
	}
	if get {
		t.Label("GET")
		reqs++
		s.mu.Lock()
		if len(s.seen) != reqs || s.seen[0].method != "GET" || s.seen[0].path != "/svc" {
			t.Failf("a GET client made %+v", s.seen)
		}
		queue = s.reply
		s.mu.Unlock()
		haveResp = true
	}
	var pending []byte
	open := true
	defer func() { c.Close() }()
	t.Repeat(20, 8, func(i int) {
		if c.IsOpen() != open || c.Peek() != open {
			t.Failf("IsOpen() = %v, Peek() = %v, want %v", c.IsOpen(), c.Peek(), open)
		}
		if err := c.Open(); open && err != nil {
			t.Failf("Open: %v", err)
		}
		switch t.Pick(5, 4, 6, 1) {
		case 0:
			if get || !open {
				n, err := c.Write([]byte("x"))
				wantNotOpen(t, "Write", n, err)
				return
			}
			pending = writeOp(t, c, pending)
		case 1:
			if get || !open {
				wantNotOpen(t, "Flush", 0, c.Flush())
				return
			}
			setReply()
			what := t.Pick(6, 1)
			if what == 1 {
				s.mu.Lock()
				s.status = []int{500, 404, 400, 503, 204, 202}[t.N(6)]
				if s.status == 204 {
					s.reply = nil
				}
				s.mu.Unlock()
			}
			err := c.Flush()
			t.Note("Flush of %d bytes, status %d = %v", len(pending), s.status, err)
			reqs++
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.bad != "" {
				t.Failf("the server cannot read the request: %s", s.bad)
			}
			if len(s.seen) != reqs {
				t.Failf("the server has seen %d requests, want %d", len(s.seen), reqs)
			}
			r := s.seen[reqs-1]
			if r.method != "POST" || r.path != "/svc" || r.ctype != "application/x-thrift" {
				t.Failf("request %s %s, content type %s", r.method, r.path, r.ctype)
			}
			if !bytes.Equal(r.body, pending) {
				t.Failf("the request holds %d bytes %s, written were %d bytes %s", len(r.body), some(r.body), len(pending), some(pending))
			}
			if len(pending) > 0 {
				t.NonTrivial()
			}
			pending = nil
			queue, haveResp = nil, false
			if (err == nil) != (s.status == 200) {
				t.Failf("Flush answered with status %d = %v", s.status, err)
			}
			if err == nil {
				queue, haveResp = s.reply, true
			} else {
				t.Label("bad status")
			}
		case 2:
			if !haveResp {
				b := make([]byte, 4)
				n, err := c.Read(b)
				t.Note("Read without a response = %d, %v", n, err)
				wantNotOpen(t, "Read without a response", n, err)
				return
			}
			if len(queue) > 0 {
				t.NonTrivial()
			}
			queue = readStream(t, c, queue)
		case 3:
			if t.Chance(2, 3) {
				return
			}
			if err := c.Close(); err != nil {
				t.Failf("Close: %v", err)
			}
			t.Note("Close")
			open, haveResp = false, false
		}
	})
}

// HTTPDown: a request that cannot be sent fails, is not sent later, and leaves no
// response to read.
func HTTPDown(t *pbt.T) {
	t.NonTrivial()
	a := Address()
	url := "http://" + a.String() + "/x"
	c, err := thrift.NewTHttpPostClient(url)
	if err != nil {
		t.Failf("new client: %v", err)
	}
	lost := t.SeedBytes(t.Int(0, 3000))
	c.Write(lost)
	t.Note("%d bytes to nobody", len(lost))
	if err := c.Flush(); err == nil {
		t.Failf("Flush to nobody succeeds")
	}
	if n, err := c.Read(make([]byte, 3)); n != 0 || err == nil {
		t.Failf("Read after a failed request = %d, %v", n, err)
	}
	if _, err := thrift.NewTHttpClient(url); err == nil {
		t.Failf("a GET client to nobody works")
	}
	l, err := net.Listen("tcp", a.String())
	if err != nil {
		t.Discard()
	}
	got := make(chan []byte, 9)
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		got <- b
		w.Write(b)
	})}
	go srv.Serve(l)
	defer srv.Close()
	for i := t.Int(1, 3); i > 0; i-- {
		msg := t.SeedBytes(t.Int(0, 3000))
		c.Write(msg)
		if err := c.Flush(); err != nil {
			t.Failf("Flush: %v", err)
		}
		if b := <-got; !bytes.Equal(b, msg) {
			t.Failf("the request holds %d bytes %s, written were %d bytes %s", len(b), some(b), len(msg), some(msg))
		}
		b := make([]byte, len(msg))
		if n, err := c.ReadAll(b); err != nil || !bytes.Equal(b, msg) {
			t.Failf("the response: %d, %v", n, err)
		}
	}
	c.Close()
	http.DefaultClient.CloseIdleConnections()
}

// HTTPConnections: a client that makes many requests does not pile up connections,
// whatever it reads of the responses.
func HTTPConnections(t *pbt.T) {
	t.NonTrivial()
	var mu sync.Mutex
	conns := map[net.Conn]bool{}
	status, size := 200, 0
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.ReadAll(r.Body)
		mu.Lock()
		defer mu.Unlock()
		w.WriteHeader(status)
		w.Write(make([]byte, size))
	}))
	srv.Config.ConnState = func(c net.Conn, st http.ConnState) {
		mu.Lock()
		conns[c] = true
		if st == http.StateClosed {
			delete(conns, c)
		}
		mu.Unlock()
	}
	srv.Start()
	defer srv.Close()
	defer srv.CloseClientConnections()
	c, err := thrift.NewTHttpPostClient(srv.URL)
	if err != nil {
		t.Failf("new client: %v", err)
	}
	for i := t.Int(30, 50); i > 0; i-- {
		mu.Lock()
		status, size = 200, []int{0, 10, 5000, 100000}[t.N(4)]
		if t.Chance(1, 4) {
			status = 500
		}
		n := t.Int(0, size)
		bad := status != 200
		mu.Unlock()
		c.Write([]byte("request"))
		if err := c.Flush(); (err != nil) != bad {
			t.Failf("Flush: %v", err)
		} else if err == nil {
			c.ReadAll(make([]byte, n))
		}
	}
	c.Close()
	for wait := 0; ; wait++ {
		mu.Lock()
		n := len(conns)
		mu.Unlock()
		if n <= 8 {
			return
		}
		if wait > 500 {
			t.Failf("%d connections are still open after the client is closed: responses are not released", n)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

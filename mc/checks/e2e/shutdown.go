package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
	"verif.local/mc/hist"
	"verif.local/mc/vrt"
)

// scn is a connection of the real thing.
const long = 10000

type scn struct {
	client  *client
	server  *mconn
	refused bool
	entered int
	gate    chan bool
	hij     net.Conn
	states  []http.ConnState
	raws    int
	dialed  time.Time
}

type system struct {
	mu      sync.Mutex
	c       [3]scn
	l       []*mlistener
	entry   string
	servers int
	ends    []bool // shutdown calls that returned
	err     error
	over    int
}

func (s *system) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	i := int(r.RemoteAddr[0] - '0')
	c := &s.c[i]
	s.mu.Lock()
	c.entered++
	s.mu.Unlock()
	kind, n := r.URL.Path[1:2], r.URL.Query().Get("n")
	body := fmt.Sprintf("%d%s%s", i, n, kind)
	switch kind {
	case "S":
		io.WriteString(w, "first\n")
		w.(http.Flusher).Flush()
	case "B":
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		body = string(b)
	}
	<-c.gate
	switch kind {
	case "H":
		nc, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			s.mu.Lock()
			c.hij = nc
			s.mu.Unlock()
		}
		return
	case "X":
		panic(http.ErrAbortHandler)
	case "S":
		body += strings.Repeat("x", long)
	}
	io.WriteString(w, body)
}

func (s *system) shutdown(f func()) {
	s.mu.Lock()
	k := len(s.ends)
	s.ends = append(s.ends, false)
	s.mu.Unlock()
	go func() {
		f()
		s.mu.Lock()
		s.ends[k] = true
		s.mu.Unlock()
	}()
}

func request(kind byte, n int) string {
	switch kind {
	case 'B':
		return fmt.Sprintf("POST /B?n=%d HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\n", n)
	case 'C':
		return fmt.Sprintf("GET /C?n=%d HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", n)
	case 'T':
		return fmt.Sprintf("GET /T?n=%d HTTP/1.0\r\nHost: h\r\n\r\n", n)
	}
	return fmt.Sprintf("GET /%c?n=%d HTTP/1.1\r\nHost: h\r\n\r\n", kind, n)
}

func (s *system) step(e hist.Event, m *hist.Model) {
	c := &s.c[e.Conn]
	n := len(m.C[e.Conn].Bodies)
	switch e.Op {
	case 'd':
		l := s.l[e.Conn%len(s.l)]
		var raw *mconn
		raw, c.server = l.dial(fmt.Sprint(e.Conn))
		if c.refused = raw == nil; !c.refused {
			c.dialed = time.Now()
			c.client = newClient(raw, s.entry == "tls")
		}
		c.gate = make(chan bool, 8)
	case 'p':
		q := request('r', n)
		c.client.Write([]byte(q[:7]))
	case 'r':
		q := request('r', n)
		c.client.Write([]byte(q[7:]))
	case 'B':
		c.client.Write([]byte(request('B', n) + fmt.Sprint(e.Conn)))
	case 'b':
		c.client.Write([]byte(fmt.Sprintf("%dB", n)))
	case 'g':
		c.gate <- true
	case 'q':
		c.client.Close()
	case 's':
		s.shutdown(graceful.Shutdown)
	case 'n':
		s.shutdown(graceful.ShutdownNow)
	default:
		c.client.Write([]byte(request(e.Op, n)))
	}
}

// compare checks what can be seen against the model.
func (s *system) compare(m *hist.Model) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range s.c {
		c, mc := &s.c[i], &m.C[i]
		if c.refused != mc.Refused {
			return fmt.Sprintf("connection %d was refused: %v, expected %v", i, c.refused, mc.Refused)
		}
		if mc.St == 0 {
			continue
		}
		if c.entered != mc.Entered {
			return fmt.Sprintf("%d handlers were entered on connection %d, expected %d", c.entered, i, mc.Entered)
		}
		if open := !c.server.isClosed(); open != mc.Open {
			return fmt.Sprintf("the server's end of connection %d is open: %v, expected %v", i, open, mc.Open)
		}
		if got, want := fmt.Sprint(c.states), fmt.Sprint(mc.States); got != want && (s.entry == "server" || s.entry == "tls") {
			return fmt.Sprintf("the ConnState callback saw %s on connection %d, expected %s", got, i, want)
		}
		if mc.Gone {
			continue
		}
		if mc.St == 'h' {
			if mc.Any {
				continue
			}
			if _, err := c.hij.Write([]byte("raw")); err != nil {
				return fmt.Sprintf("writing to the hijacked connection %d: %v", i, err)
			}
			c.raws++
			synctest.Wait()
			if got, _ := c.client.received(); !bytes.HasSuffix(got, []byte(strings.Repeat("raw", c.raws))) {
				return fmt.Sprintf("the hijacked connection %d carries no data", i)
			}
		}
		if msg := responses(c, mc); msg != "" {
			return fmt.Sprintf("connection %d: %s", i, msg)
		}
	}
	for k, e := range s.ends {
		if e != m.Done() {
			return fmt.Sprintf("shutdown %d has returned: %v, expected %v", k, e, m.Done())
		}
	}
	if n := s.over; m.Begun && n != s.servers || !m.Begun && n > 0 {
		return fmt.Sprintf("Serve has returned %d times of %d", n, s.servers)
	}
	if s.err != nil {
		return fmt.Sprintf("Serve returned %v", s.err)
	}
	return ""
}

// responses checks the bytes the client has received.
func responses(c *scn, mc *hist.Conn) string {
	data, eof := c.client.received()
	data = bytes.TrimSuffix(data, []byte(strings.Repeat("raw", c.raws)))
	rd := bytes.NewReader(data)
	br := bufio.NewReader(rd)
	for k, want := range mc.Bodies {
		resp, err := http.ReadResponse(br, nil)
		if err != nil {
			return fmt.Sprintf("response %d of %d: %v (got %.200q)", k, len(mc.Bodies), err, data)
		}
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			return fmt.Sprintf("body of response %d of %d: %v", k, len(mc.Bodies), err)
		}
		if strings.HasSuffix(want, "S") {
			want = "first\n" + want + strings.Repeat("x", long)
		}
		if resp.StatusCode != 200 || string(b) != want {
			return fmt.Sprintf("response %d is %d %.100q, expected %q", k, resp.StatusCode, b, want)
		}
	}
	if !mc.Any {
		rest, _ := io.ReadAll(br)
		if mc.Tail == "" && len(rest) > 0 || mc.Tail != "" && !bytes.Contains(rest, []byte(mc.Tail)) {
			return fmt.Sprintf("unexpected data %.200q", rest)
		}
	}
	if eof == mc.Open {
		return fmt.Sprintf("the client sees the end: %v, but the connection is open: %v", eof, mc.Open)
	}
	return ""
}

// serve starts a server on a listener of its own.
func (s *system) serve() {
	l := newListener()
	s.l = append(s.l, l)
	s.servers++
	quiet := log.New(io.Discard, "", 0)
	srv := &graceful.Server{
		Handler:  s,
		ErrorLog: quiet,
		ConnState: func(nc net.Conn, st http.ConnState) {
			i := nc.RemoteAddr().String()[0] - '0'
			s.mu.Lock()
			s.c[i].states = append(s.c[i].states, st)
			s.mu.Unlock()
		},
	}
	var f func() error
	switch s.entry {
	case "server":
		f = func() error { return srv.Serve(l) }
	case "func":
		f = func() error { return graceful.Serve(l, s) }
	case "tls":
		f = func() error { return srv.Serve(tls.NewListener(l, serverTLS())) }
	}
	go func() {
		err := f()
		s.mu.Lock()
		if err != nil {
			s.err = err
		}
		s.over++
		s.mu.Unlock()
	}()
}

// rest waits until nothing happens any more (net/http lingers for half a second
// when it closes a connection it has not read everything from).
func rest() {
	time.Sleep(600 * time.Millisecond)
	synctest.Wait()
}

// play runs one history and returns the first difference from the model.
func play(sp space, h []hist.Event, steps *int) (msg string) {
	vrt.Uncontrolled = false // no signal loop
	listener.VerifReset()
	graceful.VerifReset()
	vrt.Uncontrolled = true
	s := &system{entry: sp.Entry}
	m := &hist.Model{}
	for k := 0; k < sp.Servers; k++ {
		s.serve()
	}
	rest()
	check := func(e hist.Event) bool {
		before := *m
		m.Step(e)
		s.step(e, &before)
		rest()
		*steps++
		for i := range m.C {
			// net/http itself drops a kept-alive connection whose next
			// request it has not read completely when keep-alives are
			// switched off, and a new one after five seconds: no handler
			// has been entered, either is fine.
			if c := &m.C[i]; e.Op == 's' && c.St == 'p' && (c.Entered > 0 || time.Since(s.c[i].dialed) > 4*time.Second) && s.c[i].server.isClosed() {
				c.End()
				c.Any = true
			}
		}
		if d := s.compare(m); d != "" && msg == "" {
			msg = d + " after " + e.String()
		}
		return msg == ""
	}
	for _, e := range h {
		if c := &m.C[e.Conn]; e.Op != 's' && e.Op != 'n' && e.Op != 'd' && c.St == 'c' {
			continue
		}
		if !check(e) {
			break
		}
	}
	// Bring everything to an end.
	for i := range m.C {
		for msg == "" && m.C[i].St != 0 && m.C[i].St != 'h' && (m.C[i].Open || m.C[i].St == 'w') {
			op := byte('q')
			if m.C[i].St == 'w' {
				op = 'g'
			}
			check(hist.Event{op, i})
		}
	}
	if msg == "" && !m.Begun {
		check(hist.Event{'s', 0})
	}
	for _, l := range s.l {
		l.Close()
	}
	for i := range s.c {
		if c := &s.c[i]; c.client != nil {
			c.client.Close()
			c.server.Close()
			close(c.gate)
		}
	}
	rest()
	if msg == "" {
		s.mu.Lock()
		if s.err != nil {
			msg = fmt.Sprintf("Serve returned %v", s.err)
		}
		s.mu.Unlock()
	}
	return msg
}

// Package vhttp is a model of net/http.Server small enough to be explored under
// the controlled scheduler. It keeps what matters to package graceful: the
// accept loop and its error handling, the connection states in the order
// net/http reports them, keep-alives and the closing of idle connections when
// they are switched off, hijacking, pipelining. A request is one byte. The
// conformance of this model to the real net/http is checked by way of package
// hist: both are compared with the same model on the same histories.
package vhttp

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"time"

	"verif.local/mc/vrt"
)

// Server has the fields of http.Server.
type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*http.Server, *tls.Conn, http.Handler)
	ConnState                    func(net.Conn, http.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context

	mu         vrt.Mutex
	noKeep     bool
	inShutdown bool
	conns      map[*conn]bool
	order      []*conn
	listeners  []net.Listener
	onShutdown []func()
}

type conn struct {
	s        *Server
	rwc      net.Conn
	state    http.ConnState
	buf      []byte
	hijacked bool
}

func (s *Server) RegisterOnShutdown(f func()) {
	s.mu.Lock()
	s.onShutdown = append(s.onShutdown, f)
	s.mu.Unlock()
}

// SetKeepAlivesEnabled behaves like net/http's, which also closes idle
// connections.
func (s *Server) SetKeepAlivesEnabled(v bool) {
	s.mu.Lock()
	s.noKeep = !v
	s.mu.Unlock()
	if !v {
		s.closeIdle()
	}
}

func (s *Server) closeIdle() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	quiet := true
	for _, c := range append([]*conn(nil), s.order...) {
		if c.state != http.StateIdle {
			quiet = false
			continue
		}
		c.rwc.Close()
		s.forget(c)
	}
	return quiet
}

func (s *Server) forget(c *conn) {
	for i, d := range s.order {
		if d == c {
			s.order = append(s.order[:i:i], s.order[i+1:]...)
			return
		}
	}
}

func (s *Server) doKeepAlives() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return !s.noKeep && !s.inShutdown
}

// Close behaves like net/http's.
func (s *Server) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.inShutdown = true
	var err error
	for _, l := range s.listeners {
		if e := l.Close(); e != nil && err == nil {
			err = e
		}
	}
	for _, c := range s.order {
		c.rwc.Close()
	}
	s.order = nil
	return err
}

// Shutdown behaves like net/http's.
func (s *Server) Shutdown(ctx context.Context) error {
	s.mu.Lock()
	s.inShutdown = true
	var err error
	for _, l := range s.listeners {
		if e := l.Close(); e != nil && err == nil {
			err = e
		}
	}
	for _, f := range s.onShutdown {
		vrt.Go(f)
	}
	s.mu.Unlock()
	for !s.closeIdle() {
		if ctx.Err() != nil {
			return ctx.Err()
		}
		vrt.Sleep(10 * time.Millisecond)
	}
	return err
}

func (s *Server) ListenAndServe() error                    { return errors.New("vhttp: not modelled") }
func (s *Server) ListenAndServeTLS(cert, key string) error { return errors.New("vhttp: not modelled") }
func (s *Server) ServeTLS(l net.Listener, cert, key string) error {
	return errors.New("vhttp: not modelled")
}

type onceClose struct {
	net.Listener
	once vrt.Once
	err  error
}

func (o *onceClose) Close() error {
	o.once.Do(func() { o.err = o.Listener.Close() })
	return o.err
}

// Serve behaves like net/http's.
func (s *Server) Serve(l net.Listener) error {
	oc := &onceClose{Listener: l}
	defer oc.Close()
	s.mu.Lock()
	if s.inShutdown {
		s.mu.Unlock()
		return http.ErrServerClosed
	}
	s.listeners = append(s.listeners, oc)
	s.mu.Unlock()
	delay := time.Duration(0)
	for {
		rw, err := l.Accept()
		if err != nil {
			s.mu.Lock()
			down := s.inShutdown
			s.mu.Unlock()
			if down {
				return http.ErrServerClosed
			}
			if ne, ok := err.(net.Error); ok && ne.Temporary() {
				if delay == 0 {
					delay = 5 * time.Millisecond
				} else if delay *= 2; delay > time.Second {
					delay = time.Second
				}
				vrt.Sleep(delay)
				continue
			}
			return err
		}
		delay = 0
		c := &conn{s: s, rwc: rw}
		c.setState(http.StateNew)
		vrt.Spawn("conn", c.serve)
	}
}

func (c *conn) setState(st http.ConnState) {
	s := c.s
	s.mu.Lock()
	switch st {
	case http.StateNew:
		s.order = append(s.order, c)
	case http.StateClosed, http.StateHijacked:
		s.forget(c)
	}
	c.state = st
	s.mu.Unlock()
	if s.ConnState != nil {
		s.ConnState(c.rwc, st)
	}
}

func (c *conn) serve() {
	defer func() {
		if e := recover(); e != nil && e != http.ErrAbortHandler {
			panic(e)
		}
		if !c.hijacked {
			c.rwc.Close()
			c.setState(http.StateClosed)
		}
	}()
	for {
		if d := c.s.ReadTimeout; d > 0 {
			c.rwc.SetReadDeadline(vrt.Now().Add(d))
		}
		read := len(c.buf) == 0
		if read {
			b := make([]byte, 8)
			n, err := c.rwc.Read(b)
			if n == 0 && err != nil {
				return
			}
			c.buf = b[:n]
		}
		c.buf = c.buf[1:]
		if read {
			// Like net/http, which does not report a request that was
			// already buffered together with the previous one.
			c.setState(http.StateActive)
		}
		w := &response{c: c}
		h := c.s.Handler
		h.ServeHTTP(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}, RemoteAddr: c.rwc.RemoteAddr().String(), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1})
		if c.hijacked {
			return
		}
		if _, err := c.rwc.Write([]byte("response")); err != nil {
			return
		}
		if w.h.Get("Connection") == "close" || !c.s.doKeepAlives() {
			return
		}
		c.setState(http.StateIdle)
		if !c.s.doKeepAlives() {
			return
		}
		if d := c.s.IdleTimeout; d > 0 {
			c.rwc.SetReadDeadline(vrt.Now().Add(d))
		} else {
			c.rwc.SetReadDeadline(time.Time{})
		}
	}
}

type response struct {
	c *conn
	h http.Header
}

func (w *response) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *response) WriteHeader(int)                     {}
func (w *response) Write(b []byte) (int, error)         { return len(b), nil }
func (w *response) WriteString(s string) (int, error)   { return len(s), nil }
func (w *response) Flush()                              {}
func (w *response) CloseNotify() <-chan bool            { return nil }
func (w *response) ReadFrom(r io.Reader) (int64, error) { return io.Copy(io.Discard, r) }
func (w *response) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if w.c.hijacked {
		return nil, nil, http.ErrHijacked
	}
	w.c.hijacked = true
	w.c.setState(http.StateHijacked)
	return w.c.rwc, bufio.NewReadWriter(bufio.NewReader(w.c.rwc), bufio.NewWriter(w.c.rwc)), nil
}

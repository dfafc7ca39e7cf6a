package main

import (
	"bufio"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"weak"

	"github.com/zenazn/goji/graceful"
	"verif.local/mc/kit"
)

// pipeListener hands out the server's ends of pipes.
type pipeListener struct {
	ch   chan net.Conn
	done chan bool
	once sync.Once
}

func (p *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-p.ch:
		return c, nil
	case <-p.done:
		return nil, &net.OpError{Op: "accept", Err: net.ErrClosed}
	}
}
func (p *pipeListener) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *pipeListener) Addr() net.Addr { return addr{} }

type pipeConn struct {
	net.Conn
	o *obj
}

// server repeats what clients can do to graceful's server.
func server(r *kit.Run) {
	l := &pipeListener{ch: make(chan net.Conn), done: make(chan bool)}
	var mu sync.Mutex
	mux := http.NewServeMux()
	mux.HandleFunc("/get", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "hello") })
	mux.HandleFunc("/close", func(w http.ResponseWriter, r *http.Request) { w.Header().Set("Connection", "close") })
	mux.HandleFunc("/panic", func(w http.ResponseWriter, r *http.Request) { panic(http.ErrAbortHandler) })
	mux.HandleFunc("/hijack", func(w http.ResponseWriter, r *http.Request) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")
			c.Close()
		}
	})
	// The connection is closed behind the server's back while it is in use.
	mux.HandleFunc("/sever", func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		c := current
		mu.Unlock()
		c.Close()
	})
	srv := &graceful.Server{Handler: mux, ConnState: func(c net.Conn, s http.ConnState) {
		mu.Lock()
		defer mu.Unlock()
		if s == http.StateActive {
			current = c
		} else if s == http.StateClosed || s == http.StateHijacked {
			current = nil
		}
	}}
	served := make(chan error, 1)
	go func() { served <- srv.Serve(l) }()
	steps := []string{"GET /get", "GET /close", "GET /panic", "GET /hijack", "GET /sever", "half a request", "garbage", "hang up"}
	depth := kit.Pick(r, 3, 4)
	n := 0
	lap := func(seq []int) weak.Pointer[obj] {
		o := &obj{}
		o.self = o
		a, b := net.Pipe()
		l.ch <- &pipeConn{b, o}
		br := bufio.NewReader(a)
	loop:
		for _, s := range seq {
			n++
			switch step := steps[s]; step {
			case "hang up":
				break loop
			case "half a request":
				io.WriteString(a, "GET /get HT")
				break loop
			case "garbage":
				io.WriteString(a, "garbage\r\n\r\n")
				break loop
			default:
				io.WriteString(a, step+" HTTP/1.1\r\nHost: h\r\n\r\n")
				resp, err := http.ReadResponse(br, nil)
				if err != nil {
					break loop
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				if resp.Close {
					break loop
				}
			}
		}
		a.Close()
		return weak.Make(o)
	}
	for k := 0; k <= depth; k++ {
		kit.Sequences(k, len(steps), func(seq []int) bool {
			var names []string
			for _, s := range seq {
				names = append(names, steps[s])
			}
			desc := "connections to graceful's server: " + strings.Join(names, ", ") + ", hang up"
			loop(r, desc, desc, 60, 250, func(int) []weak.Pointer[obj] { return []weak.Pointer[obj]{lap(seq)} })
			return !r.Failed()
		})
	}
	l.Close()
	if err := <-served; err == nil {
		r.Violation("server end", "Serve returned nil although its listener was closed by somebody else", nil)
	}
	r.Bound("all histories of up to %d of %d steps of a client of graceful's server, each repeated 60 times and more", depth, len(steps))
	r.Part("server", map[string]any{"steps": n})
}

var current net.Conn

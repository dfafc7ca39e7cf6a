package main

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
	"verif.local/mc/kit"
	"verif.local/mc/vrt"
)

// Histories of the streams of one HTTP/2 connection and a shutdown.

// The events are: a request of one of the kinds (G is a plain one, S has the
// first part of its response flushed, B has a body), the handler of the n-th
// request going on ('0', '1'...), and the shutdown ('s').
func h2histories(depth, streams int, f func(h string)) {
	var grow func(h string, n int, waiting string, down bool)
	grow = func(h string, n int, waiting string, down bool) {
		if h != "" {
			f(h)
		}
		if len(h) == depth {
			return
		}
		if n < streams {
			for _, k := range "GSB" {
				grow(h+string(k), n+1, waiting+string(rune('0'+n)), down)
			}
		}
		for i := range waiting {
			grow(h+waiting[i:i+1], n, waiting[:i]+waiting[i+1:], down)
		}
		if !down {
			grow(h+"s", n, waiting, true)
		}
	}
	grow("", 0, "", false)
}

type h2stream struct {
	gate    chan bool
	entered bool
	left    bool
	over    bool
	status  int
	body    string
	err     error
}

type h2result struct {
	Histories, Steps int
	// What failed first, by key.
	Found map[string]string
}

// h2play plays a history; keys and messages of what is wrong.
func h2play(h string, secure bool) (key, msg string) {
	vrt.Uncontrolled = false
	listener.VerifReset()
	graceful.VerifReset()
	vrt.Uncontrolled = true
	var mu sync.Mutex
	var st []*h2stream
	protocols := new(http.Protocols)
	protocols.SetHTTP2(true)
	protocols.SetUnencryptedHTTP2(true)
	ml := newListener()
	var l net.Listener = ml
	if secure {
		c := serverTLS()
		c.NextProtos = []string{"h2"}
		l = tls.NewListener(ml, c)
	}
	srv := &graceful.Server{
		Protocols: protocols,
		ErrorLog:  log.New(io.Discard, "", 0),
		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			i := int(r.URL.Path[1] - '0')
			mu.Lock()
			s := st[i]
			s.entered = true
			mu.Unlock()
			defer func() {
				mu.Lock()
				s.left = true
				mu.Unlock()
			}()
			b, _ := io.ReadAll(r.Body)
			if r.URL.Path[2] == 'S' {
				io.WriteString(w, "first\n")
				w.(http.Flusher).Flush()
			}
			<-s.gate
			fmt.Fprintf(w, "%d %s %s", i, r.Proto, b)
		}),
	}
	served := make(chan error, 1)
	go func() { served <- srv.Serve(l) }()
	var conns []*mconn
	tr := &http.Transport{Protocols: protocols}
	dial := func(context.Context, string, string) (net.Conn, error) {
		mu.Lock()
		defer mu.Unlock()
		if len(conns) > 0 {
			return nil, fmt.Errorf("one connection is enough")
		}
		c, server := ml.dial("0")
		if c == nil {
			return nil, fmt.Errorf("refused")
		}
		conns = append(conns, server)
		return c, nil
	}
	tr.DialContext = dial
	tr.TLSClientConfig = &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}, Time: func() time.Time { return time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC) }}
	scheme := "http"
	if secure {
		scheme = "https"
	}
	rest()
	begun, ended := false, false
	open := func() int {
		n := 0
		for _, s := range st {
			if s.entered && !s.left {
				n++
			}
		}
		return n
	}
	fail := func(k, f string, args ...any) {
		if msg == "" {
			key, msg = k, fmt.Sprintf(f, args...)
		}
	}
	event := func(e byte) {
		lastOne := -1
		switch e {
		case 'G', 'S', 'B':
			mu.Lock()
			i := len(st)
			s := &h2stream{gate: make(chan bool, 1)}
			st = append(st, s)
			mu.Unlock()
			go func() {
				method, body := "GET", ""
				if e == 'B' {
					method, body = "POST", "abc"
				}
				q, _ := http.NewRequest(method, fmt.Sprintf("%s://h/%d%c", scheme, i, e), strings.NewReader(body))
				res, err := tr.RoundTrip(q)
				var b []byte
				status := 0
				if err == nil {
					status = res.StatusCode
					b, err = io.ReadAll(res.Body)
				}
				mu.Lock()
				defer mu.Unlock()
				s.over, s.status, s.body, s.err = true, status, string(b), err
			}()
		case 's':
			begun = true
			go func() {
				graceful.Shutdown()
				mu.Lock()
				ended = true
				mu.Unlock()
			}()
		default:
			i := int(e - '0')
			mu.Lock()
			if st[i].entered && open() == 1 && begun {
				lastOne = i
			}
			mu.Unlock()
			st[i].gate <- true
		}
		rest()
		mu.Lock()
		defer mu.Unlock()
		for i, s := range st {
			want := fmt.Sprintf("%d HTTP/2.0 ", i)
			switch h := kinds(h)[i]; h {
			case 'S':
				want = "first\n" + want
			case 'B':
				want += "abc"
			}
			switch {
			case !s.entered && !begun:
				fail("h2", "request %d does not reach its handler", i)
			case s.entered && s.left && !s.over:
				fail("h2", "the response %d does not end", i)
			case s.entered && !s.left && s.over:
				fail("h2", "request %d ends before its handler: %v", i, s.err)
			case s.left && (s.err != nil || s.status != 200 || s.body != want):
				k := "h2"
				if i == lastOne && s.err != nil {
					k = "http2-last"
				}
				fail(k, "response %d is lost: status %d, body %q, error %v", i, s.status, s.body, s.err)
			}
		}
		if !begun && len(conns) == 1 && conns[0].isClosed() {
			fail("h2", "the connection is closed before a shutdown")
		}
		if ended && open() > 0 {
			fail("h2", "the shutdown ends before the handlers")
		}
	}
	for i := 0; i < len(h) && msg == ""; i++ {
		event(h[i])
		if msg != "" {
			msg += fmt.Sprintf(" (in the history %s, after %d events)", h, i+1)
		}
	}
	// Bring everything to an end.
	for _, s := range st {
		close(s.gate)
	}
	if !begun {
		go func() {
			graceful.Shutdown()
			mu.Lock()
			ended = true
			mu.Unlock()
		}()
	}
	time.Sleep(5 * time.Second)
	synctest.Wait()
	mu.Lock()
	if !ended {
		fail("h2", "the shutdown does not end (history %s)", h)
	}
	if len(conns) == 1 && !conns[0].isClosed() {
		fail("h2", "the connection stays open after the shutdown (history %s)", h)
	}
	mu.Unlock()
	tr.CloseIdleConnections()
	ml.Close()
	for _, c := range conns {
		c.Close()
	}
	select {
	case err := <-served:
		if err != nil {
			fail("h2", "Serve gives %v (history %s)", err, h)
		}
	default:
		fail("h2", "Serve does not return (history %s)", h)
	}
	time.Sleep(10 * time.Minute)
	return
}

// kinds gives the kinds of the requests of a history.
func kinds(h string) (k string) {
	for i := range h {
		if strings.Contains("GSB", h[i:i+1]) {
			k += h[i : i+1]
		}
	}
	return
}

func h2work(r *kit.Run, progress string) {
	log.SetOutput(io.Discard)
	pf, err := os.OpenFile(progress, os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		panic(err)
	}
	asTest(func(t *testing.T) {
		res := h2result{Found: map[string]string{}}
		for _, secure := range []bool{false, true} {
			h2histories(kit.Pick(r, 5, 7), 3, func(h string) {
				pf.WriteAt([]byte(fmt.Sprintf("%-40s\n", h)), 0)
				if res.Found["h2"] != "" {
					return
				}
				res.Histories++
				res.Steps += len(h)
				var key, msg string
				for i := 0; i < 3; i++ {
					synctest.Test(t, func(t *testing.T) { key, msg = h2play(h, secure) })
					if msg == "" {
						break
					}
				}
				if msg != "" && res.Found[key] == "" {
					res.Found[key] = fmt.Sprintf("HTTP/2, TLS %v: %s", secure, msg)
				}
			})
		}
		b, _ := json.Marshal(res)
		os.WriteFile(progress+".out", b, 0o600)
		os.Exit(0)
	})
}

// h2 runs the histories in a process of its own.
func h2(r *kit.Run, p string) {
	cmd := exec.Command(os.Args[0], "-prop", r.ID, "-tier", r.Tier, "-verif", *kit.Verif, "-worker", "h2 "+p)
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		r.Errorf("%v", err)
		return
	}
	timer := time.AfterFunc(time.Duration(kit.Pick(r, 200, 800))*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	history, _ := os.ReadFile(p)
	if !timer.Stop() {
		r.Violation("h2", "the server never comes to rest with HTTP/2 in the history "+strings.TrimSpace(string(history)), nil)
		return
	}
	var res h2result
	b, _ := os.ReadFile(p + ".out")
	if err != nil || json.Unmarshal(b, &res) != nil {
		text := out.String()
		if len(text) > 2000 {
			text = text[:2000]
		}
		if strings.Contains(text, "deadlock: ") || strings.Contains(text, "panic: ") || strings.Contains(text, "fatal error: ") {
			r.Violation("h2", "the process blocks for ever or dies with HTTP/2 in the history "+strings.TrimSpace(string(history))+": "+text, nil)
		} else {
			r.Errorf("worker for HTTP/2 failed: %v: %s", err, text)
		}
		return
	}
	r.Traces.Add(int64(res.Histories))
	r.Transitions.Add(int64(res.Steps))
	r.Part("HTTP/2", map[string]any{"histories": res.Histories, "events": kit.Pick(r, 5, 7), "streams": 3})
	for k, m := range res.Found {
		r.Violation(k, m, nil)
	}
}

package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zenazn/goji/graceful"
)

// world is what happens around one server.
type world struct {
	mu    sync.Mutex
	notes []string
	start time.Time
	hij   []net.Conn
}

func (w *world) note(f string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.notes = append(w.notes, fmt.Sprintf(f, args...))
}

func (w *world) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.notes
	w.notes = nil
	return l
}

var pointer = regexp.MustCompile(`0x[0-9a-f]+`)

// Write takes what is logged.
func (w *world) Write(b []byte) (int, error) {
	s, _, _ := strings.Cut(string(b), "\n")
	w.note("log: %s", pointer.ReplaceAllString(s, "PTR"))
	return len(b), nil
}

type ctxKey string

func (w *world) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	w.note("handler: %s %s", q.Method, q.URL.Path)
	defer func() {
		if e := recover(); e != nil {
			w.note("handler: panics")
			panic(e)
		}
		w.note("handler: returns")
	}()
	switch q.URL.Path {
	case "/info":
		srv, _ := q.Context().Value(http.ServerContextKey).(*http.Server)
		la, _ := q.Context().Value(http.LocalAddrContextKey).(net.Addr)
		w.note("handler: %s %s %s %s base %v conn %v local %v server %v", q.Proto, q.RemoteAddr, q.Host, q.RequestURI, q.Context().Value(ctxKey("base")), q.Context().Value(ctxKey("conn")), la, srv != nil && srv.Addr == "the address")
		if q.TLS == nil {
			w.note("handler: no TLS")
		} else {
			w.note("handler: TLS %x %v %s %s", q.TLS.Version, q.TLS.HandshakeComplete, q.TLS.ServerName, q.TLS.NegotiatedProtocol)
		}
		_, a := rw.(http.Flusher)
		_, b := rw.(http.Hijacker)
		_, c := rw.(http.CloseNotifier)
		_, d := rw.(io.ReaderFrom)
		_, e := rw.(http.Pusher)
		_, f := rw.(io.StringWriter)
		fmt.Fprintln(rw, a, b, c, d, e, f)
	case "/body":
		b, err := io.ReadAll(q.Body)
		w.note("handler: body %q, %v", b, err)
		rw.Write(b)
	case "/flush":
		io.WriteString(rw, "one")
		w.note("handler: flush %v", http.NewResponseController(rw).Flush())
		time.Sleep(6 * time.Second)
		n, err := io.WriteString(rw, "two")
		w.note("handler: write %d, %v", n, err)
		w.note("handler: flush %v", http.NewResponseController(rw).Flush())
	case "/panic":
		panic("oh no")
	case "/abort":
		io.WriteString(rw, "partly")
		panic(http.ErrAbortHandler)
	case "/hijack", "/hijackkeep":
		c, buf, err := rw.(http.Hijacker).Hijack()
		if err != nil {
			w.note("handler: hijack %v", err)
			return
		}
		fmt.Fprintf(c, "raw %d", buf.Reader.Buffered())
		if q.URL.Path == "/hijack" {
			w.note("handler: close %v", c.Close())
			return
		}
		w.mu.Lock()
		w.hij = append(w.hij, c)
		w.mu.Unlock()
		go func() {
			b := make([]byte, 100)
			for {
				n, err := buf.Read(b)
				w.note("hijacked: %q %v", b[:n], err)
				if err != nil {
					return
				}
				c.Write(bytes.ToUpper(b[:n]))
			}
		}()
	case "/ctx":
		select {
		case <-q.Context().Done():
			w.note("handler: context %v", q.Context().Err())
		case <-time.After(9 * time.Second):
			w.note("handler: waited")
		}
		io.WriteString(rw, "ctx")
	case "/readfrom":
		rw.Header().Set("Content-Length", "7000")
		n, err := io.Copy(rw, io.LimitReader(strings.NewReader(strings.Repeat("z", 9000)), 7000))
		w.note("handler: copied %d, %v", n, err)
	case "/controller":
		rc := http.NewResponseController(rw)
		w.note("handler: deadlines %v %v duplex %v", rc.SetReadDeadline(time.Now().Add(3*time.Second)), rc.SetWriteDeadline(time.Now().Add(4*time.Second)), rc.EnableFullDuplex())
		b, err := io.ReadAll(q.Body)
		w.note("handler: body %q, %v", b, err)
		io.WriteString(rw, "ctl")
	case "/trailer":
		rw.Header().Set("Trailer", "X-T")
		rw.WriteHeader(103)
		rw.WriteHeader(201)
		io.WriteString(rw, "tr")
		rw.Header().Set("X-T", "v")
	case "/notmodified":
		rw.WriteHeader(304)
		n, err := io.WriteString(rw, "x")
		w.note("handler: write %d, %v", n, err)
	case "/over":
		rw.Header().Set("Content-Length", "2")
		n, err := io.WriteString(rw, "xyz")
		w.note("handler: write %d, %v", n, err)
	case "/close":
		rw.Header().Set("Connection", "close")
		io.WriteString(rw, "bye")
	default:
		rw.Header().Set("X-Path", q.URL.Path)
		io.WriteString(rw, "hello")
	}
}

// option sets a field of the server.
type option struct {
	name string
	set  func(w *world, s *http.Server)
}

var options = []option{
	{"handler nil", func(w *world, s *http.Server) { s.Handler = nil }},
	{"ReadTimeout 5s", func(w *world, s *http.Server) { s.ReadTimeout = 5 * time.Second }},
	{"ReadHeaderTimeout 4s", func(w *world, s *http.Server) { s.ReadHeaderTimeout = 4 * time.Second }},
	{"WriteTimeout 5s", func(w *world, s *http.Server) { s.WriteTimeout = 5 * time.Second }},
	{"IdleTimeout 7s", func(w *world, s *http.Server) { s.IdleTimeout = 7 * time.Second }},
	{"MaxHeaderBytes 64", func(w *world, s *http.Server) { s.MaxHeaderBytes = 64 }},
	{"ConnState", func(w *world, s *http.Server) {
		s.ConnState = func(c net.Conn, st http.ConnState) { w.note("state: %s %v", c.RemoteAddr(), st) }
	}},
	{"ErrorLog", func(w *world, s *http.Server) { s.ErrorLog = log.New(w, "own log: ", 0) }},
	{"BaseContext", func(w *world, s *http.Server) {
		s.BaseContext = func(l net.Listener) context.Context {
			w.note("base: %v", l.Addr())
			return context.WithValue(context.Background(), ctxKey("base"), 1)
		}
	}},
	{"ConnContext", func(w *world, s *http.Server) {
		s.ConnContext = func(ctx context.Context, c net.Conn) context.Context {
			w.note("context: %v", c.RemoteAddr())
			return context.WithValue(ctx, ctxKey("conn"), c.RemoteAddr())
		}
	}},
	{"DisableGeneralOptionsHandler", func(w *world, s *http.Server) { s.DisableGeneralOptionsHandler = true }},
	{"keep-alives off", func(w *world, s *http.Server) { s.SetKeepAlivesEnabled(false) }},
	{"unencrypted HTTP/2", func(w *world, s *http.Server) {
		s.Protocols = new(http.Protocols)
		s.Protocols.SetHTTP1(true)
		s.Protocols.SetUnencryptedHTTP2(true)
	}},
}

// action is what a client does.
type action struct {
	name  string
	data  string
	sleep time.Duration
	close bool
}

func get(path string) action {
	return action{name: "GET " + path, data: "GET " + path + " HTTP/1.1\r\nHost: h\r\n\r\n"}
}

var actions = []action{
	get("/plain"), get("/info"), get("/flush"), get("/panic"), get("/abort"), get("/hijack"), get("/hijackkeep"), get("/ctx"), get("/readfrom"),
	get("/trailer"), get("/notmodified"), get("/over"), get("/close"),
	{name: "wait 6 s", sleep: 6 * time.Second},
	{name: "close", close: true},
	{name: "GET with Connection: close", data: "GET /p HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n"},
	{name: "GET in HTTP/1.0", data: "GET /p HTTP/1.0\r\n\r\n"},
	{name: "GET in HTTP/1.0 with keep-alive", data: "GET /p HTTP/1.0\r\nConnection: keep-alive\r\n\r\n"},
	{name: "HEAD", data: "HEAD /p HTTP/1.1\r\nHost: h\r\n\r\n"},
	{name: "POST", data: "POST /body HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabc"},
	{name: "POST without body", data: "POST /body HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\n"},
	{name: "POST with deadlines without body", data: "POST /controller HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\n"},
	{name: "3 bytes", data: "abc"},
	{name: "POST in chunks", data: "POST /body HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n"},
	{name: "POST expecting 100", data: "POST /body HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\nExpect: 100-continue\r\n\r\n"},
	{name: "POST with a big body nobody reads", data: "POST /p HTTP/1.1\r\nHost: h\r\nContent-Length: 300000\r\n\r\n" + strings.Repeat("b", 300000)},
	{name: "part of a request", data: "GET /p"},
	{name: "the rest", data: "lain HTTP/1.1\r\nHost: h\r\n\r\n"},
	{name: "garbage", data: "garbage\r\n\r\n"},
	{name: "OPTIONS *", data: "OPTIONS * HTTP/1.1\r\nHost: h\r\n\r\n"},
	{name: "a long header", data: "GET /p HTTP/1.1\r\nHost: h\r\nX: " + strings.Repeat("y", 6000) + "\r\n\r\n"},
	{name: "two requests at once", data: "GET /p HTTP/1.1\r\nHost: h\r\n\r\nGET /info HTTP/1.1\r\nHost: h\r\n\r\n"},
	{name: "HTTP/2 preface", data: "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"},
}

// end is a client's end of a connection.
type end struct {
	mu   sync.Mutex
	conn net.Conn
	raw  *mconn
	got  []byte
	at   time.Time // when the server ended the connection
	out  chan []byte
}

func (e *end) take() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	s := string(e.got)
	e.got = nil
	return s
}

func (e *end) receive() {
	b := make([]byte, 4096)
	for {
		n, err := e.conn.Read(b)
		e.mu.Lock()
		e.got = append(e.got, b[:n]...)
		if err != nil {
			e.at = time.Now()
			e.mu.Unlock()
			return
		}
		e.mu.Unlock()
	}
}

var cert = sync.OnceValue(func() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(7), NotBefore: time.Unix(0, 0), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), DNSNames: []string{"h"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
})

// setup is the server and how it is reached.
type setup struct {
	opts  []int
	tls   bool // the listener is one of package crypto/tls
	plain bool // but the client does not speak TLS
}

func (s setup) String() string {
	l := []string{}
	for _, i := range s.opts {
		l = append(l, options[i].name)
	}
	x := strings.Join(l, ", ")
	if x == "" {
		x = "no options"
	}
	if s.tls {
		x += ", TLS"
	}
	if s.plain {
		x += " but not the client"
	}
	return x
}

// seen is what was seen of a script.
type seen struct {
	log string
	end time.Duration // when the connection ended
}

// same compares. When it closes a connection early net/http waits half a
// second for the client to notice; when exactly the client sees the end is
// left open.
func same(a, b seen) bool {
	d := a.end - b.end
	return a.log == b.log && -600*time.Millisecond <= d && d <= 600*time.Millisecond
}

func equal(a, b []seen) bool {
	for i := range a {
		if i >= len(b) || !same(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

// play runs scripts one after the other against one server, and gives what
// was seen of each.
func play(t *testing.T, s setup, scripts [][]int, gracefully bool) (out []seen) {
	synctest.Test(t, func(t *testing.T) {
		w := &world{start: time.Now()}
		log.SetOutput(w)
		log.SetFlags(0)
		http.DefaultServeMux = http.NewServeMux()
		http.Handle("/", w)
		ml := newListener()
		var l net.Listener = ml
		if s.tls {
			l = tls.NewListener(ml, &tls.Config{Certificates: []tls.Certificate{cert()}, NextProtos: []string{"http/1.1"}})
		}
		srv := &http.Server{Addr: "the address", Handler: w}
		for _, i := range s.opts {
			options[i].set(w, srv)
		}
		before := exported(srv)
		ended := make(chan error, 1)
		go func() {
			if gracefully {
				ended <- (*graceful.Server)(srv).Serve(l)
			} else {
				ended <- srv.Serve(l)
			}
		}()
		synctest.Wait()
		for i, sc := range scripts {
			out = append(out, script(w, ml, s, i, sc))
		}
		ml.Close()
		synctest.Wait()
		select {
		case err := <-ended:
			out = append(out, seen{log: fmt.Sprintf("Serve gives %v", err)})
		default:
			out = append(out, seen{log: "Serve does not return"})
		}
		after := exported(srv)
		for k, v := range before {
			if after[k] != v && gracefully {
				out = append(out, seen{log: fmt.Sprintf("the field %s of the caller's server was changed", k)})
			}
		}
		// Nothing that is left over may outlive the bubble.
		for _, c := range w.hij {
			c.Close()
		}
		time.Sleep(10 * time.Minute)
	})
	return
}

// exported gives the exported fields of a server.
func exported(s *http.Server) map[string]string {
	m := map[string]string{}
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() || f.Name == "TLSNextProto" {
			continue // net/http fills it in
		}
		x := v.Field(i)
		switch x.Kind() {
		case reflect.Func, reflect.Ptr, reflect.Map:
			m[f.Name] = fmt.Sprint(x.Pointer())
		default:
			m[f.Name] = fmt.Sprintf("%v", x.Interface() != nil && !x.IsZero())
			if x.Kind() == reflect.Int || x.Kind() == reflect.Int64 || x.Kind() == reflect.String || x.Kind() == reflect.Bool {
				m[f.Name] = fmt.Sprint(x.Interface())
			}
		}
	}
	if c := s.TLSConfig; c != nil {
		m["TLSConfig (contents)"] = fmt.Sprintf("%d %x %x %q %v", len(c.Certificates), c.MinVersion, c.MaxVersion, c.NextProtos, c.CipherSuites)
	}
	return m
}

func kind(note string) string {
	k, _, _ := strings.Cut(note, ":")
	return k
}

// canonical orders the frames of HTTP/2, which are sent by several goroutines.
func canonical(got string) string {
	i := strings.Index(got, "\x00\x00$\x04\x00")
	if i < 0 {
		return got
	}
	var frames []string
	for b := got[i:]; len(b) > 0; {
		n := len(b)
		if n >= 9 {
			n = min(n, 9+int(b[0])<<16+int(b[1])<<8+int(b[2]))
		}
		frames = append(frames, b[:n])
		b = b[n:]
	}
	sort.Strings(frames)
	return got[:i] + strings.Join(frames, "")
}

func script(w *world, ml *mlistener, s setup, i int, sc []int) seen {
	var log []string
	w.take()
	start := time.Now()
	raw, server := ml.dial(fmt.Sprintf("client-%d", i))
	e := &end{conn: raw, raw: raw, out: make(chan []byte, 100)}
	if s.tls && !s.plain {
		e.conn = tls.Client(raw, &tls.Config{InsecureSkipVerify: true, ServerName: "h", NextProtos: []string{"http/1.1"}, Time: func() time.Time { return time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC) }})
	}
	go func() {
		if tc, ok := e.conn.(*tls.Conn); ok {
			tc.Handshake()
		}
		go e.receive()
		for b := range e.out {
			e.conn.Write(b)
		}
	}()
	closed := false
	var endAt time.Duration
	hangUp := func() {
		if closed {
			return
		}
		e.mu.Lock()
		at := e.at
		e.mu.Unlock()
		if at.IsZero() {
			at = time.Now()
		}
		endAt = at.Sub(start)
		closed = true
		raw.Close()
	}
	see := func() {
		time.Sleep(613 * time.Millisecond) // never together with another timer
		synctest.Wait()
		got := e.take()
		if closed {
			got = ""
		}
		log = append(log, fmt.Sprintf("  at %v: received %q", time.Since(start), canonical(got)))
		// The order of what different goroutines do is left open.
		notes := w.take()
		sort.SliceStable(notes, func(i, j int) bool { return kind(notes[i]) < kind(notes[j]) })
		for _, n := range notes {
			log = append(log, "  "+n)
		}
	}
	see()
	for _, k := range sc {
		a := actions[k]
		log = append(log, a.name)
		if a.data != "" {
			e.out <- []byte(a.data)
		}
		if a.close {
			hangUp()
		}
		synctest.Wait()
		time.Sleep(a.sleep)
		see()
	}
	log = append(log, "later")
	for _, d := range []time.Duration{time.Second, 10 * time.Second, time.Minute} {
		time.Sleep(d)
		see()
	}
	log = append(log, "the client closes")
	hangUp()
	see()
	time.Sleep(time.Minute)
	see()
	w.mu.Lock()
	hij := w.hij
	w.hij = nil
	w.mu.Unlock()
	for _, c := range hij {
		c.Close()
	}
	log = append(log, fmt.Sprintf("  the server closed the connection: %v", server.isClosed()))
	close(e.out)
	synctest.Wait()
	return seen{strings.Join(log, "\n"), endAt}
}

func compare(t *testing.T, sh share) (res result) {
	defer func() { log.SetOutput(os.Stderr) }()
	thorough := sh.Tier == "thorough"
	// Setups and the length of their scripts.
	type job struct {
		s setup
		n int
	}
	alone, deep, tlsDeep, pair := 3, 3, 2, 2
	if thorough {
		alone, tlsDeep, pair = 4, 3, 3
	}
	jobs := []job{{setup{}, alone}, {setup{tls: true}, tlsDeep}, {setup{tls: true, plain: true}, 1}}
	for i := range options {
		jobs = append(jobs, job{setup{opts: []int{i}}, deep}, job{setup{opts: []int{i}, tls: true}, tlsDeep})
		for k := 0; k < i; k++ {
			jobs = append(jobs, job{setup{opts: []int{k, i}}, pair}, job{setup{opts: []int{k, i}, tls: true}, 1})
			if thorough {
				for j := 0; j < k; j++ {
					jobs = append(jobs, job{setup{opts: []int{j, k, i}}, 1})
				}
			}
		}
	}
	const batch = 200
	count := 0
	for _, j := range jobs {
		res.States++
		var scripts [][]int
		flush := func() bool {
			defer func() { scripts = nil }()
			if count++; count%sh.Of != sh.Index || len(scripts) == 0 {
				return true
			}
			fmt.Println("case:", j.s, "from", scripts[0])
			// What happens in one of three runs only is the fault of something
			// that is not controlled here.
			var a, b []seen
			for i := 0; i < 3; i++ {
				a, b = play(t, j.s, scripts, false), play(t, j.s, scripts, true)
				res.Traces += int64(2 * len(scripts))
				if equal(a, b) {
					break
				}
			}
			for i := range a {
				if i < len(scripts) {
					res.Transitions += int64(2 * (len(scripts[i]) + 5))
				}
				if !same(a[i], b[i]) {
					res.Violations = append(res.Violations, fmt.Sprintf("%v: %s", j.s, difference(a[i], b[i])))
					return false
				}
			}
			if len(b) > len(a) {
				res.Violations = append(res.Violations, fmt.Sprintf("%v: %s", j.s, b[len(a)].log))
				return false
			}
			return true
		}
		var grow func(l []int, n int) bool
		grow = func(l []int, n int) bool {
			if n == 0 {
				scripts = append(scripts, append([]int(nil), l...))
				if len(scripts) == batch {
					return flush()
				}
				return true
			}
			for k := range actions {
				if !grow(append(l[:len(l):len(l)], k), n-1) {
					return false
				}
			}
			return true
		}
		for n := 0; n <= j.n; n++ {
			if !grow(nil, n) {
				return
			}
		}
		if !flush() {
			return
		}
	}
	res.Bounds = []string{fmt.Sprintf("%d servers; all scripts of at most n actions out of %d on a connection, where n is %d without options, %d with each of %d options, %d with each pair, and with TLS %d, %d and 1", len(jobs), len(actions), alone, deep, len(options), pair, tlsDeep, tlsDeep)}
	if thorough {
		res.Bounds[0] += "; 1 with three options"
	}
	return
}

// difference says where two logs differ.
func difference(a, b seen) string {
	x, y := strings.Split(a.log, "\n"), strings.Split(b.log, "\n")
	var acts []string
	for i := range x {
		if !strings.HasPrefix(x[i], "  ") {
			acts = append(acts, x[i])
		}
		if i >= len(y) || x[i] != y[i] {
			g := "nothing"
			if i < len(y) {
				g = y[i]
			}
			return fmt.Sprintf("after %s: net/http gives %.300s, graceful gives %.300s", strings.Join(acts, "; "), strings.TrimSpace(x[i]), strings.TrimSpace(g))
		}
	}
	if len(y) > len(x) {
		return fmt.Sprintf("after %s: graceful gives more: %s", strings.Join(acts, "; "), y[len(x)])
	}
	return fmt.Sprintf("after %s: net/http ends the connection after %v, graceful after %v", strings.Join(acts, "; "), a.end, b.end)
}

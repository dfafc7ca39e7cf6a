package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zenazn/goji/graceful"
	"verif.local/mc/kit"
)

var payload = bytes.Repeat([]byte("goji"), 5000)

func handler(w http.ResponseWriter, r *http.Request) {
	w.Header().Set("Content-Length", fmt.Sprint(len(payload)))
	w.Write(payload)
}

// server is a running TLS server.
type server struct {
	addr   string
	probe  *probe
	dials  int64
	closed atomic.Int64
	done   chan error
	stop   func()
}

func (s *server) connState(c net.Conn, st http.ConnState) {
	if st == http.StateClosed {
		s.closed.Add(1)
	}
}

// settle waits until the server has dropped every connection.
func (s *server) settle() bool {
	for end := time.Now().Add(20 * time.Second); s.closed.Load() < s.dials; {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
	return true
}

var hosts atomic.Int64

// freeAddr finds an address nothing listens on.
func freeAddr() string {
	for {
		n := hosts.Add(1)
		l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+os.Getpid()%250, n/250%250, 1+n%250))
		if err != nil {
			if l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
				panic(err)
			}
		}
		a := l.Addr().String()
		l.Close()
		return a
	}
}

// gracefulTLS starts a server of the package under test. how is the entry
// point: "method", or "func", which has no place for a configuration.
func gracefulTLS(how string, cfg *tls.Config, p *probe, crt, key string) (*server, error) {
	var err error
	for try := 0; try < 5; try++ {
		s := &server{addr: freeAddr(), probe: p, done: make(chan error, 1)}
		go func() {
			if how == "func" {
				s.done <- graceful.ListenAndServeTLS(s.addr, crt, key, http.HandlerFunc(handler))
				return
			}
			srv := &graceful.Server{Addr: s.addr, Handler: http.HandlerFunc(handler), TLSConfig: cfg, ConnState: s.connState, ErrorLog: log.New(io.Discard, "", 0)}
			s.done <- srv.ListenAndServeTLS(crt, key)
		}()
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
			c, e := net.Dial("tcp", s.addr)
			if e == nil {
				c.Close()
				s.dials++
				return s, nil
			}
			select {
			case err = <-s.done:
				err = fmt.Errorf("returned %v", err)
				end = time.Now()
			case <-time.After(time.Millisecond):
				err = errors.New("does not listen")
			}
		}
		var oe *net.OpError
		if !errors.As(err, &oe) {
			break
		}
	}
	return nil, err
}

type hide struct{ net.Conn }
type hideListener struct{ net.Listener }

func (h hideListener) Accept() (net.Conn, error) {
	c, err := h.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return hide{c}, nil
}

// reference starts net/http's server with the configuration the property asks
// for.
func reference(cfg *tls.Config, p *probe, cert tls.Certificate) *server {
	if cfg == nil {
		cfg = &tls.Config{MinVersion: tls.VersionTLS10}
	} else {
		cfg = cfg.Clone()
	}
	if cfg.NextProtos == nil {
		cfg.NextProtos = []string{"http/1.1"}
	}
	cfg.Certificates = []tls.Certificate{cert}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &server{addr: l.Addr().String(), probe: p}
	srv := &http.Server{Handler: http.HandlerFunc(handler), ConnState: s.connState, ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(hideListener{tls.NewListener(l, cfg)})
	s.stop = func() { srv.Close() }
	return s
}

// sniff watches the sizes of the records that arrive.
type sniff struct {
	net.Conn
	hdr  []byte
	skip int
	max  int
}

func (c *sniff) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	for p := b[:n]; len(p) > 0; {
		if c.skip > 0 {
			k := min(c.skip, len(p))
			c.skip -= k
			p = p[k:]
			continue
		}
		c.hdr = append(c.hdr, p[0])
		p = p[1:]
		if len(c.hdr) == 5 {
			c.skip = int(c.hdr[3])<<8 | int(c.hdr[4])
			c.max = max(c.max, c.skip)
			c.hdr = c.hdr[:0]
		}
	}
	return n, err
}

// connect makes one connection and says what it was like.
func connect(s *server, conf *tls.Config) string {
	raw, err := net.Dial("tcp", s.addr)
	if err != nil {
		return "cannot connect: " + err.Error()
	}
	s.dials++
	defer raw.Close()
	raw.SetDeadline(time.Now().Add(20 * time.Second))
	w := &sniff{Conn: raw}
	t := tls.Client(w, conf)
	out := func() string {
		if err := t.Handshake(); err != nil {
			return "fails"
		}
		if _, err := io.WriteString(t, "GET / HTTP/1.1\r\nHost: a.test\r\n\r\n"); err != nil {
			return "fails"
		}
		res, err := http.ReadResponse(bufio.NewReader(t), nil)
		if err != nil {
			return "fails"
		}
		b, err := io.ReadAll(res.Body)
		if err != nil || !bytes.Equal(b, payload) || res.StatusCode != 200 {
			return "bad response"
		}
		cs := t.ConnectionState()
		cn := "no certificate"
		if len(cs.PeerCertificates) > 0 {
			cn = cs.PeerCertificates[0].Subject.CommonName
		}
		return fmt.Sprintf("%s %s %v, certificate %q, protocol %q, resumed %v, encrypted hello %v, large records %v",
			tls.VersionName(cs.Version), tls.CipherSuiteName(cs.CipherSuite), cs.CurveID, cn, cs.NegotiatedProtocol, cs.DidResume, cs.ECHAccepted, w.max > 8000)
	}()
	raw.Close()
	return out
}

// outcomes plays every client against the server.
func outcomes(m *material, s, prime *server, handshakes *int64) []string {
	var l []string
	for _, k := range clients() {
		conf := &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10}
		k.Conf(m, conf)
		out := ""
		n := 1
		if k.Twice {
			conf.ClientSessionCache = tls.NewLRUClientSessionCache(4)
			n = 2
		}
		s.settle()
		s.probe.take()
		for i := 0; i < n; i++ {
			*handshakes++
			if i == 0 && k.Prime {
				if connect(prime, conf) == "fails" {
					break
				}
				continue
			}
			o := connect(s, conf)
			out += o
			if o == "fails" {
				// Whether the client got a session is a matter of timing.
				i = n
			}
			if !s.settle() {
				out += ", connection not closed"
			}
			out += "; callbacks:" + s.probe.take() + ". "
		}
		l = append(l, k.Name+": "+out)
	}
	return l
}

// snapshot is what the caller can see of a configuration.
func snapshot(c *tls.Config) map[string]any {
	m := map[string]any{}
	if c == nil {
		return m
	}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		switch x := v.Field(i); x.Kind() {
		case reflect.Func:
			m[f.Name] = x.Pointer()
		case reflect.Slice:
			s := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
			reflect.Copy(s, x)
			m[f.Name] = []any{x.IsNil(), s.Interface()}
		default:
			m[f.Name] = x.Interface()
		}
	}
	return m
}

type combo []int

func (c combo) String(l []option) string {
	var s []string
	for _, i := range c {
		s = append(s, l[i].Field+" = "+l[i].Value)
	}
	if s == nil {
		return "no setting"
	}
	return strings.Join(s, ", ")
}

// combos lists all sets of up to k options of different fields.
func combos(l []option, k int) []combo {
	var out []combo
	var rec func(from int, c combo)
	rec = func(from int, c combo) {
		out = append(out, append(combo(nil), c...))
		if len(c) == k {
			return
		}
	next:
		for i := from; i < len(l); i++ {
			for _, j := range c {
				if l[j].Field == l[i].Field {
					continue next
				}
			}
			rec(i+1, append(c, i))
		}
	}
	rec(0, nil)
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) < len(out[j]) })
	return out
}

// play compares the two servers for one combination.
func play(m *material, l []option, c combo, null bool, how string, handshakes *int64) string {
	build := func() (*tls.Config, *probe) {
		p := &probe{}
		if null {
			return nil, p
		}
		cfg := &tls.Config{}
		for _, i := range c {
			l[i].Set(cfg, p)
		}
		return cfg, p
	}
	cfg, p := build()
	before := snapshot(cfg)
	got, err := gracefulTLS(how, cfg, p, m.files[0][0], m.files[0][1])
	if err != nil {
		return "the server " + err.Error()
	}
	if how == "func" {
		got.closed.Store(1 << 40)
	}
	rcfg, rp := build()
	want := reference(rcfg, rp, m.server)
	defer want.stop()
	pcfg, pp := build()
	prime := reference(pcfg, pp, m.server)
	defer prime.stop()
	g, w := outcomes(m, got, prime, handshakes), outcomes(m, want, prime, handshakes)
	for i := range g {
		if g[i] != w[i] {
			return fmt.Sprintf("client %s\n  wanted: %s", g[i], w[i])
		}
	}
	after := snapshot(cfg)
	for k := range before {
		if !reflect.DeepEqual(before[k], after[k]) {
			return "the caller's field " + k + " is changed"
		}
	}
	return ""
}

// special are the scenarios besides the combinations.
func special(m *material) (msgs []string, n int) {
	fail := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf(f, a...)) }
	// Files that cannot be used.
	for _, f := range [][2]string{{"", ""}, {m.files[0][0], ""}, {"", m.files[0][1]}, {m.files[0][1], m.files[0][0]}, {m.dir + "/none.crt", m.dir + "/none.key"}} {
		for _, how := range []string{"method", "func"} {
			n++
			s, err := gracefulTLS(how, nil, &probe{}, f[0], f[1])
			if err == nil {
				fail("%s with the files %q serves on %s instead of returning an error", how, f, s.addr)
			} else if strings.Contains(err.Error(), "returned <nil>") || !strings.HasPrefix(err.Error(), "returned") {
				fail("%s with the files %q: %v, wanted an error", how, f, err)
			}
		}
	}
	// An address in use.
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	for _, addr := range []string{l.Addr().String(), "127.0.0.1:none", "nonsense"} {
		for _, how := range []string{"method", "func"} {
			n++
			done := make(chan error, 1)
			go func() {
				if how == "func" {
					done <- graceful.ListenAndServeTLS(addr, m.files[0][0], m.files[0][1], nil)
				} else {
					done <- (&graceful.Server{Addr: addr}).ListenAndServeTLS(m.files[0][0], m.files[0][1])
				}
			}()
			select {
			case err := <-done:
				if err == nil {
					fail("%s on the address %q returned nil, wanted an error", how, addr)
				}
			case <-time.After(20 * time.Second):
				fail("%s on the address %q did not return, wanted an error", how, addr)
			}
		}
	}
	// One configuration for two servers with certificates of their own, while
	// the first goes on.
	n++
	cfg := &tls.Config{}
	a, err1 := gracefulTLS("method", cfg, &probe{}, m.files[0][0], m.files[0][1])
	b, err2 := gracefulTLS("method", cfg, &probe{}, m.files[1][0], m.files[1][1])
	if err1 != nil || err2 != nil {
		fail("two servers with one configuration: %v, %v", err1, err2)
	} else {
		for _, x := range []struct {
			s  *server
			cn string
		}{{a, "loaded"}, {b, "second"}, {a, "loaded"}} {
			if out := connect(x.s, &tls.Config{InsecureSkipVerify: true}); !strings.Contains(out, fmt.Sprintf("certificate %q", x.cn)) {
				fail("two servers with one configuration: the one with the certificate %q answers: %s", x.cn, out)
			}
		}
	}
	// Versions before TLS 1.0.
	for _, how := range []string{"method", "func"} {
		n++
		s, err := gracefulTLS(how, nil, &probe{}, m.files[0][0], m.files[0][1])
		if err != nil {
			fail("%s without a configuration: %v", how, err)
			continue
		}
		c, err := net.Dial("tcp", s.addr)
		if err != nil {
			fail("%v", err)
			continue
		}
		body := append([]byte{3, 0}, make([]byte, 32)...)
		body = append(body, 0, 0, 4, 0, 0x2f, 0, 0x0a, 1, 0)
		msg := append([]byte{22, 3, 0, 0, byte(len(body) + 4), 1, 0, 0, byte(len(body))}, body...)
		c.Write(msg)
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		answer, err := io.ReadAll(c)
		if err != nil && os.IsTimeout(err) {
			fail("%s without a configuration does not answer an SSL 3.0 client", how)
		}
		if len(answer) > 0 && answer[0] != 21 {
			fail("%s without a configuration accepts an SSL 3.0 client: % x", how, answer[:min(len(answer), 20)])
		}
		c.Close()
	}
	return
}

type result struct {
	Combos, Special int
	Handshakes      int64
	Late            bool
	Case            string
	Combo           combo
	Null            bool
	How             string
	Msg             string
}

// cases are all combinations, the server without a configuration and the
// function.
func cases(r *kit.Run, l []option) (cs []combo) { return combos(l, kit.Pick(r, 2, 3)) }

func again(m *material, l []option, res *result) string {
	msg := ""
	for i := 0; i < 3; i++ {
		if msg = play(m, l, res.Combo, res.Null, res.How, &res.Handshakes); msg == "" {
			return ""
		}
	}
	return msg
}

func worker(r *kit.Run) {
	var k, n int
	var dir string
	fmt.Sscanf(*kit.Worker, "%d %d %s", &k, &n, &dir)
	runtime.GOMAXPROCS(2)
	log.SetOutput(io.Discard)
	m := newMaterial(dir)
	l := options(m)
	res := result{}
	emit := func() {
		b, _ := json.Marshal(res)
		fmt.Printf("RESULT %s\n", b)
		os.Exit(0)
	}
	try := func(c combo, null bool, how string) {
		fmt.Fprintf(os.Stderr, "CASE %s %s null=%v\n", how, c.String(l), null)
		res.Combos++
		if msg := play(m, l, c, null, how, &res.Handshakes); msg != "" {
			res.Combo, res.Null, res.How = c, null, how
			if msg = again(m, l, &res); msg != "" {
				res.Case, res.Msg = c.String(l), msg
				if null {
					res.Case = "no configuration (" + how + ")"
				}
				emit()
			}
		}
	}
	deadline := time.Now().Add(time.Duration(kit.Pick(r, 200, 780)) * time.Second)
	if k == 0 {
		msgs, c := special(m)
		res.Special = c
		if len(msgs) > 0 {
			if again, _ := special(m); len(again) > 0 {
				res.Case, res.Msg = "special", again[0]
				emit()
			}
		}
		try(nil, true, "method")
		try(nil, true, "func")
	}
	for i, c := range cases(r, l) {
		if i%n != k {
			continue
		}
		if time.Now().After(deadline) {
			res.Late = true
			break
		}
		try(c, false, "method")
	}
	// Every server is still there: they all have to stop.
	graceful.Shutdown()
	graceful.Wait()
	emit()
}

func c30(r *kit.Run) {
	if *kit.Replay != "" {
		b, err := os.ReadFile(*kit.Replay)
		var f struct{ Data result }
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			r.Errorf("%v", err)
			return
		}
		dir, _ := os.MkdirTemp("", "c30")
		defer os.RemoveAll(dir)
		log.SetOutput(io.Discard)
		m := newMaterial(dir)
		l := options(m)
		msg := ""
		if f.Data.Case == "special" {
			l, _ := special(m)
			msg = strings.Join(l, "\n")
		} else {
			msg = again(m, l, &f.Data)
		}
		fmt.Println("replay:", f.Data.Case, ":", msg)
		if msg != "" {
			r.Violation("replay", msg, f.Data)
		}
		return
	}
	dir, err := os.MkdirTemp("", "c30")
	if err != nil {
		r.Errorf("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	// More processes than cores: each keeps the listeners of its servers open.
	shares := kit.Pick(r, n, 8*n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var total result
	slots := make(chan bool, n)
	for k := 0; k < shares; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			if r.Failed() {
				return
			}
			d := fmt.Sprintf("%s/%d", dir, k)
			os.Mkdir(d, 0o700)
			var out, errb bytes.Buffer
			cmd := exec.Command(os.Args[0], "-prop", r.ID, "-tier", r.Tier, "-verif", *kit.Verif, "-worker", fmt.Sprintf("%d %d %s", k, shares, d))
			cmd.Stdout, cmd.Stderr = &out, &errb
			timer := time.AfterFunc(850*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Run()
			timer.Stop()
			var res result
			_, js, ok := strings.Cut(out.String(), "RESULT ")
			if !ok || json.Unmarshal([]byte(js), &res) != nil {
				text := errb.String()
				i := strings.LastIndex(text, "CASE ")
				if i >= 0 {
					text = text[i:]
				}
				if strings.Contains(text, "panic: ") || strings.Contains(text, "fatal error: ") {
					r.Violation("dies", "the server dies: "+text[:min(len(text), 1000)], text)
				} else {
					r.Errorf("worker failed: %v: %s", err, text[:min(len(text), 2000)])
				}
				return
			}
			mu.Lock()
			total.Combos += res.Combos
			total.Handshakes += res.Handshakes
			total.Special += res.Special
			mu.Unlock()
			if res.Late {
				r.Incomplete()
			}
			if res.Msg != "" {
				r.Violation("settings", fmt.Sprintf("with %s: %s", res.Case, res.Msg), res)
			}
		}()
	}
	wg.Wait()
	m := &material{}
	l := options(m)
	set := map[string]bool{}
	for _, o := range l {
		set[o.Field] = true
	}
	var missing []string
	t := reflect.TypeOf(tls.Config{})
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.IsExported() && !set[f.Name] {
			missing = append(missing, f.Name)
		}
	}
	r.States.Store(int64(total.Combos))
	r.Traces.Store(int64(total.Combos + total.Special))
	r.Transitions.Store(total.Handshakes)
	r.Part("options", map[string]any{"values": len(l), "fields": len(set), "fields of this Go version without a value": missing, "kinds of client": len(clients())})
	cs := cases(r, l)
	r.Sample(cs[len(cs)/2].String(l))
	r.Sample(cs[len(cs)-1].String(l))
	r.Bound("all sets of up to %d settings out of %d values of %d fields of tls.Config, each with %d kinds of client, against net/http with the same settings", kit.Pick(r, 2, 3), len(l), len(set), len(clients()))
}

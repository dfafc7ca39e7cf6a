package main

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/zenazn/goji/graceful"
)

// A launch is a call of one of the functions that serve over TCP.
type launch struct {
	fn      int
	addr    int
	handler bool // whether the handler is given
	cfg     int  // the TLS configuration, of functions with a server
	files   int
}

var functions = []struct {
	name string
	srv  bool // a method of Server
	tls  bool
	addr bool // takes an address
}{
	{"Server.ListenAndServe", true, false, true},
	{"ListenAndServe", false, false, true},
	{"Server.ListenAndServeTLS", true, true, true},
	{"ListenAndServeTLS", false, true, true},
	{"Server.Serve", true, false, false},
	{"Serve", false, false, false},
	{"Serve on a listener without keep-alives", false, false, false},
}

var addresses = []string{"a free port", "a free port on all interfaces", "a busy port", "the default port, if busy", "port 99999", "no port", "nonsense"}

var configs = []struct {
	name string
	make func() *tls.Config
}{
	{"no TLSConfig", func() *tls.Config { return nil }},
	{"an empty TLSConfig", func() *tls.Config { return &tls.Config{MinVersion: tls.VersionTLS10} }},
	{"a certificate", func() *tls.Config { return &tls.Config{Certificates: []tls.Certificate{cert()}} }},
	{"GetCertificate", func() *tls.Config {
		return &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { c := cert(); return &c, nil }}
	}},
	{"GetConfigForClient", func() *tls.Config {
		return &tls.Config{GetConfigForClient: func(*tls.ClientHelloInfo) (*tls.Config, error) {
			return &tls.Config{Certificates: []tls.Certificate{cert()}}, nil
		}}
	}},
	{"a certificate and HTTP/2", func() *tls.Config {
		return &tls.Config{Certificates: []tls.Certificate{cert()}, NextProtos: []string{"h2", "http/1.1"}}
	}},
	{"TLS 1.2 only", func() *tls.Config {
		return &tls.Config{MaxVersion: tls.VersionTLS12}
	}},
}

var fileNames = [][2]string{{"cert", "key"}, {"", ""}, {"cert", ""}, {"", "key"}, {"missing", "key"}, {"cert", "missing"}, {"cert", "other"}, {"bad", "key"}}

func (l launch) String() string {
	f := functions[l.fn]
	s := f.name
	if f.addr {
		s += " on " + addresses[l.addr]
	}
	if !l.handler {
		s += " without a handler"
	}
	if f.tls {
		if f.srv {
			s += ", with " + configs[l.cfg].name
		}
		s += fmt.Sprintf(", files %q", fileNames[l.files])
	}
	return s
}

// launches gives all of them.
func launches() (all []launch) {
	for fn, f := range functions {
		na, nc, nf := 1, 1, 1
		if f.addr {
			na = len(addresses)
		}
		if f.tls {
			nf = len(fileNames)
			if f.srv {
				nc = len(configs)
			}
		}
		for a := 0; a < na; a++ {
			for c := 0; c < nc; c++ {
				for i := 0; i < nf; i++ {
					// Which of two errors is reported is left open.
					if a > 1 && (i > 0 || c > 0) {
						continue
					}
					all = append(all, launch{fn, a, true, c, i}, launch{fn, a, false, c, i})
				}
			}
		}
	}
	return
}

// files writes the certificates.
func files(dir string) {
	for _, n := range []string{"", "o"} {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(11), NotBefore: time.Unix(0, 0), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), DNSNames: []string{"h"}}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		k, err := x509.MarshalECPrivateKey(key)
		if err != nil {
			panic(err)
		}
		names := [2]string{"cert", "key"}
		if n != "" {
			names = [2]string{"othercert", "other"}
		}
		os.WriteFile(filepath.Join(dir, names[0]), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
		os.WriteFile(filepath.Join(dir, names[1]), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: k}), 0600)
	}
	os.WriteFile(filepath.Join(dir, "bad"), []byte("no certificate\n"), 0600)
}

func hello(name string) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		t := "no TLS"
		if r.TLS != nil {
			t = fmt.Sprintf("TLS %x %q %q", r.TLS.Version, r.TLS.ServerName, r.TLS.NegotiatedProtocol)
		}
		b, err := io.ReadAll(r.Body)
		fmt.Fprintf(w, "%s: %s %s %s, %d bytes %v", name, r.Method, r.URL.Path, t, len(b), err)
	})
}

type launcher struct {
	dir  string
	busy net.Listener
}

// free gives an address nobody listens on.
func free(host string) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	return host + ":" + port
}

// run performs a launch and tells what can be seen of it.
func (x *launcher) run(l launch, gracefully bool) string {
	f := functions[l.fn]
	var addr, dial string
	switch l.addr {
	case 0, 1:
		addr = free("127.0.0.1")
		dial = addr
		if l.addr == 1 {
			addr = addr[strings.LastIndex(addr, ":"):]
		}
	case 2:
		addr = x.busy.Addr().String()
	case 3:
		port := "80"
		if f.tls {
			port = "443"
		}
		if h, err := net.Listen("tcp", ":"+port); err == nil {
			defer h.Close()
		}
	case 4:
		addr = "127.0.0.1:99999"
	case 5:
		addr = "127.0.0.1"
	case 6:
		addr = "::::"
	}
	var h http.Handler
	if l.handler {
		h = hello("own")
	}
	srv := &http.Server{Addr: addr, Handler: h, TLSConfig: configs[l.cfg].make(), ErrorLog: log.New(io.Discard, "", 0)}
	before := exported(srv)
	var names [2]string
	for i, n := range fileNames[l.files] {
		if n != "" {
			names[i] = filepath.Join(x.dir, n)
		}
	}
	var ln net.Listener
	if !f.addr {
		c := net.ListenConfig{}
		if l.fn == len(functions)-1 {
			c.KeepAlive = -1
		}
		var err error
		if ln, err = c.Listen(context.Background(), "tcp", "127.0.0.1:0"); err != nil {
			panic(err)
		}
		dial = ln.Addr().String()
	}
	gs := (*graceful.Server)(srv)
	ended := make(chan error, 1)
	go func() {
		ended <- func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("panic: %v", e)
				}
			}()
			switch {
			case f.name == "Server.ListenAndServe" && gracefully:
				return gs.ListenAndServe()
			case f.name == "Server.ListenAndServe":
				return srv.ListenAndServe()
			case f.name == "ListenAndServe" && gracefully:
				return graceful.ListenAndServe(addr, h)
			case f.name == "ListenAndServe":
				return http.ListenAndServe(addr, h)
			case f.name == "Server.ListenAndServeTLS" && gracefully:
				return gs.ListenAndServeTLS(names[0], names[1])
			case f.name == "Server.ListenAndServeTLS":
				return srv.ListenAndServeTLS(names[0], names[1])
			case f.name == "ListenAndServeTLS" && gracefully:
				return graceful.ListenAndServeTLS(addr, names[0], names[1], h)
			case f.name == "ListenAndServeTLS":
				return http.ListenAndServeTLS(addr, names[0], names[1], h)
			case f.name == "Server.Serve" && gracefully:
				return gs.Serve(ln)
			case f.name == "Server.Serve":
				return srv.Serve(ln)
			case gracefully:
				return graceful.Serve(ln, h)
			}
			return http.Serve(ln, h)
		}()
	}()
	var conn net.Conn
	for deadline := time.Now().Add(10 * time.Second); conn == nil; {
		var err error
		if dial != "" {
			if conn, err = net.Dial("tcp", dial); err == nil {
				break
			}
		}
		select {
		case err := <-ended:
			text := fmt.Sprintf("returns %v", err)
			if dial != "" {
				text = strings.ReplaceAll(text, dial[strings.LastIndex(dial, ":"):], ":PORT")
			}
			return text + changed(before, srv, gracefully)
		case <-time.After(5 * time.Millisecond):
		}
		if time.Now().After(deadline) {
			return fmt.Sprintf("neither serves nor returns: %v", err)
		}
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	var out []string
	talk := conn
	if f.tls {
		c := tls.Client(conn, &tls.Config{InsecureSkipVerify: true, ServerName: "h", NextProtos: []string{"http/1.1"}, Time: func() time.Time { return time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC) }})
		err := c.Handshake()
		out = append(out, fmt.Sprintf("handshake %v", err != nil))
		if err == nil {
			s := c.ConnectionState()
			out = append(out, fmt.Sprintf("certificate %v version %x", s.PeerCertificates[0].SerialNumber, s.Version))
		}
		talk = c
	}
	br := bufio.NewReader(talk)
	for i, q := range []string{"GET /a HTTP/1.1\r\nHost: h\r\n\r\n", "POST /b HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabc", "GET /c HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n"} {
		if _, err := io.WriteString(talk, q); err != nil {
			out = append(out, "write fails")
			break
		}
		res, err := http.ReadResponse(br, nil)
		if err != nil {
			out = append(out, "no response")
			break
		}
		b, err := io.ReadAll(res.Body)
		res.Header.Del("Date")
		out = append(out, fmt.Sprintf("%s %v %q %v", res.Status, res.Header, b, err))
		if i == 0 {
			k, ok := keepalive(conn)
			if l.fn == len(functions)-1 {
				// This is where graceful does more than net/http.
				if gracefully && ok && !k {
					out = append(out, "TCP keep-alives are off")
				}
			} else if ok {
				out = append(out, fmt.Sprintf("TCP keep-alives %v", k))
			}
		}
	}
	rest, err := io.ReadAll(br)
	out = append(out, fmt.Sprintf("then %q, error %v", rest, err != nil))
	if f.tls && configs[l.cfg].name == "a certificate and HTTP/2" && f.srv {
		tr := &http.Transport{ForceAttemptHTTP2: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}
		c := http.Client{Transport: tr, Timeout: 20 * time.Second}
		for i := 0; i < 2; i++ {
			res, err := c.Post("https://"+dial+"/h2", "text/plain", strings.NewReader("abcd"))
			if err != nil {
				out = append(out, fmt.Sprintf("HTTP/2: error %T", err))
				break
			}
			b, err := io.ReadAll(res.Body)
			out = append(out, fmt.Sprintf("%s %s %q %v", res.Proto, res.Status, b, err))
			res.Body.Close()
		}
		tr.CloseIdleConnections()
	}
	select {
	case err := <-ended:
		out = append(out, fmt.Sprintf("returns %v", err))
	default:
	}
	return strings.Join(out, "; ") + changed(before, srv, gracefully)
}

func changed(before map[string]string, srv *http.Server, gracefully bool) string {
	if !gracefully {
		return ""
	}
	after := exported(srv)
	for k, v := range before {
		if after[k] != v {
			return "; the field " + k + " of the caller's server was changed"
		}
	}
	return ""
}

// keepalive tells if the server's side of the connection has a keep-alive
// timer.
func keepalive(c net.Conn) (on, known bool) {
	b, err := os.ReadFile("/proc/net/tcp")
	if err != nil {
		return false, false
	}
	local, remote := kernel(c.RemoteAddr()), kernel(c.LocalAddr())
	// While data is under way another timer is shown.
	for i := 0; i < 50; i++ {
		found := false
		for _, line := range strings.Split(string(b), "\n") {
			f := strings.Fields(line)
			if len(f) > 5 && f[1] == local && f[2] == remote {
				found = true
				switch f[5][:2] {
				case "00":
					return false, true
				case "02":
					return true, true
				}
			}
		}
		if !found {
			break
		}
		time.Sleep(20 * time.Millisecond)
		b, _ = os.ReadFile("/proc/net/tcp")
	}
	return false, false
}

// kernel is the form of an address in /proc/net/tcp.
func kernel(a net.Addr) string {
	t := a.(*net.TCPAddr)
	ip := t.IP.To4()
	return fmt.Sprintf("%s:%04X", strings.ToUpper(hex.EncodeToString([]byte{ip[3], ip[2], ip[1], ip[0]})), t.Port)
}

// overTCP compares all launches.
func overTCP() (res result) {
	dir, err := os.MkdirTemp("", "servercmp")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	files(dir)
	log.SetOutput(io.Discard)
	defer log.SetOutput(os.Stderr)
	http.Handle("/", hello("default"))
	busy, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	x := &launcher{dir, busy}
	all := launches()
	for _, l := range all {
		fmt.Println("case:", l)
		res.States++
		var a, b string
		// Another process may take the port in between.
		for i := 0; i < 3; i++ {
			a, b = x.run(l, false), x.run(l, true)
			res.Traces += 2
			res.Transitions += 8
			if a == b {
				break
			}
		}
		if a != b {
			res.Violations = append(res.Violations, fmt.Sprintf("%v: with net/http: %.500s, with graceful: %.500s", l, a, b))
		}
	}
	res.Bounds = []string{fmt.Sprintf("over TCP: %d calls of all functions that serve, with %d kinds of address, %d TLS configurations and %d pairs of files", len(all), len(addresses), len(configs), len(fileNames))}
	return
}

package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"errors"
	"expvar"
	"flag"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/web"
)

// job is what a child does.
type job struct {
	Entry  string // Serve, ServeListener, ServeTLS
	Kind   string // kind of listener for ServeListener
	Parsed bool   // the flags were parsed before
	Fail   string // how the listener fails
	AtAck  bool   // a signal arrives at the time the process reports to einhorn
}

// atAck sends a signal when the report to einhorn is announced, and gives it
// time to arrive.
type atAck struct{}

func (atAck) Write(b []byte) (int, error) {
	if strings.Contains(string(b), "ACK") {
		syscall.Kill(os.Getpid(), syscall.SIGUSR2)
		time.Sleep(300 * time.Millisecond)
	}
	return os.Stderr.Write(b)
}

const childVar = "GOJI_CHILD"

// other is a listener of a type unknown to goji.
type other struct{ net.Listener }

// failing gives an error instead of a connection.
type failing struct {
	net.Listener
	err error
}

func (f failing) Accept() (net.Conn, error) { return nil, f.err }

func certificate() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(7), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"goji.test"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// child is the program under test: an application that uses package goji the
// way its documentation shows.
func child(arg string) {
	var j job
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		panic(err)
	}
	extra := flag.String("extra", "unset", "a flag of the application")
	if j.Parsed {
		flag.Parse()
		// The application has the last word about its flags.
		flag.Set("extra", "fixed")
	}
	var out sync.Mutex
	say := func(f string, args ...interface{}) {
		out.Lock()
		fmt.Fprintf(os.Stdout, f+"\n", args...)
		out.Unlock()
	}
	gates := map[string]chan bool{"1": make(chan bool), "2": make(chan bool), "3": make(chan bool)}
	goji.Get("/quick/:name", func(c web.C, w http.ResponseWriter, r *http.Request) {
		fmt.Fprintf(w, "quick %s %s", c.URLParams["name"], *extra)
	})
	goji.Get("/slow/:n", func(c web.C, w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, "begin ")
		w.(http.Flusher).Flush()
		say("entered %s", c.URLParams["n"])
		<-gates[c.URLParams["n"]]
		io.WriteString(w, "end "+c.URLParams["n"])
	})
	goji.Get("/panic", func(w http.ResponseWriter, r *http.Request) { panic("oh no") })
	expvar.NewString("check").Set("expvar works")
	http.HandleFunc("/std/", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "standard") })
	goji.NotFound(func(w http.ResponseWriter, r *http.Request) { http.Error(w, "nothing here", 404) })
	// Without its parent the child is of no use.
	go func() {
		in := bufio.NewScanner(os.Stdin)
		for in.Scan() {
			switch f := strings.Fields(in.Text()); f[0] {
			case "release":
				gates[f[1]] <- true
			case "late":
				goji.Get("/late", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "late") })
				say("registered")
			case "shutdown":
				go graceful.Shutdown()
			case "now":
				go graceful.ShutdownNow()
			}
		}
		os.Exit(99)
	}()
	if j.AtAck {
		log.SetOutput(atAck{})
	}
	switch j.Entry {
	case "Serve":
		goji.Serve()
	case "ServeTLS":
		goji.ServeTLS(&tls.Config{Certificates: []tls.Certificate{certificate()}, MinVersion: tls.VersionTLS13})
	case "ServeListener":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		switch j.Kind {
		case "other":
			l = other{l}
		case "unix":
			l.Close()
			if l, err = net.Listen("unix", "serve.sock"); err != nil {
				panic(err)
			}
		case "tls":
			l = tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{certificate()}})
		}
		switch j.Fail {
		case "error":
			l = failing{l, errors.New("the listener is broken")}
		case "closed":
			l.Close()
		}
		goji.ServeListener(l)
	}
	say("returned")
}

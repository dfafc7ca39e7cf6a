package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"io"
	"math/big"
	"net"
	"sync"
	"time"
)

// client is the client's end of a connection: it never blocks its caller, and
// keeps all that it receives.
type client struct {
	mu   sync.Mutex
	cond *sync.Cond
	conn net.Conn
	out  []byte
	shut bool
	got  []byte
	eof  bool
}

func newClient(raw *mconn, secure bool) *client {
	c := &client{conn: raw}
	c.cond = sync.NewCond(&c.mu)
	if secure {
		c.conn = tls.Client(raw, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"http/1.1"}})
	}
	go func() { // sends
		reading := false
		for {
			c.mu.Lock()
			for len(c.out) == 0 && !c.shut {
				c.cond.Wait()
			}
			b, shut := c.out, c.shut
			c.out = nil
			c.mu.Unlock()
			if len(b) > 0 {
				c.conn.Write(b)
				if secure && !reading {
					reading = true
					go c.receive(c.conn)
				}
			}
			if shut {
				raw.Close()
				return
			}
		}
	}()
	if !secure {
		go c.receive(raw)
	} else {
		// The end shows even before anything was sent.
		go func() {
			raw.in.mu.Lock()
			for !raw.in.eof && !raw.in.broken {
				raw.in.cond.Wait()
			}
			raw.in.mu.Unlock()
			c.mu.Lock()
			c.eof = true
			c.mu.Unlock()
		}()
	}
	return c
}

func (c *client) receive(r io.Reader) {
	b := make([]byte, 4096)
	for {
		n, err := r.Read(b)
		c.mu.Lock()
		c.got = append(c.got, b[:n]...)
		if err != nil {
			c.eof = true
		}
		c.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (c *client) Write(b []byte) {
	c.mu.Lock()
	c.out = append(c.out, b...)
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *client) Close() {
	c.mu.Lock()
	c.shut = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *client) received() ([]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.got...), c.eof
}

var certOnce sync.Once
var theCert tls.Certificate

// cert is a self-signed certificate, the same one for a whole process.
func cert() tls.Certificate {
	certOnce.Do(func() { theCert = makeCert("localhost") })
	return theCert
}

func makeCert(name string) tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name},
		NotBefore: time.Unix(0, 0), NotAfter: time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true,
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

func serverTLS() *tls.Config { return &tls.Config{Certificates: []tls.Certificate{cert()}} }

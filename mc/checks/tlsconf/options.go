package main

import (
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"math/big"
	"os"
	"path/filepath"
	"sync/atomic"
	"time"
)

// material is the set of keys shared by the servers and clients of a process.
type material struct {
	dir               string
	server, other, ec tls.Certificate // loaded from files, set by the caller, chosen by callbacks
	files             [2][2]string
	ca, foreignCA     *x509.CertPool
	client, foreign   tls.Certificate
	echConfig         []byte
	echList           []byte
	echKey            []byte
}

func cert(cn string, key any, pub any, parent *x509.Certificate, parentKey any, client bool) ([]byte, *x509.Certificate) {
	serial, _ := rand.Int(rand.Reader, big.NewInt(1<<60))
	tpl := &x509.Certificate{
		SerialNumber: serial, Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		DNSNames:    []string{"a.test", "public.test"},
	}
	if parent == nil {
		tpl.IsCA, tpl.BasicConstraintsValid = true, true
		tpl.KeyUsage |= x509.KeyUsageCertSign
		parent, parentKey = tpl, key
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, parent, pub, parentKey)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return der, c
}

func newMaterial(dir string) *material {
	m := &material{dir: dir}
	ec := func() *ecdsa.PrivateKey { k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader); return k }
	// The server's certificate is an RSA one, so that every cipher suite is
	// possible.
	rk, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	write := func(i int, cn string) tls.Certificate {
		der, _ := cert(cn, rk, &rk.PublicKey, nil, nil, false)
		kb, _ := x509.MarshalPKCS8PrivateKey(rk)
		m.files[i] = [2]string{filepath.Join(dir, cn+".crt"), filepath.Join(dir, cn+".key")}
		os.WriteFile(m.files[i][0], pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600)
		os.WriteFile(m.files[i][1], pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb}), 0o600)
		c, err := tls.LoadX509KeyPair(m.files[i][0], m.files[i][1])
		if err != nil {
			panic(err)
		}
		return c
	}
	m.server = write(0, "loaded")
	write(1, "second")
	k1, k2 := ec(), ec()
	d1, _ := cert("other", k1, &k1.PublicKey, nil, nil, false)
	m.other = tls.Certificate{Certificate: [][]byte{d1}, PrivateKey: k1}
	d2, _ := cert("callback", k2, &k2.PublicKey, nil, nil, false)
	m.ec = tls.Certificate{Certificate: [][]byte{d2}, PrivateKey: k2}
	issue := func(cn string) (tls.Certificate, *x509.CertPool) {
		ck, lk := ec(), ec()
		_, ca := cert(cn+" CA", ck, &ck.PublicKey, nil, nil, true)
		der, _ := cert(cn, lk, &lk.PublicKey, ca, ck, true)
		p := x509.NewCertPool()
		p.AddCert(ca)
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: lk}, p
	}
	m.client, m.ca = issue("client")
	m.foreign, m.foreignCA = issue("foreign")

	k, _ := ecdh.X25519().GenerateKey(rand.Reader)
	m.echKey = k.Bytes()
	pub := k.PublicKey().Bytes()
	body := []byte{7, 0, 0x20, 0, byte(len(pub))}
	body = append(body, pub...)
	body = append(body, 0, 4, 0, 1, 0, 1, 32, byte(len("public.test")))
	body = append(body, "public.test"...)
	body = append(body, 0, 0)
	m.echConfig = append([]byte{0xfe, 0x0d, 0, byte(len(body))}, body...)
	m.echList = append([]byte{0, byte(len(m.echConfig))}, m.echConfig...)
	return m
}

// probe counts what a server's configuration was asked for.
type probe struct {
	n [16]atomic.Int64
}

const (
	pTime = iota
	pRand
	pGetCert
	pGetConfig
	pVerifyPeer
	pVerifyConn
	pKeyLog
	pWrap
	pUnwrap
	pECH
	pInner
	pCacheGet
	pClientCert
)

var probeNames = []string{"Time", "Rand", "GetCertificate", "GetConfigForClient", "VerifyPeerCertificate", "VerifyConnection", "KeyLogWriter", "WrapSession", "UnwrapSession", "GetEncryptedClientHelloKeys", "callback configuration", "ClientSessionCache", "GetClientCertificate"}

// take reads the counters: whether each was used, and reset.
func (p *probe) take() string {
	s := ""
	for i, n := range probeNames {
		if p.n[i].Swap(0) > 0 {
			s += " " + n
		}
	}
	return s
}

type countReader struct{ p *probe }

func (c countReader) Read(b []byte) (int, error) { c.p.n[pRand].Add(1); return rand.Read(b) }

type countWriter struct{ p *probe }

func (c countWriter) Write(b []byte) (int, error) { c.p.n[pKeyLog].Add(1); return len(b), nil }

type countCache struct{ p *probe }

func (c countCache) Get(string) (*tls.ClientSessionState, bool) {
	c.p.n[pCacheGet].Add(1)
	return nil, false
}
func (c countCache) Put(string, *tls.ClientSessionState) { c.p.n[pCacheGet].Add(1) }

// option is a value for one field of the configuration. Fields without a
// server-side effect are there too: setting them must not disturb anything.
type option struct {
	Field, Value string
	Set          func(c *tls.Config, p *probe)
}

func options(m *material) []option {
	var l []option
	add := func(field, value string, f func(c *tls.Config, p *probe)) {
		l = append(l, option{field, value, f})
	}
	refused := errors.New("refused by callback")
	add("Rand", "counting", func(c *tls.Config, p *probe) { c.Rand = countReader{p} })
	add("Time", "now", func(c *tls.Config, p *probe) {
		c.Time = func() time.Time { p.n[pTime].Add(1); return time.Now() }
	})
	add("Time", "2090", func(c *tls.Config, p *probe) {
		c.Time = func() time.Time { p.n[pTime].Add(1); return time.Now().AddDate(64, 0, 0) }
	})
	add("Certificates", "another", func(c *tls.Config, p *probe) { c.Certificates = []tls.Certificate{m.other} })
	add("Certificates", "two others", func(c *tls.Config, p *probe) { c.Certificates = []tls.Certificate{m.other, m.ec} })
	add("NameToCertificate", "another for a.test", func(c *tls.Config, p *probe) { c.NameToCertificate = map[string]*tls.Certificate{"a.test": &m.other} })
	add("GetCertificate", "another for a.test", func(c *tls.Config, p *probe) {
		c.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			p.n[pGetCert].Add(1)
			if h.ServerName == "a.test" {
				return &m.ec, nil
			}
			return nil, nil
		}
	})
	add("GetCertificate", "error", func(c *tls.Config, p *probe) {
		c.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) { p.n[pGetCert].Add(1); return nil, refused }
	})
	add("GetClientCertificate", "error", func(c *tls.Config, p *probe) {
		c.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
			p.n[pClientCert].Add(1)
			return nil, refused
		}
	})
	add("GetConfigForClient", "nil", func(c *tls.Config, p *probe) {
		c.GetConfigForClient = func(*tls.ClientHelloInfo) (*tls.Config, error) { p.n[pGetConfig].Add(1); return nil, nil }
	})
	add("GetConfigForClient", "another, for a.test", func(c *tls.Config, p *probe) {
		c.GetConfigForClient = func(h *tls.ClientHelloInfo) (*tls.Config, error) {
			p.n[pGetConfig].Add(1)
			if h.ServerName != "a.test" {
				return nil, nil
			}
			return &tls.Config{Certificates: []tls.Certificate{m.ec}, MaxVersion: tls.VersionTLS12, VerifyConnection: func(tls.ConnectionState) error { p.n[pInner].Add(1); return nil }}, nil
		}
	})
	add("GetConfigForClient", "error", func(c *tls.Config, p *probe) {
		c.GetConfigForClient = func(*tls.ClientHelloInfo) (*tls.Config, error) { p.n[pGetConfig].Add(1); return nil, refused }
	})
	add("VerifyPeerCertificate", "ok", func(c *tls.Config, p *probe) {
		c.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { p.n[pVerifyPeer].Add(1); return nil }
	})
	add("VerifyPeerCertificate", "error", func(c *tls.Config, p *probe) {
		c.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { p.n[pVerifyPeer].Add(1); return refused }
	})
	add("VerifyConnection", "ok", func(c *tls.Config, p *probe) {
		c.VerifyConnection = func(tls.ConnectionState) error { p.n[pVerifyConn].Add(1); return nil }
	})
	add("VerifyConnection", "error", func(c *tls.Config, p *probe) {
		c.VerifyConnection = func(tls.ConnectionState) error { p.n[pVerifyConn].Add(1); return refused }
	})
	add("RootCAs", "empty", func(c *tls.Config, p *probe) { c.RootCAs = x509.NewCertPool() })
	add("NextProtos", "empty", func(c *tls.Config, p *probe) { c.NextProtos = []string{} })
	add("NextProtos", "http/1.1", func(c *tls.Config, p *probe) { c.NextProtos = []string{"http/1.1"} })
	add("NextProtos", "private", func(c *tls.Config, p *probe) { c.NextProtos = []string{"private/1"} })
	add("NextProtos", "private, http/1.1", func(c *tls.Config, p *probe) { c.NextProtos = []string{"private/1", "http/1.1"} })
	add("ServerName", "other.test", func(c *tls.Config, p *probe) { c.ServerName = "other.test" })
	for _, a := range []tls.ClientAuthType{tls.RequestClientCert, tls.RequireAnyClientCert, tls.VerifyClientCertIfGiven, tls.RequireAndVerifyClientCert} {
		add("ClientAuth", a.String(), func(c *tls.Config, p *probe) { c.ClientAuth = a })
	}
	add("ClientCAs", "the client's", func(c *tls.Config, p *probe) { c.ClientCAs = m.ca })
	add("ClientCAs", "another", func(c *tls.Config, p *probe) { c.ClientCAs = m.foreignCA })
	add("InsecureSkipVerify", "true", func(c *tls.Config, p *probe) { c.InsecureSkipVerify = true })
	add("CipherSuites", "one", func(c *tls.Config, p *probe) {
		c.CipherSuites = []uint16{tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384}
	})
	add("CipherSuites", "an old one", func(c *tls.Config, p *probe) {
		c.CipherSuites = []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA}
	})
	add("CipherSuites", "none", func(c *tls.Config, p *probe) { c.CipherSuites = []uint16{} })
	add("PreferServerCipherSuites", "true", func(c *tls.Config, p *probe) { c.PreferServerCipherSuites = true })
	add("SessionTicketsDisabled", "true", func(c *tls.Config, p *probe) { c.SessionTicketsDisabled = true })
	add("SessionTicketKey", "fixed", func(c *tls.Config, p *probe) { c.SessionTicketKey = [32]byte{1, 2, 3} })
	add("SetSessionTicketKeys", "fixed", func(c *tls.Config, p *probe) { c.SetSessionTicketKeys([][32]byte{{4, 5, 6}, {7}}) })
	add("ClientSessionCache", "counting", func(c *tls.Config, p *probe) { c.ClientSessionCache = countCache{p} })
	add("UnwrapSession", "none", func(c *tls.Config, p *probe) {
		c.UnwrapSession = func(id []byte, cs tls.ConnectionState) (*tls.SessionState, error) {
			p.n[pUnwrap].Add(1)
			return nil, nil
		}
	})
	add("UnwrapSession", "plain", func(c *tls.Config, p *probe) {
		c.UnwrapSession = func(id []byte, cs tls.ConnectionState) (*tls.SessionState, error) {
			p.n[pUnwrap].Add(1)
			return tls.ParseSessionState(id)
		}
	})
	add("WrapSession", "plain", func(c *tls.Config, p *probe) {
		c.WrapSession = func(cs tls.ConnectionState, s *tls.SessionState) ([]byte, error) {
			p.n[pWrap].Add(1)
			return s.Bytes()
		}
	})
	for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13} {
		add("MinVersion", tls.VersionName(v), func(c *tls.Config, p *probe) { c.MinVersion = v })
		add("MaxVersion", tls.VersionName(v), func(c *tls.Config, p *probe) { c.MaxVersion = v })
	}
	add("CurvePreferences", "P-384", func(c *tls.Config, p *probe) { c.CurvePreferences = []tls.CurveID{tls.CurveP384} })
	add("CurvePreferences", "X25519", func(c *tls.Config, p *probe) { c.CurvePreferences = []tls.CurveID{tls.X25519} })
	add("DynamicRecordSizingDisabled", "true", func(c *tls.Config, p *probe) { c.DynamicRecordSizingDisabled = true })
	add("Renegotiation", "freely", func(c *tls.Config, p *probe) { c.Renegotiation = tls.RenegotiateFreelyAsClient })
	add("KeyLogWriter", "counting", func(c *tls.Config, p *probe) { c.KeyLogWriter = countWriter{p} })
	add("EncryptedClientHelloConfigList", "set", func(c *tls.Config, p *probe) { c.EncryptedClientHelloConfigList = m.echList })
	add("EncryptedClientHelloRejectionVerify", "error", func(c *tls.Config, p *probe) {
		c.EncryptedClientHelloRejectionVerify = func(tls.ConnectionState) error { return refused }
	})
	key := tls.EncryptedClientHelloKey{Config: m.echConfig, PrivateKey: m.echKey}
	add("GetEncryptedClientHelloKeys", "the key", func(c *tls.Config, p *probe) {
		c.GetEncryptedClientHelloKeys = func(*tls.ClientHelloInfo) ([]tls.EncryptedClientHelloKey, error) {
			p.n[pECH].Add(1)
			return []tls.EncryptedClientHelloKey{key}, nil
		}
	})
	add("EncryptedClientHelloKeys", "the key", func(c *tls.Config, p *probe) { c.EncryptedClientHelloKeys = []tls.EncryptedClientHelloKey{key} })
	return l
}

// client is a kind of client: it makes one or two connections.
type client struct {
	Name  string
	Conf  func(m *material, c *tls.Config)
	Twice bool // a second connection resumes the session
	Prime bool // the first connection is made to another server with the same configuration
}

func clients() []client {
	sni := func(c *tls.Config) { c.ServerName = "a.test" }
	return []client{
		{Name: "plain, no name", Conf: func(m *material, c *tls.Config) {}},
		{Name: "name, protocols", Conf: func(m *material, c *tls.Config) { sni(c); c.NextProtos = []string{"private/1", "http/1.1"} }},
		{Name: "unknown protocol", Conf: func(m *material, c *tls.Config) { c.NextProtos = []string{"unknown"} }},
		{Name: "TLS 1.2", Conf: func(m *material, c *tls.Config) {
			sni(c)
			c.MaxVersion = tls.VersionTLS12
			c.NextProtos = []string{"http/1.1"}
		}},
		{Name: "TLS 1.1", Conf: func(m *material, c *tls.Config) { c.MinVersion, c.MaxVersion = tls.VersionTLS10, tls.VersionTLS11 }},
		{Name: "TLS 1.0", Conf: func(m *material, c *tls.Config) { c.MinVersion, c.MaxVersion = tls.VersionTLS10, tls.VersionTLS10 }},
		{Name: "old cipher", Conf: func(m *material, c *tls.Config) {
			c.MaxVersion = tls.VersionTLS12
			c.CipherSuites = []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA}
		}},
		{Name: "certificate", Conf: func(m *material, c *tls.Config) { sni(c); c.Certificates = []tls.Certificate{m.client} }},
		{Name: "certificate, TLS 1.2", Conf: func(m *material, c *tls.Config) {
			c.MaxVersion = tls.VersionTLS12
			c.Certificates = []tls.Certificate{m.client}
		}},
		{Name: "resumption", Conf: func(m *material, c *tls.Config) { sni(c) }, Twice: true},
		{Name: "resumption, TLS 1.2", Conf: func(m *material, c *tls.Config) { sni(c); c.MaxVersion = tls.VersionTLS12 }, Twice: true},
		{Name: "resumption from another server", Conf: func(m *material, c *tls.Config) { sni(c) }, Twice: true, Prime: true},
		{Name: "encrypted hello", Conf: func(m *material, c *tls.Config) {
			sni(c)
			c.MinVersion = tls.VersionTLS13
			c.EncryptedClientHelloConfigList = m.echList
			c.EncryptedClientHelloRejectionVerify = func(tls.ConnectionState) error { return nil }
		}},
	}
}

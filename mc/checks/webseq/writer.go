package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"

	"github.com/zenazn/goji/web/mutil"
	"verif.local/mc/kit"
)

func init() {
	checks["C13"] = c13
	checks["C14"] = c14
}

// under is the wrapped writer: it behaves like the ones of package net/http.
type under struct {
	hdr     http.Header
	status  int // final status, 0 if none was sent
	info    []int
	extra   int // superfluous WriteHeader calls
	body    int
	bodyS   []byte
	flushes int
	failAt  int // accept only this many more bytes (-1: no limit)
	log     []string
}

var errFull = errors.New("client went away")
var errTee = errors.New("tee is broken")

func (u *under) Header() http.Header {
	if u.hdr == nil {
		u.hdr = http.Header{}
	}
	return u.hdr
}

func (u *under) WriteHeader(c int) {
	if u.status != 0 {
		u.extra++
		return
	}
	if c >= 100 && c < 200 && c != 101 {
		u.info = append(u.info, c)
		return
	}
	u.status = c
}

func (u *under) Write(b []byte) (int, error) {
	if u.status == 0 {
		u.status = 200
	}
	n := len(b)
	var err error
	if u.failAt >= 0 && n > u.failAt {
		n, err = u.failAt, errFull
	}
	if u.failAt >= 0 {
		u.failAt -= n
	}
	u.body += n
	u.bodyS = append(u.bodyS, b[:n]...)
	return n, err
}

func (u *under) flush() {
	if u.status == 0 {
		u.status = 200
	}
	u.flushes++
}

func (u *under) readFrom(r io.Reader) (int64, error) {
	buf := make([]byte, 2)
	var t int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, werr := u.Write(buf[:n])
			t += int64(k)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

type tee struct {
	got  []byte
	fail bool
}

func (t *tee) Write(b []byte) (int, error) {
	if t.fail {
		return 0, errTee
	}
	t.got = append(t.got, b...)
	return len(b), nil
}

// src is a reader that gives n bytes in chunks and then err.
type src struct {
	s   string
	err error
}

func (s *src) Read(b []byte) (int, error) {
	if s.s == "" {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := copy(b, s.s[:1])
	s.s = s.s[n:]
	return n, nil
}

var errSrc = errors.New("source is broken")

var errHijack = errors.New("hijacked (test)")

type fullWriter struct{ *under }

func (u fullWriter) Flush()                                       { u.flush() }
func (u fullWriter) ReadFrom(r io.Reader) (int64, error)          { return u.readFrom(r) }
func (u fullWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, errHijack }

type flushOnly struct{ *under }

func (u flushOnly) Flush() { u.flush() }

type plainWriter struct{ *under }

// c13: the accounting of the proxy.
func c13(r *kit.Run) {
	r.Rule = "state: history of calls on a proxied response writer; transition: one call; after each call Status, BytesWritten and what reached the tees and the client are compared with a writer that behaves like net/http's"
	type op struct {
		name string
		kind string
		n    int
	}
	ops := []op{
		{"WriteHeader(200)", "wh", 200}, {"WriteHeader(404)", "wh", 404}, {"WriteHeader(103)", "wh", 103}, {"WriteHeader(101)", "wh", 101},
		{"Write(0)", "w", 0}, {"Write(1)", "w", 1}, {"Write(3)", "w", 3}, {"client accepts one more byte", "fail", 1},
		{"ReadFrom(3)", "rf", 3}, {"ReadFrom(0)", "rf", 0}, {"ReadFrom(2, then error)", "rfe", 2},
		{"Flush", "fl", 0}, {"Tee(first)", "tee", 0}, {"Tee(second)", "tee", 1}, {"Tee(broken)", "tee", 2}, {"Tee(nil)", "tee", 3},
	}
	// A nested writer is wrapped twice, as by two layers of middleware; the
	// inner proxy has a tee of its own.
	shapes := []string{"plain", "flusher", "full", "nested plain", "nested flusher", "nested full"}
	depth := kit.Pick(r, 5, 6)
	for n := 0; n <= depth; n++ {
		r.Seqs(n, len(ops), func(w *kit.Watch, seq []int) {
			for _, shape := range shapes {
				nested := strings.HasPrefix(shape, "nested")
				if nested && n == depth {
					continue
				}
				what := func() string {
					var l []string
					for _, s := range seq {
						l = append(l, ops[s].name)
					}
					return shape + " writer: " + strings.Join(l, "; ")
				}
				w.Case(what, func() {
					u := &under{failAt: -1}
					var raw http.ResponseWriter
					switch shape {
					case "plain", "nested plain":
						raw = plainWriter{u}
					case "flusher", "nested flusher":
						raw = flushOnly{u}
					default:
						raw = fullWriter{u}
					}
					var inner mutil.WriterProxy
					innerTee := &tee{}
					if nested {
						inner = mutil.WrapWriter(raw)
						inner.Tee(innerTee)
						raw = inner
					}
					p := mutil.WrapWriter(raw)
					tees := []*tee{{}, {}, {fail: true}}
					want := [3][]byte{}
					cur := -1
					var first int // the first final status asked for
					for i, s := range seq {
						o := ops[s]
						fail := func(f string, args ...interface{}) {
							r.Violation("writer/"+o.kind, fmt.Sprintf("%s: after step %d (%s): %s", what(), i+1, o.name, fmt.Sprintf(f, args...)), nil)
						}
						before := len(u.bodyS)
						infos := len(u.info)
						full := u.failAt == 0 // the client takes nothing any more
						var gotN int64 = -1
						var gotErr, wantErr error
						switch o.kind {
						case "wh":
							p.WriteHeader(o.n)
							if o.n >= 200 || o.n == 101 {
								if first == 0 {
									first = o.n
								}
							} else if first == 0 && len(u.info) != infos+1 {
								fail("the informational header %d was not passed on", o.n)
								return
							}
						case "w":
							k, err := p.Write([]byte("abcdef")[:o.n])
							gotN, gotErr = int64(k), err
							if first == 0 {
								first = 200
							}
						case "fail":
							u.failAt = o.n
							continue
						case "rf", "rfe":
							rd := &src{s: "uvwxyz"[:o.n]}
							if o.kind == "rfe" {
								rd.err = errSrc
							}
							// What io.Copy does for handlers.
							gotN, gotErr = io.Copy(p, rd)
							wantErr = rd.err
						case "fl":
							if f, ok := p.(http.Flusher); ok {
								k := u.flushes
								f.Flush()
								if first == 0 {
									first = 200
								}
								if u.flushes != k+1 {
									fail("the flush did not reach the client")
									return
								}
							}
						case "tee":
							cur = o.n
							if cur == 3 {
								cur = -1
								p.Tee(nil)
							} else {
								p.Tee(tees[cur])
							}
						}
						wrote := u.bodyS[before:]
						if (len(wrote) > 0 || u.status != 0) && first == 0 {
							first = 200
						}
						if cur >= 0 && cur < 2 {
							want[cur] = append(want[cur], wrote...)
						}
						if u.extra > 0 {
							fail("the proxied writer saw a superfluous WriteHeader")
							return
						}
						if u.status != first {
							fail("the client was sent status %d, the handler asked for %d", u.status, first)
							return
						}
						if p.Status() != u.status {
							fail("Status is %d, the client was sent %d", p.Status(), u.status)
							return
						}
						if p.BytesWritten() != u.body {
							fail("BytesWritten is %d, the client was sent %d bytes", p.BytesWritten(), u.body)
							return
						}
						if nested && (inner.Status() != u.status || inner.BytesWritten() != u.body || string(innerTee.got) != string(u.bodyS)) {
							fail("the inner proxy reports status %d, %d bytes and its tee %q; the client was sent %d, %q", inner.Status(), inner.BytesWritten(), innerTee.got, u.status, u.bodyS)
							return
						}
						for t := range want {
							if string(tees[t].got) != string(want[t]) {
								fail("tee %d got %q, expected %q", t, tees[t].got, want[t])
								return
							}
						}
						if gotN >= 0 {
							if gotN != int64(len(wrote)) {
								fail("it returned %d, the client was sent %d bytes", gotN, len(wrote))
								return
							}
							if full && o.n > 0 && gotErr != errFull || o.kind == "w" && gotN < int64(o.n) && gotErr != errFull {
								fail("it returned error %v, the one of the proxied writer is %v", gotErr, errFull)
								return
							}
							switch {
							case u.failAt == 0 && gotErr == errFull:
							case gotErr == wantErr:
								if o.kind == "w" && int(gotN) < o.n {
									fail("a short write returned no error")
									return
								}
								if cur == 2 && o.kind == "w" && gotN > 0 {
									fail("the error of the tee was not reported")
									return
								}
							case cur == 2 && gotErr == errTee:
							default:
								fail("it returned error %v, expected %v", gotErr, wantErr)
								return
							}
						}
					}
					if p.Unwrap() != raw {
						r.Violation("unwrap", what()+": Unwrap does not return the proxied writer", nil)
						return
					}
					r.States.Add(1)
					r.Transitions.Add(int64(len(seq)))
					r.Traces.Add(1)
				})
			}
		})
	}
	r.Bound("every sequence of at most %d of %d calls on 3 shapes of writer, and of at most %d on the same wrapped twice", depth, len(ops), depth-1)
	r.Assume("the proxied writer treats status codes like net/http: 1xx (but 101) are informational, the first other one is final, the first write or flush sends 200")
	r.Sample("full writer: WriteHeader(103); WriteHeader(404); ReadFrom(3); Flush")
}

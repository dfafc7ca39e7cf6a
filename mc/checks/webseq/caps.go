package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"

	"github.com/zenazn/goji/web/mutil"
	"verif.local/mc/kit"
)

// capable implements every optional interface and records the calls.
type capable struct {
	*under
	log []string
	ch  chan bool
}

type xFlusher struct{ c *capable }
type xHijacker struct{ c *capable }
type xReaderFrom struct{ c *capable }
type xPusher struct{ c *capable }
type xCloseNotifier struct{ c *capable }

var errPush = errors.New("push refused (test)")
var hijConn, hijPeer = net.Pipe()
var hijRW = bufio.NewReadWriter(bufio.NewReader(hijConn), bufio.NewWriter(hijConn))

func (x xFlusher) Flush() { x.c.log = append(x.c.log, "Flush"); x.c.under.flush() }
func (x xHijacker) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	x.c.log = append(x.c.log, "Hijack")
	return hijConn, hijRW, errHijack
}
func (x xReaderFrom) ReadFrom(r io.Reader) (int64, error) {
	x.c.log = append(x.c.log, "ReadFrom")
	return x.c.under.readFrom(r)
}
func (x xPusher) Push(t string, o *http.PushOptions) error {
	x.c.log = append(x.c.log, fmt.Sprintf("Push(%s,%p)", t, o))
	return errPush
}
func (x xCloseNotifier) CloseNotify() <-chan bool {
	x.c.log = append(x.c.log, "CloseNotify")
	return x.c.ch
}

// withCaps makes a writer with exactly the given optional interfaces.
func withCaps(c *capable, caps int) http.ResponseWriter {
	switch caps {
	case 0:
		return struct {
			*under
		}{c.under}
	case 1:
		return struct {
			*under
			xFlusher
		}{c.under, xFlusher{c}}
	case 2:
		return struct {
			*under
			xHijacker
		}{c.under, xHijacker{c}}
	case 3:
		return struct {
			*under
			xFlusher
			xHijacker
		}{c.under, xFlusher{c}, xHijacker{c}}
	case 4:
		return struct {
			*under
			xReaderFrom
		}{c.under, xReaderFrom{c}}
	case 5:
		return struct {
			*under
			xFlusher
			xReaderFrom
		}{c.under, xFlusher{c}, xReaderFrom{c}}
	case 6:
		return struct {
			*under
			xHijacker
			xReaderFrom
		}{c.under, xHijacker{c}, xReaderFrom{c}}
	case 7:
		return struct {
			*under
			xFlusher
			xHijacker
			xReaderFrom
		}{c.under, xFlusher{c}, xHijacker{c}, xReaderFrom{c}}
	case 8:
		return struct {
			*under
			xPusher
		}{c.under, xPusher{c}}
	case 9:
		return struct {
			*under
			xFlusher
			xPusher
		}{c.under, xFlusher{c}, xPusher{c}}
	case 10:
		return struct {
			*under
			xHijacker
			xPusher
		}{c.under, xHijacker{c}, xPusher{c}}
	case 11:
		return struct {
			*under
			xFlusher
			xHijacker
			xPusher
		}{c.under, xFlusher{c}, xHijacker{c}, xPusher{c}}
	case 12:
		return struct {
			*under
			xReaderFrom
			xPusher
		}{c.under, xReaderFrom{c}, xPusher{c}}
	case 13:
		return struct {
			*under
			xFlusher
			xReaderFrom
			xPusher
		}{c.under, xFlusher{c}, xReaderFrom{c}, xPusher{c}}
	case 14:
		return struct {
			*under
			xHijacker
			xReaderFrom
			xPusher
		}{c.under, xHijacker{c}, xReaderFrom{c}, xPusher{c}}
	case 15:
		return struct {
			*under
			xFlusher
			xHijacker
			xReaderFrom
			xPusher
		}{c.under, xFlusher{c}, xHijacker{c}, xReaderFrom{c}, xPusher{c}}
	case 16:
		return struct {
			*under
			xCloseNotifier
		}{c.under, xCloseNotifier{c}}
	case 17:
		return struct {
			*under
			xFlusher
			xCloseNotifier
		}{c.under, xFlusher{c}, xCloseNotifier{c}}
	case 18:
		return struct {
			*under
			xHijacker
			xCloseNotifier
		}{c.under, xHijacker{c}, xCloseNotifier{c}}
	case 19:
		return struct {
			*under
			xFlusher
			xHijacker
			xCloseNotifier
		}{c.under, xFlusher{c}, xHijacker{c}, xCloseNotifier{c}}
	case 20:
		return struct {
			*under
			xReaderFrom
			xCloseNotifier
		}{c.under, xReaderFrom{c}, xCloseNotifier{c}}
	case 21:
		return struct {
			*under
			xFlusher
			xReaderFrom
			xCloseNotifier
		}{c.under, xFlusher{c}, xReaderFrom{c}, xCloseNotifier{c}}
	case 22:
		return struct {
			*under
			xHijacker
			xReaderFrom
			xCloseNotifier
		}{c.under, xHijacker{c}, xReaderFrom{c}, xCloseNotifier{c}}
	case 23:
		return struct {
			*under
			xFlusher
			xHijacker
			xReaderFrom
			xCloseNotifier
		}{c.under, xFlusher{c}, xHijacker{c}, xReaderFrom{c}, xCloseNotifier{c}}
	case 24:
		return struct {
			*under
			xPusher
			xCloseNotifier
		}{c.under, xPusher{c}, xCloseNotifier{c}}
	case 25:
		return struct {
			*under
			xFlusher
			xPusher
			xCloseNotifier
		}{c.under, xFlusher{c}, xPusher{c}, xCloseNotifier{c}}
	case 26:
		return struct {
			*under
			xHijacker
			xPusher
			xCloseNotifier
		}{c.under, xHijacker{c}, xPusher{c}, xCloseNotifier{c}}
	case 27:
		return struct {
			*under
			xFlusher
			xHijacker
			xPusher
			xCloseNotifier
		}{c.under, xFlusher{c}, xHijacker{c}, xPusher{c}, xCloseNotifier{c}}
	case 28:
		return struct {
			*under
			xReaderFrom
			xPusher
			xCloseNotifier
		}{c.under, xReaderFrom{c}, xPusher{c}, xCloseNotifier{c}}
	case 29:
		return struct {
			*under
			xFlusher
			xReaderFrom
			xPusher
			xCloseNotifier
		}{c.under, xFlusher{c}, xReaderFrom{c}, xPusher{c}, xCloseNotifier{c}}
	case 30:
		return struct {
			*under
			xHijacker
			xReaderFrom
			xPusher
			xCloseNotifier
		}{c.under, xHijacker{c}, xReaderFrom{c}, xPusher{c}, xCloseNotifier{c}}
	case 31:
		return struct {
			*under
			xFlusher
			xHijacker
			xReaderFrom
			xPusher
			xCloseNotifier
		}{c.under, xFlusher{c}, xHijacker{c}, xReaderFrom{c}, xPusher{c}, xCloseNotifier{c}}
	}
	panic("caps")
}

var capNames = []string{"Flusher", "Hijacker", "ReaderFrom", "Pusher", "CloseNotifier"}

// c14: the optional interfaces of the proxy, for every subset the proxied writer
// may have.
func c14(r *kit.Run) {
	r.Rule = "state: the subset of optional interfaces of the proxied writer and the calls so far; transition: one call through the proxy; every call must reach the proxied writer with the same arguments and results"
	const calls = 9
	depth := kit.Pick(r, 4, 5)
	names := []string{"Flush", "Hijack", "ReadFrom", "Push", "CloseNotify", "Header", "Write", "WriteHeader", "Tee"}
	for n := 0; n <= depth; n++ {
		r.Seqs(n, calls, func(w *kit.Watch, seq []int) {
			for caps := 0; caps < 32; caps++ {
				what := func() string {
					var l, k []string
					for i, c := range capNames {
						if caps>>uint(i)&1 != 0 {
							l = append(l, c)
						}
					}
					for _, s := range seq {
						k = append(k, names[s])
					}
					return fmt.Sprintf("writer with %v, calls %v", l, k)
				}
				w.Case(what, func() {
					u := &under{failAt: -1}
					c := &capable{under: u, ch: make(chan bool)}
					raw := withCaps(c, caps)
					var p http.ResponseWriter = mutil.WrapWriter(raw)
					fail := func(f string, args ...interface{}) {
						r.Violation("caps", what()+": "+fmt.Sprintf(f, args...), nil)
					}
					if p.(mutil.WriterProxy).Unwrap() != raw {
						fail("Unwrap does not return the proxied writer")
						return
					}
					if mutil.WrapWriter(p).Unwrap() != p {
						fail("Unwrap of a writer that is wrapped twice does not return the inner proxy")
						return
					}
					fl, isF := p.(http.Flusher)
					hj, isH := p.(http.Hijacker)
					_, isR := p.(io.ReaderFrom)
					pu, isP := p.(http.Pusher)
					cn, isC := p.(http.CloseNotifier)
					has := func(i int) bool { return caps>>uint(i)&1 != 0 }
					// Nothing is offered that the writer cannot do
					// (Push may answer ErrNotSupported).
					if isF && !has(0) || isH && !has(1) || isC && !has(4) {
						fail("the proxy offers more than the proxied writer")
						return
					}
					// Nothing essential is lost: flushing always, and the
					// full sets of net/http's HTTP/1 and HTTP/2 writers.
					if has(0) && !isF {
						fail("Flush is lost")
						return
					}
					if has(0) && has(1) && has(2) && !(isH && isR) {
						fail("Hijack or ReadFrom is lost")
						return
					}
					if has(0) && has(3) && !isP {
						fail("Push is lost")
						return
					}
					tees := &tee{}
					teed := false
					var body, teeBody string
					for _, s := range seq {
						c.log = nil
						switch s {
						case 0:
							if isF {
								fl.Flush()
								if len(c.log) != 1 || c.log[0] != "Flush" {
									fail("Flush made the calls %v", c.log)
									return
								}
							}
						case 1:
							if isH {
								a, b, err := hj.Hijack()
								if len(c.log) != 1 || a != hijConn || b != hijRW || err != errHijack {
									fail("Hijack made the calls %v and returned %v", c.log, err)
									return
								}
							}
						case 2:
							k, err := io.Copy(p, &src{s: "abc"})
							body += "abc"
							if teed {
								teeBody += "abc"
							}
							if k != 3 || err != nil {
								fail("copying returned %d, %v", k, err)
								return
							}
						case 3:
							if isP {
								o := &http.PushOptions{}
								err := pu.Push("/x", o)
								if has(3) {
									if len(c.log) != 1 || c.log[0] != fmt.Sprintf("Push(/x,%p)", o) || err != errPush {
										fail("Push made the calls %v and returned %v", c.log, err)
										return
									}
								} else if err != http.ErrNotSupported || len(c.log) != 0 {
									fail("Push without support returned %v", err)
									return
								}
							}
						case 4:
							if isC {
								if ch := cn.CloseNotify(); ch != (<-chan bool)(c.ch) {
									fail("CloseNotify returned another channel")
									return
								}
							}
						case 5:
							p.Header().Set("X", "1")
							if u.hdr.Get("X") != "1" {
								fail("Header is not the one of the proxied writer")
								return
							}
						case 6:
							if k, err := p.Write([]byte("zz")); k != 2 || err != nil {
								fail("Write returned %d, %v", k, err)
								return
							}
							body += "zz"
							if teed {
								teeBody += "zz"
							}
						case 7:
							before := u.status
							p.WriteHeader(202)
							if before == 0 && u.status != 202 {
								fail("WriteHeader(202) sent %d", u.status)
								return
							}
						case 8:
							p.(mutil.WriterProxy).Tee(tees)
							teed = true
						}
						if string(u.bodyS) != body || string(tees.got) != teeBody {
							fail("the client got %q and the tee %q, expected %q and %q", u.bodyS, tees.got, body, teeBody)
							return
						}
					}
					r.States.Add(1)
					r.Transitions.Add(int64(len(seq)))
					r.Traces.Add(1)
				})
			}
		})
	}
	r.Bound("all 32 subsets of the optional interfaces, every sequence of at most %d of %d calls", depth, calls)
	r.Sample("writer with [Flusher Pusher] (HTTP/2), calls [Flush Push Write]")
}

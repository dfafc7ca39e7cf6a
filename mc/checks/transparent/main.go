// Exhaustive bounded check that listeners and connections of package listener
// are transparent (C33).
package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
	"verif.local/mc/kit"
)

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var (
	errRaw   = errors.New("raw: trouble")
	errClose = errors.New("raw: close trouble")
	errSrc   = errors.New("source: trouble")
	errSet   = errors.New("raw: deadline trouble")
	errTime  = &net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}}
)

// raw is the connection underneath. It keeps a list of what was called.
type raw struct {
	calls  []string
	local  net.Addr
	remote net.Addr

	// What the next calls give.
	n    int // how much can still be written before err
	err  error
	give string

	closed int
	block  func(call string)
}

func (c *raw) call(f string, args ...interface{}) {
	c.calls = append(c.calls, fmt.Sprintf(f, args...))
	if c.block != nil {
		c.block(c.calls[len(c.calls)-1])
	}
}

func (c *raw) Read(b []byte) (int, error) {
	c.call("Read(%d)", len(b))
	return copy(b, c.give), c.err
}

func (c *raw) Write(b []byte) (int, error) {
	n := min(len(b), c.n)
	c.call("Write(%q)", b[:n])
	c.n -= n
	if n < len(b) || len(b) == 0 || c.n == 0 {
		return n, c.err
	}
	return n, nil
}

func (c *raw) Close() error {
	c.closed++
	c.call("Close")
	return c.err
}
func (c *raw) LocalAddr() net.Addr                { return c.local }
func (c *raw) RemoteAddr() net.Addr               { return c.remote }
func (c *raw) SetDeadline(t time.Time) error      { c.call("SetDeadline(%v)", t); return c.err }
func (c *raw) SetReadDeadline(t time.Time) error  { c.call("SetReadDeadline(%v)", t); return c.err }
func (c *raw) SetWriteDeadline(t time.Time) error { c.call("SetWriteDeadline(%v)", t); return c.err }

// bulk is a raw connection with a method for copying from a reader, like TCP
// connections have.
type bulk struct{ *raw }

func (c bulk) ReadFrom(r io.Reader) (int64, error) {
	c.calls = append(c.calls, "ReadFrom")
	b, err := io.ReadAll(r)
	n := len(b)
	if n > c.n {
		n = c.n
	}
	c.call("Write(%q)", b[:n])
	if c.err != nil {
		err = c.err
	}
	return int64(n), err
}

// source is a reader that ends in an error after two pieces.
type source struct {
	pieces []string
	err    error
}

func (s *source) Read(b []byte) (int, error) {
	if len(s.pieces) == 0 {
		return 0, s.err
	}
	n := copy(b, s.pieces[0])
	s.pieces = s.pieces[1:]
	return n, nil
}

type addr string

func (a addr) Network() string { return "net-" + string(a) }
func (a addr) String() string  { return string(a) }

type accepted struct {
	c   net.Conn
	err error
}

type rawListener struct {
	next  []accepted
	calls []string
	err   error
}

func (l *rawListener) Accept() (net.Conn, error) {
	l.calls = append(l.calls, "Accept")
	a := l.next[0]
	l.next = l.next[1:]
	return a.c, a.err
}
func (l *rawListener) Close() error   { l.calls = append(l.calls, "Close"); return l.err }
func (l *rawListener) Addr() net.Addr { return addr("here") }

type mode struct {
	name string
	wrap func(net.Listener) net.Listener
}

var modes = []mode{
	{"manual", func(l net.Listener) net.Listener { return listener.Wrap(l, listener.Manual) }},
	{"automatic", func(l net.Listener) net.Listener { return listener.Wrap(l, listener.Automatic) }},
	{"deadline", func(l net.Listener) net.Listener { return listener.Wrap(l, listener.Deadline) }},
	{"graceful.WrapListener", graceful.WrapListener},
}

// state is what the model remembers of a connection.
type state struct{ closed, disowned bool }

// op is one operation on a wrapped connection: do performs it and says what it
// gave and what must have been given, and want says which calls the raw
// connection must have seen.
type op struct {
	name string
	do   func(c net.Conn, r *raw, s *state) (got, want string, calls []string)
}

func res(n interface{}, err error) string {
	if err == nil {
		return fmt.Sprintf("%v, nil", n)
	}
	return fmt.Sprintf("%v, %T %p %v", n, err, err, err)
}

var instant = time.Date(2031, 5, 6, 7, 8, 9, 10, time.UTC)

func ops() []op {
	var l []op
	read := func(size int, give string, err error) {
		l = append(l, op{fmt.Sprintf("Read(%d bytes) giving %q, %v", size, give, err), func(c net.Conn, r *raw, s *state) (string, string, []string) {
			r.give, r.err = give, err
			b := make([]byte, size)
			n, e := c.Read(b)
			k := min(size, len(give))
			got := res(string(b[:n]), e)
			want := res(give[:k], err)
			if s.closed && !s.disowned && err == nil {
				// What was read from a closed connection is dropped.
				if n == 0 && e != nil {
					got, want = "", ""
				} else {
					want = "0 bytes and an error"
				}
			}
			return got, want, []string{fmt.Sprintf("Read(%d)", size)}
		}})
	}
	read(4, "ab", nil)
	read(0, "", nil)
	read(4, "", io.EOF)
	read(4, "xyz", errRaw)
	read(1, "", errTime)
	write := func(data string, n int, err error) {
		l = append(l, op{fmt.Sprintf("Write(%q) giving %d, %v", data, n, err), func(c net.Conn, r *raw, s *state) (string, string, []string) {
			r.n, r.err = n, err
			got := res(c.Write([]byte(data)))
			return got, res(min(n, len(data)), err), []string{fmt.Sprintf("Write(%q)", data[:min(n, len(data))])}
		}})
	}
	write("hello", 5, nil)
	write("hello", 2, errRaw)
	write("hello", 0, errTime)
	write("", 0, nil)
	cp := func(pieces []string, end error, n int, err error) {
		l = append(l, op{fmt.Sprintf("io.Copy of %q ending in %v, writing at most %d, %v", pieces, end, n, err), func(c net.Conn, r *raw, s *state) (string, string, []string) {
			r.n, r.err = n, err
			k, e := io.Copy(c, &source{append([]string(nil), pieces...), end})
			before := len(r.calls)
			// The same on the raw connection is the model.
			r.n = n
			wk, we := io.Copy(c2(c, r), &source{append([]string(nil), pieces...), end})
			calls := append([]string(nil), r.calls[before:]...)
			r.calls = r.calls[:before]
			return res(k, e), res(wk, we), calls
		}})
	}
	cp([]string{"ab", "cde"}, io.EOF, 9, nil)
	cp([]string{"ab"}, errSrc, 9, nil)
	cp([]string{"abc", "d"}, io.EOF, 2, errRaw)
	cp([]string{"abc"}, io.EOF, 1, errTime)
	cp([]string{"a"}, errTime, 9, nil)
	set := func(name string, t time.Time, err error, f func(net.Conn) error) {
		l = append(l, op{fmt.Sprintf("%s giving %v", name, err), func(c net.Conn, r *raw, s *state) (string, string, []string) {
			r.err = err
			return res("", f(c)), res("", err), []string{fmt.Sprintf("%s(%v)", name, t)}
		}})
	}
	set("SetDeadline", instant, nil, func(c net.Conn) error { return c.SetDeadline(instant) })
	set("SetReadDeadline", instant, errSet, func(c net.Conn) error { return c.SetReadDeadline(instant) })
	set("SetReadDeadline", time.Time{}, nil, func(c net.Conn) error { return c.SetReadDeadline(time.Time{}) })
	set("SetWriteDeadline", instant, errSet, func(c net.Conn) error { return c.SetWriteDeadline(instant) })
	l = append(l,
		op{"addresses", func(c net.Conn, r *raw, s *state) (string, string, []string) {
			return fmt.Sprint(c.LocalAddr() == r.local, c.RemoteAddr() == r.remote), "true true", nil
		}},
		op{"MarkIdle", func(c net.Conn, r *raw, s *state) (string, string, []string) {
			return res("", listener.MarkIdle(c)), res("", nil), nil
		}},
		op{"MarkInUse", func(c net.Conn, r *raw, s *state) (string, string, []string) {
			return res("", listener.MarkInUse(c)), res("", nil), nil
		}},
		op{"Disown", func(c net.Conn, r *raw, s *state) (string, string, []string) {
			e := listener.Disown(c)
			ok := !s.closed && !s.disowned
			s.disowned = s.disowned || ok
			return fmt.Sprint(e == nil), fmt.Sprint(ok), nil
		}})
	for _, err := range []error{nil, errClose} {
		l = append(l, op{fmt.Sprintf("Close giving %v", err), func(c net.Conn, r *raw, s *state) (string, string, []string) {
			r.err = err
			e := c.Close()
			if s.closed && !s.disowned {
				// The second time is an error, and does not reach the
				// raw connection.
				return fmt.Sprint(e != nil), "true", nil
			}
			s.closed = true
			return res("", e), res("", err), []string{"Close"}
		}})
	}
	return l
}

// c2 is the raw connection as its type was before it was wrapped.
func c2(c net.Conn, r *raw) net.Conn {
	if r.local == addr("bulk") {
		return bulk{r}
	}
	return r
}

func newRaw(b bool) (net.Conn, *raw) {
	r := &raw{local: addr("plain"), remote: addr("there")}
	if b {
		r.local = addr("bulk")
		return bulk{r}, r
	}
	return r, r
}

func show(l []string) string { return strings.Join(l, "; ") }

// Listeners are big, and used again and again: one set of them per worker.
type sharedL struct {
	raw rawListener
	l   net.Listener
}

type set [4]sharedL

var sets = make(chan *set, 64)

// take gives the listener of a mode with a clean raw listener, and what gives
// it back.
func take(mi int) (*sharedL, func()) {
	var x *set
	select {
	case x = <-sets:
	default:
		x = &set{}
	}
	sh := &x[mi]
	sh.raw = rawListener{}
	if sh.l == nil {
		sh.l = modes[mi].wrap(&sh.raw)
	}
	return sh, func() { sets <- x }
}

func sequences(r *kit.Run) {
	l := ops()
	depth := kit.Pick(r, 4, 5)
	for n := 1; n <= depth; n++ {
		r.Seqs(n, len(l), func(w *kit.Watch, seq []int) {
			for mi, m := range modes {
				for _, b := range []bool{false, true} {
					if mi == 3 && n == depth {
						continue
					}
					what := func() string {
						var s []string
						for _, i := range seq {
							s = append(s, l[i].name)
						}
						return fmt.Sprintf("%s, raw connection with ReadFrom %v: %s", m.name, b, show(s))
					}
					w.Case(what, func() {
						nc, rc := newRaw(b)
						sh, back := take(mi)
						defer back()
						sh.raw.next = []accepted{{nc, nil}}
						c, err := sh.l.Accept()
						if err != nil {
							r.Violation("accept", fmt.Sprintf("%s: Accept: %v", what(), err), nil)
							return
						}
						st := &state{}
						for i, o := range seq {
							rc.calls = nil
							got, want, calls := l[o].do(c, rc, st)
							if got != want {
								r.Violation("result", fmt.Sprintf("%s: operation %d gave %s, and not %s", what(), i+1, got, want), nil)
								return
							}
							// How the data of a copy is cut into writes is open.
							if g, w := flat(rc.calls), flat(calls); g != w {
								r.Violation("calls", fmt.Sprintf("%s: operation %d did %s to the raw connection, and not %s", what(), i+1, g, w), nil)
								return
							}
						}
						rc.err = nil
						c.Close()
						r.Traces.Add(1)
						r.Transitions.Add(int64(len(seq)))
					})
				}
			}
		})
		if r.Failed() {
			return
		}
	}
	r.States.Add(int64(len(l) * len(modes) * 2))
	r.Bound("every sequence of at most %d of %d operations on a connection, in 3 modes and (one operation less) through graceful.WrapListener, with and without a ReadFrom of its own", depth, len(l))
}

// flat joins the data of consecutive writes, and leaves ReadFrom out: what
// counts is what arrives.
func flat(calls []string) string {
	var s []string
	data := ""
	flush := func() {
		if data != "" {
			s = append(s, "Write "+data)
		}
		data = ""
	}
	for _, c := range calls {
		switch {
		case c == "ReadFrom":
		case strings.HasPrefix(c, "Write("):
			data += strings.TrimSuffix(strings.TrimPrefix(c, `Write("`), `")`)
		default:
			flush()
			s = append(s, c)
		}
	}
	flush()
	return show(s)
}

// listeners checks Accept, Addr and Close of the listener.
func listeners(r *kit.Run) {
	outcomes := []struct {
		name string
		err  error
	}{
		{"a connection", nil}, {"a plain error", errRaw}, {"a timeout", &net.OpError{Op: "accept", Net: "tcp", Err: timeoutErr{}}},
		{"EOF", io.EOF}, {"closed", &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}},
	}
	k := len(outcomes)
	depth := kit.Pick(r, 5, 6)
	for n := 1; n <= depth; n++ {
		r.Seqs(n, k, func(w *kit.Watch, seq []int) {
			for mi, m := range modes[:3] {
				for _, closeAt := range []int{-1, 0, n / 2, n} {
					for _, cerr := range []error{nil, errClose} {
						what := func() string {
							var s []string
							for i, o := range seq {
								if i == closeAt {
									s = append(s, fmt.Sprintf("Close giving %v", cerr))
								}
								s = append(s, "Accept giving "+outcomes[o].name)
							}
							return m.name + ": " + show(s)
						}
						w.Case(what, func() {
							sh, back := take(mi)
							defer back()
							rl, wl := &sh.raw, sh.l
							rl.err = cerr
							if wl.Addr() != net.Addr(addr("here")) {
								r.Violation("addr", what()+": another address", nil)
							}
							for i, o := range seq {
								if i == closeAt {
									if err := wl.Close(); err != cerr {
										r.Violation("close", fmt.Sprintf("%s: Close gave %v", what(), err), nil)
									}
									if show(rl.calls[i:]) != "Close" {
										r.Violation("close", fmt.Sprintf("%s: Close did %v", what(), rl.calls[i:]), nil)
									}
									rl.calls = rl.calls[:i]
								}
								var nc net.Conn
								var rc *raw
								if outcomes[o].err == nil {
									nc, rc = newRaw(false)
								}
								rl.next = []accepted{{nc, outcomes[o].err}}
								c, err := wl.Accept()
								if err != outcomes[o].err || (c == nil) != (outcomes[o].err != nil) {
									r.Violation("accept", fmt.Sprintf("%s: Accept %d gave %v, %v", what(), i+1, c, err), nil)
									return
								}
								if len(rl.calls) != i+1 {
									r.Violation("accept", fmt.Sprintf("%s: Accept %d did %v", what(), i+1, rl.calls), nil)
									return
								}
								if rc != nil {
									defer c.Close()
								}
								if rc != nil && (rc.closed != 0 || len(rc.calls) != 0) {
									r.Violation("accept", fmt.Sprintf("%s: Accept %d did %v to the connection", what(), i+1, rc.calls), nil)
									return
								}
							}
							r.Traces.Add(1)
							r.Transitions.Add(int64(n))
						})
					}
				}
			}
		})
	}
	r.States.Add(int64(k * 3))
	r.Bound("every sequence of at most %d results of Accept, with Close in between, in 3 modes", depth)
	// Connections of others are not managed, and not touched.
	for _, c := range []net.Conn{&raw{}, bulk{&raw{}}, nil, wrapped{accept(modes[0])}} {
		for _, f := range []func(net.Conn) error{listener.Disown, listener.MarkIdle, listener.MarkInUse} {
			if f(c) == nil {
				r.Violation("foreign", fmt.Sprintf("a connection of type %T counts as managed", c), nil)
			}
			if x, ok := c.(*raw); ok && len(x.calls) > 0 {
				r.Violation("foreign", fmt.Sprintf("a connection that is not managed: %v", x.calls), nil)
			}
			r.Transitions.Add(1)
		}
	}
	// A listener of this package is not wrapped again.
	for _, m := range modes[:3] {
		l := m.wrap(&rawListener{})
		if graceful.WrapListener(l) != l {
			r.Violation("double-wrap", m.name+": graceful.WrapListener wraps a listener.T again", nil)
		}
	}
}

type wrapped struct{ net.Conn }

func accept(m mode) net.Conn {
	nc, _ := newRaw(false)
	c, _ := m.wrap(&rawListener{next: []accepted{{nc, nil}}}).Accept()
	return c
}

// blocked checks that a call that blocks in the raw connection holds up no
// other call.
func blocked(r *kit.Run, t *testing.T) {
	type call struct {
		name string
		do   func(l *listener.T, c net.Conn)
	}
	firsts := []call{
		{"Read", func(l *listener.T, c net.Conn) { c.Read(make([]byte, 1)) }},
		{"Write", func(l *listener.T, c net.Conn) { c.Write([]byte("x")) }},
		{"io.Copy", func(l *listener.T, c net.Conn) { io.Copy(c, &source{[]string{"x"}, io.EOF}) }},
	}
	seconds := append(append([]call(nil), firsts...),
		call{"Close", func(l *listener.T, c net.Conn) { c.Close() }},
		call{"SetDeadline", func(l *listener.T, c net.Conn) { c.SetDeadline(instant) }},
		call{"SetReadDeadline", func(l *listener.T, c net.Conn) { c.SetReadDeadline(instant) }},
		call{"SetWriteDeadline", func(l *listener.T, c net.Conn) { c.SetWriteDeadline(instant) }},
		call{"LocalAddr", func(l *listener.T, c net.Conn) { c.LocalAddr() }},
		call{"MarkIdle", func(l *listener.T, c net.Conn) { listener.MarkIdle(c) }},
		call{"MarkInUse", func(l *listener.T, c net.Conn) { listener.MarkInUse(c) }},
		call{"Disown", func(l *listener.T, c net.Conn) { listener.Disown(c) }},
		call{"CloseIdle", func(l *listener.T, c net.Conn) { l.CloseIdle() }},
		call{"DrainAll", func(l *listener.T, c net.Conn) { l.DrainAll() }},
		call{"Accept", func(l *listener.T, c net.Conn) { l.Accept() }},
		call{"closing the listener", func(l *listener.T, c net.Conn) { l.Close() }},
		call{"the listener's address", func(l *listener.T, c net.Conn) { l.Addr() }},
	)
	// A call that waits for a lock never ends, and the watch sees that.
	w := r.Watch()
	defer w.Stop()
	count := 0
	for _, m := range modes[:3] {
		for _, busy := range []bool{false, true} {
			for _, b := range []bool{false, true} {
				for _, f := range firsts {
					for _, s := range seconds {
						for _, s2 := range append(seconds, call{}) {
							what := fmt.Sprintf("%s, marked in use %v, ReadFrom %v: while %s blocks in the raw connection, %s; %s", m.name, busy, b, f.name, s.name, s2.name)
							done, stuck := 0, false
							w.Case(func() string { return what }, func() {
								synctest.Test(t, func(t *testing.T) {
									nc, rc := newRaw(b)
									release := make(chan bool)
									first := true
									rc.block = func(string) {
										if first {
											first = false
											<-release
										}
									}
									other, _ := newRaw(false)
									other2, _ := newRaw(false)
									l := m.wrap(&rawListener{next: []accepted{{nc, nil}, {other, nil}, {other2, nil}}}).(*listener.T)
									c, err := l.Accept()
									if err != nil {
										return
									}
									if busy {
										listener.MarkInUse(c)
									}
									go f.do(l, c)
									synctest.Wait()
									go func() {
										s.do(l, c)
										done++
										if s2.do != nil {
											s2.do(l, c)
										}
										done++
									}()
									synctest.Wait()
									stuck = done != 2
									close(release)
									synctest.Wait()
								})
							})
							count++
							if stuck {
								r.Violation("blocked", what+": call "+fmt.Sprint(done+1)+" does not return", nil)
								return
							}
						}
					}
				}
			}
		}
	}
	r.Traces.Add(int64(count))
	r.Transitions.Add(int64(3 * count))
	r.States.Add(int64(len(firsts) * 12))
	r.Bound("3 calls that block in the raw connection, with every sequence of 1 or 2 of %d other calls", len(seconds))
}

func main() {
	testing.Init()
	flag.Parse()
	r := kit.New(*kit.Prop)
	r.Rule = "state: a wrapped connection with a history of operations; transition: one operation; compared with the same operation on the raw connection"
	r.Assume("the raw connection is a scripted fake")
	asTest(func(t *testing.T) {
		sequences(r)
		if !r.Failed() {
			listeners(r)
		}
		if !r.Failed() {
			blocked(r, t)
		}
		r.Finish()
	})
}

func asTest(f func(t *testing.T)) {
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "x", F: func(t *testing.T) { f(t); os.Exit(0) }}}, nil, nil)
	os.Exit(3)
}

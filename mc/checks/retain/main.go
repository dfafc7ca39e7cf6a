// Check of C37: nothing of what is over is kept. Every history of a bounded
// length is turned into a loop; what the process holds must not grow with the
// number of times that the loop is run, and the objects of finished connections
// and requests must become garbage.
package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"weak"

	"github.com/zenazn/goji/graceful/listener"
	"verif.local/mc/kit"
)

func main() {
	flag.Parse()
	log.SetOutput(io.Discard)
	debug.SetGCPercent(-1) // collections happen when they are asked for
	debug.SetMemoryLimit(4 << 30)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null // Recoverer prints stacks
	}
	r := kit.New(*kit.Prop)
	r.Rule = "state: what the process holds after a history was repeated so many times; transition: one step of a history (an operation on a connection or listener, a request, an edit of a mux)"
	r.Assume("what the garbage collector of Go has not collected after several forced runs is still referred to")
	for _, p := range []struct {
		name string
		f    func(*kit.Run)
	}{{"connections", connections}, {"drained", drained}, {"web", webLoops}, {"edits", edits}, {"server", server}} {
		if *kit.Only == "" || strings.Contains(p.name, *kit.Only) {
			p.f(r)
		}
	}
	r.Finish()
}

// obj is what connections, requests and contexts of the harness refer to.
type obj struct {
	pad  [64]byte
	self *obj
}

// collect runs the garbage collector until nothing more can be expected.
func collect() {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
}

func heap() int64 {
	collect()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func alive(l []weak.Pointer[obj]) (n int) {
	for _, p := range l {
		if p.Value() != nil {
			n++
		}
	}
	return n
}

// goroutines waits for the number of goroutines to come down to what it was.
func goroutines(want int) int {
	n := 0
	for i := 0; i < 400; i++ {
		if n = runtime.NumGoroutine(); n <= want {
			return n
		}
		time.Sleep(5 * time.Millisecond)
	}
	return n
}

// loop repeats a history and reports what stays behind. lap runs it once (the
// argument is never the same) and returns the objects that must be let go. What
// the process holds may differ by slack bytes for each lap.
func loop(r *kit.Run, key, desc string, laps, slack int, lap func(i int) []weak.Pointer[obj]) {
	i := 0
	run := func(n int) (l []weak.Pointer[obj]) {
		for ; n > 0; n-- {
			i++
			l = append(l, lap(i)...)
			r.Transitions.Add(1)
		}
		return l
	}
	run(laps / 4)
	r.States.Add(1)
	r.Traces.Add(1)
	for try := 0; ; try++ {
		g := runtime.NumGoroutine()
		l := make([]weak.Pointer[obj], 0)
		before := heap()
		n := laps
		if try > 0 {
			n = 4 * laps
		}
		l = run(n)
		after := goroutines(g)
		collect()
		kept := alive(l)
		l = nil
		grown := heap() - before
		what := ""
		switch {
		case after >= g+n/2:
			what = fmt.Sprintf("%d goroutines more", after-g)
		case kept >= n/2:
			what = fmt.Sprintf("%d of the finished connections, requests or contexts are still referred to", kept)
		case grown > int64(slack*n):
			what = fmt.Sprintf("%d bytes more in use", grown)
		}
		if what == "" {
			return
		}
		if try < 2 { // once is no trend
			continue
		}
		r.Violation(key, fmt.Sprintf("%s: after %d times more there are %s", desc, n, what), map[string]any{"history": desc})
		return
	}
}

// ---------------------------------------------------------------- connections

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

// fakeListener hands out the connections that are given to it.
type fakeListener struct{ next net.Conn }

func (f *fakeListener) Accept() (net.Conn, error) {
	c := f.next
	f.next = nil
	if c == nil {
		return nil, errors.New("nothing to accept")
	}
	return c, nil
}
func (f *fakeListener) Close() error   { return nil }
func (f *fakeListener) Addr() net.Addr { return addr{} }

type fakeConn struct {
	o      *obj
	fail   bool
	refuse bool // Close fails
}

func (c *fakeConn) Read(b []byte) (int, error) {
	if c.fail {
		return 0, io.EOF
	}
	return len(b), nil
}
func (c *fakeConn) Write(b []byte) (int, error) { return len(b), nil }
func (c *fakeConn) Close() error {
	if c.refuse {
		return io.ErrClosedPipe
	}
	return nil
}
func (c *fakeConn) LocalAddr() net.Addr                { return addr{} }
func (c *fakeConn) RemoteAddr() net.Addr               { return addr{} }
func (c *fakeConn) SetDeadline(t time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }

type connOp struct {
	name string
	do   func(t *listener.T, c net.Conn, f *fakeConn)
}

func connOps() []connOp {
	return []connOp{
		{"Read", func(t *listener.T, c net.Conn, f *fakeConn) { var b [1]byte; f.fail = false; c.Read(b[:]) }},
		{"failing Read", func(t *listener.T, c net.Conn, f *fakeConn) { var b [1]byte; f.fail = true; c.Read(b[:]) }},
		{"Write", func(t *listener.T, c net.Conn, f *fakeConn) { c.Write([]byte("x")) }},
		{"SetReadDeadline", func(t *listener.T, c net.Conn, f *fakeConn) { c.SetReadDeadline(time.Time{}) }},
		{"MarkIdle", func(t *listener.T, c net.Conn, f *fakeConn) { listener.MarkIdle(c) }},
		{"MarkInUse", func(t *listener.T, c net.Conn, f *fakeConn) { listener.MarkInUse(c) }},
		{"Disown", func(t *listener.T, c net.Conn, f *fakeConn) { listener.Disown(c) }},
		{"Close", func(t *listener.T, c net.Conn, f *fakeConn) { c.Close() }},
		{"CloseIdle", func(t *listener.T, c net.Conn, f *fakeConn) { t.CloseIdle() }},
	}
}

func names(ops []connOp, seq []int) string {
	var l []string
	for _, s := range seq {
		l = append(l, ops[s].name)
	}
	return strings.Join(l, ", ")
}

//go:noinline
func oneConn(t *listener.T, fl *fakeListener, ops []connOp, seq []int, end int) weak.Pointer[obj] {
	o := &obj{}
	o.self = o
	f := &fakeConn{o: o, refuse: end >= 2}
	fl.next = f
	c, err := t.Accept()
	if err == nil {
		for _, s := range seq {
			ops[s].do(t, c, f)
		}
		if end%2 == 1 {
			listener.Disown(c)
		}
		c.Close()
	}
	return weak.Make(o)
}

// connections: every sequence of operations on a connection, which ends closed
// or disowned, leaves nothing in a listener that goes on.
func connections(r *kit.Run) {
	ops := connOps()
	depth := kit.Pick(r, 5, 7)
	r.Bound("all sequences of up to %d of %d operations on a connection in the three modes, ended by Close or Disown, where closing fails (in those of up to 6) or not", depth, len(ops))
	n := 0
	for mode, wrap := range map[string]func(net.Listener) *listener.T{
		"Manual":    func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Manual) },
		"Automatic": func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Automatic) },
		"Deadline":  func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Deadline) },
	} {
		fl := &fakeListener{}
		t := wrap(fl)
		type one struct {
			seq []int
			end int
			p   weak.Pointer[obj]
		}
		var batch []one
		check := func() {
			collect()
			for _, b := range batch {
				if b.p.Value() == nil || r.Failed() {
					continue
				}
				// Once may be chance, or the last one only.
				loop(r, "connections "+mode+" "+names(ops, b.seq)+fmt.Sprint(b.end), fmt.Sprintf("a connection in %s mode: %s, then %s", mode, names(ops, b.seq), []string{"Close", "Disown and Close", "Close, which fails", "Disown and Close, which fails"}[b.end]), 200, 12,
					func(int) []weak.Pointer[obj] { return []weak.Pointer[obj]{oneConn(t, fl, ops, b.seq, b.end)} })
			}
			batch = batch[:0]
		}
		for k := 0; k <= depth; k++ {
			kit.Sequences(k, len(ops), func(seq []int) bool {
				for end := 0; end < 4 && (end < 2 || k < 7); end++ {
					batch = append(batch, one{append([]int{}, seq...), end, oneConn(t, fl, ops, seq, end)})
					r.States.Add(1)
					r.Traces.Add(1)
					r.Transitions.Add(int64(len(seq)))
					n++
				}
				if len(batch) >= 20000 {
					check()
				}
				return !r.Failed()
			})
		}
		if check(); r.Failed() {
			return
		}
		// Whole loops with the process as the witness, for shorter ones.
		for k := 0; k <= kit.Pick(r, 2, 3); k++ {
			kit.Sequences(k, len(ops), func(seq []int) bool {
				loop(r, "connections loop "+mode+" "+names(ops, seq), fmt.Sprintf("a connection in %s mode: %s, then Close", mode, names(ops, seq)), 400, 12,
					func(int) []weak.Pointer[obj] { return []weak.Pointer[obj]{oneConn(t, fl, ops, seq, 0)} })
				return !r.Failed()
			})
		}
	}
	r.Part("connections", map[string]any{"sequences": n, "depth": depth})
}

// draining returns when all of the listener refuses connections.
func draining(t *listener.T, fl *fakeListener) {
	for refused := 0; refused < 64; refused++ {
		fl.next = &fakeConn{}
		if c, err := t.Accept(); err == nil {
			c.Close()
			refused = 0
			time.Sleep(time.Millisecond)
		}
	}
}

// drained: connections that are refused by, or outlive, a draining listener.
func drained(r *kit.Run) {
	ops := connOps()
	n := 0
	for mode, wrap := range map[string]func(net.Listener) *listener.T{
		"Manual":    func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Manual) },
		"Automatic": func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Automatic) },
		"Deadline":  func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Deadline) },
	} {
		fl := &fakeListener{}
		t := wrap(fl)
		t.DrainAll()
		loop(r, "drained refused "+mode, "connections that a drained listener in "+mode+" mode refuses", 400, 12,
			func(int) []weak.Pointer[obj] { return []weak.Pointer[obj]{oneConn(t, fl, ops, nil, 0)} })
		// A connection that was busy when the drain began: operations, then
		// the drain, then operations.
		for k := 0; k <= 2; k++ {
			kit.Sequences(k, len(ops), func(seq []int) bool {
				fl := &fakeListener{}
				t := wrap(fl)
				var l []weak.Pointer[obj]
				func() {
					var conns []net.Conn
					var fakes []*fakeConn
					for i := 0; i < 64; i++ {
						o := &obj{}
						o.self = o
						l = append(l, weak.Make(o))
						f := &fakeConn{o: o, refuse: i%2 == 1}
						fl.next = f
						c, err := t.Accept()
						if err != nil {
							r.Violation("drained accept", fmt.Sprintf("Accept fails in %s mode: %v", mode, err), nil)
							return
						}
						listener.MarkInUse(c)
						conns, fakes = append(conns, c), append(fakes, f)
					}
					done := make(chan bool)
					go func() { t.Drain(); close(done) }()
					draining(t, fl)
					for i, c := range conns {
						for _, s := range seq {
							ops[s].do(t, c, fakes[i])
						}
						c.Close()
						listener.MarkIdle(c)
						c.SetReadDeadline(time.Time{})
					}
					<-done
				}()
				collect()
				if k := alive(l); k > 16 {
					collect()
					if k = alive(l); k > 16 {
						r.Violation("drained "+mode+" "+names(ops, seq), fmt.Sprintf("64 connections in %s mode are in use when a drain begins; then %s, Close, MarkIdle, SetReadDeadline: %d of them are still referred to", mode, names(ops, seq), k), map[string]any{"ops": names(ops, seq)})
					}
				}
				runtime.KeepAlive(t)
				r.States.Add(1)
				r.Traces.Add(1)
				r.Transitions.Add(int64(64 * (k + 4)))
				n++
				return !r.Failed()
			})
		}
	}
	r.Bound("all sequences of up to 2 operations on connections that are in use when a drain begins, in the three modes; connections that are refused")
	r.Part("drained", map[string]any{"sequences": n})
}

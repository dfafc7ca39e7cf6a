// Checks of package graceful (C26 to C28) under the controlled scheduler, on top
// of a model of net/http.Server.
package main

import (
	"errors"
	"flag"
	"fmt"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
	"verif.local/mc/hist"
	"verif.local/mc/kit"
	"verif.local/mc/vrt"
)

// world is one process that serves, as its parts see it.
type world struct {
	ev      vrt.Event
	log     []string
	wg      vrt.WaitGroup
	raws    []*kit.FListener
	conns   []*cn
	begun   bool // some shutdown was requested
	forced  bool // an immediate shutdown may happen
	pre     int  // pre-hooks run so far
	post    int
	npre    int
	npost   int
	preArg  []os.Signal
	postArg []os.Signal
	served  int // serve loops that returned
	serves  int
	hook    func(c *cn, rw http.ResponseWriter) // what every handler does
}

// cn is a connection and its scripted client.
type cn struct {
	*kit.FConn
	w         *world
	wc        net.Conn
	states    []http.ConnState
	block     func() // what the handler does
	protected bool   // being handled since before any shutdown was requested
	hijack    bool
	hijacked  net.Conn
	entered   int
	accepted  bool // by the scenario itself
}

func newWorld() *world {
	listener.VerifReset()
	graceful.VerifReset()
	vrt.MarkDaemon()
	return &world{}
}

func (w *world) note(format string, args ...interface{}) {
	w.ev.Point()
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func (w *world) spawn(name string, f func()) {
	w.wg.Add(1)
	vrt.Spawn(name, func() { f(); w.wg.Done() })
}

// hooks registers n pre- and post-hooks that check their place in the order.
func (w *world) hooks(n int) {
	for i := 0; i < n; i++ {
		i := i
		w.npre++
		w.npost++
		pre := func(s os.Signal, arg bool) {
			w.note("pre%d", i)
			if w.pre != i {
				vrt.Failf("pre-hook %d ran when %d pre-hooks had run", i, w.pre)
			}
			w.pre++
			if arg {
				w.preArg = append(w.preArg, s)
			}
			for _, r := range w.raws {
				if r.Closed > 0 {
					vrt.Failf("a listener was closed before pre-hook %d ran", i)
				}
			}
		}
		post := func(s os.Signal, arg bool) {
			w.note("post%d", i)
			if w.post != i {
				vrt.Failf("post-hook %d ran when %d post-hooks had run", i, w.post)
			}
			w.post++
			if arg {
				w.postArg = append(w.postArg, s)
			}
			w.quiet(fmt.Sprintf("post-hook %d ran", i))
		}
		// Every second hook is of the kind that is not told the signal.
		if i%2 == 1 {
			graceful.PreHook(func() { pre(nil, false) })
			graceful.PostHook(func() { post(nil, false) })
			continue
		}
		graceful.PreHookWithSignal(func(s os.Signal) { pre(s, true) })
		graceful.PostHookWithSignal(func(s os.Signal) { post(s, true) })
	}
}

// told checks which signal the hooks were given.
func (w *world) told(sig os.Signal) {
	for _, a := range append(append([]os.Signal(nil), w.preArg...), w.postArg...) {
		if a != sig {
			vrt.Failf("the hooks got %v and %v, expected the signal %v", w.preArg, w.postArg, sig)
		}
	}
}

// quiet checks that the shutdown's own work is done.
func (w *world) quiet(what string) {
	if w.pre != w.npre {
		vrt.Failf("%s although only %d of %d pre-hooks have run", what, w.pre, w.npre)
	}
	for i, r := range w.raws {
		if r.Closed == 0 {
			vrt.Failf("%s although listener %d is still open", what, i)
		}
	}
	for _, c := range w.conns {
		if (len(c.states) > 0 || c.accepted) && c.Closed == 0 && c.hijacked == nil {
			vrt.Failf("%s although connection %s is still open", what, c.Name)
		}
	}
}

// over checks that everything, hooks included, is done.
func (w *world) over(what string) {
	w.ev.Peek()
	w.quiet(what)
	if w.post != w.npost {
		vrt.Failf("%s although only %d of %d post-hooks have run", what, w.post, w.npost)
	}
}

func (w *world) listen() *kit.FListener {
	r := &kit.FListener{}
	w.raws = append(w.raws, r)
	return r
}

// conn is a connection with n requests ready.
func (w *world) conn(r *kit.FListener, name string, n int) *cn {
	c := &cn{FConn: &kit.FConn{Name: name, Avail: n}, w: w}
	c.Frozen = func() bool { return c.protected && !w.forced }
	c.OnWrite = func() { c.protected = false }
	w.conns = append(w.conns, c)
	if r != nil {
		r.Queue = append(r.Queue, c.FConn)
	}
	return c
}

func (w *world) find(name string) *cn {
	for _, c := range w.conns {
		if c.Name == name {
			return c
		}
	}
	panic("unknown connection " + name)
}

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	c := w.find(r.RemoteAddr)
	w.ev.Peek()
	c.protected = !w.begun
	c.entered++
	if w.hook != nil {
		w.hook(c, rw)
		return
	}
	if c.hijack {
		nc, _, err := rw.(http.Hijacker).Hijack()
		if err != nil {
			vrt.Failf("Hijack: %v", err)
		}
		c.hijacked = nc
		c.protected = false
		return
	}
	if c.block != nil {
		c.block()
	}
	c.Ev.Peek()
}

// serve runs a server until it returns; it must return nil.
func (w *world) serve(r *kit.FListener) {
	w.serves++
	w.spawn("serve", func() {
		err := w.server().Serve(r)
		if err != nil {
			vrt.Failf("Serve returned %v after a shutdown", err)
		}
		w.served++
	})
}

// start is serve, and waits until the server accepts.
func (w *world) start(r *kit.FListener) {
	w.serve(r)
	r.Ev.Await(func() bool { return r.Accepts > 0 })
}

func (w *world) server() *graceful.Server {
	return &graceful.Server{Handler: w, ConnState: func(nc net.Conn, s http.ConnState) {
		c := w.find(nc.RemoteAddr().String())
		c.wc = nc
		c.states = append(c.states, s)
	}}
}

// shutdown requests a shutdown and checks the world when the call returns.
func (w *world) shutdown(now bool) {
	w.begin(now)
	if now {
		graceful.ShutdownNow()
		w.over("ShutdownNow returned")
	} else {
		graceful.Shutdown()
		w.over("Shutdown returned")
	}
}

func (w *world) begin(now bool) {
	w.ev.Point()
	w.begun = true
	if now {
		w.forced = true
	}
}

func (w *world) wait(name string) {
	w.spawn(name, func() {
		graceful.Wait()
		w.over("Wait returned")
	})
}

// end joins everything.
func (w *world) end() {
	w.wg.Wait()
	vrt.Recv(vrt.After(time.Hour)) // let anything that is late happen
	w.over("the process came to rest")
	if w.post != w.npost || w.pre != w.npre {
		vrt.Failf("%d pre-hooks and %d post-hooks ran", w.pre, w.post)
	}
	for _, c := range w.conns {
		checkStates(c)
		vrt.Outcome("%s:%d/%d/%v ", c.Name, c.entered, c.Writes, c.Closed > 0)
	}
	vrt.Outcome("%s", strings.Join(w.log, " "))
}

// checkStates: the callback saw an ordinary life of a connection.
func checkStates(c *cn) {
	s := fmt.Sprint(c.states)
	if len(c.states) == 0 {
		return
	}
	for i, st := range c.states {
		last := i == len(c.states)-1
		ok := false
		switch st {
		case http.StateNew:
			ok = i == 0
		case http.StateActive:
			ok = i > 0 && (c.states[i-1] == http.StateNew || c.states[i-1] == http.StateIdle)
		case http.StateIdle:
			ok = i > 0 && c.states[i-1] == http.StateActive
		case http.StateClosed:
			ok = i > 0 && last
		case http.StateHijacked:
			ok = i > 0 && c.states[i-1] == http.StateActive && last
		}
		if !ok {
			vrt.Failf("the ConnState callback saw %s on %s", s, c.Name)
		}
	}
	if l := c.states[len(c.states)-1]; l != http.StateClosed && l != http.StateHijacked {
		vrt.Failf("the ConnState callback saw only %s on %s", s, c.Name)
	}
	if (c.hijacked != nil) != (c.states[len(c.states)-1] == http.StateHijacked) {
		vrt.Failf("the ConnState callback saw %s on %s, hijacked=%v", s, c.Name, c.hijacked != nil)
	}
}

// untilClosed is a handler that never ends by itself.
func (c *cn) untilClosed() { c.Ev.Await(func() bool { return c.Closed > 0 }) }

// gate is a handler that waits for the harness.
type gate struct {
	ev   vrt.Event
	open bool
}

func (g *gate) wait() { g.ev.Await(func() bool { return g.open }) }
func (g *gate) let()  { g.ev.Point(); g.open = true }

func explorer(body func()) *vrt.Explorer {
	return &vrt.Explorer{Races: true, WgReuse: true, Horizon: 20000, Body: body}
}

func c26(r *kit.Run) []kit.Scenario {
	var out []kit.Scenario
	add := func(name string, body func(w *world)) *kit.Scenario {
		out = append(out, kit.Scenario{Name: name, BoundQuick: 3, BoundThorough: 5, Delay: true, Full: true, SecQuick: 40, SecThorough: 800, Make: func() *vrt.Explorer {
			return explorer(func() { body(newWorld()) })
		}})
		return &out[len(out)-1]
	}
	add("no-listener/three-shutdowns", func(w *world) {
		w.hooks(2)
		w.wait("wait")
		w.spawn("s1", func() { w.shutdown(false) })
		w.spawn("s2", func() { w.shutdown(true) })
		w.shutdown(false)
		w.end()
	})
	add("busy-and-idle/shutdown", func(w *world) {
		w.hooks(2)
		r := w.listen()
		a := w.conn(r, "a", 1)
		w.conn(r, "b", 0)
		var g gate
		a.block = g.wait
		w.start(r)
		w.wait("wait")
		w.spawn("finish", g.let)
		w.shutdown(false)
		w.end()
	})
	add("busy/two-shutdowns", func(w *world) {
		w.hooks(2)
		r := w.listen()
		a := w.conn(r, "a", 1)
		var g gate
		a.block = g.wait
		w.start(r)
		w.wait("wait")
		w.spawn("s1", func() { w.shutdown(false) })
		w.spawn("s2", func() { w.shutdown(false) })
		g.let()
		w.end()
	})
	add("busy/shutdown+now", func(w *world) {
		w.hooks(1)
		r := w.listen()
		a := w.conn(r, "a", 1)
		a.block = a.untilClosed
		w.start(r)
		w.wait("wait")
		w.spawn("now", func() { w.shutdown(true) })
		w.shutdown(false)
		w.end()
	})
	add("busy/now", func(w *world) {
		w.hooks(2)
		r := w.listen()
		a := w.conn(r, "a", 1)
		w.conn(r, "b", 0)
		a.block = a.untilClosed
		w.start(r)
		w.wait("wait")
		w.shutdown(true)
		w.end()
	})
	// Listeners that are wrapped for servers other than this package's.
	add("wrapped", func(w *world) {
		late := vrt.Choose(2, "wrapped late") == 1
		how := vrt.Choose(4, "wrapped already")
		now := vrt.Choose(2, "now") == 1
		r := &kit.FListener{}
		if !late {
			w.hooks(2)
			w.raws = append(w.raws, r)
		}
		a := w.conn(r, "a", 0)
		a.Frozen = nil
		wrap := func() net.Listener {
			if how == 0 {
				return graceful.WrapListener(r)
			}
			mode := listener.Manual
			if how == 2 {
				mode = listener.Automatic
			} else if how == 3 {
				mode = listener.Deadline
			}
			t := listener.Wrap(r, mode)
			l := graceful.WrapListener(t)
			if l != net.Listener(t) {
				vrt.Failf("WrapListener wraps a listener again that is already wrapped")
			}
			return l
		}
		accept := func(l net.Listener) {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				a.accepted = true
				vrt.Sleep(time.Second)
				c.Close()
			}
		}
		if late {
			w.spawn("accept", func() { accept(wrap()) })
		} else {
			l := wrap()
			w.spawn("accept", func() { accept(l) })
		}
		if late {
			if now {
				graceful.ShutdownNow()
			} else {
				graceful.Shutdown()
			}
			graceful.Wait()
			w.wg.Wait()
			w.raws = append(w.raws, r)
		} else {
			w.wait("wait")
			w.shutdown(now)
		}
		w.end()
	}).BoundQuick = 2
	add("keep-alive/shutdown", func(w *world) {
		w.hooks(1)
		r := w.listen()
		a := w.conn(r, "a", 1)
		w.start(r)
		w.spawn("client", func() { a.Feed(1) })
		w.shutdown(false)
		w.end()
	})
	add("two-listeners", func(w *world) {
		w.hooks(1)
		r1, r2 := w.listen(), w.listen()
		a := w.conn(r1, "a", 1)
		b := w.conn(r2, "b", 1)
		var g gate
		a.block, b.block = g.wait, g.wait
		w.start(r1)
		w.start(r2)
		w.wait("wait")
		w.spawn("finish", g.let)
		w.shutdown(false)
		w.end()
	}).BoundQuick = 2
	add("dial-during-shutdown", func(w *world) {
		w.hooks(1)
		r := w.listen()
		a := w.conn(nil, "a", 1)
		w.start(r)
		w.spawn("client", func() { r.Dial(a.FConn) })
		w.wait("wait")
		w.shutdown(false)
		w.end()
	})
	add("hijacked", func(w *world) {
		// Nothing waits for a hijacked connection, and nobody closes it.
		w.hooks(1)
		r := w.listen()
		a := w.conn(r, "a", 1)
		a.hijack = true
		a.Frozen = func() bool { return a.hijacked != nil }
		w.start(r)
		w.spawn("s", func() { w.shutdown(false) })
		w.shutdown(false)
		w.end()
		if a.hijacked != nil && a.Closed > 0 {
			vrt.Failf("the hijacked connection was closed")
		}
	})
	add("hijacked/now", func(w *world) {
		w.hooks(1)
		r := w.listen()
		a := w.conn(r, "a", 1)
		a.hijack = true
		a.Frozen = func() bool { return a.hijacked != nil }
		w.start(r)
		w.shutdown(true)
		w.end()
	}).BoundQuick = 0
	add("serve-during-shutdown", func(w *world) {
		// The server starts at any moment relative to the shutdown; the
		// hooks cannot know about the listener.
		r := &kit.FListener{}
		w.serve(r)
		w.spawn("shutdown", func() { w.begin(false); graceful.Shutdown() })
		w.wait("wait")
		w.end()
		if r.Closed == 0 {
			vrt.Failf("a listener is still open after the shutdown")
		}
	}).BoundQuick = 0
	add("serve-after-shutdown", func(w *world) {
		w.shutdown(false)
		r := &kit.FListener{}
		w.conn(r, "a", 1)
		w.serve(r)
		w.wait("wait")
		w.wg.Wait()
		if r.Closed == 0 {
			vrt.Failf("a listener is still open after the shutdown")
		}
	}).BoundQuick = 0
	add("wrapped-listener", func(w *world) {
		// A plain accept loop on a wrapped listener.
		w.hooks(1)
		r := w.listen()
		a := w.conn(r, "a", 1)
		l := graceful.WrapListener(r)
		if graceful.WrapListener(l) != l {
			vrt.Failf("WrapListener wrapped twice")
		}
		w.spawn("loop", func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				a.states = append(a.states, http.StateNew)
				w.spawn("conn", func() {
					b := make([]byte, 1)
					for {
						nc.SetReadDeadline(time.Time{})
						if _, err := nc.Read(b); err != nil {
							break
						}
						w.ev.Peek()
						a.protected = !w.begun
						a.Ev.Peek()
						nc.Write(b)
					}
					nc.Close()
					a.states = append(a.states, http.StateClosed)
				})
			}
		})
		w.wait("wait")
		w.shutdown(false)
		w.end()
	})
	add("signal+shutdown", func(w *world) {
		w.hooks(2)
		graceful.HandleSignals()
		r := w.listen()
		a := w.conn(r, "a", 1)
		var g gate
		a.block = g.wait
		w.start(r)
		w.wait("wait")
		w.spawn("signal", func() { w.begin(false); vrt.DeliverSignal(os.Interrupt) })
		w.spawn("finish", g.let)
		w.shutdown(false)
		w.end()
	})
	add("two-signals", func(w *world) {
		w.hooks(1)
		graceful.HandleSignals()
		graceful.DoubleKickWindow(2 * time.Second)
		r := w.listen()
		a := w.conn(r, "a", 1)
		a.block = a.untilClosed
		w.start(r)
		w.spawn("signals", func() {
			w.begin(true)
			vrt.DeliverSignal(os.Interrupt)
			vrt.Sleep(time.Second)
			vrt.DeliverSignal(os.Interrupt)
		})
		w.wait("wait")
		w.end()
	}).BoundQuick = 0
	add("hook-registration-race", func(w *world) {
		ran := 0
		w.spawn("register", func() { graceful.PreHook(func() { ran++ }); graceful.PostHook(func() { ran += 10 }) })
		w.spawn("s", func() { graceful.Shutdown() })
		graceful.Wait()
		w.wg.Wait()
		if ran%10 > 1 || ran/10 > 1 {
			vrt.Failf("hooks ran %d times", ran)
		}
		vrt.Outcome("%d", ran)
	}).BoundQuick = 0
	out = append(out,
		histories("one-connection", "GHXC", 1, kit.Pick(r, 12, 14), true, -1, -1),
		histories("two-connections", "GHX", 2, kit.Pick(r, 8, 9), true, -1, -1),
		histories("schedules-1", "GH", 1, kit.Pick(r, 7, 8), true, 1, 2),
		histories("schedules-2", "GH", 2, kit.Pick(r, 6, 6), true, 1, 2),
	)
	return out
}

// histories puts the server through every history of connections and shutdowns,
// and compares it at rest with the model that the real net/http.Server is
// compared with in checks/e2e. With one schedule per history this shows that the
// stand-in for net/http behaves like it; with delays it shows that the outcome
// does not depend on the schedule.
func histories(name, kinds string, conns, depth int, now bool, quick, thorough int) kit.Scenario {
	return kit.Scenario{Name: fmt.Sprintf("histories/%s/%d-events", name, depth), BoundQuick: quick, BoundThorough: thorough, Delay: true, SecQuick: 40, SecThorough: 800, Make: func() *vrt.Explorer {
		return explorer(func() {
			w := newWorld()
			w.forced = true
			r := w.listen()
			m := &hist.Model{}
			kind := map[*cn]byte{}
			gates := map[*cn]*gate{}
			var ends []bool
			errs := 0
			w.hook = func(c *cn, rw http.ResponseWriter) {
				gates[c].wait()
				gates[c].open = false
				switch kind[c] {
				case 'H':
					nc, _, err := rw.(http.Hijacker).Hijack()
					if err != nil {
						vrt.Failf("Hijack: %v", err)
					}
					c.hijacked = nc
				case 'X':
					panic(http.ErrAbortHandler)
				case 'C':
					rw.Header().Set("Connection", "close")
				}
			}
			vrt.Spawn("serve", func() {
				if err := w.server().Serve(r); err != nil {
					errs++
				}
				w.served++
			})
			done := ""
			step := func(e hist.Event) {
				done += " " + e.String() + ","
				m.Step(e)
				var c *cn
				if e.Op != 'd' && e.Op != 's' && e.Op != 'n' {
					c = w.conns[e.Conn]
				}
				switch e.Op {
				case 'd':
					c = w.conn(nil, fmt.Sprint(e.Conn), 0)
					gates[c] = &gate{}
					if r.Closed == 0 {
						r.Dial(c.FConn)
					}
				case 'g':
					gates[c].let()
				case 'q':
					c.Ev.Point()
					c.EOF, c.Broken = true, true
				case 's', 'n':
					k := len(ends)
					ends = append(ends, false)
					vrt.Spawn("shutdown", func() {
						if e.Op == 'n' {
							graceful.ShutdownNow()
						} else {
							graceful.Shutdown()
						}
						ends[k] = true
					})
				default:
					kind[c] = e.Op
					c.Feed(1)
				}
				vrt.Recv(vrt.After(time.Second)) // comes to rest
				w.ev.Peek()
				for i, c := range w.conns {
					mc := &m.C[i]
					if mc.Refused {
						if r.Taken > i {
							vrt.Failf("after%s connection %d was accepted", done, i)
						}
						continue
					}
					if c.entered != mc.Entered || (c.Closed == 0) != mc.Open || fmt.Sprint(c.states) != fmt.Sprint(mc.States) {
						vrt.Failf("after%s connection %d: entered %d, open %v, states %v; expected %d, %v, %v", done, i, c.entered, c.Closed == 0, c.states, mc.Entered, mc.Open, mc.States)
					}
					if !mc.Gone && !mc.Any && c.Writes != len(mc.Bodies) {
						vrt.Failf("after%s connection %d has got %d responses, expected %d", done, i, c.Writes, len(mc.Bodies))
					}
				}
				for _, e := range ends {
					if e != m.Done() {
						vrt.Failf("after%s the shutdowns have returned: %v, expected %v", done, ends, m.Done())
					}
				}
				if m.Begun != (w.served == 1) || errs > 0 {
					vrt.Failf("after%s Serve has returned %d times, %d with errors", done, w.served, errs)
				}
			}
			for n := 0; n < depth; n++ {
				var next []hist.Event
				for _, e := range m.Enabled(kinds, conns, now) {
					if e.Op != 'p' {
						next = append(next, e)
					}
				}
				if len(next) == 0 {
					break
				}
				step(next[vrt.Choose(len(next), "event")])
			}
			for i := range w.conns {
				for m.C[i].St != 0 && m.C[i].St != 'h' && (m.C[i].Open || m.C[i].St == 'w') {
					op := byte('q')
					if m.C[i].St == 'w' {
						op = 'g'
					}
					step(hist.Event{Op: op, Conn: i})
				}
			}
			if !m.Begun {
				step(hist.Event{Op: 's'})
			}
			vrt.Outcome("%s", done)
		})
	}}
}

// c27 enumerates settings and histories of signals on the virtual clock.
func c27() []kit.Scenario {
	var out []kit.Scenario
	const (
		ms = time.Millisecond
		s  = time.Second
	)
	for _, dk := range []time.Duration{0, 2 * s} {
		for _, to := range []time.Duration{0, 4 * s} {
			dk, to := dk, to
			name := fmt.Sprintf("window=%v/timeout=%v", dk, to)
			out = append(out, kit.Scenario{Name: name, BoundQuick: 1, BoundThorough: 3, Delay: true, SecQuick: 60, SecThorough: 800, Make: func() *vrt.Explorer {
				return explorer(func() {
					w := newWorld()
					w.hooks(1)
					w.forced = true // times are checked, not the moment of closing
					graceful.AddSignal(os.Interrupt, syscall.SIGTERM)
					settings := vrt.Choose(4, "settings")
					if settings == 1 {
						// The last setting counts.
						graceful.DoubleKickWindow(7 * s)
						graceful.Timeout(3 * s)
					}
					if settings == 3 {
						// Set only after the first signal, for the later ones.
						if dk == 0 && to == 0 {
							return
						}
						w.spawn("settings", func() {
							vrt.Sleep(1500 * ms)
							graceful.DoubleKickWindow(dk)
							graceful.Timeout(to)
						})
					} else {
						graceful.DoubleKickWindow(dk)
						graceful.Timeout(to)
					}
					if settings == 2 {
						// Negative ones don't.
						graceful.DoubleKickWindow(-1)
						graceful.Timeout(-1)
					}
					// Up to three signals after the first moment.
					at := []time.Duration{1000 * ms}
					for len(at) < 3 {
						d := []time.Duration{0, 1999 * ms, 2001 * ms, 700 * ms, 5300 * ms}[vrt.Choose(5, "gap")]
						if d == 0 {
							break
						}
						at = append(at, at[len(at)-1]+d)
					}
					// The handler ends by itself at some time.
					end := []time.Duration{time.Hour, 2500 * ms, 6123 * ms}[vrt.Choose(3, "handler")]
					r := w.listen()
					a := w.conn(r, "a", 1)
					b := w.conn(r, "b", 0)
					var g gate
					a.block = func() { a.Ev.Await(func() bool { return a.Closed > 0 || g.open }) }
					closed := map[string]time.Duration{}
					for _, c := range w.conns {
						c := c
						c.OnClose = func(first bool) {
							if first {
								closed[c.Name] = vrt.Elapsed()
							}
						}
					}
					w.start(r)
					w.spawn("handler", func() {
						vrt.Sleep(end)
						a.Ev.Point()
						g.open = true
					})
					sigs := []os.Signal{os.Interrupt, syscall.SIGTERM, os.Interrupt}
					w.spawn("signals", func() {
						for i, t := range at {
							vrt.Sleep(t - vrt.Elapsed())
							w.begun = true
							if vrt.DeliverSignal(sigs[i]) != 1 {
								vrt.Failf("signal %v has no handler", sigs[i])
							}
						}
					})
					var waited time.Duration
					w.spawn("wait", func() {
						graceful.Wait()
						waited = vrt.Elapsed()
						w.over("Wait returned")
					})
					w.wg.Wait()
					// What should have happened.
					force := time.Duration(1 << 60)
					for i, t := range at {
						f := dk != 0 && i > 0 && t-at[i-1] < dk
						if f && t < force {
							force = t
						}
						if !f && to != 0 && t+to < force && (settings != 3 || i > 0) {
							force = t + to
						}
					}
					wantA, wantEnd := force, force
					if end <= force {
						wantA, wantEnd = end, end
					}
					if wantA < at[0] {
						wantA = at[0]
					}
					if wantEnd < at[0] {
						wantEnd = at[0]
					}
					hist := fmt.Sprintf("signals at %v, handler until %v", at, end)
					if settings == 3 {
						hist += ", settings made at 1.5s"
					}
					if b.Closed == 0 || closed["b"] != at[0] {
						vrt.Failf("%s: the idle connection was closed at %v (%d times), expected %v", hist, closed["b"], b.Closed, at[0])
					}
					if a.Closed == 0 || closed["a"] != wantA {
						vrt.Failf("%s: the busy connection was closed at %v (%d times), expected %v", hist, closed["a"], a.Closed, wantA)
					}
					if waited != wantEnd {
						vrt.Failf("%s: Wait returned at %v, expected %v", hist, waited, wantEnd)
					}
					if w.preArg[0] != sigs[0] {
						vrt.Failf("%s: the pre-hook got signal %v", hist, w.preArg[0])
					}
					// Whichever of the signals ended it.
					ok := false
					for i := range at {
						if w.postArg[0] == sigs[i] && at[i] <= wantEnd {
							ok = true
						}
					}
					if !ok {
						vrt.Failf("%s: the post-hook got signal %v", hist, w.postArg[0])
					}
					vrt.Outcome("%s:%v", hist, wantEnd)
				})
			}})
		}
	}
	// Which signals count: every sequence of installing and removing.
	for _, einhorn := range []bool{false, true} {
		einhorn := einhorn
		out = append(out, kit.Scenario{Name: fmt.Sprintf("handlers/einhorn=%v", einhorn), SecQuick: 40, SecThorough: 800, Make: func() *vrt.Explorer {
			return explorer(func() {
				os.Unsetenv("EINHORN_MASTER_PID")
				if einhorn {
					os.Setenv("EINHORN_MASTER_PID", strconv.Itoa(os.Getppid()))
				} else if vrt.Choose(2, "foreign einhorn") == 1 {
					os.Setenv("EINHORN_MASTER_PID", strconv.Itoa(os.Getppid()+1))
				}
				w := newWorld()
				w.hooks(3)
				set := map[os.Signal]bool{}
				hist := ""
				for n := 0; n < 3; n++ {
					switch vrt.Choose(4, "op") {
					case 0:
						n = 3
					case 1:
						graceful.HandleSignals()
						hist += " HandleSignals"
						set[os.Interrupt] = true
						if einhorn {
							set[syscall.SIGUSR2] = true
						}
					case 2:
						graceful.AddSignal(syscall.SIGTERM)
						hist += " AddSignal"
						set[syscall.SIGTERM] = true
					case 3:
						graceful.ResetSignals()
						hist += " ResetSignals"
						set = map[os.Signal]bool{}
					}
				}
				sig := []os.Signal{os.Interrupt, syscall.SIGTERM, syscall.SIGUSR2}[vrt.Choose(3, "signal")]
				vrt.DeliverSignal(sig)
				vrt.Recv(vrt.After(time.Minute))
				if got := w.pre > 0; got != set[sig] {
					vrt.Failf("after%s signal %v started a shutdown: %v, expected %v", hist, sig, got, set[sig])
				}
				if set[sig] {
					graceful.Wait()
					w.over("Wait returned")
					w.told(sig)
				} else {
					// A manual shutdown has no signal.
					if vrt.Choose(2, "now") == 0 {
						graceful.Shutdown()
					} else {
						graceful.ShutdownNow()
					}
					w.over("Shutdown returned")
					w.told(nil)
				}
				vrt.Outcome("%s %v %v", hist, sig, set[sig])
			})
		}})
	}
	// Settings made while a signal is being received, by two goroutines.
	out = append(out, kit.Scenario{Name: "settings-race", SecQuick: 40, SecThorough: 200, BoundQuick: 1, Make: func() *vrt.Explorer {
		return explorer(func() {
			const s = time.Second
			which := vrt.Choose(2, "settings")
			w := newWorld()
			w.forced = true
			w.hooks(1)
			graceful.AddSignal(os.Interrupt)
			r := w.listen()
			a := w.conn(r, "a", 1)
			a.block = func() {
				a.Ev.Await(func() bool { return a.Closed > 0 || a.EOF })
			}
			when := time.Duration(-1)
			a.OnClose = func(bool) {
				if when < 0 {
					when = vrt.Elapsed()
				}
			}
			w.start(r)
			vrt.Sleep(s)
			w.spawn("set", func() {
				if which == 0 {
					graceful.Timeout(3 * s)
				} else {
					graceful.DoubleKickWindow(2 * s)
				}
			})
			w.spawn("set too", func() {
				if which == 0 {
					graceful.Timeout(0)
				} else {
					graceful.DoubleKickWindow(0)
				}
			})
			w.spawn("signals", func() {
				vrt.DeliverSignal(os.Interrupt)
				vrt.Sleep(s)
				vrt.DeliverSignal(os.Interrupt)
				vrt.Sleep(9 * s)
				a.Hangup()
			})
			graceful.Wait()
			w.wg.Wait()
			if late := []time.Duration{4 * s, 2 * s}[which]; when != late && (when != 5*s || which == 1) && when != 11*s {
				vrt.Failf("the busy connection was closed at %v, expected %v or 11s", when, late)
			}
			vrt.Outcome("%d %v", which, when)
		})
	}})
	// A signal during a shutdown that was requested by the program.
	out = append(out, kit.Scenario{Name: "shutdown-then-signals", SecQuick: 40, SecThorough: 800, Make: func() *vrt.Explorer {
		return explorer(func() {
			w := newWorld()
			w.forced = true
			graceful.HandleSignals()
			graceful.DoubleKickWindow(2 * s)
			n := vrt.Choose(3, "signals")
			now := vrt.Choose(2, "now") == 1
			r := w.listen()
			a := w.conn(r, "a", 1)
			a.block = func() {
				a.Ev.Await(func() bool { return a.Closed > 0 || a.EOF })
			}
			var when time.Duration
			a.OnClose = func(first bool) {
				if first {
					when = vrt.Elapsed()
				}
			}
			w.start(r)
			w.spawn("signals", func() {
				vrt.Sleep(1 * s)
				w.spawn("call", func() {
					if now {
						graceful.ShutdownNow()
					} else {
						graceful.Shutdown()
					}
				})
				for i := 0; i < n; i++ {
					vrt.Sleep(1 * s)
					vrt.DeliverSignal(os.Interrupt)
				}
				vrt.Sleep(10 * s)
				a.Hangup()
			})
			graceful.Wait()
			w.wg.Wait()
			want := 1 * s
			if !now {
				want = []time.Duration{11 * s, 12 * s, 3 * s}[n]
			}
			if when != want {
				vrt.Failf("%d signals after a shutdown (now=%v): the busy connection was closed at %v, expected %v", n, now, when, want)
			}
			vrt.Outcome("%d %v %v", n, now, when)
		})
	}})
	return out
}

type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// timeoutErr is a timeout for good.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return false }

func c28() []kit.Scenario {
	var out []kit.Scenario
	add := func(name string, body func(w *world)) *kit.Scenario {
		out = append(out, kit.Scenario{Name: name, BoundQuick: 3, BoundThorough: 5, Delay: true, Full: true, SecQuick: 150, SecThorough: 800, Make: func() *vrt.Explorer {
			return explorer(func() { body(newWorld()) })
		}})
		return &out[len(out)-1]
	}
	for _, now := range []bool{false, true} {
		now := now
		tag := fmt.Sprintf("/now=%v", now)
		add("accept-vs-shutdown"+tag, func(w *world) {
			r := w.listen()
			w.conn(r, "a", 1)
			w.start(r)
			w.shutdown(now)
			w.end()
		}).BoundQuick = 0
		add("dial-vs-shutdown"+tag, func(w *world) {
			r := w.listen()
			a, b := w.conn(nil, "a", 0), w.conn(nil, "b", 1)
			w.start(r)
			w.spawn("client", func() { r.Dial(a.FConn); r.Dial(b.FConn) })
			w.shutdown(now)
			w.end()
			// A connection that was taken and refused was closed.
			for i, c := range []*cn{a, b} {
				if i < r.Taken && c.Closed == 0 {
					vrt.Failf("connection %s was accepted and then left open", c.Name)
				}
			}
		})
	}
	other := errors.New("other error")
	errs := []error{
		other,
		&net.OpError{Op: "accept", Net: "tcp", Err: errors.New("too many open files")},
		&net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE},
		&net.OpError{Op: "set", Net: "tcp", Err: errors.New("bad file descriptor")},
		&os.SyscallError{Syscall: "accept", Err: syscall.EINVAL},
		http.ErrServerClosed,
		&net.OpError{Op: "accept", Net: "tcp", Err: timeoutErr{}},
		// Not what closing the listener gives, if similar to it.
		&net.OpError{Op: "read", Net: "tcp", Err: errors.New("use of closed network connection")},
		&net.OpError{Op: "set", Net: "tcp", Err: errors.New("use of closed network connection")},
		&net.OpError{Op: "accept", Net: "tcp", Err: errors.New("upstream: use of closed network connection (2 lost)")},
		&net.OpError{Op: "accept", Net: "tcp", Err: errors.New("use of closed file")},
	}
	add("errors-before-shutdown", func(w *world) {
		r := &kit.FListener{}
		n := vrt.Choose(len(errs)+1, "error")
		if n < len(errs) {
			r.Err = errs[n]
			if ne, ok := r.Err.(net.Error); ok && ne.Temporary() {
				r.Err = other // net/http would try again for ever
			}
		} else {
			// The program closes its listener without a shutdown.
			w.spawn("close", func() { r.Close() })
		}
		if vrt.Choose(2, "conn") == 1 {
			c := w.conn(r, "a", 1)
			c.EOF = true
		}
		err := w.server().Serve(r)
		if err == nil || err != r.Last {
			vrt.Failf("Serve returned %v, the listener failed with %v", err, r.Last)
		}
		w.wg.Wait()
		vrt.Outcome("%v", err)
	}).BoundQuick = 0
	add("errors-during-shutdown", func(w *world) {
		n := vrt.Choose(len(errs), "error")
		r := &kit.FListener{}
		w.spawn("fault", func() { r.Ev.Point(); r.Err = errs[n] })
		w.spawn("shutdown", func() { graceful.Shutdown() })
		err := w.server().Serve(r)
		if r.Last == r.Err {
			if err != r.Last {
				vrt.Failf("Serve returned %v, the listener failed with %v", err, r.Last)
			}
		} else if err != nil {
			vrt.Failf("Serve returned %v after a shutdown", err)
		}
		w.wg.Wait()
		vrt.Outcome("%v", err)
	}).BoundQuick = 0
	add("temporary-errors", func(w *world) {
		r := w.listen()
		r.Err = tempErr{}
		w.start(r)
		w.spawn("heal", func() {
			vrt.Sleep(100 * time.Millisecond)
			r.Ev.Point()
			r.Err = nil
		})
		w.wg.Add(1)
		vrt.Spawn("shutdown", func() {
			vrt.Sleep([]time.Duration{time.Second, 50 * time.Millisecond}[vrt.Choose(2, "when")])
			w.shutdown(false)
			w.wg.Done()
		})
		w.end()
	}).BoundQuick = 0
	return out
}

func main() {
	flag.Parse()
	r := kit.New(*kit.Prop)
	var list []kit.Scenario
	switch r.ID {
	case "C26":
		list = c26(r)
		r.Bound("1-3 shutdown requests (graceful, immediate, by signal), 0-2 listeners, 0-2 connections with up to 2 requests, 0-2 hooks of each kind; all schedules within the preemption bound of each part")
	case "C29":
		for _, sc := range c26(r) {
			for _, n := range []string{"busy-and-idle/shutdown", "keep-alive/shutdown", "hijacked", "histories/schedules"} {
				if strings.HasPrefix(sc.Name, n) && sc.Name != "hijacked/now" {
					list = append(list, sc)
				}
			}
		}
		r.Bound("the same histories, and four clients against a shutdown, on a stand-in for net/http: all schedules within the delay bound of each part")
	case "C27":
		list = c27()
		r.Bound("1-3 signals with gaps on both sides of the window, both settings on and off, three lengths of the request in progress; 0-3 operations on the signal set and 3 signals; all schedules within the preemption bound of each part")
	case "C28":
		list = c28()
		r.Bound("one accept loop, 0-2 connections dialled at any time, 11 kinds of accept error before and during shutdown; all schedules within the preemption bound of each part")
	}
	r.Assume("net/http.Server behaves like the stand-in mc/vhttp: at rest this is checked (histories here and in C29 are compared with one and the same model), in between it is assumed; timers fire in order, and not before everything else has come to rest")
	r.RunScenarios(list)
	r.Finish()
}

// Checks of the connection-draining listener (C22 to C25) under the controlled
// scheduler.
package main

import (
	"errors"
	"flag"
	"fmt"
	"net"
	"time"

	"github.com/zenazn/goji/graceful/listener"
	"verif.local/mc/kit"
	"verif.local/mc/vrt"
)

const (
	manual = iota
	automatic
	deadline
)

var modeName = []string{"manual", "automatic", "deadline"}

// sys is one wrapped listener with its raw counterpart.
type sys struct {
	raw  *kit.FListener
	l    *listener.T
	mode int
	all  []*cn
	wg   vrt.WaitGroup
}

// cn is a connection and what its owner (the server) thinks of it.
type cn struct {
	*kit.FConn
	wc       net.Conn
	accepted bool
	inUse    bool // a request has been read and not yet finished
	owner    bool // the owner is closing it itself
	disowned bool
	served   int
}

func newSys(mode int) *sys {
	s := &sys{raw: &kit.FListener{}, mode: mode}
	switch mode {
	case manual:
		s.l = listener.Wrap(s.raw, listener.Manual)
	case automatic:
		s.l = listener.Wrap(s.raw, listener.Automatic)
	default:
		s.l = listener.Wrap(s.raw, listener.Deadline)
	}
	return s
}

// conn makes a raw connection with n requests ready to be read.
func (s *sys) conn(name string, n int) *cn {
	c := &cn{FConn: &kit.FConn{Name: name, Avail: n}}
	c.Frozen = func() bool { return c.inUse && !c.owner }
	s.all = append(s.all, c)
	return c
}

func (s *sys) accept(c *cn) bool {
	s.raw.Queue = append(s.raw.Queue, c.FConn)
	return s.acceptQueued(c)
}

func (s *sys) acceptQueued(c *cn) bool {
	wc, err := s.l.Accept()
	if err != nil {
		if wc != nil {
			vrt.Failf("Accept returned both a connection and %v", err)
		}
		return false
	}
	c.wc, c.accepted = wc, true
	return true
}

func (s *sys) spawn(name string, f func()) {
	s.wg.Add(1)
	vrt.Spawn(name, func() { f(); s.wg.Done() })
}

// idle says the owner is done with a request.
func (s *sys) idle(c *cn) {
	c.inUse = false
	if s.mode == deadline {
		c.wc.SetReadDeadline(time.Time{})
	} else {
		listener.MarkIdle(c.wc)
	}
}

// serve is the owner: it reads requests until the connection ends, or max
// requests were served and it closes the connection itself.
func (s *sys) serve(c *cn, max int) {
	buf := make([]byte, 1)
	for c.served < max {
		if s.mode == manual {
			// In manual mode the owner announces use before reading.
			listener.MarkInUse(c.wc)
		}
		n, err := c.wc.Read(buf)
		if err != nil {
			if n != 0 {
				vrt.Failf("Read returned %d bytes with error %v", n, err)
			}
			break
		}
		if s.mode != manual || c.Closed == 0 {
			c.inUse = true
		}
		if c.Closed > 0 && s.mode != manual {
			vrt.Failf("Read on %s handed out a request although the connection is already closed", c.Name)
		}
		c.Ev.Point() // handle the request
		c.served++
		if c.Closed > 0 && s.mode != manual {
			vrt.Failf("%s was closed while a request was being served", c.Name)
		}
		s.idle(c)
	}
	c.owner = true
	c.inUse = false
	c.wc.Close()
}

func (s *sys) drained(who string) {
	for _, c := range s.all {
		if len(s.all) == 1 {
			// A step, so that it is tried before and after any Close.
			c.Ev.Peek()
		}
		if c.accepted && c.Closed == 0 && !c.disowned {
			vrt.Failf("%s returned although %s is still open", who, c.Name)
		}
	}
}

func (s *sys) end() {
	s.wg.Wait()
	for _, c := range s.all {
		if c.disowned {
			if c.Closed > 0 && !c.owner {
				vrt.Failf("disowned connection %s was closed by the listener", c.Name)
			}
			continue
		}
		if c.accepted && c.Closed == 0 {
			vrt.Failf("%s was never closed", c.Name)
		}
		vrt.Outcome("%s:served=%d", c.Name, c.served)
	}
}

func explorer(body func()) *vrt.Explorer {
	return &vrt.Explorer{Races: true, WgReuse: true, Horizon: 4000, Body: body}
}

func scenarios(prop string) []kit.Scenario {
	var out []kit.Scenario
	add := func(name string, body func()) *kit.Scenario {
		out = append(out, kit.Scenario{Name: name, Make: func() *vrt.Explorer { return explorer(body) }})
		return &out[len(out)-1]
	}
	switch prop {
	case "C22":
		for _, mode := range []int{automatic, deadline} {
			mode := mode
			for _, what := range []string{"CloseIdle", "Drain"} {
				what := what
				closer := func(s *sys) {
					if what == "Drain" {
						s.l.Drain()
					} else {
						s.l.CloseIdle()
					}
				}
				tag := modeName[mode] + "/" + what
				// A fresh connection whose first request arrives while
				// the listener closes idle connections.
				add("first-request/"+tag, func() {
					s := newSys(mode)
					c := s.conn("a", 0)
					s.accept(c)
					s.spawn("server", func() { s.serve(c, 2) })
					s.spawn("client", func() { c.Feed(1); c.Hangup() })
					s.spawn("closer", func() { closer(s) })
					s.end()
				})
				// A keep-alive connection between two requests.
				add("keep-alive/"+tag, func() {
					s := newSys(mode)
					c := s.conn("a", 1)
					s.accept(c)
					s.spawn("server", func() { s.serve(c, 2) })
					s.spawn("client", func() { c.Feed(1); c.Hangup() })
					s.spawn("closer", func() { closer(s) })
					s.end()
				})
				add("two-connections/"+tag, func() {
					s := newSys(mode)
					a, b := s.conn("a", 1), s.conn("b", 1)
					s.accept(a)
					s.accept(b)
					s.spawn("server-a", func() { s.serve(a, 1) })
					s.spawn("server-b", func() { s.serve(b, 1) })
					s.spawn("closer", func() { closer(s) })
					s.end()
				})
				add("same-shard/"+tag, func() {
					s := newSys(mode)
					a, b, c := s.conn("a", 1), s.conn("b", 0), s.conn("c", 1)
					s.accept(a)
					s.accept(b)
					s.accept(c)
					b.EOF = true
					s.spawn("server-a", func() { s.serve(a, 1) })
					s.spawn("server-c", func() { s.serve(c, 1) })
					s.spawn("closer", func() { closer(s) })
					s.serve(b, 1)
					s.end()
				})
				add("marked-in-use/"+tag, func() {
					// Explicit marks by the owner, with no read.
					s := newSys(mode)
					c := s.conn("a", 0)
					s.accept(c)
					s.spawn("owner", func() {
						listener.MarkInUse(c.wc)
						c.Ev.Peek()
						if c.Closed == 0 {
							c.inUse = true
							c.Ev.Point()
							c.Ev.Point()
							c.inUse = false
						}
						listener.MarkIdle(c.wc)
						c.owner = true
						c.wc.Close()
					})
					s.spawn("closer", func() { closer(s) })
					s.end()
				})
			}
		}
		add("manual/CloseIdle+Drain", func() {
			s := newSys(manual)
			c := s.conn("a", 1)
			s.accept(c)
			s.spawn("server", func() { s.serve(c, 2) })
			s.spawn("closer", func() { s.l.CloseIdle() })
			s.spawn("client", func() { c.Hangup() })
			s.spawn("drainer", func() { s.l.Drain() })
			s.end()
		})
		add("automatic/two-requests/CloseIdle+Drain", func() {
			s := newSys(automatic)
			c := s.conn("a", 2)
			s.accept(c)
			s.spawn("server", func() { s.serve(c, 2) })
			s.spawn("closer", func() { s.l.CloseIdle() })
			s.spawn("drainer", func() { s.l.Drain() })
			s.end()
		})
	case "C23":
		for _, mode := range []int{manual, automatic, deadline} {
			mode := mode
			tag := modeName[mode]
			add("idle-connections/"+tag, func() {
				// Nothing but Drain ends these connections.
				s := newSys(mode)
				a, b := s.conn("a", 0), s.conn("b", 1)
				s.accept(a)
				s.accept(b)
				if mode == manual {
					// Idle by construction: owners block in raw reads.
					s.spawn("reader-a", func() { a.wc.Read(make([]byte, 1)); a.owner = true; a.wc.Close() })
					s.spawn("reader-b", func() { b.wc.Read(make([]byte, 1)); b.wc.Read(make([]byte, 1)); b.owner = true; b.wc.Close() })
				} else {
					s.spawn("server-a", func() { s.serve(a, 9) })
					s.spawn("server-b", func() { s.serve(b, 9) })
				}
				s.spawn("drainer", func() { s.l.Drain(); s.drained("Drain") })
				s.end()
			})
			for _, how := range []string{"Close", "MarkIdle", "SetReadDeadline", "Disown"} {
				how := how
				add("finish-vs-drain/"+how+"/"+tag, func() {
					s := newSys(mode)
					a := s.conn("a", 1)
					s.accept(a)
					listener.MarkInUse(a.wc)
					s.spawn("owner", func() {
						switch how {
						case "MarkIdle":
							listener.MarkIdle(a.wc)
						case "SetReadDeadline":
							a.wc.SetReadDeadline(time.Time{})
						case "Disown":
							a.disowned = listener.Disown(a.wc) == nil
							return
						}
						a.owner = true
						a.wc.Close()
					})
					s.spawn("closer", func() { s.l.CloseIdle() })
					s.spawn("drainer", func() { s.l.Drain(); s.drained("Drain") })
					s.end()
				})
			}
			add("accept-vs-drain/"+tag, func() {
				s := newSys(mode)
				a, b := s.conn("a", 1), s.conn("b", 0)
				s.raw.Queue = []*kit.FConn{a.FConn, b.FConn}
				s.spawn("acceptor", func() {
					for _, c := range []*cn{a, b} {
						c := c
						if !s.acceptQueued(c) {
							// Taken off the queue and refused, or
							// never taken: never left open.
							taken := true
							for _, q := range s.raw.Queue {
								if q == c.FConn {
									taken = false
								}
							}
							if taken && c.Closed == 0 {
								vrt.Failf("connection %s was refused but left open", c.Name)
							}
							return
						}
						s.spawn("server-"+c.Name, func() {
							if mode == manual {
								c.wc.Read(make([]byte, 1))
								c.owner = true
								c.wc.Close()
								return
							}
							s.serve(c, 9)
						})
					}
				})
				s.spawn("shutdown", func() {
					s.l.Close()
					s.l.Drain()
					s.drained("Drain")
				})
				s.end()
			})
			add("three-connections/"+tag, func() {
				s := newSys(mode)
				var cs []*cn
				for i, n := range []int{0, 1, 0} {
					c := s.conn(fmt.Sprint(i), n)
					s.accept(c)
					cs = append(cs, c)
				}
				cs[2].EOF = true
				for _, c := range cs {
					c := c
					s.spawn("server-"+c.Name, func() {
						if mode == manual {
							c.wc.Read(make([]byte, 1))
							c.owner = true
							c.wc.Close()
							return
						}
						s.serve(c, 1)
					})
				}
				s.l.Drain()
				s.drained("Drain")
				s.end()
			})
		}
		for _, all := range []bool{false, true} {
			all := all
			add(fmt.Sprintf("close-fails/all=%v", all), func() {
				// Closing a connection gives an error, of which several
				// are in one shard.
				s := newSys(automatic)
				var cs []*cn
				for i := 0; i < 4; i++ {
					c := s.conn(fmt.Sprint(i), 0)
					c.CloseErr = errReset
					s.accept(c)
					cs = append(cs, c)
				}
				s.spawn("server-3", func() { s.serve(cs[3], 9) })
				if all {
					s.l.DrainAll()
				} else {
					s.l.Drain()
				}
				s.drained("Drain")
				s.end()
			})
		}
		add("accept-during-drain/same-shard", func() {
			// Drain is already waiting for a when another connection of
			// the same shard is accepted (the listener was not closed
			// first, which the documentation allows).
			s := newSys(automatic)
			a, b, c := s.conn("a", 1), s.conn("b", 0), s.conn("c", 0)
			b.EOF = true
			s.accept(a)
			s.accept(b)
			b.owner = true
			b.wc.Close()
			a.wc.Read(make([]byte, 1))
			a.inUse = true
			s.spawn("server-a", func() {
				a.Ev.Point()
				a.owner = true
				a.inUse = false
				a.wc.Close()
			})
			s.spawn("acceptor", func() {
				if !s.accept(c) {
					if c.Closed == 0 {
						vrt.Failf("connection c was refused but left open")
					}
					return
				}
				c.wc.Read(make([]byte, 1))
				c.owner = true
				c.wc.Close()
			})
			s.spawn("drainer", func() { s.l.Drain() })
			s.end()
		})
		add("two-drains", func() {
			s := newSys(automatic)
			a, b := s.conn("a", 1), s.conn("b", 0)
			s.accept(a)
			s.accept(b)
			s.spawn("server-a", func() { s.serve(a, 9) })
			s.spawn("server-b", func() { s.serve(b, 9) })
			s.spawn("drainer1", func() { s.l.Drain(); s.drained("Drain") })
			s.spawn("drainer2", func() { s.l.Drain(); s.drained("second Drain") })
			s.end()
		})
		add("close-idle-vs-drain", func() {
			s := newSys(automatic)
			a := s.conn("a", 1)
			s.accept(a)
			s.spawn("server-a", func() { s.serve(a, 9) })
			s.spawn("closer", func() { s.l.CloseIdle() })
			s.spawn("drainer", func() { s.l.Drain(); s.drained("Drain") })
			s.end()
		})
		add("accept-after-drain", func() {
			s := newSys(automatic)
			a := s.conn("a", 1)
			s.l.Drain()
			if s.accept(a) {
				// Allowed only if it is managed: a further Drain ends it.
				s.l.Drain()
			}
			if a.Closed == 0 {
				vrt.Failf("a connection accepted after Drain stays open")
			}
		})
		add("set-deadlines-vs-drain", func() {
			s := newSys(deadline)
			a := s.conn("a", 1)
			s.accept(a)
			s.spawn("server-a", func() { s.serve(a, 9) })
			s.spawn("timer", func() { a.wc.SetWriteDeadline(time.Time{}) })
			s.spawn("drainer", func() { s.l.Drain(); s.drained("Drain") })
			s.end()
		})
	case "C24":
		for _, mode := range []int{manual, automatic, deadline} {
			mode := mode
			tag := modeName[mode]
			stuck := func(s *sys, c *cn) {
				// An owner that reads one request and then hangs in
				// it until the connection is closed under it.
				buf := make([]byte, 1)
				listener.MarkInUse(c.wc)
				if _, err := c.wc.Read(buf); err == nil {
					c.Ev.Await(func() bool { return c.Closed > 0 })
				}
				c.owner = true
				c.wc.Close()
			}
			add("drain-all-in-use/"+tag, func() {
				s := newSys(mode)
				a, b := s.conn("a", 1), s.conn("b", 0)
				s.accept(a)
				s.accept(b)
				s.spawn("owner-a", func() { stuck(s, a) })
				s.spawn("owner-b", func() { stuck(s, b) })
				s.spawn("drainer", func() { s.l.DrainAll(); s.drained("DrainAll") })
				s.end()
			})
			add("drain-then-drain-all/"+tag, func() {
				s := newSys(mode)
				a := s.conn("a", 1)
				s.accept(a)
				s.spawn("owner-a", func() { stuck(s, a) })
				s.spawn("drainer", func() { s.l.Drain(); s.drained("Drain") })
				s.spawn("killer", func() { s.l.DrainAll(); s.drained("DrainAll") })
				s.end()
			})
			add("disown-vs-drain/"+tag, func() {
				// A hijacked connection is never closed by the
				// listener afterwards and is not waited for.
				s := newSys(mode)
				a := s.conn("a", 1)
				s.accept(a)
				s.spawn("owner-a", func() {
					if mode != automatic {
						listener.MarkInUse(a.wc)
					}
					buf := make([]byte, 1)
					if _, err := a.wc.Read(buf); err != nil {
						a.owner = true
						a.wc.Close()
						return
					}
					hijack(s, a)
				})
				s.spawn("drainer", func() { s.l.Drain(); s.drained("Drain") })
				s.end()
			})
			add("disown-vs-drain-all/"+tag, func() {
				s := newSys(mode)
				a, b := s.conn("a", 1), s.conn("b", 0)
				s.accept(a)
				s.accept(b)
				s.spawn("owner-a", func() {
					buf := make([]byte, 1)
					if _, err := a.wc.Read(buf); err != nil {
						a.owner = true
						a.wc.Close()
						return
					}
					hijack(s, a)
				})
				s.spawn("drainer", func() { s.l.DrainAll(); s.drained("DrainAll") })
				s.end()
			})
			add("disown-vs-disown-vs-close/"+tag, func() {
				s := newSys(mode)
				a := s.conn("a", 0)
				s.accept(a)
				ok := 0
				for i := 0; i < 2; i++ {
					s.spawn("hijacker", func() {
						if listener.Disown(a.wc) == nil {
							ok++
						}
					})
				}
				s.spawn("closer", func() { a.owner = true; a.wc.Close() })
				s.wg.Wait()
				if ok > 1 {
					vrt.Failf("Disown succeeded %d times", ok)
				}
				if a.Closed == 0 {
					vrt.Failf("Close of the connection did not close it")
				}
				s.l.Drain()
				vrt.Outcome("disowned=%d", ok)
			})
			add("close-vs-drain-all/"+tag, func() {
				s := newSys(mode)
				a := s.conn("a", 1)
				s.accept(a)
				s.spawn("owner", func() { a.owner = true; a.wc.Close() })
				s.spawn("owner2", func() { a.wc.Close() })
				s.spawn("drainer", func() { s.l.DrainAll(); s.drained("DrainAll") })
				s.wg.Wait()
				if a.Closed != 1 {
					vrt.Failf("raw connection closed %d times", a.Closed)
				}
			})
		}
		add("accept-vs-drain-all", func() {
			s := newSys(automatic)
			a := s.conn("a", 1)
			s.raw.Queue = []*kit.FConn{a.FConn}
			s.spawn("acceptor", func() {
				if !s.acceptQueued(a) {
					if len(s.raw.Queue) == 0 && a.Closed == 0 {
						vrt.Failf("connection was refused but left open")
					}
					return
				}
				buf := make([]byte, 1)
				a.wc.Read(buf)
				a.Ev.Await(func() bool { return a.Closed > 0 })
			})
			s.spawn("shutdown", func() { s.l.Close(); s.l.DrainAll(); s.drained("DrainAll") })
			s.end()
		})
	}
	return out
}

// hijack takes the connection over: from a successful Disown on, nobody but the
// owner may close it and reads and writes keep working.
func hijack(s *sys, a *cn) {
	err := listener.Disown(a.wc)
	if err != nil {
		// Only legitimate when the connection is gone already.
		if a.Closed == 0 {
			vrt.Failf("Disown failed on an open connection: %v", err)
		}
		return
	}
	if a.Closed == 0 {
		a.disowned = true
		a.inUse = true
		a.Ev.Point()
		a.Avail = 1
		if n, err := a.wc.Read(make([]byte, 1)); n != 1 || err != nil {
			vrt.Failf("Read on a disowned connection: %d, %v", n, err)
		}
		a.Ev.Point()
	}
}

// c25 runs every sequence of operations on two connections against a reference
// model of the idle/busy state machine.
//
// With failing set, closing the raw connections gives an error (they are closed
// nevertheless), and both connections are in the same shard.
func c25(mode, depth int, failing bool) kit.Scenario {
	type mc struct{ busy, closed, disowned bool }
	name := fmt.Sprintf("sequences/%s/depth=%d", modeName[mode], depth)
	var closeErr error
	if failing {
		name += "/close-fails"
		closeErr = errReset
	}
	body := func() {
		s := newSys(mode)
		var cs [2]*cn
		var ms [2]mc
		for i := range cs {
			cs[i] = s.conn(string(rune('a'+i)), 99)
			cs[i].CloseErr = closeErr
			s.accept(cs[i])
			if failing && i == 0 {
				// The next one belongs to the other shard.
				o := &cn{FConn: &kit.FConn{Name: "other", CloseErr: closeErr}}
				s.accept(o)
				if err := o.wc.Close(); err != closeErr {
					vrt.Failf("closing a connection gave %v", err)
				}
			}
		}
		hist := ""
		check := func() {
			for i, m := range ms {
				if (cs[i].Closed > 0) != m.closed {
					vrt.Failf("after%s: connection %d closed=%v, expected closed=%v", hist, i, cs[i].Closed > 0, m.closed)
				}
				if cs[i].Closed > 1 && !m.disowned {
					vrt.Failf("after%s: raw connection %d closed %d times", hist, i, cs[i].Closed)
				}
			}
		}
		for d := 0; d < depth; d++ {
			op := vrt.Choose(14, "op")
			if op == 12 {
				hist += " CloseIdle"
				s.l.CloseIdle()
				for i := range ms {
					if !ms[i].busy && !ms[i].disowned {
						ms[i].closed = true
					}
				}
				check()
				continue
			}
			if op == 13 {
				break
			}
			i, c, m := op%2, cs[op%2], &ms[op%2]
			switch op / 2 {
			case 0:
				hist += fmt.Sprintf(" Read(%d)", i)
				n, err := c.wc.Read(make([]byte, 1))
				if m.closed && (err == nil || n != 0) {
					vrt.Failf("after%s: read from a closed connection gave %d, %v", hist, n, err)
				}
				if !m.closed && (err != nil || n != 1) {
					vrt.Failf("after%s: read gave %d, %v", hist, n, err)
				}
				if mode != manual && !m.closed && !m.disowned {
					m.busy = true
				}
			case 1:
				hist += fmt.Sprintf(" MarkIdle(%d)", i)
				listener.MarkIdle(c.wc)
				if !m.disowned {
					m.busy = false
				}
			case 2:
				hist += fmt.Sprintf(" MarkInUse(%d)", i)
				listener.MarkInUse(c.wc)
				if !m.disowned && !m.closed {
					m.busy = true
				}
			case 3:
				hist += fmt.Sprintf(" SetReadDeadline(%d)", i)
				c.wc.SetReadDeadline(time.Time{})
				if mode == deadline && !m.disowned {
					m.busy = false
				}
			case 4:
				hist += fmt.Sprintf(" Close(%d)", i)
				err := c.wc.Close()
				if m.closed && err == nil {
					vrt.Failf("after%s: closing a closed connection succeeded", hist)
				}
				if !m.closed && err != closeErr {
					vrt.Failf("after%s: closing gave %v, expected %v", hist, err, closeErr)
				}
				m.closed = true
			case 5:
				hist += fmt.Sprintf(" Disown(%d)", i)
				err := listener.Disown(c.wc)
				if m.disowned && err == nil {
					vrt.Failf("after%s: connection disowned twice", hist)
				}
				if !m.disowned && !m.closed {
					if err != nil {
						vrt.Failf("after%s: Disown failed: %v", hist, err)
					}
					m.disowned = true
				} else if err == nil {
					m.disowned = true
				}
			}
			check()
		}
		// Drain closes what is idle and waits for exactly what is busy.
		done := false
		vrt.Daemon("drain", func() { s.l.Drain(); done = true })
		var quiet vrt.Event
		timer := vrt.After(time.Second) // fires once nothing else can run
		vrt.Recv(timer)
		_ = quiet
		hist += " Drain"
		wait := false
		for i := range ms {
			if ms[i].disowned || ms[i].closed {
				continue
			}
			if ms[i].busy {
				wait = true
			} else {
				ms[i].closed = true
			}
		}
		check()
		if done == wait {
			vrt.Failf("after%s: Drain returned=%v, expected=%v", hist, done, !wait)
		}
		// Finishing the busy ones lets it return, and closes them.
		for i := range ms {
			if ms[i].busy && !ms[i].disowned && !ms[i].closed {
				if vrt.Choose(2, "finish") == 0 {
					hist += fmt.Sprintf(" MarkIdle(%d)", i)
					listener.MarkIdle(cs[i].wc)
				} else {
					hist += fmt.Sprintf(" Close(%d)", i)
					cs[i].wc.Close()
				}
				ms[i].closed = true
				check()
			}
		}
		vrt.Recv(vrt.After(time.Second))
		if !done {
			vrt.Failf("after%s: Drain has not returned", hist)
		}
		vrt.Outcome("%v%v", ms, done)
	}
	return kit.Scenario{Name: name, SecQuick: 200, SecThorough: 850, Make: func() *vrt.Explorer {
		e := explorer(body)
		e.WgReuse = false
		return e
	}}
}

// c25life runs every sequence of operations on one connection, with Drain and
// DrainAll anywhere in it, against the same model.
func c25life(mode, depth int) kit.Scenario {
	ops := []string{"Read", "Read(empty)", "Read(timeout)", "MarkIdle", "MarkInUse", "SetReadDeadline", "SetDeadline+SetWriteDeadline",
		"Close", "Disown", "CloseIdle", "Drain", "DrainAll", "Accept", "Write", "stop"}
	body := func() {
		s := newSys(mode)
		c := s.conn("a", 99)
		s.accept(c)
		if s.l.Addr() != s.raw.Addr() || c.wc.RemoteAddr() != c.FConn.RemoteAddr() || c.wc.LocalAddr() != c.FConn.LocalAddr() {
			vrt.Failf("the wrapped listener or connection has an address of its own")
		}
		if listener.MarkIdle(c.FConn) == nil || listener.MarkInUse(c.FConn) == nil || listener.Disown(c.FConn) == nil {
			vrt.Failf("a connection of another listener was marked or disowned")
		}
		var busy, closed, disowned, draining bool
		drains, done := 0, 0
		hist := ""
		check := func() {
			if (c.Closed > 0) != closed {
				vrt.Failf("after%s: connection closed=%v, expected closed=%v", hist, c.Closed > 0, closed)
			}
			if !draining {
				return
			}
			vrt.Recv(vrt.After(time.Second))
			if (c.Closed > 0) != closed {
				vrt.Failf("some time after%s: connection closed=%v, expected closed=%v", hist, c.Closed > 0, closed)
			}
			want := 0
			if closed || disowned {
				want = drains
			}
			if done != want {
				vrt.Failf("after%s: %d of %d drains have returned, expected %d", hist, done, drains, want)
			}
		}
		idle := func() {
			busy = false
			if draining && !disowned {
				closed = true
			}
		}
		for d := 0; d < depth; d++ {
			op := ops[vrt.Choose(len(ops), "op")]
			if op == "stop" {
				break
			}
			hist += " " + op
			switch op {
			case "Read", "Read(empty)", "Read(timeout)":
				buf, want := make([]byte, 1), 1
				var fail error
				switch op {
				case "Read(empty)":
					buf, want = nil, 0
				case "Read(timeout)":
					fail, want = errTimeout, 0
				}
				c.ReadErr = fail
				n, err := c.wc.Read(buf)
				c.ReadErr = nil
				if closed && (err == nil || n != 0) || !closed && (n != want || err != fail) {
					vrt.Failf("after%s: Read gave %d, %v", hist, n, err)
				}
				if mode != manual && !closed && !disowned {
					busy = true
				}
			case "MarkIdle":
				listener.MarkIdle(c.wc)
				if busy && !closed {
					idle()
				}
			case "MarkInUse":
				listener.MarkInUse(c.wc)
				if !closed && !disowned {
					busy = true
				}
			case "SetReadDeadline":
				c.wc.SetReadDeadline(time.Time{})
				if mode == deadline && busy && !closed {
					idle()
				}
			case "SetDeadline+SetWriteDeadline":
				c.wc.SetDeadline(time.Time{})
				c.wc.SetWriteDeadline(time.Time{})
			case "Close":
				err := c.wc.Close()
				if closed != (err != nil) {
					vrt.Failf("after%s: Close gave %v", hist, err)
				}
				closed = true
			case "Disown":
				err := listener.Disown(c.wc)
				if (err == nil) != (!disowned && !closed) {
					vrt.Failf("after%s: Disown gave %v", hist, err)
				}
				if err == nil {
					disowned = true
				}
			case "CloseIdle":
				s.l.CloseIdle()
				if !busy && !disowned {
					closed = true
				}
			case "Drain", "DrainAll":
				all := op == "DrainAll"
				draining = true
				drains++
				vrt.Daemon(op, func() {
					if all {
						s.l.DrainAll()
					} else {
						s.l.Drain()
					}
					done++
				})
				if !disowned && (all || !busy) {
					closed = true
				}
				vrt.Recv(vrt.After(time.Second))
			case "Accept":
				o := &cn{FConn: &kit.FConn{Name: "other"}}
				s.raw.Queue = append(s.raw.Queue, o.FConn)
				if ok := s.acceptQueued(o); ok == draining {
					vrt.Failf("after%s: accepted=%v", hist, ok)
				} else if ok {
					if o.Closed != 0 {
						vrt.Failf("after%s: the new connection is closed", hist)
					}
					o.wc.Close()
				}
				if o.Closed != 1 {
					vrt.Failf("after%s: the new connection was closed %d times", hist, o.Closed)
				}
			case "Write":
				w := c.Writes
				n, err := c.wc.Write([]byte("x"))
				if closed && (n != 0 || err == nil) || !closed && (n != 1 || err != nil || c.Writes != w+1) {
					vrt.Failf("after%s: Write gave %d, %v", hist, n, err)
				}
			}
			check()
		}
		vrt.Outcome("%v%v%v%v%d", busy, closed, disowned, draining, done)
	}
	return kit.Scenario{Name: fmt.Sprintf("life/%s/depth=%d", modeName[mode], depth), SecQuick: 200, SecThorough: 850, Make: func() *vrt.Explorer {
		e := explorer(body)
		e.WgReuse = false
		return e
	}}
}

var (
	errTimeout = errors.New("i/o timeout")
	errReset   = errors.New("connection reset by peer")
)

func main() {
	flag.Parse()
	r := kit.New(*kit.Prop)
	var list []kit.Scenario
	if r.ID == "C25" {
		for _, m := range []int{manual, automatic, deadline} {
			list = append(list, c25(m, kit.Pick(r, 5, 6), false), c25(m, kit.Pick(r, 3, 5), true), c25life(m, kit.Pick(r, 4, 6)))
		}
		r.Bound("all sequences of at most %d of 13 operations on two connections, in each mode, followed by Drain and every way of finishing, and of at most %d on connections whose closing fails; all sequences of at most %d of 14 operations, drains included, on one connection", kit.Pick(r, 5, 6), kit.Pick(r, 3, 5), kit.Pick(r, 4, 6))
	} else {
		list = scenarios(r.ID)
		r.Bound("1-3 connections on two shards, 1-2 requests each, all interleavings of the goroutines listed in each part (no preemption bound), all iteration-relevant data races")
	}
	r.Assume("sync, sync/atomic and channel operations behave as the Go specification says; the raw connection is a scripted fake whose operations are atomic")
	r.RunScenarios(list)
	r.Finish()
}

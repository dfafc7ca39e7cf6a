// Package hist has the histories of connections and shutdowns that a server is
// put through, and the model of what can be seen of it at rest. The model is
// compared with the real net/http.Server under package graceful (checks/e2e) and
// with the stand-in that the scheduled checks of package graceful run on
// (checks/graceful), which binds that stand-in to the real thing.
package hist

import (
	"fmt"
	"net/http"
	"strings"
)

// A history is a list of events. Events of a connection carry its number.
type Event struct {
	Op   byte
	Conn int
}

// String names the event.
func (e Event) String() string {
	name := map[byte]string{
		'd': "dial", 'p': "half a GET", 'r': "rest of the GET", 'G': "GET", 'B': "POST with half its body", 'b': "rest of the body",
		'S': "streaming GET", 'H': "hijacking GET", 'C': "GET with Connection: close", 'T': "HTTP/1.0 GET", 'X': "aborting GET",
		'g': "handler goes on", 'q': "client closes", 's': "Shutdown", 'n': "ShutdownNow",
	}[e.Op]
	if e.Op == 's' || e.Op == 'n' {
		return name
	}
	return fmt.Sprintf("%d:%s", e.Conn, name)
}

func Show(h []Event) string {
	var l []string
	for _, e := range h {
		l = append(l, e.String())
	}
	return strings.Join(l, ", ")
}

// Model is what a client and the ConnState callback should see.
type Conn struct {
	St      byte // 0 none, n new, p partial head, b partial body, w waiting handler, i idle, h hijacked, c closed
	Kind    byte // of the request in progress
	Gone    bool // the client has closed
	Refused bool // the dial failed
	Open    bool // the server's end is open
	Entered int
	Bodies  []string // complete responses, in order
	Tail    string   // start of an incomplete response's body
	Keep    bool     // the header was sent, and promised to keep the connection
	Any     bool     // the connection was cut: nothing is promised
	States  []http.ConnState
}

type Model struct {
	C      [3]Conn
	Begun  bool
	Forced bool
}

// Enabled lists the events a history can go on with.
func (m *Model) Enabled(kinds string, conns int, now bool) []Event {
	var out []Event
	for i := 0; i < conns; i++ {
		c := &m.C[i]
		if c.Gone && c.St != 'w' {
			continue
		}
		switch c.St {
		case 0:
			if c.Refused || i > 0 && m.C[i-1].St == 0 && !m.C[i-1].Refused {
				continue // numbered in the order of dialling
			}
			out = append(out, Event{'d', i})
		case 'n', 'i':
			for k := range kinds {
				out = append(out, Event{kinds[k], i})
			}
			out = append(out, Event{'p', i}, Event{'q', i})
		case 'p':
			out = append(out, Event{'r', i}, Event{'q', i})
		case 'b':
			out = append(out, Event{'b', i}, Event{'q', i})
		case 'w':
			out = append(out, Event{'g', i})
			if !c.Gone {
				out = append(out, Event{'q', i})
			}
		case 'h':
			out = append(out, Event{'q', i})
		}
	}
	if !m.Begun {
		out = append(out, Event{'s', 0})
	}
	if now && !m.Forced {
		out = append(out, Event{'n', 0})
	}
	return out
}

func (c *Conn) State(s http.ConnState) { c.States = append(c.States, s) }

// cutHead: a connection lost in the middle of a request's head counts as active
// to net/http if this was the first request.
func (c *Conn) cutHead() {
	if c.Entered == 0 {
		c.State(http.StateActive)
	}
}

// End is the end of the server's loop for the connection.
func (c *Conn) End() {
	c.St, c.Open = 'c', false
	c.State(http.StateClosed)
}

func (m *Model) Step(e Event) {
	c := &m.C[e.Conn]
	n := len(c.Bodies)
	switch e.Op {
	case 'd':
		if m.Begun {
			c.Refused = true
			return
		}
		c.St, c.Open = 'n', true
		c.State(http.StateNew)
	case 'p':
		c.St = 'p'
	case 'r', 'G', 'S', 'H', 'C', 'T', 'X':
		c.St, c.Kind = 'w', e.Op
		c.Entered++
		c.State(http.StateActive)
		if e.Op == 'S' {
			c.Tail = "first\n"
			c.Keep = !m.Begun
		}
	case 'B':
		c.St, c.Kind = 'b', 'B'
		c.Entered++
		c.State(http.StateActive)
	case 'b':
		c.St = 'w'
	case 'g':
		c.Tail = ""
		if c.Kind == 'H' {
			c.St = 'h'
			if !c.Open {
				c.St = 'c' // net/http hands over what was cut already
			}
			c.State(http.StateHijacked)
			return
		}
		if c.Kind == 'X' {
			c.End()
			return
		}
		if !c.Gone && !c.Any {
			c.Bodies = append(c.Bodies, fmt.Sprintf("%d%d%c", e.Conn, n, c.Kind))
		}
		if m.Begun && c.Kind == 'S' && c.Keep && c.Open && !c.Gone {
			c.State(http.StateIdle)
		}
		if m.Begun || c.Kind == 'C' || c.Kind == 'T' || c.Gone || !c.Open {
			c.End()
			return
		}
		c.St = 'i'
		c.State(http.StateIdle)
	case 'q':
		c.Gone = true
		switch c.St {
		case 'n', 'i':
			c.End()
		case 'p':
			c.cutHead()
			c.End()
		case 'b':
			c.Any = true
			c.End()
		}
	case 's', 'n':
		m.Begun = true
		for i := range m.C {
			c := &m.C[i]
			switch c.St {
			case 'n', 'i':
				c.End()
			case 'p', 'b', 'w':
				if e.Op == 's' {
					continue
				}
				c.Open, c.Any = false, true
				if c.St == 'p' {
					c.cutHead()
				}
				if c.St != 'w' {
					c.End()
				}
			}
		}
		if e.Op == 'n' {
			m.Forced = true
		}
	}
}

// Done says whether the shutdown is over.
func (m *Model) Done() bool {
	for i := range m.C {
		if c := &m.C[i]; c.Open && c.St != 'h' {
			return false
		}
	}
	return m.Begun
}

// Histories calls f with every history of exactly n events, or shorter if
// nothing more can happen.
func Histories(n int, kinds string, conns int, now bool, f func(h []Event)) {
	var rec func(m Model, h []Event)
	rec = func(m Model, h []Event) {
		var next []Event
		if len(h) < n {
			next = m.Enabled(kinds, conns, now)
		}
		if len(next) == 0 {
			f(h)
			return
		}
		for _, e := range next {
			m2 := m
			for i := range m2.C {
				m2.C[i].States = append([]http.ConnState(nil), m.C[i].States...)
				m2.C[i].Bodies = append([]string(nil), m.C[i].Bodies...)
			}
			m2.Step(e)
			rec(m2, append(h[:len(h):len(h)], e))
		}
	}
	rec(Model{}, nil)
}

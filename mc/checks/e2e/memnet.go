package main

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// half is one direction of an in-memory connection, with an unbounded buffer.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	eof    bool // the writer has closed
	broken bool // the reader has closed
	dead   time.Time
	timer  *time.Timer
}

func newHalf() *half {
	h := &half{}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) read(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.broken {
			return 0, net.ErrClosed
		}
		if !h.dead.IsZero() && !time.Now().Before(h.dead) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(h.buf) > 0 {
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			return n, nil
		}
		if h.eof {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.eof {
		return 0, net.ErrClosed
	}
	if h.broken {
		return 0, errors.New("write: broken pipe")
	}
	h.buf = append(h.buf, b...)
	h.cond.Broadcast()
	return len(b), nil
}

func (h *half) deadline(t time.Time) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.dead = t
	if h.timer != nil {
		h.timer.Stop()
	}
	if !t.IsZero() {
		h.timer = time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.cond.Broadcast()
			h.mu.Unlock()
		})
	}
	h.cond.Broadcast()
}

func (h *half) set(eof, broken bool) {
	h.mu.Lock()
	h.eof = h.eof || eof
	h.broken = h.broken || broken
	h.cond.Broadcast()
	h.mu.Unlock()
}

// mconn is one end of a connection.
type mconn struct {
	in, out *half
	name    string
	mu      sync.Mutex
	closed  int
}

type maddr string

func (a maddr) Network() string { return "mem" }
func (a maddr) String() string  { return string(a) }

func (c *mconn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *mconn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *mconn) Close() error {
	c.mu.Lock()
	c.closed++
	n := c.closed
	c.mu.Unlock()
	c.in.set(false, true)
	c.out.set(true, false)
	if n > 1 {
		return net.ErrClosed
	}
	return nil
}
func (c *mconn) LocalAddr() net.Addr                { return maddr("server") }
func (c *mconn) RemoteAddr() net.Addr               { return maddr(c.name) }
func (c *mconn) SetDeadline(t time.Time) error      { c.in.deadline(t); return nil }
func (c *mconn) SetReadDeadline(t time.Time) error  { c.in.deadline(t); return nil }
func (c *mconn) SetWriteDeadline(t time.Time) error { return nil }

func (c *mconn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed > 0
}

// mlistener is an in-memory listener.
type mlistener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []*mconn
	closed bool
}

func newListener() *mlistener {
	l := &mlistener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *mlistener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "mem", Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *mlistener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	l.cond.Broadcast()
	return nil
}

func (l *mlistener) Addr() net.Addr { return maddr("server") }

// dial connects; the client end and the server end are returned.
func (l *mlistener) dial(name string) (client, server *mconn) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return nil, nil
	}
	a, b := newHalf(), newHalf()
	client = &mconn{in: a, out: b, name: "server"}
	server = &mconn{in: b, out: a, name: name}
	l.queue = append(l.queue, server)
	l.cond.Broadcast()
	return client, server
}

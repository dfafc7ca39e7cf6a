package kit

import (
	"errors"
	"io"
	"net"
	"time"

	"verif.local/mc/vrt"
)

// ErrClosed is what the fake network returns for closed objects.
var ErrClosed = net.ErrClosed

// FConn is a scripted net.Conn whose operations are visible steps.
type FConn struct {
	Name    string
	Ev      vrt.Event
	Avail   int // requests that can be read
	EOF     bool
	Closed  int
	Frozen  func() bool // oracle: the connection must not be closed now
	Writes  int
	OnClose func(first bool)
	OnWrite func()
	ReadErr error
	Broken  bool // the peer is gone: writes fail
	// What the first Close returns; the connection is closed all the same.
	CloseErr error
}

func (c *FConn) Read(b []byte) (int, error) {
	c.Ev.Await(func() bool { return len(b) == 0 || c.Avail > 0 || c.EOF || c.Closed > 0 || c.ReadErr != nil })
	switch {
	case c.Closed > 0:
		return 0, ErrClosed
	case c.ReadErr != nil:
		return 0, c.ReadErr
	case len(b) == 0:
		return 0, nil
	case c.Avail > 0:
		c.Avail--
		b[0] = 'x'
		return 1, nil
	}
	return 0, io.EOF
}

func (c *FConn) Write(b []byte) (int, error) {
	c.Ev.Point()
	if c.Closed > 0 {
		return 0, ErrClosed
	}
	if c.Broken {
		return 0, errors.New("broken pipe")
	}
	c.Writes++
	if c.OnWrite != nil {
		c.OnWrite()
	}
	return len(b), nil
}

func (c *FConn) Close() error {
	c.Ev.Point()
	if c.Closed == 0 && c.Frozen != nil && c.Frozen() {
		vrt.Failf("connection %s was closed while in use", c.Name)
	}
	c.Closed++
	if c.OnClose != nil {
		c.OnClose(c.Closed == 1)
	}
	if c.Closed > 1 {
		return ErrClosed
	}
	return c.CloseErr
}

// Feed makes n more requests available.
func (c *FConn) Feed(n int) {
	c.Ev.Point()
	c.Avail += n
}

// Hangup is the peer closing its side.
func (c *FConn) Hangup() {
	c.Ev.Point()
	c.EOF = true
}

type fakeAddr string

func (a fakeAddr) Network() string { return "tcp" }
func (a fakeAddr) String() string  { return string(a) }

func (c *FConn) LocalAddr() net.Addr                { return fakeAddr("local") }
func (c *FConn) RemoteAddr() net.Addr               { return fakeAddr(c.Name) }
func (c *FConn) SetDeadline(t time.Time) error      { return nil }
func (c *FConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *FConn) SetWriteDeadline(t time.Time) error { return nil }

// FListener is a scripted net.Listener.
type FListener struct {
	Ev      vrt.Event
	Queue   []*FConn
	Closed  int
	Err     error // returned once the queue is empty
	Accepts int   // calls of Accept
	Last    error // the last error returned by Accept
	Taken   int   // connections handed out
	OnClose func()
}

func (l *FListener) Accept() (net.Conn, error) {
	if l.Accepts == 0 {
		l.Ev.Point()
	}
	l.Accepts++
	l.Ev.Await(func() bool { return len(l.Queue) > 0 || l.Closed > 0 || l.Err != nil })
	if l.Closed > 0 {
		l.Last = &net.OpError{Op: "accept", Net: "tcp", Addr: fakeAddr("local"), Err: ErrClosed}
		return nil, l.Last
	}
	if len(l.Queue) > 0 {
		l.Taken++
		c := l.Queue[0]
		l.Queue = l.Queue[1:]
		return c, nil
	}
	l.Last = l.Err
	return nil, l.Err
}

func (l *FListener) Close() error {
	l.Ev.Point()
	l.Closed++
	if l.OnClose != nil {
		l.OnClose()
	}
	if l.Closed > 1 {
		return &net.OpError{Op: "close", Net: "tcp", Addr: fakeAddr("local"), Err: ErrClosed}
	}
	return nil
}

func (l *FListener) Addr() net.Addr { return fakeAddr("local") }

// Dial queues a connection.
func (l *FListener) Dial(c *FConn) {
	l.Ev.Point()
	l.Queue = append(l.Queue, c)
}

package vrt

import (
	"reflect"
	"unsafe"
)

// The state of a channel under control. The native channel value only serves
// as its identity.
type chanState struct {
	id     int32
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	clk    []int32
}

type waiter struct {
	t    *Thread
	sel  *selState
	idx  int
	val  any
	c    *chanState
	send bool
}

type selState struct {
	fired bool
	idx   int
	val   any
	ok    bool
	panic bool
}

func chanKey[T any](c chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

func (x *Exec) chanOf(key uintptr, keep any, capacity int) *chanState {
	st := x.chans[key]
	if st == nil {
		st = &chanState{id: x.newObj("chan"), keep: keep, cap: capacity}
		x.chans[key] = st
	}
	return st
}

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *chanState) canSend() bool { return c.closed || hasWaiter(c.recvq) || len(c.buf) < c.cap }
func (c *chanState) canRecv() bool { return len(c.buf) > 0 || hasWaiter(c.sendq) || c.closed }

func (x *Exec) chanClock(c *chanState, t *Thread) { x.acqRel(t, c.id) }

// doSend performs a send that is known not to block.
func (x *Exec) doSend(c *chanState, v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := dequeue(&c.recvq); w != nil {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		x.readyThread(w.t)
		return
	}
	c.buf = append(c.buf, v)
}

func (x *Exec) doRecv(c *chanState) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append(c.buf[:0:0], c.buf[1:]...)
		if w := dequeue(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.sel.fired, w.sel.idx = true, w.idx
			x.readyThread(w.t)
		}
		return v, true
	}
	if w := dequeue(&c.sendq); w != nil {
		w.sel.fired, w.sel.idx = true, w.idx
		x.readyThread(w.t)
		return w.val, true
	}
	return nil, false // closed
}

// SelCase is one case of an instrumented select statement.
type SelCase struct {
	key  uintptr
	keep any
	cap  int
	send bool
	val  any
	nilc bool
	rv   reflect.Value // the native channel, for pass-through
}

// CaseRecv and CaseSend build select cases.
func CaseRecv[T any](c <-chan T) SelCase {
	k := *(*uintptr)(unsafe.Pointer(&c))
	return SelCase{key: k, keep: c, cap: cap(c), nilc: c == nil, rv: reflect.ValueOf(c)}
}

func CaseSend[T any](c chan<- T, v T) SelCase {
	k := *(*uintptr)(unsafe.Pointer(&c))
	return SelCase{key: k, keep: c, cap: cap(c), send: true, val: v, nilc: c == nil, rv: reflect.ValueOf(c)}
}

// Select performs a select statement. It returns the chosen case (-1 for
// default), the received value and whether it came from a send.
func Select(hasDefault bool, cases ...SelCase) (int, any, bool) {
	x := live()
	if x == nil {
		exitIfGone()
		return nativeSelect(hasDefault, cases)
	}
	cs := make([]*chanState, len(cases))
	d := opDesc{kind: opChan}
	for i := range cases {
		if cases[i].nilc {
			continue
		}
		cs[i] = x.chanOf(cases[i].key, cases[i].keep, cases[i].cap)
		if d.obj == 0 {
			d.obj = cs[i].id
		} else if !d.touches(cs[i].id) {
			d.more = append(d.more, cs[i].id)
		}
	}
	if d.obj == 0 {
		d.kind = opLocal
	}
	t := x.step(d, nil)
	for _, c := range cs {
		if c != nil {
			x.acquire(t, c.id)
		}
	}
	var ready []int
	for i, c := range cs {
		if c == nil {
			continue
		}
		if cases[i].send && c.canSend() || !cases[i].send && c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[Choose(len(ready), "select")]
		c := cs[i]
		x.release(t, c.id)
		if cases[i].send {
			x.doSend(c, cases[i].val)
			return i, nil, false
		}
		v, ok := x.doRecv(c)
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	sel := &selState{}
	for i, c := range cs {
		if c == nil {
			continue
		}
		x.release(t, c.id)
		w := &waiter{t: t, sel: sel, idx: i, val: cases[i].val, c: c, send: cases[i].send}
		if cases[i].send {
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	x.block(t, opDesc{kind: opLocal})
	if sel.panic {
		panic("send on closed channel")
	}
	return sel.idx, sel.val, sel.ok
}

func nativeSelect(hasDefault bool, cases []SelCase) (int, any, bool) {
	var rc []reflect.SelectCase
	for _, c := range cases {
		if c.send {
			v := reflect.ValueOf(c.val)
			if !v.IsValid() {
				v = reflect.Zero(c.rv.Type().Elem())
			}
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.rv, Send: v})
		} else {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.rv})
		}
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1, nil, false
	}
	if cases[i].send || !ok {
		return i, nil, ok
	}
	return i, v.Interface(), ok
}

// As converts a received value; a nil (closed channel) becomes the zero value.
func As[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// SelAs is As typed by the channel (for values of unnamed types).
func SelAs[T any](_ <-chan T, v any) T { return As[T](v) }

// Send is an instrumented channel send.
func Send[T any](c chan<- T, v T) {
	if cur == nil {
		c <- v
		return
	}
	Select(false, CaseSend(c, v))
}

// Sender sends with the usual assignability of the value.
type Sender[T any] struct{ c chan<- T }

// SendTo begins an instrumented send.
func SendTo[T any](c chan<- T) Sender[T] { return Sender[T]{c} }

func (s Sender[T]) Send(v T)         { Send(s.c, v) }
func (s Sender[T]) Case(v T) SelCase { return CaseSend(s.c, v) }

// Recv is an instrumented channel receive.
func Recv[T any](c <-chan T) T {
	if cur == nil {
		return <-c
	}
	_, v, _ := Select(false, CaseRecv(c))
	return As[T](v)
}

// Recv2 is the two-value form of Recv.
func Recv2[T any](c <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-c
		return v, ok
	}
	_, v, ok := Select(false, CaseRecv(c))
	return As[T](v), ok
}

// Close is an instrumented close.
func Close[T any](c chan<- T) {
	x := live()
	if x == nil {
		exitIfGone()
		close(c)
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	st := x.chanOf(*(*uintptr)(unsafe.Pointer(&c)), c, cap(c))
	t := x.step(opDesc{obj: st.id, kind: opChan}, nil)
	x.acqRel(t, st.id)
	if st.closed {
		panic("close of closed channel")
	}
	st.closed = true
	for {
		w := dequeue(&st.recvq)
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, nil, false
		x.readyThread(w.t)
	}
	for {
		w := dequeue(&st.sendq)
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.panic = true, w.idx, true
		x.readyThread(w.t)
	}
}

// Len and Cap are the instrumented builtins on channels.
func Len[T any](c <-chan T) int {
	x := live()
	if x == nil {
		exitIfGone()
		return len(c)
	}
	if c == nil {
		return 0
	}
	st := x.chanOf(*(*uintptr)(unsafe.Pointer(&c)), c, cap(c))
	x.step(opDesc{obj: st.id, kind: opChan}, nil)
	return len(st.buf)
}

// RangeChan iterates like a range over a channel.
func RangeChan[T any](c <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

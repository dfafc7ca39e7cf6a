package vrt

import (
	"flag"
	"fmt"
	"log"
	"os"
	"os/signal"
	"runtime/debug"
	"time"
	"unsafe"
)

func stackHere() string { return trimStack(string(debug.Stack())) }

// --- virtual time ---

var epoch0 = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

type vtimer struct {
	when  time.Duration
	seq   int
	dead  bool
	every time.Duration
	fire  func(x *Exec)
	clk   []int32
	rvc   []int32
}

// startClock adds the thread that advances virtual time (LazyTime).
func (x *Exec) startClock() {
	t := x.newThread("clock", true)
	x.start(t, func() {
		for {
			x.step(opDesc{obj: x.clockObj, kind: opWrite}, func() bool { return x.nextTimer() != nil })
			x.fireOne(x.nextTimer())
		}
	})
}

func (x *Exec) nextTimer() *vtimer {
	var best *vtimer
	for _, v := range x.timers {
		if v.dead {
			continue
		}
		if best == nil || v.when < best.when || v.when == best.when && v.seq < best.seq {
			best = v
		}
	}
	return best
}

func (x *Exec) fireOne(v *vtimer) {
	if v.when > x.now {
		x.now = v.when
	}
	if v.every > 0 {
		v.when += v.every
	} else {
		v.dead = true
		for i, q := range x.timers {
			if q == v {
				x.timers = append(x.timers[:i:i], x.timers[i+1:]...)
				break
			}
		}
	}
	v.fire(x)
}

// fireTimers lets time pass when nothing else can happen.
func (x *Exec) fireTimers() bool {
	if x.ex.LazyTime {
		return false
	}
	v := x.nextTimer()
	if v == nil || v.every > 0 {
		return false
	}
	saved := x.running
	tt := &Thread{id: saved.id, clock: v.clk, rvc: v.rvc}
	x.running = tt
	x.fireOne(v)
	x.running = saved
	return true
}

func (x *Exec) addTimer(d time.Duration, fire func(x *Exec)) *vtimer {
	t := x.step(opDesc{obj: x.clockObj, kind: opRead}, nil)
	return x.addTimerNow(t, d, fire)
}

func (x *Exec) addTimerNow(t *Thread, d time.Duration, fire func(x *Exec)) *vtimer {
	if d < 0 {
		d = 0
	}
	x.timerSeq++
	v := &vtimer{when: x.now + d, seq: x.timerSeq, fire: fire, clk: append([]int32(nil), t.clock...), rvc: append([]int32(nil), t.rvc...)}
	t.rvc[t.id]++
	x.timers = append(x.timers, v)
	return v
}

// Now is the virtual clock.
func Now() time.Time {
	x := live()
	if x == nil {
		exitIfGone()
		return time.Now()
	}
	if x.ex.LazyTime {
		x.step(opDesc{obj: x.clockObj, kind: opRead}, nil)
	}
	return epoch0.Add(x.now)
}

// Elapsed is the virtual time since the execution started.
func Elapsed() time.Duration {
	if x := cur; x != nil {
		return x.now
	}
	return 0
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep blocks in virtual time.
func Sleep(d time.Duration) {
	x := live()
	if x == nil {
		exitIfGone()
		time.Sleep(d)
		return
	}
	t := x.running
	x.addTimer(d, func(x *Exec) { x.readyThread(t) })
	x.block(t, opDesc{kind: opLocal})
}

// Timer is the controlled time.Timer.
type Timer struct {
	C    <-chan time.Time
	ch   chan time.Time
	f    func()
	v    *vtimer
	real *time.Timer
}

func (tm *Timer) arm(x *Exec, d time.Duration) {
	tm.v = x.addTimer(d, func(x *Exec) {
		if tm.f != nil {
			x.start(x.newThread("timer", false), tm.f)
			return
		}
		st := x.chanOf(chanKey(tm.ch), tm.ch, 1)
		if st.canSend() {
			x.doSend(st, epoch0.Add(x.now))
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	x := live()
	if x == nil {
		exitIfGone()
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	ch := make(chan time.Time, 1)
	tm := &Timer{C: ch, ch: ch}
	tm.arm(x, d)
	return tm
}

func AfterFunc(d time.Duration, f func()) *Timer {
	x := live()
	if x == nil {
		exitIfGone()
		return &Timer{real: time.AfterFunc(d, f)}
	}
	tm := &Timer{f: f}
	tm.arm(x, d)
	return tm
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (tm *Timer) Stop() bool {
	x := live()
	if x == nil {
		exitIfGone()
		return tm.real.Stop()
	}
	x.step(opDesc{obj: x.clockObj, kind: opWrite}, nil)
	was := !tm.v.dead
	tm.v.dead = true
	if tm.ch != nil {
		x.chanOf(chanKey(tm.ch), tm.ch, 1).buf = nil
	}
	return was
}

func (tm *Timer) Reset(d time.Duration) bool {
	x := live()
	if x == nil {
		exitIfGone()
		return tm.real.Reset(d)
	}
	was := tm.Stop()
	tm.arm(x, d)
	return was
}

// Ticker is the controlled time.Ticker (fires only in LazyTime).
type Ticker struct {
	C    <-chan time.Time
	ch   chan time.Time
	v    *vtimer
	real *time.Ticker
}

func NewTicker(d time.Duration) *Ticker {
	x := live()
	if x == nil {
		exitIfGone()
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	ch := make(chan time.Time, 1)
	tk := &Ticker{C: ch, ch: ch}
	tk.v = x.addTimer(d, func(x *Exec) {
		st := x.chanOf(chanKey(ch), ch, 1)
		if st.canSend() {
			x.doSend(st, epoch0.Add(x.now))
		}
	})
	tk.v.every = d
	return tk
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func (tk *Ticker) Stop() {
	x := live()
	if x == nil {
		if tk.real != nil {
			tk.real.Stop()
		}
		return
	}
	x.step(opDesc{obj: x.clockObj, kind: opWrite}, nil)
	tk.v.dead = true
}

func (tk *Ticker) Reset(d time.Duration) {}

// --- signals ---

type sigReg struct {
	ch   chan<- os.Signal
	all  bool
	sigs map[os.Signal]bool
}

var sigRef objRef

func sigStep(kind opKind) (*Exec, *Thread) {
	x := live()
	if x == nil {
		exitIfGone()
		return nil, nil
	}
	o := x.obj(&sigRef, "signals")
	t := x.step(opDesc{obj: o, kind: kind}, nil)
	x.acqRel(t, o)
	return x, t
}

// Notify mirrors signal.Notify.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	x, _ := sigStep(opWrite)
	if x == nil {
		signal.Notify(c, sig...)
		return
	}
	var r *sigReg
	for _, q := range x.sigs {
		if q.ch == c {
			r = q
		}
	}
	if r == nil {
		r = &sigReg{ch: c, sigs: map[os.Signal]bool{}}
		x.sigs = append(x.sigs, r)
	}
	if len(sig) == 0 {
		r.all = true
	}
	for _, s := range sig {
		r.sigs[s] = true
	}
}

// Stop mirrors signal.Stop.
func Stop(c chan<- os.Signal) {
	x, _ := sigStep(opWrite)
	if x == nil {
		signal.Stop(c)
		return
	}
	for i, q := range x.sigs {
		if q.ch == c {
			x.sigs = append(x.sigs[:i:i], x.sigs[i+1:]...)
			return
		}
	}
}

// Reset mirrors signal.Reset.
func Reset(sig ...os.Signal) {
	x, _ := sigStep(opWrite)
	if x == nil {
		signal.Reset(sig...)
		return
	}
	for _, q := range x.sigs {
		if len(sig) == 0 {
			q.all, q.sigs = false, map[os.Signal]bool{}
		}
		for _, s := range sig {
			delete(q.sigs, s)
		}
	}
}

// Ignore mirrors signal.Ignore.
func Ignore(sig ...os.Signal) {
	if live() == nil && !gone() {
		signal.Ignore(sig...)
		return
	}
	Reset(sig...)
}

// DeliverSignal is the operating system delivering a signal to the process; it
// reports how many registered channels wanted it (0: the default action).
func DeliverSignal(s os.Signal) int {
	x, _ := sigStep(opRead)
	if x == nil {
		return 0
	}
	n := 0
	for _, q := range append([]*sigReg(nil), x.sigs...) {
		if q.all || q.sigs[s] {
			n++
			Select(true, CaseSend(q.ch, s))
		}
	}
	return n
}

// --- process exit and logging ---

// Exit mirrors os.Exit: the execution ends here.
func Exit(code int) {
	x := live()
	if x == nil {
		exitIfGone()
		os.Exit(code)
	}
	x.exited, x.exitCode = true, code
	x.end()
	x.park(x.running)
}

// ExitInfo tells an oracle whether and how the process exited.
func ExitInfo() (bool, int) {
	if x := cur; x != nil {
		return x.exited, x.exitCode
	}
	return false, 0
}

func logOut(s string) {
	if x := live(); x != nil {
		x.logs = append(x.logs, "log: "+s)
		return
	}
	if !gone() {
		log.Output(3, s)
	}
}

// Logs lists what the code under test logged.
func Logs() []string {
	if x := cur; x != nil {
		return x.logs
	}
	return nil
}

func LogPrint(v ...any)            { logOut(fmt.Sprint(v...)) }
func LogPrintln(v ...any)          { logOut(fmt.Sprintln(v...)) }
func LogPrintf(f string, v ...any) { logOut(fmt.Sprintf(f, v...)) }
func LogFatal(v ...any)            { logOut(fmt.Sprint(v...)); Exit(1) }
func LogFatalln(v ...any)          { logOut(fmt.Sprintln(v...)); Exit(1) }
func LogFatalf(f string, v ...any) { logOut(fmt.Sprintf(f, v...)); Exit(1) }
func LogPanic(v ...any)            { logOut(fmt.Sprint(v...)); panic(fmt.Sprint(v...)) }
func LogPanicln(v ...any)          { logOut(fmt.Sprintln(v...)); panic(fmt.Sprintln(v...)) }
func LogPanicf(f string, v ...any) { logOut(fmt.Sprintf(f, v...)); panic(fmt.Sprintf(f, v...)) }

// --- per-execution variables for harnesses and models ---

// Var returns a value stored for this execution, creating it on first use.
func Var[T any](name string, mk func() T) T {
	x := cur
	if x == nil {
		return mk()
	}
	v, ok := x.vars[name]
	if !ok {
		v = mk()
		x.vars[name] = v
	}
	return v.(T)
}

// --- maps ---

type keyList struct {
	keep any
	keys []any
	set  map[any]bool
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) uintptr { return *(*uintptr)(unsafe.Pointer(&m)) }

func (x *Exec) klist(p uintptr, keep any) *keyList {
	l := x.mapKeys[p]
	if l == nil {
		l = &keyList{keep: keep, set: map[any]bool{}}
		x.mapKeys[p] = l
	}
	return l
}

// MapWr writes an instrumented map.
type MapWr[M ~map[K]V, K comparable, V any] struct {
	m    M
	site int32
}

// MapW begins an instrumented map write.
func MapW[M ~map[K]V, K comparable, V any](m M, site int32) MapWr[M, K, V] {
	return MapWr[M, K, V]{m, site}
}

// Set is m[k] = v.
func (w MapWr[M, K, V]) Set(k K, v V) {
	if x := live(); x != nil && w.m != nil {
		p := mapPtr(w.m)
		l := x.klist(p, w.m)
		if !l.set[k] {
			l.set[k] = true
			l.keys = append(l.keys, k)
			if _, ok := x.keySeq[k]; !ok {
				x.keySeq[k] = len(x.keySeq)
			}
		}
		x.mapAccess(p, true, w.site)
	}
	w.m[k] = v
}

// Delete is delete(m, k).
func (w MapWr[M, K, V]) Delete(k K) {
	if x := live(); x != nil && w.m != nil {
		p := mapPtr(w.m)
		l := x.klist(p, w.m)
		if l.set[k] {
			delete(l.set, k)
			for i, q := range l.keys {
				if q == any(k) {
					l.keys = append(l.keys[:i:i], l.keys[i+1:]...)
					break
				}
			}
		}
		x.mapAccess(p, true, w.site)
	}
	delete(w.m, k)
}

// MapR marks a read of a map's contents.
func MapR[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if x := live(); x != nil && m != nil && x.ex.Races {
		x.klist(mapPtr(m), m)
		x.mapAccess(mapPtr(m), false, site)
	}
	return m
}

// MapKeys returns the keys in a deterministic order (insertion order, or with
// MapOrder also its reverse).
func MapKeys[M ~map[K]V, K comparable, V any](m M, site int32) []K {
	var out []K
	x := live()
	if x == nil {
		for k := range m {
			out = append(out, k)
		}
		return out
	}
	if m == nil {
		return nil
	}
	x.mapAccess(mapPtr(m), false, site)
	out = keysOf(x, m)
	if x.ex.MapOrder && len(out) > 1 && Choose(2, "map order") == 1 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func keysOf[M ~map[K]V, K comparable, V any](x *Exec, m M) []K {
	var out []K
	l := x.klist(mapPtr(m), m)
	for _, k := range l.keys {
		kk := k.(K)
		if _, ok := m[kk]; ok {
			out = append(out, kk)
		}
	}
	if len(out) != len(m) {
		// Keys stored by code that is not instrumented.
		var extra []K
		for k := range m {
			if !l.set[k] {
				extra = append(extra, k)
			}
		}
		sortKeys(x, extra)
		for _, k := range extra {
			l.set[k] = true
			l.keys = append(l.keys, k)
		}
		out = append(out, extra...)
	}
	return out
}

// sortKeys puts keys of which only the set is known into an order that is the
// same in every execution: by when a map first had them, or else as text.
func sortKeys[K comparable](x *Exec, l []K) {
	less := func(a, b K) bool {
		m, ok := x.keySeq[a]
		n, ok2 := x.keySeq[b]
		if ok && ok2 {
			return m < n
		}
		return ok || !ok2 && fmt.Sprint(a) < fmt.Sprint(b)
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && less(l[j], l[j-1]); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// MapsClone is maps.Clone.
func MapsClone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	out := make(M, len(m))
	MapsCopy(out, m)
	return out
}

// MapsCopy is maps.Copy.
func MapsCopy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	x := live()
	if x == nil {
		for k, v := range src {
			dst[k] = v
		}
		return
	}
	if src == nil {
		return
	}
	x.mapAccess(mapPtr(src), false, 0)
	for _, k := range keysOf(x, src) {
		MapW(dst, 0).Set(k, src[k])
	}
}

// --- happens-before races ---

type accKind uint8

const (
	accR accKind = iota
	accW
	accAR
	accAW
)

var accNames = [...]string{"read", "write", "atomic read", "atomic write"}

type shadowBucket struct {
	keep  unsafe.Pointer
	cells []shadowCell
}

type acc struct {
	tid  int32
	at   int32
	site int32
	kind accKind
}

type shadowCell struct {
	mask uint8
	accs []acc // last access of each kind per thread
}

func (x *Exec) access(p unsafe.Pointer, size uintptr, k accKind, site int32) {
	a := uintptr(p)
	for off := uintptr(0); off < size; {
		b := (a + off) >> 3
		lo := (a + off) & 7
		n := 8 - lo
		if n > size-off {
			n = size - off
		}
		mask := uint8((1<<n - 1) << lo)
		x.accessBucket(b, unsafe.Add(p, off), mask, k, site)
		off += n
	}
}

func (x *Exec) accessBucket(b uintptr, keep unsafe.Pointer, mask uint8, k accKind, site int32) {
	t := x.running
	bk := x.shadow[b]
	if bk == nil {
		bk = &shadowBucket{keep: keep}
		x.shadow[b] = bk
	}
	var mine *shadowCell
	for i := range bk.cells {
		c := &bk.cells[i]
		if c.mask&mask == 0 {
			continue
		}
		for _, o := range c.accs {
			if int(o.tid) == t.id {
				continue
			}
			if (o.kind == accR || o.kind == accAR) && (k == accR || k == accAR) {
				continue
			}
			if o.kind >= accAR && k >= accAR {
				continue
			}
			if o.at <= clk(t.rvc, int(o.tid)) {
				continue
			}
			if x.fail == nil && !x.ended {
				x.fail = &Failure{Kind: "race", Msg: fmt.Sprintf("data race: %s by thread %d (%s) at %s and %s by thread %d (%s) at %s",
					accNames[o.kind], o.tid, x.threads[o.tid].name, siteName(o.site),
					accNames[k], t.id, t.name, siteName(site))}
			}
			x.end()
			x.park(t)
		}
		if c.mask == mask {
			mine = c
		}
	}
	if mine == nil {
		bk.cells = append(bk.cells, shadowCell{mask: mask})
		mine = &bk.cells[len(bk.cells)-1]
	}
	at := clk(t.rvc, t.id)
	for i := range mine.accs {
		if int(mine.accs[i].tid) == t.id && mine.accs[i].kind == k {
			mine.accs[i].at, mine.accs[i].site = at, site
			return
		}
	}
	mine.accs = append(mine.accs, acc{int32(t.id), at, site, k})
}

func (x *Exec) mapAccess(p uintptr, write bool, site int32) {
	if !x.ex.Races {
		return
	}
	k := accR
	if write {
		k = accW
	}
	x.accessBucket(p>>3|1<<62, nil, 1, k, site)
}

// R marks a plain read of *p.
func R[T any](p *T, site int32) *T {
	if x := live(); x != nil && x.ex.Races && p != nil {
		x.access(unsafe.Pointer(p), unsafe.Sizeof(*p), accR, site)
	}
	return p
}

// W marks a plain write of *p.
func W[T any](p *T, site int32) *T {
	if x := live(); x != nil && x.ex.Races && p != nil {
		x.access(unsafe.Pointer(p), unsafe.Sizeof(*p), accW, site)
	}
	return p
}

// RW marks a plain read and write of *p.
func RW[T any](p *T, site int32) *T {
	R(p, site)
	return W(p, site)
}

// Wr is an instrumented assignment target.
type Wr[T any] struct {
	p    *T
	site int32
}

// Ptr begins an instrumented assignment to *p.
func Ptr[T any](p *T, site int32) Wr[T] { return Wr[T]{p, site} }

// Set completes it: the write happens after v is evaluated.
func (w Wr[T]) Set(v T) {
	W(w.p, w.site)
	*w.p = v
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Keep makes the import of this package used.
type Keep struct{}

var sites = map[int32]string{}

// RegisterSites names the source positions of instrumented accesses.
func RegisterSites(base int32, names []string) {
	for i, n := range names {
		sites[base+int32(i)] = n
	}
}

func siteName(s int32) string {
	if s == 0 {
		return "an atomic operation"
	}
	if n, ok := sites[s]; ok {
		return n
	}
	return fmt.Sprintf("site %d", s)
}

// GOMAXPROCS mirrors runtime.GOMAXPROCS for sizing purposes.
func GOMAXPROCS(int) int { return NumCPU() }

// FlagStringVar and the others tolerate package initialisers being re-run.
func FlagStringVar(p *string, name, def, usage string) {
	*p = def
	if flag.Lookup(name) == nil {
		flag.StringVar(p, name, def, usage)
	}
}

func FlagBoolVar(p *bool, name string, def bool, usage string) {
	*p = def
	if flag.Lookup(name) == nil {
		flag.BoolVar(p, name, def, usage)
	}
}

func FlagIntVar(p *int, name string, def int, usage string) {
	*p = def
	if flag.Lookup(name) == nil {
		flag.IntVar(p, name, def, usage)
	}
}

func FlagString(name, def, usage string) *string {
	p := new(string)
	FlagStringVar(p, name, def, usage)
	return p
}

// touch announces an access to some elements of a slice.
func touch[E any](l []E, write bool, site int32) {
	if x := live(); x == nil || !x.ex.Races {
		return
	}
	if len(l) > 64 {
		l = l[:64]
	}
	for i := range l {
		if write {
			W(&l[i], site)
		} else {
			R(&l[i], site)
		}
	}
}

// AppendTo announces an append of n elements: in place if there is room, else
// old elements are copied.
func AppendTo[S ~[]E, E any](s S, n int, site int32) S {
	if k := len(s) + n; k <= cap(s) {
		touch(s[len(s):k], true, site)
	} else {
		touch(s, false, site)
	}
	return s
}

// AppendAll is append(s, t...).
func AppendAll[S ~[]E, T ~[]E, E any](s S, t T, site int32) S {
	touch(t, false, site)
	return append(AppendTo(s, len(t), site), t...)
}

// AppendString is append(s, t...).
func AppendString[S ~[]byte, T ~string](s S, t T, site int32) S {
	return append(AppendTo(s, len(t), site), t...)
}

// WriteAll announces a write of all elements.
func WriteAll[S ~[]E, E any](s S, site int32) S { touch(s, true, site); return s }

// Copy is copy.
func Copy[D ~[]E, S ~[]E, E any](d D, s S, site int32) int {
	n := copy(d, s)
	touch(s[:n], false, site)
	touch(d[:n], true, site)
	return n
}

// CopyString is copy from a string.
func CopyString[D ~[]byte, S ~string](d D, s S, site int32) int {
	n := copy(d, s)
	touch(d[:n], true, site)
	return n
}

// MapTouch announces an access to a map.
func MapTouch[M ~map[K]V, K comparable, V any](m M, write bool, site int32) M {
	if x := live(); x != nil && m != nil && write {
		x.klist(mapPtr(m), m)
		x.mapAccess(mapPtr(m), true, site)
		return m
	}
	return MapR(m, site)
}

// Package vrt is the controlled runtime under which the instrumented goji
// sources are model checked. Every synchronisation operation of the code under
// test (mutexes, atomics, channels, wait groups, once, pools, timers, goroutine
// creation) becomes a scheduling point of a cooperative scheduler, so that an
// Explorer can enumerate the interleavings of a harness: all of them modulo
// commuting operations (dynamic partial-order reduction with sleep sets), or
// all of them with at most k preemptions. Plain memory accesses of the
// instrumented code are not scheduling points; they are checked for
// happens-before races in each explored execution, which is what makes
// scheduling only at synchronisation operations sufficient.
//
// With no execution active every operation falls through to the real one.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// opKind classifies a visible operation; together with the object it decides
// which pairs of operations commute.
type opKind uint8

const (
	opLocal   opKind = iota // touches nothing shared
	opRead                  // reads the object
	opWrite                 // writes the object
	opLock                  // mutex/rwmutex write acquire
	opRLock                 // rwmutex read acquire
	opTryLock               //
	opWgAdd                 // positive delta
	opWgDone                // negative delta
	opWgWait                // blocks until zero
	opWgReg                 // registers as a waiter (reuse model)
	opWgWake                // a released waiter resuming
	opChan                  // any channel operation
)

var opNames = [...]string{"local", "read", "write", "lock", "rlock", "trylock", "wg.add", "wg.done", "wg.wait", "wg.reg", "wg.wake", "chan"}

type opDesc struct {
	obj  int32
	kind opKind
	more []int32 // further objects (select)
}

func (d opDesc) touches(o int32) bool {
	if d.obj == o {
		return true
	}
	for _, m := range d.more {
		if m == o {
			return true
		}
	}
	return false
}

func kindDep(a, b opKind) bool {
	if a == opLocal || b == opLocal {
		return false
	}
	switch {
	case a == opRead && b == opRead:
		return false
	case a == opRLock && b == opRLock:
		return false
	case a == opWgDone && b == opWgDone:
		return false
	case isWait(a) && isWait(b):
		return false
	}
	return true
}

func isWait(k opKind) bool { return k == opWgWait || k == opWgReg || k == opWgWake }

// dependent reports whether two operations may not commute.
func dependent(a, b opDesc) bool {
	if !kindDep(a.kind, b.kind) {
		return false
	}
	if a.obj != 0 && b.touches(a.obj) {
		return true
	}
	for _, m := range a.more {
		if b.touches(m) {
			return true
		}
	}
	return false
}

// mayBeCoEnabled prunes dependent pairs that can never be enabled together.
func mayBeCoEnabled(a, b opDesc) bool {
	// Waiting needs a zero counter; decrementing from zero panics at once.
	if a.kind == opWgWait && b.kind == opWgDone || a.kind == opWgDone && b.kind == opWgWait {
		return false
	}
	return true
}

// Thread is one controlled goroutine.
type Thread struct {
	id       int
	name     string
	daemon   bool
	finished bool
	wake     chan struct{}
	done     chan struct{}
	wakeClk  []int32 // clock of the transition that released a blocked thread
	wakeRv   []int32
	ready    bool
	pend     opDesc
	enabled  func() bool
	clock    []int32
	rvc      []int32 // happens-before clock for race detection
	spawnBy  int
}

type transition struct {
	tid   int
	node  int
	desc  opDesc
	clock []int32
	where string
}

// Failure describes a violated oracle.
type Failure struct {
	Kind   string   // deadlock, panic, race, assert, exit
	Msg    string   //
	Detail string   //
	Trace  []string // human-readable schedule (trace mode only)
}

func (f *Failure) Error() string { return f.Kind + ": " + f.Msg }

// Exec is one execution.
type Exec struct {
	ex       *Explorer
	epoch    uint32
	threads  []*Thread
	running  *Thread
	objN     int32
	objNames []string
	trace    []transition
	objTrans map[int32][]int32
	depth    int // next node index
	sleepCur uint64
	preempts int
	dead     atomic.Bool
	endCh    chan struct{}
	ended    bool
	fail     *Failure
	pruned   bool
	horizon  bool
	diverged string
	addrObj  map[any]*objRef
	chans    map[uintptr]*chanState
	mapKeys  map[uintptr]*keyList
	keySeq   map[any]int // keys of maps, in order of appearance
	shadow   map[uintptr]*shadowBucket
	lockClk  map[int32][]int32
	lockClkW map[int32][]int32
	relClk   map[int32][]int32
	now      time.Duration
	timers   []*vtimer
	timerSeq int
	clockObj int32
	sigs     []*sigReg
	outcome  []string
	logs     []string
	exitCode int
	exited   bool
	vars     map[string]any
	keep     []any
}

var cur *Exec
var epochCtr uint32

type objRef struct {
	epoch uint32
	id    int32
}

func (x *Exec) obj(r *objRef, name string) int32 {
	if r.epoch != x.epoch {
		x.objN++
		r.epoch = x.epoch
		r.id = x.objN
		x.objNames = append(x.objNames, name)
	}
	return r.id
}

func (x *Exec) newObj(name string) int32 {
	x.objN++
	x.objNames = append(x.objNames, name)
	return x.objN
}

func (x *Exec) objFor(key any, name string) int32 {
	r := x.addrObj[key]
	if r == nil {
		r = &objRef{}
		x.addrObj[key] = r
	}
	return x.obj(r, name)
}

// Active reports whether an execution is being explored.
func Active() bool { x := cur; return x != nil && !x.dead.Load() }

func live() *Exec {
	x := cur
	if x == nil || x.dead.Load() {
		return nil
	}
	return x
}

// gone is true while an execution is being torn down: operations are no-ops.
func gone() bool { x := cur; return x != nil && x.dead.Load() }

func joinClock(dst *[]int32, src []int32) {
	for len(*dst) < len(src) {
		*dst = append(*dst, 0)
	}
	d := *dst
	for i, v := range src {
		if v > d[i] {
			d[i] = v
		}
	}
}

func clk(c []int32, i int) int32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

// --- scheduling ---

func (x *Exec) park(t *Thread) {
	<-t.wake
	if x.dead.Load() {
		runtime.Goexit()
	}
}

// step announces the next visible operation of the running thread and returns
// once the scheduler has chosen it. en == nil means always enabled.
func (x *Exec) step(d opDesc, en func() bool) *Thread {
	t := x.running
	if x.dead.Load() {
		runtime.Goexit()
	}
	t.pend = d
	t.enabled = en
	x.reschedule(t)
	return t
}

func (x *Exec) reschedule(t *Thread) {
	next := x.pick(t)
	if next == nil {
		x.end()
		x.park(t)
		return // unreachable
	}
	if next != t {
		x.running = next
		next.wake <- struct{}{}
		x.park(t)
	}
}

func (x *Exec) end() {
	if !x.ended {
		x.ended = true
		close(x.endCh)
	}
}

func (x *Exec) failNow(kind, msg, detail string) {
	if x.fail == nil && !x.ended {
		x.fail = &Failure{Kind: kind, Msg: msg, Detail: detail}
	}
	x.end()
	t := x.running
	x.park(t)
}

// pick chooses the thread to run next and commits its pending operation.
func (x *Exec) pick(t *Thread) *Thread {
	for {
		var enabled uint64
		var blocked []string
		for _, th := range x.threads {
			if th.finished {
				continue
			}
			if th.enabled == nil || th.enabled() {
				enabled |= 1 << uint(th.id)
			}
		}
		if enabled == 0 {
			for _, th := range x.threads {
				if !th.finished && !th.daemon {
					blocked = append(blocked, fmt.Sprintf("thread %d (%s) blocked in %s on %s", th.id, th.name, opNames[th.pend.kind], x.objName(th.pend.obj)))
				}
			}
			if len(blocked) > 0 && x.fireTimers() {
				continue
			}
			x.endCheck()
			if len(blocked) > 0 && x.fail == nil {
				x.fail = &Failure{Kind: "deadlock", Msg: "no thread can run: " + strings.Join(blocked, "; ")}
			}
			return nil
		}
		n := x.chooseThread(t, enabled)
		if n < 0 {
			return nil
		}
		th := x.threads[n]
		x.dporCheck(th)
		x.commit(th)
		return th
	}
}

// endCheck looks for races of the operations still pending at the end.
func (x *Exec) endCheck() {
	for _, th := range x.threads {
		x.dporCheck(th)
	}
}

func (x *Exec) objName(o int32) string {
	if o <= 0 || int(o) > len(x.objNames) {
		return "-"
	}
	return fmt.Sprintf("%s#%d", x.objNames[o-1], o)
}

// dporCheck adds backtracking points for the pending operation of p: for every
// race between it and an executed transition e (dependent, not ordered through
// anything else) one thread that starts the alternative continuation in which e
// has not happened yet must be explored at the node of e (source sets).
func (x *Exec) dporCheck(p *Thread) {
	e := x.ex
	if e.Mode != DPOR || p.finished || p.pend.kind == opLocal {
		return
	}
	var cand []int32
	if p.pend.more == nil {
		cand = x.objTrans[p.pend.obj]
	} else {
		seen := map[int32]bool{}
		for _, o := range append([]int32{p.pend.obj}, p.pend.more...) {
			for _, i := range x.objTrans[o] {
				if !seen[i] {
					seen[i] = true
					cand = append(cand, i)
				}
			}
		}
		sort.Slice(cand, func(i, j int) bool { return cand[i] < cand[j] })
	}
	past := append([]int32(nil), p.clock...)
	joinClock(&past, p.wakeClk)
	later := past
	for k := len(cand) - 1; k >= 0; k-- {
		i := int(cand[k])
		tr := &x.trace[i]
		if tr.tid == p.id || !dependent(tr.desc, p.pend) {
			continue
		}
		covered := int32(i+1) <= clk(later, tr.tid)
		if !covered {
			if mayBeCoEnabled(tr.desc, p.pend) {
				x.addBacktrack(i, p, past)
			}
			joinClock(&later, tr.clock)
		}
	}
}

// addBacktrack handles one race between transition i and the pending operation
// of p, whose past (without that operation) is the clock past.
func (x *Exec) addBacktrack(i int, p *Thread, past []int32) {
	ei := &x.trace[i]
	nd := &x.ex.stack[ei.node]
	var first uint64 // threads with an event in v
	var inits uint64
	hbP := false
	var v []int32 // indices of events not after i
	for j := i + 1; j < len(x.trace); j++ {
		tj := &x.trace[j]
		if clk(tj.clock, ei.tid) >= int32(i+1) {
			continue // happens after e
		}
		qb := uint64(1) << uint(tj.tid)
		if clk(past, tj.tid) >= int32(j+1) {
			hbP = true
		}
		if first&qb == 0 {
			first |= qb
			ok := true
			for _, k := range v {
				if clk(tj.clock, x.trace[k].tid) >= k+1 {
					ok = false
					break
				}
			}
			if ok {
				inits |= qb
			}
		}
		v = append(v, int32(j))
	}
	pb := uint64(1) << uint(p.id)
	if first&pb == 0 {
		ok := true
		for _, k := range v {
			tk := &x.trace[k]
			if clk(past, tk.tid) >= k+1 || dependent(tk.desc, p.pend) {
				ok = false
				break
			}
		}
		if ok {
			inits |= pb
		}
	}
	inits &= nd.enabled
	if nd.enabled&pb == 0 && !hbP {
		nd.backtrack |= nd.enabled
		return
	}
	if inits == 0 {
		nd.backtrack |= nd.enabled
		return
	}
	if nd.backtrack&inits == 0 {
		if inits&pb != 0 {
			nd.backtrack |= pb
		} else {
			nd.backtrack |= inits & -inits
		}
	}
}

func (x *Exec) chooseThread(t *Thread, enabled uint64) int {
	e := x.ex
	if len(x.trace) >= e.Horizon {
		x.horizon = true
		return -1
	}
	runBit := uint64(0)
	if t != nil && !t.finished {
		runBit = enabled & (1 << uint(t.id))
	}
	if x.depth < len(e.stack) {
		nd := &e.stack[x.depth]
		if nd.choice || nd.enabled != enabled || !x.samePends(nd) {
			x.diverged = fmt.Sprintf("replay divergence at node %d: recorded enabled=%b choice=%v, now enabled=%b", x.depth, nd.enabled, nd.choice, enabled)
			return -1
		}
		x.noteSleep(nd)
		return nd.chosen
	}
	if e.Mode == forcedMode {
		c := -1
		if x.depth < len(e.forced) {
			c = e.forced[x.depth]
		} else if runBit != 0 {
			c = t.id
		} else {
			c = lowBit(enabled)
		}
		if c < 0 || c > 63 || enabled&(1<<uint(c)) == 0 {
			x.diverged = fmt.Sprintf("replay: thread %d not enabled at node %d", c, x.depth)
			return -1
		}
		x.depth++
		return c
	}
	nd := node{enabled: enabled, preempts: x.preempts, running: runBit}
	nd.pends = make([]opDesc, len(x.threads))
	for i, th := range x.threads {
		nd.pends[i] = th.pend
	}
	switch e.Mode {
	case DPOR:
		nd.sleep = x.sleepCur
		cand := enabled &^ nd.sleep
		if cand == 0 {
			x.pruned = true
			return -1
		}
		if cand&runBit != 0 {
			nd.chosen = t.id
		} else {
			nd.chosen = lowBit(cand)
		}
		nd.backtrack = 1 << uint(nd.chosen)
	case Bounded:
		if runBit != 0 {
			nd.chosen = t.id
		} else {
			nd.chosen = lowBit(enabled)
		}
		nd.backtrack = 1 << uint(nd.chosen)
		if runBit == 0 || x.preempts < e.Bound {
			nd.backtrack = enabled
		}
	}
	if e.Mode == Delayed {
		last := -1
		if t != nil {
			last = t.id
		}
		nd.cost = map[int]int8{}
		nd.chosen, nd.backtrack = inTurn(enabled, runBit, last, len(x.threads), 0), 0
		for k := 0; k <= e.Bound-x.preempts; k++ {
			c := inTurn(enabled, runBit, last, len(x.threads), k)
			if c < 0 {
				break
			}
			nd.backtrack |= 1 << uint(c)
			nd.cost[c] = int8(k)
		}
	}
	e.stack = append(e.stack, nd)
	e.Stats.Nodes++
	x.noteSleep(&e.stack[x.depth])
	return nd.chosen
}

// inTurn is the k-th enabled thread in turn: the running one first, then the
// others, starting after the last.
func inTurn(enabled, runBit uint64, last, n, k int) int {
	if runBit != 0 {
		if k == 0 {
			return last
		}
		k--
	}
	for i := 1; i <= n; i++ {
		c := (last + i + n) % n
		if bit := uint64(1) << uint(c); enabled&bit != 0 && bit != runBit {
			if k == 0 {
				return c
			}
			k--
		}
	}
	return -1
}

func (x *Exec) samePends(nd *node) bool {
	if len(nd.pends) != len(x.threads) {
		return false
	}
	for i, th := range x.threads {
		p := nd.pends[i]
		if p.obj != th.pend.obj || p.kind != th.pend.kind || len(p.more) != len(th.pend.more) {
			return false
		}
	}
	return true
}

// noteSleep advances the sleep set and preemption count over the choice at nd.
func (x *Exec) noteSleep(nd *node) {
	if x.ex.Mode == Delayed {
		x.preempts += int(nd.cost[nd.chosen])
	} else if nd.running != 0 && nd.running != 1<<uint(nd.chosen) {
		x.preempts++
	}
	if x.ex.Mode == DPOR {
		s := (nd.sleep | nd.done) &^ (1 << uint(nd.chosen))
		var out uint64
		cd := nd.pends[nd.chosen]
		for q := 0; q < len(nd.pends); q++ {
			if s&(1<<uint(q)) != 0 && !dependent(nd.pends[q], cd) {
				out |= 1 << uint(q)
			}
		}
		x.sleepCur = out
	}
	x.depth++
}

func lowBit(b uint64) int {
	for i := 0; i < 64; i++ {
		if b&(1<<uint(i)) != 0 {
			return i
		}
	}
	return -1
}

func (x *Exec) commit(t *Thread) {
	idx := len(x.trace)
	d := t.pend
	if t.wakeClk != nil {
		joinClock(&t.clock, t.wakeClk)
		t.wakeClk = nil
	}
	if t.wakeRv != nil {
		joinClock(&t.rvc, t.wakeRv)
		t.wakeRv = nil
	}
	// Clock: join all earlier dependent transitions.
	join := func(o int32) {
		for _, i := range x.objTrans[o] {
			tr := &x.trace[i]
			if tr.tid != t.id && dependent(tr.desc, d) {
				joinClock(&t.clock, tr.clock)
			}
		}
		x.objTrans[o] = append(x.objTrans[o], int32(idx))
	}
	switch d.kind {
	case opLock, opTryLock:
		joinClock(&t.clock, x.lockClk[d.obj])
	case opRLock:
		joinClock(&t.clock, x.lockClkW[d.obj])
	}
	if d.kind != opLocal {
		if d.obj != 0 {
			join(d.obj)
		}
		for _, o := range d.more {
			join(o)
		}
	}
	for len(t.clock) <= t.id {
		t.clock = append(t.clock, 0)
	}
	t.clock[t.id] = int32(idx + 1)
	tr := transition{tid: t.id, node: x.depth - 1, desc: d}
	if x.ex.Mode == DPOR {
		tr.clock = append([]int32(nil), t.clock...)
	}
	if x.ex.TraceMode {
		tr.where = t.name
	}
	x.trace = append(x.trace, tr)
	for len(t.rvc) <= t.id {
		t.rvc = append(t.rvc, 0)
	}
	t.rvc[t.id]++
	x.ex.Stats.Transitions++
	// The operation is no longer pending for the race check until the
	// thread announces the next one.
	t.pend = opDesc{}
	t.enabled = nil
}

// Choose enumerates an environment decision among n alternatives (0 is the
// default answer and is explored first).
func Choose(n int, what string) int {
	x := live()
	if x == nil || n <= 1 {
		return 0
	}
	e := x.ex
	if e.Mode == forcedMode {
		c := 0
		if x.depth < len(e.forced) {
			c = e.forced[x.depth]
		}
		if c < 0 || c >= n {
			c = 0
		}
		x.depth++
		return c
	}
	if x.depth < len(e.stack) {
		nd := &e.stack[x.depth]
		if !nd.choice || nd.n != n {
			x.diverged = fmt.Sprintf("replay divergence at node %d: recorded choice=%v/%d, now a choice of %d (%s)", x.depth, nd.choice, nd.n, n, what)
			x.end()
			x.park(x.running)
		}
		x.depth++
		return nd.chosen
	}
	e.stack = append(e.stack, node{choice: true, n: n, what: what})
	e.Stats.Nodes++
	x.depth++
	return 0
}

// --- threads ---

func (x *Exec) newThread(name string, daemon bool) *Thread {
	if len(x.threads) >= 60 {
		x.failNow("toolimit", "more than 60 threads", "")
	}
	t := &Thread{id: len(x.threads), name: name, daemon: daemon, wake: make(chan struct{}, 1), done: make(chan struct{})}
	if p := x.running; p != nil {
		t.clock = append([]int32(nil), p.clock...)
		t.rvc = append([]int32(nil), p.rvc...)
		t.spawnBy = p.id
		// Later actions of the parent are concurrent with the child.
		for len(p.rvc) <= p.id {
			p.rvc = append(p.rvc, 0)
		}
		p.rvc[p.id]++
	}
	for len(t.rvc) <= t.id {
		t.rvc = append(t.rvc, 0)
	}
	t.rvc[t.id] = 1
	x.threads = append(x.threads, t)
	return t
}

func (x *Exec) start(t *Thread, f func()) {
	go func() {
		defer close(t.done)
		normal := false
		defer func() {
			if normal {
				return
			}
			r := recover()
			if x.dead.Load() {
				return
			}
			if r == nil {
				// runtime.Goexit in the code under test: a plain exit.
				x.exitThread(t)
				return
			}
			st := trimStack(string(debug.Stack()))
			if x.fail == nil && !x.ended {
				x.fail = &Failure{Kind: "panic", Msg: fmt.Sprint(r), Detail: st}
			}
			t.finished = true
			x.end()
		}()
		<-t.wake
		if x.dead.Load() {
			runtime.Goexit()
		}
		f()
		normal = true
		x.exitThread(t)
	}()
}

func (x *Exec) exitThread(t *Thread) {
	if x.dead.Load() {
		return
	}
	t.finished = true
	next := x.pick(t)
	if next == nil {
		x.end()
		return
	}
	x.running = next
	next.wake <- struct{}{}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines) && len(out) < 40; i++ {
		if strings.Contains(lines[i], "/vrt/") || strings.Contains(lines[i], "verif.local/mc/vrt.") {
			continue
		}
		out = append(out, lines[i])
	}
	return strings.Join(out, "\n")
}

// Uncontrolled lets goroutines of instrumented code run although nothing is
// being explored (for harnesses that only want VerifReset).
var Uncontrolled bool

// Go starts a controlled goroutine (the instrumented form of the go statement).
func Go(f func()) {
	x := cur
	if x == nil {
		// A goroutine started by package initialisation, before anything is
		// explored: every execution initialises the package again, under
		// control, so this one must not run at all.
		if Uncontrolled {
			go f()
		}
		return
	}
	if x.dead.Load() {
		return
	}
	x.start(x.newThread("go", x.ex.DaemonGo != nil && x.ex.DaemonGo(x)), f)
}

// Spawn starts a named harness thread.
func Spawn(name string, f func()) {
	x := live()
	if x == nil {
		go f()
		return
	}
	x.start(x.newThread(name, false), f)
}

// Daemon starts a named harness thread that need not terminate.
func Daemon(name string, f func()) {
	x := live()
	if x == nil {
		go f()
		return
	}
	x.start(x.newThread(name, true), f)
}

// MarkDaemon turns the goroutines started so far (except the running one) into
// daemons: used for the ones package initialisation starts.
func MarkDaemon() {
	x := live()
	if x == nil {
		return
	}
	for _, t := range x.threads {
		if t != x.running {
			t.daemon = true
		}
	}
}

// Self returns the id of the running controlled thread.
func Self() int {
	x := live()
	if x == nil {
		return -1
	}
	return x.running.id
}

// Gosched is a scheduling point that touches nothing.
func Gosched() {
	if x := live(); x != nil {
		x.step(opDesc{kind: opLocal}, nil)
		return
	}
	if !gone() {
		runtime.Gosched()
	}
}

// NumCPU replaces runtime.NumCPU so that data structures sized by it are small
// and the same on every machine.
func NumCPU() int { return 1 }

// Event is a harness object with read/write steps: a visible action of the
// environment (a byte arriving, a handler running).
type Event struct{ r objRef }

// Point makes a scheduling point that writes the event object.
func (e *Event) Point() {
	if x := live(); x != nil {
		o := x.obj(&e.r, "event")
		t := x.step(opDesc{obj: o, kind: opWrite}, nil)
		x.acqRel(t, o)
	}
}

// Peek makes a scheduling point that only reads the event object.
func (e *Event) Peek() {
	if x := live(); x != nil {
		o := x.obj(&e.r, "event")
		t := x.step(opDesc{obj: o, kind: opRead}, nil)
		x.acqRel(t, o)
	}
}

// Await blocks until cond (a function of state guarded by the event) holds.
func (e *Event) Await(cond func() bool) {
	if x := live(); x != nil {
		o := x.obj(&e.r, "event")
		t := x.step(opDesc{obj: o, kind: opWrite}, cond)
		x.acqRel(t, o)
	}
}

// acqRel gives the object release/acquire semantics for race detection.
func (x *Exec) acqRel(t *Thread, o int32) {
	c := x.relClk[o]
	joinClock(&t.rvc, c)
	joinClock(&c, t.rvc)
	x.relClk[o] = c
	t.rvc[t.id]++
}

func (x *Exec) acquire(t *Thread, o int32) { joinClock(&t.rvc, x.relClk[o]) }
func (x *Exec) release(t *Thread, o int32) {
	c := x.relClk[o]
	joinClock(&c, t.rvc)
	x.relClk[o] = c
	for len(t.rvc) <= t.id {
		t.rvc = append(t.rvc, 0)
	}
	t.rvc[t.id]++
}

// --- oracles ---

// Failf reports a violation and ends the execution.
func Failf(format string, args ...any) {
	x := live()
	if x == nil {
		if gone() {
			runtime.Goexit()
		}
		panic(fmt.Sprintf(format, args...))
	}
	x.failNow("assert", fmt.Sprintf(format, args...), "")
}

// Assert fails the execution if cond is false.
func Assert(cond bool, format string, args ...any) {
	if !cond {
		Failf(format, args...)
	}
}

// Outcome appends to the execution's observable outcome (for coverage counts).
func Outcome(format string, args ...any) {
	if x := live(); x != nil {
		x.outcome = append(x.outcome, fmt.Sprintf(format, args...))
	}
}

// ThreadsBlocked lists daemon/non-daemon threads still unfinished.
func ThreadsBlocked() []string {
	x := cur
	var out []string
	if x == nil {
		return nil
	}
	for _, t := range x.threads {
		if !t.finished && t != x.running {
			out = append(out, t.name)
		}
	}
	sort.Strings(out)
	return out
}

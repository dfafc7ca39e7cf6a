package vrt

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Mode selects how interleavings are enumerated.
type Mode int

const (
	// DPOR explores one representative of every equivalence class of
	// interleavings (no preemption bound).
	DPOR Mode = iota
	// Bounded explores every interleaving with at most Bound preemptions.
	Bounded
	// Delayed explores every interleaving with at most Bound deviations from
	// a fixed schedule (run a thread until it blocks, then the next one in
	// turn); passing over n threads counts as n deviations.
	Delayed
)

type node struct {
	choice bool
	n      int
	what   string
	chosen int

	enabled   uint64
	running   uint64
	pends     []opDesc
	backtrack uint64
	done      uint64
	sleep     uint64
	preempts  int
	cost      map[int]int8 // Delayed: deviations each choice counts as
}

// Stats counts what an exploration covered.
type Stats struct {
	Executions  int
	Complete    int
	Pruned      int // abandoned as equivalent to an explored execution
	HorizonHits int
	Divergences int
	Nodes       int // distinct scheduling states (decision-tree nodes)
	Transitions int // operations executed
	MaxDepth    int
	Outcomes    map[string]int
	Exhaustive  bool
}

// Explorer enumerates the executions of Body.
type Explorer struct {
	Mode     Mode
	Bound    int
	Horizon  int
	MaxExecs int
	Deadline time.Time
	LazyTime bool // timers may fire at any moment, not only at quiescence
	PoolMiss bool // sync.Pool.Get may also return nil although items exist
	MapOrder bool // enumerate map iteration order (insertion order/reverse)
	WgReuse  bool // model the wait-group reuse panic
	Races    bool // detect happens-before races on instrumented accesses
	// AllowDeadlock makes quiescence with blocked threads a normal ending.
	AllowDeadlock bool
	// DaemonGo decides whether a goroutine started by the code under test
	// is a daemon (not required to finish).
	DaemonGo func(x *Exec) bool
	// Body is the harness, run as thread 0; Final runs after a normal end.
	Body  func()
	Final func() string

	TraceMode bool
	Stats     Stats
	stack     []node
	forced    []int
}

// Result of an exploration.
type Result struct {
	Failure *Failure
	Choices []int
	Stats   Stats
}

func (e *Explorer) runOnce() *Exec {
	epochCtr++
	x := &Exec{
		ex: e, epoch: epochCtr,
		endCh:    make(chan struct{}),
		objTrans: map[int32][]int32{},
		addrObj:  map[any]*objRef{},
		chans:    map[uintptr]*chanState{},
		mapKeys:  map[uintptr]*keyList{},
		keySeq:   map[any]int{},
		shadow:   map[uintptr]*shadowBucket{},
		lockClk:  map[int32][]int32{},
		lockClkW: map[int32][]int32{},
		relClk:   map[int32][]int32{},
		vars:     map[string]any{},
	}
	x.clockObj = x.newObj("clock")
	cur = x
	t := x.newThread("main", false)
	x.start(t, func() { e.Body() })
	if e.LazyTime {
		x.startClock()
	}
	x.running = t
	first := x.pick(nil)
	if first != nil {
		x.running = first
		first.wake <- struct{}{}
		<-x.endCh
	}
	x.dead.Store(true)
	// Tear down one thread at a time: their deferred calls run for real.
	for _, th := range x.threads {
		select {
		case th.wake <- struct{}{}:
		default:
		}
		<-th.done
	}
	if x.fail == nil && !x.pruned && !x.horizon && x.diverged == "" && e.Final != nil {
		if msg := e.Final(); msg != "" {
			x.fail = &Failure{Kind: "assert", Msg: msg}
		}
	}
	cur = nil
	if x.fail != nil && x.fail.Kind == "deadlock" && e.AllowDeadlock {
		x.fail = nil
		if e.Final != nil {
			cur = x
			if msg := e.Final(); msg != "" {
				x.fail = &Failure{Kind: "assert", Msg: msg}
			}
			cur = nil
		}
	}
	return x
}

func (e *Explorer) choices() []int {
	out := make([]int, len(e.stack))
	for i := range e.stack {
		out[i] = e.stack[i].chosen
	}
	return out
}

// Run explores until the space is exhausted, a failure is found or a cap is hit.
func (e *Explorer) Run() Result {
	if e.Horizon == 0 {
		e.Horizon = 20000
	}
	e.Stats = Stats{Outcomes: map[string]int{}}
	e.stack = nil
	capped := false
	for {
		try := tryLockSeen
		x := e.runOnce()
		if try != tryLockSeen {
			// Unlock has become a scheduling point: start over.
			e.stack, e.Stats, capped = nil, Stats{Outcomes: map[string]int{}}, false
			continue
		}
		e.Stats.Executions++
		if len(x.trace) > e.Stats.MaxDepth {
			e.Stats.MaxDepth = len(x.trace)
		}
		switch {
		case x.fail != nil:
			ch := e.choices()
			f := x.fail
			return Result{Failure: f, Choices: ch, Stats: e.Stats}
		case x.diverged != "":
			e.Stats.Divergences++
			capped = true
			// Drop the part of the tree that does not replay.
			if x.depth < len(e.stack) {
				e.stack = e.stack[:x.depth+1]
			}
		case x.horizon:
			e.Stats.HorizonHits++
			capped = true
		case x.pruned:
			e.Stats.Pruned++
		default:
			e.Stats.Complete++
			if len(e.Stats.Outcomes) < 100000 {
				e.Stats.Outcomes[strings.Join(x.outcome, " ")]++
			}
		}
		if !e.advance() {
			e.Stats.Exhaustive = !capped
			return Result{Stats: e.Stats}
		}
		if e.MaxExecs > 0 && e.Stats.Executions >= e.MaxExecs {
			return Result{Stats: e.Stats}
		}
		if !e.Deadline.IsZero() && e.Stats.Executions%64 == 0 && time.Now().After(e.Deadline) {
			return Result{Stats: e.Stats}
		}
	}
}

// advance moves to the next unexplored branch; false when none is left.
func (e *Explorer) advance() bool {
	for len(e.stack) > 0 {
		i := len(e.stack) - 1
		nd := &e.stack[i]
		if nd.choice {
			if nd.chosen+1 < nd.n {
				nd.chosen++
				return true
			}
		} else {
			nd.done |= 1 << uint(nd.chosen)
			if c := nd.backtrack &^ nd.done &^ nd.sleep; c != 0 {
				nd.chosen = lowBit(c)
				return true
			}
		}
		e.stack = e.stack[:i]
	}
	return false
}

// Replay runs one recorded schedule and returns its failure (nil if none).
func (e *Explorer) Replay(choices []int) (*Failure, []string) {
	if e.Horizon == 0 {
		e.Horizon = 20000
	}
	saved := e.Mode
	e.Mode = forcedMode
	defer func() { e.Mode = saved }()
	e.stack = nil
	e.forced = choices
	e.Stats = Stats{Outcomes: map[string]int{}}
	e.TraceMode = true
	x := e.replayOnce(choices)
	var tr []string
	for _, t := range x.trace {
		if t.desc.kind == opLocal && t.desc.obj == 0 {
			continue
		}
		tr = append(tr, fmt.Sprintf("T%d(%s) %s %s", t.tid, t.where, opNames[t.desc.kind], x.objName(t.desc.obj)))
	}
	tr = append(tr, x.logs...)
	if x.diverged != "" {
		return &Failure{Kind: "divergence", Msg: x.diverged}, tr
	}
	return x.fail, tr
}

const forcedMode Mode = 99

func (e *Explorer) replayOnce(choices []int) *Exec {
	// Pre-fill the stack lazily: chooseThread consults forced.
	e.forced = choices
	return e.runOnce()
}

// OutcomeList returns the distinct outcomes, sorted, at most n of them.
func (s *Stats) OutcomeList(n int) []string {
	var l []string
	for k := range s.Outcomes {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) > n {
		l = l[:n]
	}
	return l
}

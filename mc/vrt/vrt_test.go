package vrt

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"testing"
)

// program: random small threads over mutexes, atomics, channels, waitgroups.
type prog [][]int

func genProg(r *rand.Rand) prog {
	var p prog
	n := 2 + r.Intn(2)
	for i := 0; i < n; i++ {
		var ops []int
		for k := 0; k < 2+r.Intn(3); k++ {
			ops = append(ops, r.Intn(14))
		}
		p = append(p, ops)
	}
	return p
}

func (p prog) body() {
	var mu [2]Mutex
	var rw RWMutex
	var at [2]int32
	var g [2]int
	ch := make(chan int, 1)
	un := make(chan int)
	var once Once
	log := make([][]string, len(p))

	left := len(p)
	var done func()
	done = func() {

		left--
		if left == 0 {
			for i := range log {
				Outcome("%v", log[i])
			}
			Outcome("%d %d", at[0], at[1])
		}
	}
	for i := range p {
		i := i
		Spawn(fmt.Sprint("t", i), func() {
			rec := func(f string, a ...any) { log[i] = append(log[i], fmt.Sprintf(f, a...)) }
			for k, op := range p[i] {
				switch op {
				case 0, 1:
					AddInt32(&at[op], int32(i+1))
				case 2, 3:
					rec("r%d", LoadInt32(&at[op-2]))
				case 4, 5:
					StoreInt32(&at[op-4], int32(10*i+k))
				case 6, 7:
					mu[op-6].Lock()
					g[op-6] = g[op-6]*3 + i + 1
					mu[op-6].Unlock()
				case 8:
					mu[0].Lock()
					mu[1].Lock()
					rec("l%v", g)
					mu[1].Unlock()
					mu[0].Unlock()
				case 9:
					n, v, _ := Select(true, CaseRecv(ch), CaseRecv(un))
					rec("s%d,%v", n, v)
				case 10:
					n, _, _ := Select(true, CaseSend(ch, i), CaseSend(un, i))
					rec("S%d", n)
				case 11:
					once.Do(func() { AddInt32(&at[1], int32(100*(i+1))) })
				case 12:
					rw.RLock()
					rec("R%d", LoadInt32(&at[1]))
					rw.RUnlock()
				case 13:
					n, v, _ := Select(false, CaseRecv(un), CaseSend(un, i*10+k), CaseSend(ch, k))
					rec("b%d,%v", n, v)
				}
			}
			done()
		})
	}
}

func keys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func TestDPORAgainstFull(t *testing.T) {
	runtime.GOMAXPROCS(1)
	r := rand.New(rand.NewSource(7))
	tot1, tot2 := 0, 0
	for n := 0; n < 200; n++ {
		p := genProg(r)
		d := &Explorer{Mode: DPOR, Body: p.body, AllowDeadlock: true, MaxExecs: 3000}
		rd := d.Run()
		b := &Explorer{Mode: Bounded, Bound: 1000, Body: p.body, AllowDeadlock: true, MaxExecs: 3000}
		rb := b.Run()
		if !rd.Stats.Exhaustive || !rb.Stats.Exhaustive {
			t.Logf("%v not exhaustive %d %d", p, rd.Stats.Executions, rb.Stats.Executions)
			continue
		}
		tot1 += rd.Stats.Executions
		tot2 += rb.Stats.Executions
		if (rd.Failure == nil) != (rb.Failure == nil) {
			t.Fatalf("%v: dpor %v full %v", p, rd.Failure, rb.Failure)
		}
		if rd.Failure == nil && !reflect.DeepEqual(keys(rd.Stats.Outcomes), keys(rb.Stats.Outcomes)) {
			t.Fatalf("%v: dpor %d %v\nfull %d %v", p, rd.Stats.Executions, keys(rd.Stats.Outcomes), rb.Stats.Executions, keys(rb.Stats.Outcomes))
		}
	}
	t.Logf("dpor %d full %d executions", tot1, tot2)
}

func find(t *testing.T, kind string, e *Explorer) {
	t.Helper()
	for _, m := range []Mode{DPOR, Bounded} {
		e.Mode, e.Bound = m, 3
		r := e.Run()
		if kind == "" {
			if r.Failure != nil || !r.Stats.Exhaustive {
				t.Errorf("mode %v: unexpected %v (%+v)", m, r.Failure, r.Stats)
			}
			continue
		}
		if r.Failure == nil || r.Failure.Kind != kind {
			t.Errorf("mode %v: want %s, got %v after %d", m, kind, r.Failure, r.Stats.Executions)
			continue
		}
		f, _ := e.Replay(r.Choices)
		if f == nil || f.Kind != kind {
			t.Errorf("replay: %v", f)
		}
	}
}

func TestRace(t *testing.T) {
	find(t, "race", &Explorer{Races: true, Body: func() {
		v := 0
		var mu Mutex
		Spawn("a", func() { mu.Lock(); Ptr(&v, 1).Set(2); mu.Unlock() })
		Spawn("b", func() { mu.Lock(); mu.Unlock(); _ = *R(&v, 2) })
	}})
	find(t, "", &Explorer{Races: true, Body: func() {
		v := 0
		var mu Mutex
		var wg WaitGroup
		wg.Add(2)
		Spawn("a", func() { mu.Lock(); Ptr(&v, 1).Set(2); mu.Unlock(); wg.Done() })
		Spawn("b", func() { mu.Lock(); _ = *R(&v, 2); mu.Unlock(); wg.Done() })
		wg.Wait()
		_ = *R(&v, 3)
	}})
}

func TestDeadlock(t *testing.T) {
	find(t, "deadlock", &Explorer{Body: func() {
		var a, b Mutex
		Spawn("a", func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() })
		Spawn("b", func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
	}})
	find(t, "deadlock", &Explorer{Body: func() {
		var a RWMutex
		Spawn("a", func() { a.RLock(); a.RLock(); a.RUnlock(); a.RUnlock() })
		Spawn("b", func() { a.Lock(); a.Unlock() })
	}})
}

func TestWgReuse(t *testing.T) {
	find(t, "panic", &Explorer{WgReuse: true, Body: func() {
		var wg WaitGroup
		wg.Add(1)
		Spawn("w", func() { wg.Wait() })
		Spawn("a", func() { wg.Done(); wg.Add(1); wg.Done() })
	}})
	find(t, "", &Explorer{WgReuse: true, Body: func() {
		var wg WaitGroup
		wg.Add(1)
		Spawn("w", func() { wg.Wait() })
		Spawn("a", func() { wg.Add(1); wg.Done(); wg.Done() })
	}})
}

func TestTime(t *testing.T) {
	body := func() {
		var w Event
		last := ""
		Spawn("s", func() { Sleep(10); w.Point(); last += "s" })
		Spawn("t", func() { Recv(After(5)); w.Point(); last += "t" })
		w.Await(func() bool { return len(last) == 2 })
		Outcome("%s", last)
	}
	for _, lazy := range []bool{false, true} {
		e := &Explorer{Mode: DPOR, Body: body, LazyTime: lazy}
		r := e.Run()
		t.Log(lazy, r.Failure, r.Stats)
		if r.Failure != nil || !r.Stats.Exhaustive || lazy != (len(r.Stats.Outcomes) == 2) {
			t.Errorf("lazy=%v: %v %+v", lazy, r.Failure, r.Stats)
		}
	}
}

// Package kit is what every check shares: command line, evidence file, replay
// files, known findings, parallel enumeration and worker processes.
package kit

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	Prop   = flag.String("prop", "", "property to decide")
	TierF  = flag.String("tier", "quick", "quick or thorough")
	Verif  = flag.String("verif", "/verif", "root of the framework")
	Replay = flag.String("replay", "", "replay file to run again")
	Worker = flag.String("worker", "", "internal: run one scenario")
	Only   = flag.String("only", "", "run only the parts whose name contains this")
	Merge  = flag.Bool("merge", false, "add to the evidence that is there already")
	Verb   = flag.Bool("v", false, "print progress")
)

// Run collects what one check covered and found.
type Run struct {
	ID    string
	Tier  string
	Level string
	start time.Time
	mu    sync.Mutex

	States      atomic.Int64 // distinct model states (or scheduling states)
	Transitions atomic.Int64 // operations executed
	Traces      atomic.Int64 // complete executions of the implementation compared with the model
	Parts       map[string]any
	Samples     []any
	Assumptions []string
	Bounds      []string
	Exhaustive  bool
	Rule        string

	known  map[string]string
	nviol  int
	nknown map[string]bool
	errors []string
	seed   maphash.Seed
}

// Thorough reports whether the deep exploration was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick chooses a bound by tier.
func Pick[T any](r *Run, quick, thorough T) T {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// New starts a run.
func New(id string) *Run {
	tier := *TierF
	// Endless recursion ends soon.
	debug.SetMaxStack(128 << 20)
	r := &Run{ID: id, Tier: tier, Level: "model_checking", start: time.Now(), Parts: map[string]any{}, Exhaustive: true, known: map[string]string{}, nknown: map[string]bool{}, seed: maphash.MakeSeed()}
	f, err := os.Open(filepath.Join(*Verif, "known-findings.txt"))
	if err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			// known: property=<id> key=<key> <text>
			l := strings.TrimSpace(sc.Text())
			if !strings.HasPrefix(l, "known: property="+id+" key=") {
				continue
			}
			rest := strings.TrimPrefix(l, "known: property="+id+" key=")
			k, text, _ := strings.Cut(rest, " ")
			r.known[k] = text
		}
		f.Close()
	}
	return r
}

// Sample keeps a few written-out cases.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}

// Bound documents a bound of the exploration.
func (r *Run) Bound(format string, args ...any) {
	r.mu.Lock()
	r.Bounds = append(r.Bounds, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

// Assume documents an assumption.
func (r *Run) Assume(s string) { r.Assumptions = append(r.Assumptions, s) }

// Part records the coverage of one part of the check.
func (r *Run) Part(name string, v any) {
	r.mu.Lock()
	r.Parts[name] = v
	r.mu.Unlock()
}

// Incomplete says a part of the space was not enumerated.
func (r *Run) Incomplete() { r.mu.Lock(); r.Exhaustive = false; r.mu.Unlock() }

// Errorf records that the check itself could not do its work.
func (r *Run) Errorf(format string, args ...any) {
	r.mu.Lock()
	r.errors = append(r.errors, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

// Failed reports whether a violation has been reported.
func (r *Run) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.nviol > 0 }

// Violation reports a violation. key identifies the specific failing input or
// schedule class (known findings are matched on it); data goes to the replay
// file.
func (r *Run) Violation(key, msg string, data any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if text, ok := r.known[key]; ok {
		if !r.nknown[key] {
			r.nknown[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, text)
		}
		return
	}
	r.nviol++
	if r.nviol > 5 {
		return
	}
	dir := filepath.Join(*Verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.ID, r.nviol))
	b, _ := json.MarshalIndent(map[string]any{"property": r.ID, "key": key, "message": msg, "data": data}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
	fmt.Printf("  %s\n", strings.ReplaceAll(msg, "\n", "\n  "))
}

// Finish writes the evidence file and exits.
func (r *Run) Finish() {
	cov := map[string]any{
		"states": r.States.Load(), "transitions": r.Transitions.Load(),
		"traces_validated_against_impl": r.Traces.Load(),
		"samples":                       r.Samples, "exhaustive": r.Exhaustive && len(r.errors) == 0, "bounds": r.Bounds, "parts": r.Parts,
	}
	if r.Rule != "" {
		cov["rule"] = r.Rule
	}
	if len(r.nknown) > 0 {
		var ks []string
		for k := range r.nknown {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings"] = ks
	}
	if r.Samples == nil {
		cov["samples"] = []any{}
	}
	path := filepath.Join(*Verif, "evidence", r.ID+".json")
	wall := time.Since(r.start).Seconds()
	assume := append([]string{}, r.Assumptions...)
	if *Merge {
		var old struct {
			Coverage    map[string]any
			Assumptions []string
			Wall        float64 `json:"wall_s"`
		}
		if b, err := os.ReadFile(path); err == nil && json.Unmarshal(b, &old) == nil && old.Coverage != nil {
			oc := old.Coverage
			for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
				n, _ := oc[k].(float64)
				cov[k] = cov[k].(int64) + int64(n)
			}
			ex, _ := oc["exhaustive"].(bool)
			cov["exhaustive"] = cov["exhaustive"].(bool) && ex
			if l, ok := oc["bounds"].([]any); ok {
				for _, b := range r.Bounds {
					l = append(l, b)
				}
				cov["bounds"] = l
			}
			if l, ok := oc["samples"].([]any); ok {
				cov["samples"] = append(l, r.Samples...)
			}
			if m, ok := oc["parts"].(map[string]any); ok {
				for k, v := range r.Parts {
					m[k] = v
				}
				cov["parts"] = m
			}
			assume = append(old.Assumptions, assume...)
			wall += old.Wall
		}
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": seed, "level": r.Level, "coverage": cov,
		"assumptions": assume, "wall_s": wall, "violations": r.nviol,
	}
	dir := filepath.Join(*Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: states=%d transitions=%d executions=%d exhaustive=%v violations=%d wall=%.1fs\n", r.ID, r.Tier,
		r.States.Load(), r.Transitions.Load(), r.Traces.Load(), r.Exhaustive, r.nviol, time.Since(r.start).Seconds())
	if r.nviol > 0 {
		os.Exit(1)
	}
	if len(r.errors) > 0 {
		for _, e := range r.errors {
			fmt.Println("ERROR", e)
		}
		os.Exit(2)
	}
	os.Exit(0)
}

// Parallel calls f(i) for all i in [0,n) on all cores, stopping early once a
// violation has been reported.
func (r *Run) Parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Failed() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Set counts distinct things by hash.
type Set struct {
	sh [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	seed maphash.Seed
	n    atomic.Int64
}

// NewSet makes an empty set.
func NewSet() *Set { return &Set{seed: maphash.MakeSeed()} }

// Add inserts s and reports whether it was new.
func (s *Set) Add(k string) bool {
	h := maphash.String(s.seed, k)
	b := &s.sh[h&63]
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.m == nil {
		b.m = map[uint64]struct{}{}
	}
	if _, ok := b.m[h]; ok {
		return false
	}
	b.m[h] = struct{}{}
	s.n.Add(1)
	return true
}

// Len is the number of distinct elements.
func (s *Set) Len() int64 { return s.n.Load() }

// Strings enumerates all strings over the alphabet with length in [min,max],
// shortest first.
func Strings(alphabet []string, min, max int) []string {
	var out []string
	cur := []string{""}
	for l := 0; l <= max; l++ {
		if l >= min {
			out = append(out, cur...)
		}
		if l == max {
			break
		}
		var next []string
		for _, c := range cur {
			for _, a := range alphabet {
				next = append(next, c+a)
			}
		}
		cur = next
	}
	return out
}

// Sequences calls f with every sequence of length exactly n over [0,k).
func Sequences(n, k int, f func(seq []int) bool) {
	seq := make([]int, n)
	for {
		if !f(seq) {
			return
		}
		i := n - 1
		for ; i >= 0; i-- {
			seq[i]++
			if seq[i] < k {
				break
			}
			seq[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Seqs calls f on all cores with every sequence of length n over [0,k).
func (r *Run) Seqs(n, k int, f func(w *Watch, seq []int)) {
	total := 1
	for i := 0; i < n; i++ {
		total *= k
	}
	chunk := total / (64 * runtime.NumCPU())
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 4096 {
		chunk = 4096
	}
	r.Parallel((total+chunk-1)/chunk, func(c int) {
		w := r.Watch()
		defer w.Stop()
		seq := make([]int, n)
		for x := c * chunk; x < (c+1)*chunk && x < total; x++ {
			y := x
			for i := n - 1; i >= 0; i-- {
				seq[i] = y % k
				y /= k
			}
			f(w, seq)
			if r.Failed() {
				return
			}
		}
	})
}

// Each calls f on all cores for every i in [0,n).
func (r *Run) Each(n int, f func(w *Watch, i int)) {
	r.Parallel(n, func(i int) {
		w := r.Watch()
		defer w.Stop()
		f(w, i)
	})
}

// Watch notices a case that never ends and turns a panic of the code under
// test into a violation.
type Watch struct {
	r     *Run
	mu    sync.Mutex
	beat  uint64
	what  func() string
	since time.Time
	stop  bool
}

var (
	watchMu sync.Mutex
	watches = map[*Watch]uint64{}
	watchOn sync.Once
)

// Limit is how long one case may take before it counts as not terminating.
const Limit = 40 * time.Second

// Watch starts watching the calling goroutine.
func (r *Run) Watch() *Watch {
	w := &Watch{r: r}
	watchMu.Lock()
	watches[w] = 0
	watchMu.Unlock()
	watchOn.Do(func() {
		go func() {
			for {
				time.Sleep(time.Second)
				watchMu.Lock()
				for w := range watches {
					w.mu.Lock()
					what, since := w.what, w.since
					w.mu.Unlock()
					if what != nil && time.Since(since) > Limit {
						r.Violation("no-termination", "does not terminate: "+what(), nil)
						r.Finish()
					}
				}
				watchMu.Unlock()
			}
		}()
	})
	return w
}

// Stop ends watching.
func (w *Watch) Stop() {
	w.mu.Lock()
	w.what = nil
	w.mu.Unlock()
	watchMu.Lock()
	delete(watches, w)
	watchMu.Unlock()
}

// Case runs f, whose description is what; a panic is a violation.
func (w *Watch) Case(what func() string, f func()) {
	w.beat++
	w.mu.Lock()
	w.what = what
	if w.beat&63 == 1 {
		w.since = time.Now()
	}
	w.mu.Unlock()
	defer func() {
		if e := recover(); e != nil {
			w.r.Violation("panic", fmt.Sprintf("panic %v in %s\n%s", e, what(), stack()), nil)
		}
	}()
	f()
}

func stack() string {
	b := make([]byte, 4000)
	return string(b[:runtime.Stack(b, false)])
}

package kit

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"verif.local/mc/vrt"
)

// Scenario is one closed system explored under the controlled scheduler.
type Scenario struct {
	Name string
	// Make builds a fresh explorer (mode and limits are set by the passes).
	Make func() *vrt.Explorer
	// Thorough marks scenarios explored only in the thorough tier.
	Thorough bool
	// Bounds, when set, replaces the full exploration by iterated
	// preemption bounds up to the given one (quick, thorough); below zero it
	// means the bound 0.
	BoundQuick, BoundThorough int
	// Delay counts deviations from a fixed schedule instead of preemptions.
	Delay bool
	// Full adds an exploration of all interleavings after the bounded ones
	// in the thorough tier.
	Full bool
	// Seconds limits the exploration (quick, thorough); 0 means default.
	SecQuick, SecThorough int
	// MustReach lists outcomes that have to be observed for the scenario to
	// count as exercised (guards against a vacuous harness).
	MinOutcomes int
}

type passResult struct {
	Name, Mode  string
	Bound       int
	Stats       vrt.Stats
	OutcomeN    int
	OutcomesTop []string
	Failure     *vrt.Failure
	Choices     []int
	Trace       []string
	Unstable    string
	Wall        float64
}

func (s *Scenario) limits(tier string) (sec, bound int) {
	if tier == "thorough" {
		sec, bound = s.SecThorough, s.BoundThorough
		if sec == 0 {
			sec = 600
		}
		if s.BoundQuick == 0 {
			bound = 0
		} else if bound == 0 {
			bound = s.BoundQuick + 1
		}
		return
	}
	sec, bound = s.SecQuick, s.BoundQuick
	if sec == 0 {
		sec = 60
	}
	return
}

func runPass(s *Scenario, mode vrt.Mode, bound int, sec int) passResult {
	e := s.Make()
	e.Mode, e.Bound = mode, bound
	start := time.Now()
	e.Deadline = start.Add(time.Duration(sec) * time.Second)
	res := e.Run()
	pr := passResult{Name: s.Name, Mode: "all interleavings (DPOR)", Bound: -1, Stats: res.Stats, OutcomeN: len(res.Stats.Outcomes), OutcomesTop: res.Stats.OutcomeList(4), Wall: time.Since(start).Seconds()}
	if mode == vrt.Bounded {
		pr.Mode, pr.Bound = "preemption bound", bound
	}
	if mode == vrt.Delayed {
		pr.Mode, pr.Bound = "delay bound", bound
	}
	pr.Stats.Outcomes = nil
	if res.Failure != nil {
		pr.Failure, pr.Choices = res.Failure, res.Choices
		// A schedule counts only if it fails the same way again and again.
		for i := 0; i < 3; i++ {
			e2 := s.Make()
			f, tr := e2.Replay(res.Choices)
			if f == nil || f.Kind != res.Failure.Kind || f.Msg != res.Failure.Msg {
				pr.Unstable = fmt.Sprintf("replay gave %v instead of %v", f, res.Failure)
				break
			}
			pr.Trace = tr
		}
	}
	return pr
}

// RunScenarios explores every scenario in worker processes.
func (r *Run) RunScenarios(list []Scenario) {
	debug.SetGCPercent(400)
	if *Worker != "" {
		runtime.GOMAXPROCS(1)
		for i := range list {
			if list[i].Name == *Worker {
				sec, bound := list[i].limits(r.Tier)
				var out []passResult
				failed := false
				if bound != 0 {
					for b := 0; (b <= bound || b == 0) && !failed; b++ {
						mode := vrt.Bounded
						if list[i].Delay {
							mode = vrt.Delayed
						}
						pr := runPass(&list[i], mode, b, sec)
						out = append(out, pr)
						failed = pr.Failure != nil
						if pr.Wall >= float64(sec)-1 {
							break // a larger bound would not get further
						}
					}
				}
				if !failed && (bound == 0 || list[i].Full && r.Thorough()) {
					out = append(out, runPass(&list[i], vrt.DPOR, 0, sec))
				}
				json.NewEncoder(os.Stdout).Encode(out)
				os.Exit(0)
			}
		}
		os.Exit(3)
	}
	if *Replay != "" {
		r.replay(list)
		return
	}
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := range list {
		s := &list[i]
		if s.Thorough && !r.Thorough() || *Only != "" && !strings.Contains(s.Name, *Only) {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r.runWorker(s)
		}()
	}
	wg.Wait()
}

func (r *Run) runWorker(s *Scenario) {
	cmd := exec.Command(os.Args[0], "-prop", r.ID, "-tier", r.Tier, "-verif", *Verif, "-worker", s.Name)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=3GiB")
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		tail := errb.String()
		if len(tail) > 3000 {
			tail = tail[:3000]
		}
		// The code under test can bring a whole process down (fatal
		// errors of the Go runtime): that is a result, not an accident.
		if strings.Contains(tail, "fatal error: all goroutines are asleep") || !strings.Contains(tail, "fatal error:") {
			r.Errorf("scenario %s: worker failed: %v: %s", s.Name, err, tail)
			return
		}
		r.Violation(s.Name+"/fatal", "scenario "+s.Name+": the process dies: "+tail, map[string]any{"scenario": s.Name, "stderr": tail})
		return
	}
	var prs []passResult
	if err := json.Unmarshal(out, &prs); err != nil {
		r.Errorf("scenario %s: bad worker output: %v: %.300s", s.Name, err, out)
		return
	}
	for _, pr := range prs {
		r.merge(s, pr)
	}
}

func (r *Run) merge(s *Scenario, pr passResult) {
	r.States.Add(int64(pr.Stats.Nodes))
	r.Transitions.Add(int64(pr.Stats.Transitions))
	r.Traces.Add(int64(pr.Stats.Complete))
	name := s.Name
	if pr.Bound >= 0 {
		name = fmt.Sprintf("%s/preemptions<=%d", s.Name, pr.Bound)
		if s.Delay {
			name = fmt.Sprintf("%s/delays<=%d", s.Name, pr.Bound)
		}
	}
	r.Part(name, map[string]any{
		"mode": pr.Mode, "executions": pr.Stats.Executions, "complete": pr.Stats.Complete, "redundant": pr.Stats.Pruned,
		"distinct_outcomes": pr.OutcomeN, "scheduling_states": pr.Stats.Nodes, "max_depth": pr.Stats.MaxDepth,
		"horizon_hits": pr.Stats.HorizonHits, "exhaustive": pr.Stats.Exhaustive, "seconds": pr.Wall,
	})
	if len(pr.OutcomesTop) > 0 {
		r.Sample(map[string]any{"scenario": name, "outcomes": pr.OutcomesTop})
	}
	if pr.Failure != nil && pr.Failure.Kind == "toolimit" {
		// A bound of the explorer says nothing about the code.
		r.Incomplete()
		r.Part(name+"/limit", pr.Failure.Msg)
		return
	}
	if pr.Failure != nil {
		if pr.Unstable != "" {
			r.Errorf("scenario %s: failure does not replay: %s", s.Name, pr.Unstable)
			return
		}
		msg := fmt.Sprintf("scenario %s: %s: %s", s.Name, pr.Failure.Kind, pr.Failure.Msg)
		r.Violation(s.Name+"/"+pr.Failure.Kind, msg, map[string]any{"scenario": s.Name, "choices": pr.Choices, "failure": pr.Failure, "schedule": pr.Trace})
		return
	}
	if pr.Stats.Divergences > 0 {
		r.Errorf("scenario %s: %d schedules did not replay (uncontrolled nondeterminism)", s.Name, pr.Stats.Divergences)
	}
	if !pr.Stats.Exhaustive {
		r.Incomplete()
	}
	if s.MinOutcomes > 0 && pr.Bound < 0 && pr.OutcomeN < s.MinOutcomes && pr.Stats.Exhaustive {
		r.Part(name+"/note", fmt.Sprintf("only %d distinct outcomes", pr.OutcomeN))
	}
}

func (r *Run) replay(list []Scenario) {
	b, err := os.ReadFile(*Replay)
	if err != nil {
		r.Errorf("%v", err)
		return
	}
	var f struct {
		Data struct {
			Scenario string
			Choices  []int
		}
	}
	if err := json.Unmarshal(b, &f); err != nil {
		r.Errorf("%v", err)
		return
	}
	runtime.GOMAXPROCS(1)
	for i := range list {
		if list[i].Name != f.Data.Scenario {
			continue
		}
		fl, tr := list[i].Make().Replay(f.Data.Choices)
		for _, l := range tr {
			fmt.Println("  ", l)
		}
		if fl == nil {
			fmt.Println("replay: no failure")
		} else {
			fmt.Println("replay:", fl.Error())
			fmt.Println(fl.Detail)
		}
		if fl != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}
	r.Errorf("unknown scenario %q", f.Data.Scenario)
}

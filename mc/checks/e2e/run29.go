package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"testing"
	"testing/synctest"
	"time"

	"verif.local/mc/hist"
	"verif.local/mc/kit"
)

// space is a set of histories.
type space struct {
	Name  string
	Kinds string
	Conns int
	Now   bool
	Depth int
	// Entry is how the server is started, and Servers how many there are
	// (connections go to them in turn).
	Entry   string
	Servers int
}

func spaces(r *kit.Run) []space {
	return []space{
		{"one connection, every kind of request", "GBSHCTX", 1, false, kit.Pick(r, 12, 14), "server", 1},
		{"one connection, forced shutdowns", "GBSH", 1, true, kit.Pick(r, 12, 14), "server", 1},
		{"two connections", "GBSH", 2, false, kit.Pick(r, 8, 9), "server", 1},
		{"two connections, forced shutdowns", "GH", 2, true, kit.Pick(r, 8, 9), "server", 1},
		{"three connections", "G", 3, false, kit.Pick(r, 8, 10), "server", 1},
		{"two servers", "GS", 2, true, kit.Pick(r, 7, 9), "server", 2},
		{"graceful.Serve", "GBSHCX", 1, true, kit.Pick(r, 7, 9), "func", 1},
		{"TLS", "GBSH", 1, true, kit.Pick(r, 7, 9), "tls", 1},
	}
}

type found struct {
	Space, Index, Steps int
	History             []string
	Msg                 string
}

type tally struct {
	Histories, Steps int
	Found            *found
}

// run plays a history in a bubble of its own.
func run(t *testing.T, sp space, h []hist.Event, steps *int) (msg string) {
	synctest.Test(t, func(t *testing.T) { msg = play(sp, h, steps) })
	return
}

func strs(h []hist.Event) []string {
	var l []string
	for _, e := range h {
		l = append(l, e.String())
	}
	return l
}

// work runs every n-th history of every space.
func work(r *kit.Run, k, n int, progress string) {
	runtime.GOMAXPROCS(1)
	log.SetOutput(io.Discard)
	pf, err := os.OpenFile(progress, os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		panic(err)
	}
	deadline := time.Now().Add(time.Duration(kit.Pick(r, 120, 1500)) * time.Second)
	var out tally
	late := false
	test := func(t *testing.T) {
		for si, sp := range spaces(r) {
			i := -1
			hist.Histories(sp.Depth, sp.Kinds, sp.Conns, sp.Now, func(h []hist.Event) {
				i++
				if i%n != k || out.Found != nil || late {
					return
				}
				if i%1024 == k && time.Now().After(deadline) {
					late = true
					return
				}
				pf.WriteAt([]byte(fmt.Sprintf("%d %d %-400s\n", si, i, hist.Show(h))), 0)
				out.Histories++
				if msg := run(t, sp, h, &out.Steps); msg != "" {
					// It counts if it happens again and again.
					for j := 0; j < 4; j++ {
						var s int
						if run(t, sp, h, &s) != msg {
							msg = ""
							break
						}
					}
					if msg != "" {
						out.Found = &found{si, i, len(h), strs(h), msg}
					}
				}
			})
		}
	}
	asTest(func(t *testing.T) {
		test(t)
		b, _ := json.Marshal(struct {
			tally
			Late bool
		}{out, late})
		os.WriteFile(progress+".out", b, 0o600)
		os.Exit(0)
	})
}

func c29(r *kit.Run) {
	if *kit.Worker != "" {
		var k, n int
		var p string
		if rest, ok := strings.CutPrefix(*kit.Worker, "h2 "); ok {
			h2work(r, rest)
		}
		fmt.Sscanf(*kit.Worker, "%d %d %s", &k, &n, &p)
		work(r, k, n, p)
	}
	if *kit.Replay != "" {
		replay29(r)
		return
	}
	dir, err := os.MkdirTemp("", "c29")
	if err != nil {
		r.Errorf("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	wg.Go(func() { h2(r, filepath.Join(dir, "h2")) })

	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := filepath.Join(dir, strconv.Itoa(k))
			var out strings.Builder
			cmd := exec.Command(os.Args[0], "-prop", r.ID, "-tier", r.Tier, "-verif", *kit.Verif, "-worker", fmt.Sprintf("%d %d %s", k, n, p))
			cmd.Stdout, cmd.Stderr = &out, &out
			if err := cmd.Start(); err != nil {
				r.Errorf("%v", err)
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			last, since := "", time.Now()
			for {
				var err error
				select {
				case err = <-done:
				case <-time.After(time.Second):
					b, _ := os.ReadFile(p)
					if string(b) != last {
						last, since = string(b), time.Now()
					}
					if time.Since(since) < kit.Limit {
						continue
					}
					cmd.Process.Kill()
					<-done
					r.Violation("no-rest", "the server never comes to rest after: "+last, map[string]any{"history": last})
					return
				}
				var res struct {
					tally
					Late bool
				}
				b, _ := os.ReadFile(p + ".out")
				if err != nil || json.Unmarshal(b, &res) != nil {
					last, _ := os.ReadFile(p)
					text := out.String() + "\n\n\n\n\n"
					if len(text) > 3000 {
						text = text[:3000]
					}
					if strings.Contains(text, "deadlock: ") || strings.Contains(text, "panic: ") || strings.Contains(text, "fatal error: ") {
						r.Violation("dies", "the process blocks for ever or dies in: "+strings.TrimSpace(string(last))+"\n"+strings.Join(strings.SplitN(text, "\n", 6)[:5], "\n"), map[string]any{"history": string(last), "output": text})
					} else {
						r.Errorf("worker failed: %v: %s", err, text)
					}
					return
				}
				r.Traces.Add(int64(res.Histories))
				r.Transitions.Add(int64(res.Steps))
				if res.Late {
					r.Incomplete()
				}
				if f := res.Found; f != nil {
					r.Violation("history", fmt.Sprintf("%s, in the history: %s", f.Msg, strings.Join(f.History, ", ")), f)
				}
				return
			}
		}()
	}
	wg.Wait()
	for _, sp := range spaces(r) {
		c := 0
		states := map[string]bool{}
		hist.Histories(sp.Depth, sp.Kinds, sp.Conns, sp.Now, func(h []hist.Event) {
			c++
			if c == 4321 {
				r.Sample(map[string]any{"space": sp.Name, "history": strs(h)})
			}
		})
		hist.Histories(min(sp.Depth, 7), sp.Kinds, sp.Conns, sp.Now, func(h []hist.Event) {
			var m hist.Model
			for _, e := range h {
				m.Step(e)
				states[fmt.Sprint(m)] = true
			}
		})
		r.States.Add(int64(len(states)))
		r.Part(sp.Name, map[string]any{"histories": c, "events": sp.Depth, "model_states_within_7_events": len(states)})
	}
	r.Bound("all histories of one connection with up to %d events, of two connections with up to %d events, and of the further parts below", spaces(r)[0].Depth, spaces(r)[2].Depth)
	r.Assume("events happen once the server has come to rest (interleavings inside it are the subject of C22 to C28); clients do not pipeline")
}

func replay29(r *kit.Run) {
	b, err := os.ReadFile(*kit.Replay)
	if err != nil {
		r.Errorf("%v", err)
		return
	}
	var f struct{ Data found }
	if err := json.Unmarshal(b, &f); err != nil {
		r.Errorf("%v", err)
		return
	}
	sp := spaces(r)[f.Data.Space]
	i := -1
	asTest(func(t *testing.T) {
		hist.Histories(sp.Depth, sp.Kinds, sp.Conns, sp.Now, func(h []hist.Event) {
			i++
			if i == f.Data.Index {
				steps := 0
				msg := run(t, sp, h, &steps)
				fmt.Println("replay:", hist.Show(h), ":", msg)
				if msg != "" {
					os.Exit(1)
				}
			}
		})
	})
}

// asTest runs f as a test, which is what synctest wants.
func asTest(f func(t *testing.T)) {
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "x", F: func(t *testing.T) { f(t); os.Exit(0) }}}, nil, nil)
	os.Exit(3)
}

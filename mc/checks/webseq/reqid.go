package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif.local/mc/kit"
)

func init() { checks["C17"] = c17 }

// c17 is the part of C17 that needs no schedules: one long history of requests,
// in every environment and through every stack in turn.
func c17(r *kit.Run) {
	r.Rule = "state: number of requests served so far; transition: one request, in one of several environments and stacks"
	n := kit.Pick(r, 1_300_000, 8_000_000)
	seen := make(map[string]int, n)
	w := r.Watch()
	defer w.Stop()
	type key struct{ a, b int }
	envs := []func() map[interface{}]interface{}{
		func() map[interface{}]interface{} { return nil },
		func() map[interface{}]interface{} { return map[interface{}]interface{}{} },
		func() map[interface{}]interface{} {
			return map[interface{}]interface{}{"k": 1, key{1, 2}: "v", nil: nil}
		},
		func() map[interface{}]interface{} { return map[interface{}]interface{}{middleware.RequestIDKey: "old"} },
		func() map[interface{}]interface{} {
			return map[interface{}]interface{}{middleware.RequestIDKey: 17, "k": nil}
		},
		func() map[interface{}]interface{} {
			return map[interface{}]interface{}{middleware.RequestIDKey: "", 3: "x"}
		},
	}
	inside := ""
	var innerC web.C
	echo := func(c web.C, w http.ResponseWriter, r *http.Request) { inside, innerC = middleware.GetReqID(c), c }
	m := web.New()
	m.Use(middleware.RequestID)
	m.Handle("/*", echo)
	sub := web.New()
	sub.Handle("/*", m)
	plain := &web.C{}
	inPlain := ""
	once := middleware.RequestID(plain, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { inPlain = middleware.GetReqID(*plain) }))
	stacks := []string{"by hand", "a handler built once", "a mux", "a mux in a mux", "a mux without a context"}
	for i := 0; i < n && !r.Failed(); i++ {
		// The 30 combinations, each with every request number in turn.
		env := envs[i%len(envs)]()
		s := i / len(envs) % len(stacks)
		keep := map[interface{}]interface{}{}
		for k, v := range env {
			if k != interface{}(middleware.RequestIDKey) {
				keep[k] = v
			}
		}
		desc := func() string {
			return fmt.Sprintf("request %d, through %s, with the environment %v", i, stacks[s], env)
		}
		w.Case(desc, func() {
			r.Transitions.Add(1)
			bad := func(format string, a ...any) {
				r.Violation("history "+stacks[s], desc()+": "+fmt.Sprintf(format, a...), map[string]any{"request": i, "stack": stacks[s]})
			}
			// What the history did before does not show: it starts with no id.
			inside, innerC, inPlain = "", web.C{}, ""
			req := request([]string{"GET", "POST"}[i%2], "/x")
			var after web.C
			c := web.C{Env: env}
			switch s {
			case 0:
				h := middleware.RequestID(&c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { echo(c, w, r) }))
				h.ServeHTTP(&rec{}, req)
				after = c
			case 1:
				plain.Env = env
				once.ServeHTTP(&rec{}, req)
				inside, innerC, after = inPlain, *plain, *plain
			case 2:
				m.ServeHTTPC(c, &rec{}, req)
				after = innerC
			case 3:
				sub.ServeHTTPC(c, &rec{}, req)
				after = innerC
			case 4:
				m.ServeHTTP(&rec{}, req)
				after, keep = innerC, nil
			}
			if inside == "" {
				bad("the handler finds no id")
				return
			}
			if got := middleware.GetReqID(after); got != inside {
				bad("the handler finds the id %q, later it is %q", inside, got)
			}
			if j, ok := seen[inside]; ok {
				bad("it has the id %q, and so had request %d", inside, j)
			}
			seen[inside] = i
			// The other values are left alone, in the map there was.
			other := 0
			for k := range after.Env {
				if ks := fmt.Sprintf("%T", k); k == interface{}(middleware.RequestIDKey) || strings.Contains(ks, "goji/web") {
					continue
				}
				other++
			}
			for k, v := range keep {
				if got, ok := innerC.Env[k]; !ok || got != v {
					bad("the value of %v was %v and is %v (%v)", k, v, got, ok)
				}
			}
			if other != len(keep) {
				bad("the handler sees the environment %v", after.Env)
			}
		})
	}
	r.States.Add(int64(len(seen)))
	r.Traces.Add(int64(len(seen)))
	r.Part("history", map[string]any{"requests": len(seen), "environments": len(envs), "stacks": len(stacks)})
	r.Bound("one history of %d requests, through %d stacks with %d environments in turn", n, len(stacks), len(envs))
}

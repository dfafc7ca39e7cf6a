package main

import (
	"fmt"
	"net/http"
	"os"
	"regexp"
	"strings"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif.local/mc/kit"
)

func init() { checks["C21"] = c21 }

// c21: the default mux and the package-level functions.
func c21(r *kit.Run) {
	r.Rule = "state: history of package-level calls on the default mux; transition: one call or request; the model is the documented default stack plus the edits"
	lb := captureLog()
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		r.Errorf("%v", err)
		return
	}
	stderr := os.Stderr
	os.Stderr = null
	defer func() { os.Stderr = stderr }()
	orig := goji.DefaultMux
	// A fresh default mux cannot be had in the same process, so every history
	// restores the stack it edited and routes live under their own path.
	w := r.Watch()
	defer w.Stop()
	verbs := []string{"ANY", "CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}
	reg := map[string]func(web.PatternType, web.HandlerType){"ANY": goji.Handle, "CONNECT": goji.Connect, "DELETE": goji.Delete, "GET": goji.Get, "HEAD": goji.Head,
		"OPTIONS": goji.Options, "PATCH": goji.Patch, "POST": goji.Post, "PUT": goji.Put, "TRACE": goji.Trace}
	defaults := []struct {
		name string
		mw   web.MiddlewareType
	}{{"RequestID", middleware.RequestID}, {"Logger", middleware.Logger}, {"Recoverer", middleware.Recoverer}, {"AutomaticOptions", middleware.AutomaticOptions}}
	idRe := regexp.MustCompile(`^[^/]+/[0-9A-Za-z]{10}-\d{6,}$`)
	reqs := append(append([]string{}, allMethods...), "FOO")
	serve := func(method, path string) (u *under, lines []string, panicked bool) {
		u = &under{failAt: -1}
		lb.take()
		func() {
			defer func() { panicked = recover() != nil }()
			goji.DefaultMux.ServeHTTP(u, request(method, path))
		}()
		lines = lb.take()
		return
	}
	// The full default stack: routes of every verb, every request method,
	// handlers that return and that panic.
	n := 0
	var reqID string
	present := []string{}
	_ = present
	for pass := 0; pass < 2; pass++ {
		for v1 := range verbs {
			for v2 := -1; v2 < len(verbs); v2++ {
				n++
				base := fmt.Sprintf("/v%d", n)
				set := []string{verbs[v1]}
				reg[verbs[v1]](base+"/:x", func(c web.C, w http.ResponseWriter, q *http.Request) {
					reqID = middleware.GetReqID(c)
					if c.URLParams["x"] == "panic" {
						panic("boom")
					}
					w.WriteHeader(231)
				})
				if v2 >= 0 {
					set = append(set, verbs[v2])
					reg[verbs[v2]](regexp.MustCompile(base+"/.+"), func(c web.C, w http.ResponseWriter, q *http.Request) {
						reqID = middleware.GetReqID(c)
						w.WriteHeader(232)
					})
				}
				for _, meth := range reqs {
					for _, path := range []string{base + "/a", base + "/panic", base, base + "/a/b"} {
						what := func() string { return fmt.Sprintf("default mux with routes %v at %s, %s %s", set, base, meth, path) }
						w.Case(what, func() {
							want := 404
							valid := map[string]bool{}
							for i, v := range set {
								pathOK := path == base+"/a" || path == base+"/panic" || i == 1 && path == base+"/a/b"
								if !pathOK {
									continue
								}
								if v == "ANY" || v == meth || v == "GET" && meth == "HEAD" {
									want = 231 + i
									if i == 0 && path == base+"/panic" {
										want = 500
									}
									break
								}
								valid[v] = true
								if v == "GET" {
									valid["HEAD"] = true
								}
							}
							allow := ""
							if want == 404 && meth == "OPTIONS" && len(valid) > 0 {
								want = 200
								var l []string
								for _, m := range allMethods {
									if valid[m] {
										l = append(l, m)
									}
								}
								allow = strings.Join(append(l, "OPTIONS"), ", ")
							}
							reqID = ""
							u, lines, panicked := serve(meth, path)
							fail := func(f string, args ...interface{}) {
								r.Violation("default", what()+": "+fmt.Sprintf(f, args...), nil)
							}
							if panicked {
								fail("the panic got through")
								return
							}
							if u.status != want || u.hdr.Get("Allow") != allow {
								fail("status %d, Allow %q; expected %d, %q", u.status, u.hdr.Get("Allow"), want, allow)
								return
							}
							routed := want > 230 && want < 240 || want == 500
							if routed && !idRe.MatchString(reqID) {
								fail("the handler saw request ID %q", reqID)
								return
							}
							if len(lines) < 2 || !strings.Contains(lines[0], "Started "+meth+" ") || !strings.Contains(lines[len(lines)-1], fmt.Sprintf("Returning %d in ", want)) {
								fail("logged %q", lines)
								return
							}
							if routed && (!strings.HasPrefix(lines[0], "["+reqID+"] ") || !strings.HasPrefix(lines[len(lines)-1], "["+reqID+"] ")) {
								fail("log lines %q lack the request ID %s", lines, reqID)
								return
							}
							r.Traces.Add(1)
							r.Transitions.Add(1)
						})
						if r.Failed() {
							return
						}
					}
				}
				r.States.Add(1)
			}
		}
		if pass == 0 {
			goji.DefaultMux.Compile()
			goji.NotFound(func(w http.ResponseWriter, q *http.Request) { w.Header().Set("Own", "1"); w.WriteHeader(404) })
		}
	}
	if u, _, _ := serve("GET", "/nowhere"); u.status != 404 || u.hdr.Get("Own") != "1" {
		r.Violation("notfound", "goji.NotFound has no effect on the default mux", nil)
	}
	// Abandoning every subset of the default stack, then putting it back in
	// order with Use and Insert.
	goji.Get("/probe", func(c web.C, w http.ResponseWriter, q *http.Request) { reqID = middleware.GetReqID(c); panic("boom") })
	probe := func(what func() string, in map[string]bool, order string) {
		w.Case(what, func() {
			reqID = "?"
			u, lines, panicked := serve("GET", "/probe")
			fail := func(f string, args ...interface{}) {
				r.Violation("edit", what()+": "+fmt.Sprintf(f, args...), nil)
			}
			if panicked == in["Recoverer"] {
				fail("panic got through=%v", panicked)
			}
			if in["Recoverer"] && u.status != 500 {
				fail("status %d", u.status)
			}
			if (reqID != "") != in["RequestID"] {
				fail("request ID %q", reqID)
			}
			started := len(lines) > 0 && strings.Contains(lines[0], "Started ")
			if started != in["Logger"] {
				fail("logged %q", lines)
			}
			u, _, _ = serve("OPTIONS", "/probe")
			if !in["RequestID"] {
				// Without an environment the list of methods cannot
				// reach AutomaticOptions through it being allocated
				// late is fine: routing allocates it in the same C.
			}
			if (u.status == 200 && u.hdr.Get("Allow") == "GET, HEAD, OPTIONS") != in["AutomaticOptions"] {
				fail("OPTIONS gave %d, Allow %q", u.status, u.hdr.Get("Allow"))
			}
			r.Traces.Add(2)
			r.Transitions.Add(2)
		})
	}
	unknown := func(h http.Handler) http.Handler { return h }
	for mask := 0; mask < 16; mask++ {
		for way := 0; way < 2; way++ {
			in := map[string]bool{}
			what := func() string { return fmt.Sprintf("default stack with %v left", in) }
			for i, d := range defaults {
				in[d.name] = mask>>uint(i)&1 != 0
				if !in[d.name] {
					if err := goji.Abandon(d.mw); err != nil {
						r.Violation("abandon", "goji.Abandon("+d.name+") on the default stack: "+err.Error(), nil)
						return
					}
					if err := goji.Abandon(d.mw); err == nil {
						r.Violation("abandon-twice", "goji.Abandon("+d.name+") succeeded twice", nil)
						return
					}
				}
			}
			if goji.Insert(unknown, func(h http.Handler) http.Handler { return h }) == nil {
				r.Violation("insert-unknown", what()+": goji.Insert before an unknown layer succeeded", nil)
				return
			}
			probe(what, in, "")
			// Restore.
			if way == 0 {
				for _, d := range defaults {
					if in[d.name] {
						goji.Abandon(d.mw)
					}
				}
				for _, d := range defaults {
					goji.Use(d.mw)
				}
			} else {
				// Right to left with Insert.
				next := web.MiddlewareType(nil)
				for i := len(defaults) - 1; i >= 0; i-- {
					d := defaults[i]
					if !in[d.name] {
						if next == nil {
							goji.Use(d.mw)
						} else if err := goji.Insert(d.mw, next); err != nil {
							r.Violation("insert", "goji.Insert("+d.name+"): "+err.Error(), nil)
							return
						}
					}
					next = d.mw
				}
			}
			full := map[string]bool{"RequestID": true, "Logger": true, "Recoverer": true, "AutomaticOptions": true}
			probe(func() string { return fmt.Sprintf("default stack restored (way %d) after keeping %v", way, in) }, full, "")
			r.States.Add(1)
			if r.Failed() {
				return
			}
		}
	}
	defaultEdits(r, w, serve)
	if goji.DefaultMux != orig {
		r.Violation("replaced", "the default mux was replaced", nil)
	}
	r.Bound("every history of at most %d of %d edits of the default stack, successful and failing; one or two routes of every verb combination with every request method on the default mux, before and after Compile; every subset of the default stack abandoned and restored in two ways", kit.Pick(r, 4, 5), len(stackEdits))
	r.Sample("goji.Get and goji.Post at one path: OPTIONS answers Allow: GET, HEAD, POST, OPTIONS")
}

var layersRun []string

func layerA(h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		layersRun = append(layersRun, "A")
		h.ServeHTTP(w, q)
	})
}

func layerB(c *web.C, h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		id := ""
		if c.Env != nil {
			id, _ = c.Env[middleware.RequestIDKey].(string)
		}
		if id == "" {
			layersRun = append(layersRun, "B before RequestID")
		} else {
			layersRun = append(layersRun, "B")
		}
		h.ServeHTTP(w, q)
	})
}

func layerU(h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		layersRun = append(layersRun, "U")
		h.ServeHTTP(w, q)
	})
}

// layerAbsent is never added.
func layerAbsent(h http.Handler) http.Handler { return nil }

var layerOf = map[string]web.MiddlewareType{"A": layerA, "B": layerB, "U": layerU, "absent": layerAbsent,
	"RequestID": middleware.RequestID, "Logger": middleware.Logger, "Recoverer": middleware.Recoverer, "AutomaticOptions": middleware.AutomaticOptions}

var stackEdits = []struct{ op, l, before string }{
	{"Use", "A", ""}, {"Use", "B", ""}, {"Insert", "A", "B"}, {"Insert", "B", "A"}, {"Insert", "B", "RequestID"}, {"Insert", "A", "AutomaticOptions"},
	{"Insert", "U", "absent"}, {"Insert", "A", "A"}, {"Abandon", "A", ""}, {"Abandon", "B", ""}, {"Abandon", "absent", ""}, {"request", "", ""},
}

// defaultEdits runs every bounded history of edits through the package's
// functions and compares the layers that run with a list.
func defaultEdits(r *kit.Run, w *kit.Watch, serve func(method, path string) (*under, []string, bool)) {
	goji.Get("/edited", func(c web.C, rw http.ResponseWriter, q *http.Request) { rw.WriteHeader(233) })
	base := []string{"RequestID", "Logger", "Recoverer", "AutomaticOptions"}
	clear := func() {
		for _, l := range []string{"A", "B", "U"} {
			for i := 0; i < 10 && goji.Abandon(layerOf[l]) == nil; i++ {
			}
		}
	}
	find := func(list []string, l string) int {
		for i, x := range list {
			if x == l {
				return i
			}
		}
		return -1
	}
	for n := 0; n <= kit.Pick(r, 4, 5); n++ {
		kit.Sequences(n, len(stackEdits), func(seq []int) bool {
			what := func() string {
				s := "default mux:"
				for _, i := range seq {
					e := stackEdits[i]
					s += fmt.Sprintf(" %s(%s", e.op, e.l)
					if e.before != "" {
						s += " before " + e.before
					}
					s += ");"
				}
				return s
			}
			w.Case(what, func() {
				defer clear()
				model := append([]string{}, base...)
				look := func() {
					layersRun = layersRun[:0]
					u, _, panicked := serve("GET", "/edited")
					var want []string
					for i, l := range model {
						switch {
						case l == "B" && i < find(model, "RequestID"):
							want = append(want, "B before RequestID")
						case l == "A" || l == "B":
							want = append(want, l)
						}
					}
					if fmt.Sprint(want) != fmt.Sprint(layersRun) || u.status != 233 || panicked {
						r.Violation("history", fmt.Sprintf("%s a request got %d and ran the layers %v, expected %v", what(), u.status, layersRun, want), nil)
					}
					r.Transitions.Add(1)
				}
				for _, i := range seq {
					e := stackEdits[i]
					var err error
					fails := false
					at := find(model, e.before)
					switch e.op {
					case "Use":
						goji.Use(layerOf[e.l])
						model = append(model, e.l)
					case "Insert":
						err = goji.Insert(layerOf[e.l], layerOf[e.before])
						if fails = at < 0; !fails {
							model = append(model[:at:at], append([]string{e.l}, model[at:]...)...)
						}
					case "Abandon":
						err = goji.Abandon(layerOf[e.l])
						at = find(model, e.l)
						if fails = at < 0; !fails {
							model = append(model[:at:at], model[at+1:]...)
						}
					case "request":
						look()
					}
					if (err != nil) != fails {
						r.Violation("history-error", fmt.Sprintf("%s goji.%s(%s) gave %v", what(), e.op, e.l, err), nil)
					}
					r.Transitions.Add(1)
				}
				look()
				r.Traces.Add(1)
				r.States.Add(1)
			})
			return !r.Failed()
		})
	}
}

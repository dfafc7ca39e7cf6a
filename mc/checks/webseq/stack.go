package main

import (
	"fmt"
	"net/http"
	"reflect"
	"regexp"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif.local/mc/kit"
)

func init() {
	checks["C08"] = c08
	checks["C10"] = c10
	checks["C11"] = c11
	checks["C12"] = c12
}

type tracer struct {
	rec
	trace strings.Builder
}

func (t *tracer) add(s string) { t.trace.WriteString(s) }

// c08: histories of edits to the middleware stack.
func c08(r *kit.Run) {
	r.Rule = "state: history of middleware edits and requests; transition: one operation; the model is a list of layer names; each request compares the order in which layers and handler run, and what they see in the context"
	// mw makes one history's middleware; each is a distinct function value, D
	// and E are closures of the same function literal.
	mk := func(name string) func(*web.C, http.Handler) http.Handler {
		return func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				w.(*tracer).add(name + ">")
				if c.Env == nil {
					c.Env = map[interface{}]interface{}{}
				}
				s, _ := c.Env["seen"].(string)
				c.Env["seen"] = s + name
				h.ServeHTTP(w, q)
				s, _ = c.Env["seen"].(string)
				w.(*tracer).add("<" + name + "(" + s + ")")
			})
		}
	}
	names := []string{"A", "D", "E"}
	const nm = 3
	type op struct {
		name string
		kind int // 0 use 1 insert 2 abandon 3 request 4 request with context
		a, b int
	}
	var ops []op
	for i := 0; i < nm; i++ {
		ops = append(ops, op{"Use(" + names[i] + ")", 0, i, 0})
	}
	for i := 0; i < nm; i++ {
		for j := 0; j < nm; j++ {
			ops = append(ops, op{"Insert(" + names[i] + "," + names[j] + ")", 1, i, j})
		}
	}
	for i := 0; i < nm; i++ {
		ops = append(ops, op{"Abandon(" + names[i] + ")", 2, i, 0})
	}
	ops = append(ops, op{"request", 3, 0, 0}, op{"request with a context", 4, 0, 0},
		op{"request whose handler calls Use(E)", 5, 2, 0}, op{"request whose handler calls Abandon(A)", 6, 0, 0})
	depth := kit.Pick(r, 5, 6)
	d, e := mk("D"), mk("E")
	a := func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			w.(*tracer).add("A>")
			h.ServeHTTP(w, q)
			w.(*tracer).add("<A")
		})
	}
	mws := []interface{}{a, d, e}
	for n := 0; n <= depth; n++ {
		r.Seqs(n, len(ops), func(w *kit.Watch, seq []int) {
			what := func() string {
				var l []string
				for _, s := range seq {
					l = append(l, ops[s].name)
				}
				return "history: " + strings.Join(l, "; ")
			}
			w.Case(what, func() {
				m := web.New()
				edit := func() {} // what the handler does to the stack
				m.Handle("/*", web.HandlerFunc(func(c web.C, w http.ResponseWriter, q *http.Request) {
					edit()
					s, _ := c.Env["seen"].(string)
					w.(*tracer).add("H(" + s + ")")
				}))
				var model []int
				req := request("GET", "/x")
				traces := int64(0)
				probe := func(withC bool) bool {
					want, seen := "", ""
					if withC {
						seen = "in"
					}
					for _, l := range model {
						want += names[l] + ">"
						if l > 0 {
							seen += names[l]
						}
					}
					want += "H(" + seen + ")"
					for i := len(model) - 1; i >= 0; i-- {
						want += "<" + names[model[i]]
						if model[i] > 0 {
							want += "(" + seen + ")"
						}
					}
					t := &tracer{}
					if withC {
						m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{"seen": "in"}}, t, req)
					} else {
						m.ServeHTTP(t, req)
					}
					traces++
					if t.trace.String() != want {
						r.Violation("stack", fmt.Sprintf("%s; request ran %s, expected %s", what(), t.trace.String(), want), nil)
						return false
					}
					return true
				}
				find := func(x int) int {
					for i, l := range model {
						if l == x {
							return i
						}
					}
					return -1
				}
				for _, s := range seq {
					o := ops[s]
					var err error
					bad := false
					switch o.kind {
					case 0:
						m.Use(mws[o.a])
						model = append(model, o.a)
					case 1:
						err = m.Insert(mws[o.a], mws[o.b])
						if i := find(o.b); i < 0 {
							bad = true
						} else {
							model = append(model[:i:i], append([]int{o.a}, model[i:]...)...)
						}
					case 2:
						err = m.Abandon(mws[o.a])
						if i := find(o.a); i < 0 {
							bad = true
						} else {
							model = append(model[:i:i], model[i+1:]...)
						}
					case 3, 4:
						if !probe(o.kind == 4) {
							return
						}
					case 5, 6:
						edit = func() {
							if o.kind == 5 {
								m.Use(mws[o.a])
							} else {
								err = m.Abandon(mws[o.a])
							}
						}
						ok := probe(false)
						edit = func() {}
						if !ok {
							return
						}
						if i := find(o.a); o.kind == 5 {
							model = append(model[:len(model):len(model)], o.a)
						} else if i < 0 {
							bad = true
						} else {
							model = append(model[:i:i], model[i+1:]...)
						}
					}
					if (err != nil) != bad {
						r.Violation("stack-error", fmt.Sprintf("%s: %s returned %v", what(), o.name, err), nil)
						return
					}
				}
				if !probe(false) || !probe(true) {
					return
				}
				r.States.Add(1)
				r.Transitions.Add(int64(len(seq)))
				r.Traces.Add(traces)
			})
		})
	}
	r.Bound("every history of at most %d of %d operations (Use, Insert, Abandon over 3 layers of both kinds, requests with and without an incoming context, and requests whose handler edits the stack), then two requests", depth, len(ops))
	r.Sample("Use(A); Use(D); request; Insert(E,A); Abandon(D); request")
}

// Handlers and patterns whose identity can be checked.
func hFunc(w http.ResponseWriter, q *http.Request)              { w.(*rec).hit = 1 }
func hFuncC(c web.C, w http.ResponseWriter, q *http.Request)    { hit(2).ServeHTTPC(c, w, q) }
func hFuncPost(c web.C, w http.ResponseWriter, q *http.Request) { hit(4).ServeHTTPC(c, w, q) }
func hNotFound(c web.C, w http.ResponseWriter, q *http.Request) { hit(5).ServeHTTPC(c, w, q) }

type plainHandler struct{ n int }

func (p plainHandler) ServeHTTP(w http.ResponseWriter, q *http.Request) { w.(*rec).hit = p.n }

type bothHandler struct{ n int }

func (p bothHandler) ServeHTTP(w http.ResponseWriter, q *http.Request) { w.(*rec).hit = -p.n }
func (p bothHandler) ServeHTTPC(c web.C, w http.ResponseWriter, q *http.Request) {
	hit(p.n).ServeHTTPC(c, w, q)
}

func sameValue(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	if va.Kind() == reflect.Func {
		return va.Pointer() == vb.Pointer()
	}
	return a == b
}

// c10: explicit routing with Mux.Router, Match and what it reports.
func c10(r *kit.Run) {
	r.Rule = "state: a middleware stack out of routing and rewriting layers; transition: one request; the model interprets the layers one by one"
	re := regexp.MustCompile(`/c(?P<n>\d)`) // not anchored on purpose
	re2 := regexp.MustCompile(`^/d$`)
	type rt struct {
		method string
		pat    web.PatternType
		h      web.HandlerType
		hit    int
		bind   func(string) (map[string]string, bool)
	}
	reb, reb2 := mustRef(re.String()), mustRef(re2.String())
	table := []rt{
		{"ANY", "/a/:x", hFuncC, 2, refStringPattern("/a/:x").match},
		{"ANY", "/p", hFunc, 1, refStringPattern("/p").match},
		{"ANY", re, plainHandler{3}, 3, func(p string) (map[string]string, bool) { return refBind(reb, p) }},
		{"POST", "/b", hFuncPost, 4, refStringPattern("/b").match},
		{"ANY", re2, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.(*rec).hit = 6 }), 6, func(p string) (map[string]string, bool) { return refBind(reb2, p) }},
		{"ANY", custom{}, bothHandler{7}, 7, custom{}.bind},
		{"ANY", "/w/*", web.HandlerFunc(func(c web.C, w http.ResponseWriter, q *http.Request) { hit(8).ServeHTTPC(c, w, q) }), 8, refStringPattern("/w/*").match},
	}
	reqs := [][2]string{{"GET", "/a/1"}, {"GET", "/p"}, {"GET", "/c7"}, {"GET", "/b"}, {"POST", "/b"}, {"GET", "/d"}, {"GET", "/axb"}, {"GET", "/w/1/2"}, {"GET", "/none"}, {"PUT", "/b/c3"}}
	type state struct {
		path, method string
		env          bool
		match        int // -1 none, 0..n-1 route, 99 notfound, 50 handmade
		params       map[string]string
	}
	route := func(s *state) int {
		for i, x := range table {
			if x.method != "ANY" && x.method != s.method {
				continue
			}
			if b, ok := x.bind(s.path); ok {
				for k, v := range b {
					if s.params == nil {
						s.params = map[string]string{}
					}
					s.params[k] = v
				}
				return i
			}
		}
		return 99
	}
	handmade := hit(50)
	notFounds := []web.HandlerType{nil, hNotFound}
	layers := []string{"Router", "look", "path:=/p", "method:=POST", "match:=own", "match:=clear", "match:=junk", "path:=/none", "match:=pointer", "match:=empty", "other.Router"}
	// Another mux, whose Router may be used too.
	other := web.New()
	other.Handle("/p", hit(60))
	other.Get("/a/:y", hit(61))
	other.NotFound(hit(62))
	otherPats := map[int]web.PatternType{60: "/p", 61: "/a/:y", 62: nil}
	otherRoute := func(s *state) int {
		if s.path == "/p" {
			return 60
		}
		if b, ok := refStringPattern("/a/:y").match(s.path); ok && s.method == "GET" {
			for k, v := range b {
				if s.params == nil {
					s.params = map[string]string{}
				}
				s.params[k] = v
			}
			return 61
		}
		return 62
	}
	depth := kit.Pick(r, 5, 6)
	for n := 0; n <= depth; n++ {
		r.Seqs(n, len(layers), func(w *kit.Watch, seq []int) {
			for nfi, nf := range notFounds {
				var rq [2]string
				what := func() string {
					var l []string
					for _, s := range seq {
						l = append(l, layers[s])
					}
					return fmt.Sprintf("stack %q, request %v, own NotFound %v", l, rq, nfi == 1)
				}
				w.Case(what, func() {
					m := web.New()
					if nf != nil {
						m.NotFound(nf)
					}
					for _, x := range table {
						register(m, x.method, x.pat, x.h)
					}
					var st state
					failed := false
					fail := func(f string, args ...interface{}) {
						if !failed {
							r.Violation("router", what()+": "+fmt.Sprintf(f, args...), nil)
						}
						failed = true
					}
					look := func(c web.C, where string) {
						got := web.GetMatch(c)
						switch st.match {
						case -1:
							if got.Handler != nil || got.Pattern != nil {
								fail("%s: a Match is reported although none was set", where)
							}
						case 50:
							if got.Handler != web.Handler(handmade) {
								fail("%s: the handmade Match is not reported", where)
							}
						case 60, 61, 62:
							if got.Handler != web.Handler(hit(st.match)) || !sameValue(got.RawPattern(), otherPats[st.match]) {
								fail("%s: Match is %v of %v, the other mux routed to %d", where, got.RawHandler(), got.RawPattern(), st.match)
							}
						case 99:
							if got.Pattern != nil || got.RawPattern() != nil {
								fail("%s: Match for NotFound has pattern %v", where, got.RawPattern())
							}
							if got.Handler == nil {
								fail("%s: Match for NotFound has no handler", where)
							} else if nf != nil && !sameValue(got.RawHandler(), nf) {
								fail("%s: Match for NotFound has handler %v", where, got.RawHandler())
							}
						default:
							x := table[st.match]
							if !sameValue(got.RawPattern(), x.pat) {
								fail("%s: RawPattern is %v, the route was registered with %v", where, got.RawPattern(), x.pat)
							}
							if !sameValue(got.RawHandler(), x.h) {
								fail("%s: RawHandler is %v, the route was registered with %v", where, got.RawHandler(), x.h)
							}
						}
						if where != "on the way out" && !sameMap(c.URLParams, st.params) {
							fail("%s: parameters %v, expected %v", where, c.URLParams, st.params)
						}
					}
					for _, s := range seq {
						name := layers[s]
						if name == "Router" || name == "other.Router" {
							route := route
							if name == "Router" {
								m.Use(m.Router)
							} else {
								route = otherRoute
								m.Use(other.Router)
							}
							// Step the model right after it.
							m.Use(func(c *web.C, h http.Handler) http.Handler {
								return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
									st.match = route(&st)
									look(*c, "after Router")
									h.ServeHTTP(w, q)
								})
							})
							continue
						}
						m.Use(func(c *web.C, h http.Handler) http.Handler {
							return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
								env := func() {
									if c.Env == nil {
										c.Env = map[interface{}]interface{}{}
									}
								}
								switch name {
								case "look":
									look(*c, "in a layer")
									h.ServeHTTP(w, q)
									look(*c, "on the way out")
									return
								case "path:=/p":
									q.URL.Path, st.path = "/p", "/p"
								case "path:=/none":
									q.URL.Path, st.path = "/none", "/none"
								case "method:=POST":
									q.Method, st.method = "POST", "POST"
								case "match:=own":
									env()
									c.Env[web.MatchKey] = web.Match{Handler: handmade}
									st.match = 50
								case "match:=clear":
									delete(c.Env, web.MatchKey)
									st.match = -1
								case "match:=junk":
									env()
									c.Env[web.MatchKey] = "not a Match"
									st.match = -1
								case "match:=pointer":
									env()
									c.Env[web.MatchKey] = &web.Match{Handler: handmade}
									st.match = -1
								case "match:=empty":
									env()
									c.Env[web.MatchKey] = web.Match{}
									st.match = -1
								}
								h.ServeHTTP(w, q)
							})
						})
					}
					for _, rq = range reqs {
						st = state{path: rq[1], method: rq[0], match: -1}
						res := &rec{hit: -99}
						q := request(rq[0], rq[1])
						m.ServeHTTP(res, q)
						sel := st.match
						if sel == -1 {
							// The stack routes at its end.
							sel = route(&st)
						}
						want := 0
						switch {
						case sel >= 50 && sel < 99:
							want = sel
						case sel == 99 && nf == nil:
							want = -99
							if res.code != 404 {
								fail("status %d, expected 404", res.code)
							}
						case sel == 99:
							want = 5
						default:
							want = table[sel].hit
						}
						if res.hit != want {
							fail("handler %d ran, expected %d", res.hit, want)
						}
						if failed {
							return
						}
						r.Transitions.Add(1)
						r.Traces.Add(1)
					}
					r.States.Add(1)
				})
			}
		})
	}
	r.Bound("every stack of at most %d of %d layers, %d requests, default and own NotFound", depth, len(layers), len(reqs))
	r.Sample("layers Router, path:=/p, look; GET /c7 runs the handler of /c(?P<n>\\d) and RawPattern is that very regexp")
}

// c11: kinds of handlers and nesting of muxes.
func c11(r *kit.Run) {
	c11kinds(r)
	r.Rule = "state: a chain of nested muxes ending in one kind of handler; transition: one request; the model says which parameters and environment reach the leaf"
	type leafT struct {
		name string
		ctx  bool
		mk   func(got func(web.C, *http.Request, bool)) web.HandlerType
	}
	leaves := []leafT{
		{"func(w,r)", false, func(g func(web.C, *http.Request, bool)) web.HandlerType {
			return func(w http.ResponseWriter, q *http.Request) { g(web.C{}, q, false) }
		}},
		{"func(C,w,r)", true, func(g func(web.C, *http.Request, bool)) web.HandlerType {
			return func(c web.C, w http.ResponseWriter, q *http.Request) { g(c, q, true) }
		}},
		{"http.HandlerFunc", false, func(g func(web.C, *http.Request, bool)) web.HandlerType {
			return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { g(web.C{}, q, false) })
		}},
		{"web.HandlerFunc", true, func(g func(web.C, *http.Request, bool)) web.HandlerType {
			return web.HandlerFunc(func(c web.C, w http.ResponseWriter, q *http.Request) { g(c, q, true) })
		}},
		{"http.Handler", false, func(g func(web.C, *http.Request, bool)) web.HandlerType { return plainLeaf{g} }},
		{"web.Handler", true, func(g func(web.C, *http.Request, bool)) web.HandlerType { return ctxLeaf{g} }},
		{"both", true, func(g func(web.C, *http.Request, bool)) web.HandlerType { return bothLeaf{g} }},
		{"not found (http)", false, nil},
		{"not found (web)", true, nil},
	}
	pats := []string{"/*", "/:x/*", "/u/:y/*"}
	wraps := []string{"mux", "http wrapper", "web wrapper"}
	via := []string{"ServeHTTP", "ServeHTTPC"}
	paths := []string{"/u/v/w/x", "/u/v/", "/a/b"}
	per := len(pats) * len(wraps)
	one := func(w *kit.Watch, seq []int) {
		for _, lf := range leaves {
			for _, v := range via {
				for _, path := range paths {
					what := func() string {
						var l []string
						for _, s := range seq {
							l = append(l, wraps[s/len(pats)]+" at "+pats[s%len(pats)])
						}
						return fmt.Sprintf("%s %q through %q to a %s", v, path, l, lf.name)
					}
					w.Case(what, func() {
						calls := 0
						var gotC web.C
						gotCtx := false
						var gotPath string
						got := func(c web.C, q *http.Request, ctx bool) {
							calls++
							gotC, gotCtx, gotPath = c, ctx, q.URL.Path
						}
						// Build inside out: level i is a mux with
						// pattern i leading to level i+1.
						var inner web.HandlerType
						nf := strings.HasPrefix(lf.name, "not found")
						if !nf {
							inner = lf.mk(got)
						}
						params := map[string]string{}
						env := ""
						if v == "ServeHTTPC" {
							params["in"] = "1"
							env = "in"
						}
						ok := true
						for i := 0; i < len(seq) && ok; i++ {
							if i > 0 && wraps[seq[i]/len(pats)] == "http wrapper" {
								params = map[string]string{}
								env = ""
							}
							env += fmt.Sprint(i)
							last := i == len(seq)-1
							if last && nf {
								break
							}
							b, m := refStringPattern(pats[seq[i]%len(pats)]).match(path)
							ok = m
							for k, x := range b {
								params[k] = x
							}
						}
						var top *web.Mux
						for i := len(seq) - 1; i >= 0; i-- {
							i := i
							m := web.New()
							m.Use(func(c *web.C, h http.Handler) http.Handler {
								return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
									if c.Env == nil {
										c.Env = map[interface{}]interface{}{}
									}
									s, _ := c.Env["trail"].(string)
									c.Env["trail"] = s + fmt.Sprint(i)
									h.ServeHTTP(w, q)
								})
							})
							if i == len(seq)-1 && nf {
								if lf.ctx {
									m.NotFound(web.HandlerFunc(func(c web.C, w http.ResponseWriter, q *http.Request) { got(c, q, true) }))
								} else {
									m.NotFound(func(w http.ResponseWriter, q *http.Request) { got(web.C{}, q, false) })
								}
							} else {
								m.Handle(pats[seq[i]%len(pats)], inner)
							}
							top = m
							switch wraps[seq[i]/len(pats)] {
							case "mux":
								inner = m
							case "http wrapper":
								inner = http.HandlerFunc(m.ServeHTTP)
							default:
								inner = web.HandlerFunc(m.ServeHTTPC)
							}
						}
						c := web.C{}
						if v == "ServeHTTPC" {
							c = web.C{URLParams: map[string]string{"in": "1"}, Env: map[interface{}]interface{}{"trail": "in"}}
							top.ServeHTTPC(c, &rec{}, request("GET", path))
						} else {
							top.ServeHTTP(&rec{}, request("GET", path))
						}
						r.Transitions.Add(1)
						r.Traces.Add(1)
						wantCalls := 1
						if !ok {
							wantCalls = 0
						}
						if calls != wantCalls {
							r.Violation("nest", fmt.Sprintf("%s: the leaf ran %d times, expected %d", what(), calls, wantCalls), nil)
							return
						}
						if calls == 0 {
							return
						}
						if gotPath != path || gotCtx != lf.ctx {
							r.Violation("nest", fmt.Sprintf("%s: leaf saw path %q, with context %v", what(), gotPath, gotCtx), nil)
							return
						}
						if lf.ctx {
							s, _ := gotC.Env["trail"].(string)
							if !sameMap(gotC.URLParams, params) || s != env {
								r.Violation("nest", fmt.Sprintf("%s: leaf saw parameters %v and trail %q, expected %v and %q", what(), gotC.URLParams, s, params, env), nil)
							}
						}
					})
					if r.Failed() {
						return
					}
				}
			}
		}
		r.States.Add(1)
	}
	maxDepth := kit.Pick(r, 4, 5)
	for depth := 1; depth <= maxDepth; depth++ {
		r.Seqs(depth, per, one)
	}
	r.Seqs(2, per, func(w *kit.Watch, seq []int) { one(w, cycle(seq, long)) })
	r.Bound("every chain of at most %d muxes, and every one of %d muxes with a period of two, over %d ways of nesting, %d kinds of leaf handler, %d paths, both entry points", maxDepth, long, per, len(leaves), len(paths))
	r.Sample("mux at /:x/*, web wrapper at /*, web.Handler leaf: parameters x and * and the whole environment arrive")
}

type plainLeaf struct {
	g func(web.C, *http.Request, bool)
}

func (l plainLeaf) ServeHTTP(w http.ResponseWriter, q *http.Request) { l.g(web.C{}, q, false) }

type ctxLeaf struct {
	g func(web.C, *http.Request, bool)
}

func (l ctxLeaf) ServeHTTPC(c web.C, w http.ResponseWriter, q *http.Request) { l.g(c, q, true) }

type bothLeaf struct {
	g func(web.C, *http.Request, bool)
}

func (l bothLeaf) ServeHTTP(w http.ResponseWriter, q *http.Request)           { l.g(web.C{}, q, false) }
func (l bothLeaf) ServeHTTPC(c web.C, w http.ResponseWriter, q *http.Request) { l.g(c, q, true) }

// c12: sub-routers, nested, with and without explicit routing, with leaves that
// return or panic.
func c12(r *kit.Run) {
	r.Rule = "state: a chain of muxes using SubRouter; transition: one request; the model computes the path each level sees and checks that path and Match are restored on the way out"
	type level struct {
		name string
		pat  web.PatternType
		bind func(string) (map[string]string, bool)
	}
	rs := func(s string) func(string) (map[string]string, bool) {
		re := mustRef(s)
		return func(p string) (map[string]string, bool) { return refBind(re, p) }
	}
	levels := []level{
		{"/*", "/*", refStringPattern("/*").match},
		{"/a/*", "/a/*", refStringPattern("/a/*").match},
		{"/:x/*", "/:x/*", refStringPattern("/:x/*").match},
		{"regexp with _", regexp.MustCompile(`^/a(?P<_>/.*)$`), rs(`^/a(?P<_>/.*)$`)},
		{"regexp with _ that may be empty", regexp.MustCompile(`^/a(?P<_>.*)$`), rs(`^/a(?P<_>.*)$`)},
		{"regexp without _", regexp.MustCompile(`^/a`), rs(`^/a`)},
	}
	// Each level: which pattern it routes with, whether it uses explicit
	// routing, and whether the next level uses SubRouter.
	leaves := []string{"return", "panic", "sets path", "clears env", "drops params"}
	paths := []string{"/a/a/a/b", "/a/b/c", "/a/", "/a", "/b/a"}
	per := len(levels) * 2 * 2
	one := func(w *kit.Watch, seq []int, paths []string) {
		for _, leaf := range leaves {
			for _, path0 := range paths {
				for outerMatch := 0; outerMatch < 3; outerMatch++ {
					what := func() string {
						var l []string
						for _, s := range seq {
							n := levels[s%len(levels)].name
							if s/len(levels)%2 == 1 {
								n += " explicit"
							}
							if s/len(levels)/2 == 1 {
								n += " entered through SubRouter"
							}
							l = append(l, n)
						}
						return fmt.Sprintf("levels %q, leaf %s, path %q, %s", l, leaf, path0, []string{"no Match", "a Match", "a Match without pattern"}[outerMatch]+" set by the caller")
					}
					w.Case(what, func() {
						c12case(r, what, seq, levels[0:], leaf, path0, outerMatch, func(i int) (int, bool, bool) {
							s := seq[i]
							return s % len(levels), s/len(levels)%2 == 1, s/len(levels)/2 == 1
						}, func(i int) (web.PatternType, func(string) (map[string]string, bool)) {
							return levels[i].pat, levels[i].bind
						})
					})
					if r.Failed() {
						return
					}
				}
			}
		}
		r.States.Add(1)
	}
	maxDepth := kit.Pick(r, 3, 4)
	for depth := 1; depth <= maxDepth; depth++ {
		r.Seqs(depth, per, func(w *kit.Watch, seq []int) { one(w, seq, paths) })
	}
	deep := []string{strings.Repeat("/a", long+2), strings.Repeat("/a", long/2) + "/b"}
	r.Seqs(2, per, func(w *kit.Watch, seq []int) { one(w, cycle(seq, long), deep) })
	r.Bound("every chain of at most %d levels, and every one of %d levels with a period of two, over %d configurations (6 patterns, explicit routing or not, SubRouter or not), %d leaf behaviours, %d paths, with and without a Match (with and without a pattern) set by the caller", maxDepth, long, per, len(leaves), len(paths))
	c12direct(r)
	r.Sample("/a/* then regexp with _ through SubRouter: leaf sees the doubly stripped path; after a panic both paths are restored")
}

// c12direct runs SubRouter around a handler that is not a mux: it finds exactly
// the context of the caller, and SubRouter alone changes none of it.
func c12direct(r *kit.Run) {
	values := []string{"", "/", "/a", "rest"}
	const absent = 5 // absent, or one of the four values
	matches := []interface{}{nil, web.Match{Handler: hit(1)}, web.Match{Pattern: web.ParsePattern("/x"), Handler: hit(2)}, "junk"}
	leaves := []string{"return", "panic", "sets path", "sets Match", "no Env"}
	n := absent * absent * len(matches) * len(leaves)
	r.Each(n, func(w *kit.Watch, i int) {
		star, under, match, leaf := i%absent, i/absent%absent, matches[i/absent/absent%len(matches)], leaves[i/absent/absent/len(matches)]
		for _, path := range []string{"/", "/a", "/a/b", ""} {
			for _, bare := range []bool{false, true} {
				params := map[string]string{"x": "1"}
				env := map[interface{}]interface{}{"k": "v"}
				want := path
				if under > 0 {
					params["_"] = values[under-1]
					want = values[under-1]
				}
				if star > 0 {
					params["*"] = values[star-1]
					want = values[star-1]
				}
				if match != nil {
					env[web.MatchKey] = match
				}
				c := web.C{URLParams: params, Env: env}
				if bare && star+under == 0 {
					c.URLParams, params = nil, nil
				}
				if bare && match == nil {
					c.Env, env = nil, nil
				}
				what := func() string {
					return fmt.Sprintf("SubRouter with parameters %v, environment %v, path %q, inner handler: %s", params, env, path, leaf)
				}
				w.Case(what, func() {
					beforeP := map[string]string{}
					for k, v := range params {
						beforeP[k] = v
					}
					q := request("GET", path)
					calls := 0
					fail := func(f string, args ...interface{}) {
						r.Violation("subrouter-direct", what()+": "+fmt.Sprintf(f, args...), nil)
					}
					h := middleware.SubRouter(&c, http.HandlerFunc(func(w http.ResponseWriter, q2 *http.Request) {
						calls++
						if q2.URL.Path != want {
							fail("it sees path %q, expected %q", q2.URL.Path, want)
						}
						if !sameMap(c.URLParams, beforeP) || env != nil && c.Env["k"] != "v" {
							fail("it sees parameters %v and environment %v", c.URLParams, c.Env)
						}
						if want := star+under == 0 && web.GetMatch(web.C{Env: env}).Handler != nil; (web.GetMatch(c).Handler != nil) != want {
							fail("it sees a Match: %v, expected: %v", !want, want)
						}
						switch leaf {
						case "panic":
							panic("leaf")
						case "sets path":
							q2.URL.Path = "/elsewhere"
						case "sets Match":
							if c.Env == nil {
								c.Env = map[interface{}]interface{}{}
							}
							c.Env[web.MatchKey] = web.Match{Handler: hit(9)}
						case "no Env":
							c.Env = nil
						}
					}))
					func() {
						defer func() {
							if e := recover(); e != nil && e != "leaf" {
								panic(e)
							}
						}()
						h.ServeHTTP(&rec{}, q)
					}()
					if calls != 1 {
						fail("it ran %d times", calls)
					}
					r.Transitions.Add(1)
					r.Traces.Add(1)
					if !sameMap(params, beforeP) {
						fail("the parameters became %v", params)
					}
					if leaf == "no Env" || star+under == 0 {
						return
					}
					if q.URL.Path != path {
						fail("the path became %q", q.URL.Path)
					}
					if m := c.Env[web.MatchKey]; match != "junk" && !reflect.DeepEqual(m, match) {
						fail("the Match became %v", m)
					}
					if env != nil && c.Env["k"] != "v" {
						fail("the environment became %v", c.Env)
					}
				})
			}
		}
		r.States.Add(1)
	})
	r.Bound("SubRouter alone: wildcard parameters * and _ absent or of %d values, %d values under MatchKey, 4 paths, %d inner handlers", len(values), len(matches), len(leaves))
}

func c12case(r *kit.Run, what func() string, seq []int, _ interface{}, leaf, path0 string, outerMatch int,
	cfg func(int) (int, bool, bool), lv func(int) (web.PatternType, func(string) (map[string]string, bool))) {
	failed := false
	fail := func(f string, args ...interface{}) {
		if !failed {
			r.Violation("subrouter", what()+": "+fmt.Sprintf(f, args...), nil)
		}
		failed = true
	}
	// The model.
	n := len(seq)
	type view struct{ path string }
	enter := make([]view, 0, n) // path each level sees inside its SubRouter
	params := map[string]string{}
	path := path0
	reached := true
	// A Match found by an outer level or the caller is picked up by an inner
	// one unless SubRouter removes it or the inner one routes explicitly; such
	// setups loop by design, so they are left out.
	inherited := outerMatch > 0
	for i := 0; i < n; i++ {
		p, explicit, sub := cfg(i)
		if sub {
			s, ok := params["*"]
			if !ok {
				s, ok = params["_"]
			}
			if ok {
				path = s
				inherited = false
			}
		}
		if inherited && !explicit {
			return
		}
		enter = append(enter, view{path})
		_, bind := lv(p)
		b, ok := bind(path)
		if !ok {
			reached = false
			break
		}
		for k, v := range b {
			params[k] = v
		}
		inherited = explicit || inherited
	}
	// The system.
	calls := 0
	var leafPath string
	leafParams := map[string]string{}
	var inner web.HandlerType = web.HandlerFunc(func(c web.C, w http.ResponseWriter, q *http.Request) {
		calls++
		leafPath = q.URL.Path
		for k, v := range c.URLParams {
			leafParams[k] = v
		}
		switch leaf {
		case "panic":
			panic("leaf")
		case "sets path":
			q.URL.Path = "/elsewhere"
		case "clears env":
			for k := range c.Env {
				delete(c.Env, k)
			}
		case "drops params":
			for k := range c.URLParams {
				delete(c.URLParams, k)
			}
		}
	})
	var top *web.Mux
	for i := n - 1; i >= 0; i-- {
		i := i
		p, explicit, sub := cfg(i)
		m := web.New()
		pat, _ := lv(p)
		m.Handle(pat, inner)
		// A probe outside SubRouter: whatever happens inside, the path and
		// the Match come back as they were.
		m.Use(func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				before, match := q.URL.Path, web.GetMatch(*c)
				_, star := c.URLParams["*"]
				_, under := c.URLParams["_"]
				if sub && (star || under) {
					defer func() {
						if q.URL.Path != before {
							fail("level %d: path is %q after SubRouter, it was %q", i, q.URL.Path, before)
						}
						after := web.GetMatch(*c)
						if (after.Handler == nil) != (match.Handler == nil) || after.Handler != nil && (!sameValue(after.RawPattern(), match.RawPattern()) || !sameValue(after.RawHandler(), match.RawHandler())) {
							fail("level %d: Match is %v after SubRouter, it was %v", i, after, match)
						}
					}()
				}
				h.ServeHTTP(w, q)
			})
		})
		if sub {
			m.Use(middleware.SubRouter)
		}
		m.Use(func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				if i < len(enter) && q.URL.Path != enter[i].path {
					fail("level %d sees path %q, expected %q", i, q.URL.Path, enter[i].path)
				}
				h.ServeHTTP(w, q)
			})
		})
		if explicit {
			m.Use(m.Router)
		}
		inner = m
		top = m
	}
	c := web.C{}
	switch outerMatch {
	case 1:
		c.Env = map[interface{}]interface{}{web.MatchKey: web.Match{Pattern: web.ParsePattern("/outer"), Handler: hit(77)}}
	case 2:
		c.Env = map[interface{}]interface{}{web.MatchKey: web.Match{Handler: hit(78)}}
	}
	res := &rec{}
	func() {
		defer func() {
			if e := recover(); e != nil && e != "leaf" {
				panic(e)
			}
		}()
		top.ServeHTTPC(c, res, request("GET", path0))
	}()
	r.Transitions.Add(1)
	r.Traces.Add(1)
	if (calls == 1) != reached || calls > 1 {
		fail("the leaf ran %d times, expected reached=%v", calls, reached)
	}
	if calls == 1 && (leafPath != path || !sameMap(leafParams, params)) {
		fail("leaf saw %q %v, expected %q %v", leafPath, leafParams, path, params)
	}
}

// long is the length of the chains that repeat a short one.
const long = 20

// cycle repeats a sequence up to a length.
func cycle(seq []int, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = seq[i%len(seq)]
	}
	return out
}

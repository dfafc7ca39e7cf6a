// Checks of the web packages under the controlled scheduler: concurrent
// registration (C07), isolation of contexts (C09) and request ids (C17).
package main

import (
	"flag"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"github.com/zenazn/goji/web/mutil"
	"verif.local/mc/kit"
	"verif.local/mc/vrt"
)

func explorer(body func()) *vrt.Explorer {
	return &vrt.Explorer{Races: true, WgReuse: true, Horizon: 6000, Body: func() {
		web.VerifReset()
		mutil.VerifReset()
		middleware.VerifReset()
		body()
	}}
}

// rec is a response writer that remembers what happened.
type rec struct {
	h      http.Header
	status int
	body   string
	by     string // the handler that ran
	params map[string]string
	valid  []string
}

func (r *rec) Header() http.Header {
	if r.h == nil {
		r.h = http.Header{}
	}
	return r.h
}
func (r *rec) WriteHeader(code int) {
	if r.status == 0 {
		r.status = code
	}
}
func (r *rec) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body += string(b)
	return len(b), nil
}

func request(method, path string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, RemoteAddr: "client", RequestURI: path, Host: "h"}
}

// ---------------------------------------------------------------- C07

// op is a recorded operation: a registration or a request.
type op struct {
	reg       int // index of the route, or -1
	method    string
	path      string
	call, ret int
	got       string
	done      bool
}

type def struct {
	name, method string
	pattern      interface{}
	re           *regexp.Regexp // independent reading of the pattern
}

type table struct {
	mux   *web.Mux
	ev    vrt.Event
	clock int
	ops   []*op
	defs  []def
	wg    vrt.WaitGroup
}

func newTable() *table {
	t := &table{mux: web.New()}
	t.mux.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) {
		x := w.(*rec)
		x.by, x.params = "404", c.URLParams
		if v, ok := c.Env[web.ValidMethodsKey].([]string); ok {
			x.valid = append([]string(nil), v...)
		}
	})
	return t
}

func (t *table) begin(o *op) {
	t.ev.Peek()
	t.clock++
	o.call = t.clock
	t.ops = append(t.ops, o)
}

func (t *table) end(o *op) {
	t.ev.Point()
	t.clock++
	o.ret = t.clock
	o.done = true
}

func (t *table) spawn(name string, f func()) {
	t.wg.Add(1)
	vrt.Spawn(name, func() { f(); t.wg.Done() })
}

func anchored(re string) *regexp.Regexp { return regexp.MustCompile("^(?:" + re + ")$") }

// register adds a route called name.
func (t *table) register(name, method string, pattern interface{}, re string) {
	t.defs = append(t.defs, def{name, method, pattern, anchored(re)})
	o := &op{reg: len(t.defs) - 1}
	h := func(c web.C, w http.ResponseWriter, r *http.Request) {
		x := w.(*rec)
		x.by, x.params = name, c.URLParams
	}
	t.begin(o)
	switch method {
	case "GET":
		t.mux.Get(pattern, h)
	case "POST":
		t.mux.Post(pattern, h)
	case "PUT":
		t.mux.Put(pattern, h)
	default:
		t.mux.Handle(pattern, h)
	}
	t.end(o)
}

func (t *table) get(path string) string { return t.do("GET", path) }

func (t *table) do(method, path string) string {
	o := &op{reg: -1, method: method, path: path}
	t.begin(o)
	w := &rec{}
	t.mux.ServeHTTP(w, request(method, path))
	o.got = result(w)
	t.end(o)
	return o.got
}

func result(w *rec) string {
	var ps []string
	for k, v := range w.params {
		ps = append(ps, k+"="+v)
	}
	sort.Strings(ps)
	sort.Strings(w.valid)
	return fmt.Sprintf("%s[%s]%s", w.by, strings.Join(ps, ","), strings.Join(w.valid, ","))
}

func (t *table) compile() { t.mux.Compile() }

// expect is the naive router over the routes registered in the given order.
func (t *table) expect(order []int, method, path string) string {
	valid := map[string]bool{}
	for _, i := range order {
		d := &t.defs[i]
		m := d.re.FindStringSubmatch(path)
		if m == nil {
			continue
		}
		if d.method == method || d.method == "ANY" || d.method == "GET" && method == "HEAD" {
			var ps []string
			for j, n := range d.re.SubexpNames() {
				if n == "REST" {
					n = "*"
				}
				if j > 0 && n != "" {
					ps = append(ps, n+"="+m[j])
				}
			}
			sort.Strings(ps)
			return fmt.Sprintf("%s[%s]", d.name, strings.Join(ps, ","))
		}
		switch d.method {
		case "GET":
			valid["GET"], valid["HEAD"] = true, true
		default:
			valid[d.method] = true
		}
	}
	var vs []string
	for v := range valid {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	return "404[]" + strings.Join(vs, ",")
}

// finish joins everything, makes the last requests and looks for an order of the
// operations that explains what was seen.
func (t *table) finish(last ...string) {
	t.wg.Wait()
	for _, p := range last {
		t.get(p)
	}
	for _, o := range t.ops {
		if !o.done {
			vrt.Failf("an operation did not return")
		}
	}
	if len(t.ops) > 24 {
		vrt.Failf("harness: too many operations")
	}
	if !t.linear(0, nil) {
		var s []string
		for _, o := range t.ops {
			if o.reg >= 0 {
				s = append(s, fmt.Sprintf("[%d,%d] register %s %s %v", o.call, o.ret, t.defs[o.reg].name, t.defs[o.reg].method, t.defs[o.reg].pattern))
			} else {
				s = append(s, fmt.Sprintf("[%d,%d] %s %s -> %s", o.call, o.ret, o.method, o.path, o.got))
			}
		}
		vrt.Failf("no order of the registrations explains the answers: %s", strings.Join(s, "; "))
	}
	var s []string
	for _, o := range t.ops {
		if o.reg < 0 {
			s = append(s, o.got)
		}
	}
	sort.Strings(s)
	vrt.Outcome("%s", strings.Join(s, " "))
}

func (t *table) linear(mask int, order []int) bool {
	if mask == 1<<len(t.ops)-1 {
		return true
	}
	minRet := 1 << 30
	for i, o := range t.ops {
		if mask>>i&1 == 0 && o.ret < minRet {
			minRet = o.ret
		}
	}
	for i, o := range t.ops {
		if mask>>i&1 != 0 || o.call > minRet {
			continue
		}
		if o.reg >= 0 {
			if t.linear(mask|1<<i, append(order[:len(order):len(order)], o.reg)) {
				return true
			}
		} else if t.expect(order, o.method, o.path) == o.got && t.linear(mask|1<<i, order) {
			return true
		}
	}
	return false
}

func c07() []kit.Scenario {
	var out []kit.Scenario
	add := func(name string, body func()) *kit.Scenario {
		out = append(out, kit.Scenario{Name: name, SecQuick: 45, SecThorough: 800, Make: func() *vrt.Explorer { return explorer(body) }})
		return &out[len(out)-1]
	}
	add("request/register", func() {
		t := newTable()
		t.spawn("request", func() { t.get("/a"); t.get("/a") })
		t.register("A", "GET", "/a", "/a")
		t.finish("/a")
	})
	add("compiled/request/register", func() {
		t := newTable()
		t.register("B", "GET", "/b", "/b")
		t.compile()
		t.spawn("request", func() { t.get("/a"); t.get("/b") })
		t.spawn("register", func() { t.register("A", "GET", "/a", "/a"); t.get("/a") })
		t.finish("/a", "/b")
	})
	add("shadowing", func() {
		// Routes that match the same path: the first one registered wins.
		t := newTable()
		t.spawn("r1", func() { t.register("A", "GET", "/:x", "/(?P<x>[^/]+)") })
		t.spawn("r2", func() { t.register("B", "ANY", "/*", "(?P<REST>/.*)") })
		t.get("/ab")
		t.finish("/ab", "/c/d")
	})
	add("two-registrars/request", func() {
		t := newTable()
		t.register("Z", "GET", "/z", "/z")
		t.spawn("r1", func() { t.register("A", "GET", "/a", "/a") })
		t.spawn("r2", func() { t.register("B", "GET", "/b", "/b") })
		t.spawn("request", func() { t.get("/b") })
		t.finish("/a", "/b", "/z")
	})
	add("two-requests/register", func() {
		t := newTable()
		t.register("B", "GET", "/b", "/b")
		t.spawn("q1", func() { t.get("/a") })
		t.spawn("q2", func() { t.get("/a"); t.get("/b") })
		t.spawn("r", func() { t.register("A", "GET", "/a", "/a") })
		t.finish("/a", "/b")
	})
	add("compile/register/request", func() {
		t := newTable()
		t.register("B", "GET", "/b/:id", "/b/(?P<id>[^/]+)")
		t.spawn("compile", func() { t.compile() })
		t.spawn("register", func() { t.register("A", "GET", "/a", "/a") })
		t.spawn("request", func() { t.get("/a"); t.get("/b/7") })
		t.finish("/a", "/b/7")
	})
	add("compile/compile/register", func() {
		t := newTable()
		t.spawn("c1", func() { t.compile() })
		t.spawn("c2", func() { t.compile() })
		t.spawn("r", func() { t.register("A", "GET", "/a", "/a"); t.register("B", "GET", "/b", "/b") })
		t.finish("/a", "/b")
	})
	add("valid-methods", func() {
		t := newTable()
		t.register("G", "GET", "/a", "/a")
		t.spawn("r1", func() { t.register("P", "POST", "/a", "/a") })
		t.spawn("r2", func() { t.register("U", "PUT", "/:x", "/(?P<x>[^/]+)") })
		t.do("TRACE", "/a")
		t.do("HEAD", "/a")
		t.wg.Wait()
		t.do("TRACE", "/a")
		t.do("PUT", "/a")
		t.finish("/a")
	})
	add("spare-capacity", func() {
		// Enough routes that the table grows, with insertions at the front,
		// in the middle and at the end of the sorted table.
		t := newTable()
		for _, n := range []string{"c", "g", "e"} {
			t.register(strings.ToUpper(n), "GET", "/"+n, "/"+n)
		}
		t.compile()
		t.spawn("q", func() { t.get("/g"); t.get("/d") })
		t.spawn("r", func() {
			t.register("D", "GET", "/d", "/d")
			t.register("A", "GET", "/a", "/a")
			t.register("H", "GET", "/h", "/h")
		})
		t.finish("/a", "/c", "/d", "/e", "/g", "/h")
	})
	add("from-a-handler", func() {
		// A handler registers a route and makes a request of its own.
		t := newTable()
		t.defs = append(t.defs, def{"S", "GET", "/setup", anchored("/setup")})
		o := &op{reg: 0}
		t.begin(o)
		t.mux.Get("/setup", func(c web.C, w http.ResponseWriter, r *http.Request) {
			x := w.(*rec)
			x.by = "S"
			t.register("A", "GET", "/a", "/a")
			t.get("/a")
		})
		t.end(o)
		t.spawn("q", func() { t.get("/a") })
		t.get("/setup")
		t.finish("/a")
	})
	add("explicit-routing", func() {
		t := newTable()
		t.mux.Use(t.mux.Router)
		t.register("B", "GET", "/:x/b", "/(?P<x>[^/]+)/b")
		t.spawn("q1", func() { t.get("/q/b") })
		t.spawn("q2", func() { t.get("/a/b") })
		t.register("A", "GET", "/a/*", "/a(?P<REST>/.*)")
		t.finish("/a/b", "/a/c")
	})
	s := add("three-registrars", func() {
		t := newTable()
		t.spawn("r1", func() { t.register("A", "GET", "/*", "(?P<REST>/.*)") })
		t.spawn("r2", func() { t.register("B", "GET", "/xy", "/xy") })
		t.spawn("r3", func() { t.register("C", "GET", "/:p", "/(?P<p>[^/]+)") })
		t.get("/xy")
		t.finish("/xy", "/x", "/x/y")
	})
	s.BoundQuick, s.BoundThorough = 2, 4
	add("three-requests/two-registrars", func() {
		t := newTable()
		t.register("B", "GET", "/b", "/b")
		t.spawn("q1", func() { t.get("/a") })
		t.spawn("q2", func() { t.get("/c") })
		t.spawn("r1", func() { t.register("A", "GET", "/a", "/a") })
		t.spawn("r2", func() { t.register("C", "GET", "/c", "/c") })
		t.get("/b")
		t.finish("/a", "/b", "/c")
	}).Thorough = true
	return out
}

// ---------------------------------------------------------------- C09

type isolation struct {
	ev   vrt.Event
	wg   vrt.WaitGroup
	kept []kept

	crowd, met int // how many requests wait for each other in the handler
}

// kept is a context that a handler keeps after its request is over.
type kept struct {
	who string
	c   web.C
	env env
	par map[string]string
}

func (s *isolation) keep(c web.C, who string) {
	k := kept{who, c, env{}, map[string]string{}}
	for a, b := range c.Env {
		k.env[a] = b
	}
	for a, b := range c.URLParams {
		k.par[a] = b
	}
	s.kept = append(s.kept, k)
}

// check fails if a context that was kept has changed.
func (s *isolation) check() {
	for _, k := range s.kept {
		same := len(k.c.Env) == len(k.env) && len(k.c.URLParams) == len(k.par)
		for a, b := range k.env {
			if a != web.MatchKey {
				same = same && k.c.Env[a] == b
			}
		}
		for a, b := range k.par {
			same = same && k.c.URLParams[a] == b
		}
		if !same {
			vrt.Failf("the context that the handler of request %s kept (%v, %v) became %v, %v", k.who, k.env, k.par, k.c.Env, k.c.URLParams)
		}
	}
}

func (s *isolation) spawn(name string, f func()) {
	s.wg.Add(1)
	vrt.Spawn(name, func() { f(); s.wg.Done() })
}

func id(r *http.Request) string { return r.Header.Get("Id") }

// own fails unless the context belongs to the request.
func own(where string, c web.C, r *http.Request, want map[interface{}]interface{}) {
	if len(c.Env) != len(want) {
		vrt.Failf("%s of request %s: environment %v, expected %v", where, id(r), c.Env, want)
	}
	for k, v := range want {
		if _, ok := c.Env[k]; !ok || k != web.MatchKey && c.Env[k] != v {
			vrt.Failf("%s of request %s: environment %v, expected %v", where, id(r), c.Env, want)
		}
	}
}

type env = map[interface{}]interface{}

// layer is a middleware that checks the context on the way in and out.
func (s *isolation) layer(name string, before ...string) func(*web.C, http.Handler) http.Handler {
	return func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			want := env{}
			for _, b := range before {
				want[b] = id(r)
			}
			if r.Header.Get("Ctx") != "" {
				want["outer"] = id(r)
			}
			own(name+" (entry)", *c, r, want)
			if len(before) == 0 && c.URLParams != nil && c.URLParams["p"] != id(r) && c.URLParams["*"] != "/"+id(r) && c.URLParams["outer"] != id(r) {
				vrt.Failf("%s of request %s starts with the parameters %v", name, id(r), c.URLParams)
			}
			if c.Env == nil {
				c.Env = env{}
			}
			c.Env[name] = id(r)
			s.ev.Peek()
			h.ServeHTTP(w, r)
			s.ev.Peek()
			if c.Env[name] != id(r) {
				vrt.Failf("%s of request %s: after the inner handler the environment holds %v", name, id(r), c.Env[name])
			}
			if c.Env["h"] != id(r) && r.URL.Path != "/panic" {
				vrt.Failf("%s of request %s: what the handler put into the environment became %v", name, id(r), c.Env["h"])
			}
			w.(*rec).body += "<" + name + ":" + id(r)
		})
	}
}

func (s *isolation) handler(names ...string) func(web.C, http.ResponseWriter, *http.Request) {
	return func(c web.C, w http.ResponseWriter, r *http.Request) {
		want := env{}
		for _, n := range names {
			want[n] = id(r)
		}
		if r.Header.Get("Ctx") != "" {
			want["outer"] = id(r)
		}
		if c.Env[web.MatchKey] != nil {
			want[web.MatchKey] = c.Env[web.MatchKey]
		}
		own("handler", c, r, want)
		if c.URLParams["p"] != id(r) {
			vrt.Failf("the handler of request %s saw the parameters %v", id(r), c.URLParams)
		}
		s.ev.Peek()
		if s.met++; s.met <= s.crowd {
			s.ev.Await(func() bool { return s.met >= s.crowd })
		}
		own("handler (later)", c, r, want)
		if c.URLParams["p"] != id(r) {
			vrt.Failf("the parameters of request %s became %v", id(r), c.URLParams)
		}
		if c.Env != nil {
			c.Env["h"] = id(r)
		}
		c.URLParams["scribble"] = id(r)
		s.keep(c, id(r))
		w.(*rec).body += "handler:" + id(r)
	}
}

// serve makes a request and checks the response; ctx passes a context in.
func (s *isolation) serve(m *web.Mux, who string, ctx bool, want string) {
	w := &rec{}
	r := request("GET", "/p/"+who)
	r.Header.Set("Id", who)
	if ctx {
		r.Header.Set("Ctx", "y")
		e := env{"outer": who}
		p := map[string]string{"outer": who}
		m.ServeHTTPC(web.C{Env: e, URLParams: p}, w, r)
		if e["outer"] != who {
			vrt.Failf("the caller's environment of request %s became %v", who, e)
		}
		if p["outer"] != who {
			vrt.Failf("the caller's parameters of request %s became %v", who, p)
		}
	} else {
		m.ServeHTTP(w, r)
	}
	s.check()
	if want = strings.ReplaceAll(want, "ID", who); w.body != want {
		vrt.Failf("request %s was answered %q, expected %q", who, w.body, want)
	}
}

func c09() []kit.Scenario {
	var out []kit.Scenario
	for _, miss := range []bool{false, true} {
		miss := miss
		tag := "/pool"
		if miss {
			tag = "/pool-miss"
		}
		add := func(name string, body func(s *isolation)) *kit.Scenario {
			out = append(out, kit.Scenario{Name: name + tag, SecQuick: 45, SecThorough: 800, Make: func() *vrt.Explorer {
				e := explorer(func() { body(&isolation{}) })
				e.PoolMiss = miss
				return e
			}})
			return &out[len(out)-1]
		}
		one := func(s *isolation) *web.Mux {
			m := web.New()
			m.Use(s.layer("m1"))
			m.Handle("/p/:p", s.handler("m1"))
			m.Compile()
			return m
		}
		const w1 = "handler:ID<m1:ID"
		add("two-requests", func(s *isolation) {
			m := one(s)
			s.serve(m, "0", false, w1)
			s.spawn("q1", func() { s.serve(m, "1", false, w1) })
			s.serve(m, "2", true, w1)
			s.wg.Wait()
			s.serve(m, "3", false, w1)
		})
		add("two-times-two", func(s *isolation) {
			m := one(s)
			s.spawn("q1", func() { s.serve(m, "1", true, w1); s.serve(m, "2", false, w1) })
			s.serve(m, "3", false, w1)
			s.serve(m, "4", true, w1)
			s.wg.Wait()
			s.serve(m, "5", false, w1)
		})
		add("three-requests", func(s *isolation) {
			m := web.New()
			m.Use(s.layer("m1"))
			m.Use(s.layer("m2", "m1"))
			m.Handle("/p/:p", s.handler("m1", "m2"))
			m.Compile()
			const w2 = "handler:ID<m2:ID<m1:ID"
			s.serve(m, "0", true, w2)
			s.spawn("q1", func() { s.serve(m, "1", false, w2) })
			s.spawn("q2", func() { s.serve(m, "2", true, w2) })
			s.serve(m, "3", false, w2)
			s.wg.Wait()
			s.serve(m, "4", false, w2)
		}).BoundQuick = 2
		add("nested", func(s *isolation) {
			inner := one(s)
			outer := web.New()
			outer.Handle("/p/*", inner)
			outer.Compile()
			serve := func(who string) {
				w := &rec{}
				r := request("GET", "/p/"+who)
				r.Header.Set("Id", who)
				outer.ServeHTTP(w, r)
				if want := strings.ReplaceAll(w1, "ID", who); w.body != want {
					vrt.Failf("request %s was answered %q, expected %q", who, w.body, want)
				}
			}
			s.spawn("q1", func() { serve("1") })
			serve("2")
			s.wg.Wait()
			serve("3")
		})
		add("same-mux-inside-itself", func(s *isolation) {
			// A handler serves another request on the mux it runs in.
			m := one(s)
			m.Handle("/again/:p", func(c web.C, w http.ResponseWriter, r *http.Request) {
				s.serve(m, "in"+c.URLParams["p"], false, w1)
				own("re-entrant handler", c, r, env{"m1": id(r)})
				if c.URLParams["p"] != id(r) {
					vrt.Failf("re-entrant handler of %s: parameters %v", id(r), c.URLParams)
				}
				c.Env["h"] = id(r)
			})
			again := func(who string) {
				r := request("GET", "/again/"+who)
				r.Header.Set("Id", who)
				m.ServeHTTP(&rec{}, r)
			}
			s.serve(m, "0", true, w1)
			s.spawn("q", func() { s.serve(m, "1", true, w1) })
			again("2")
			s.wg.Wait()
			s.serve(m, "3", false, w1)
		})
		add("panic", func(s *isolation) {
			m := one(s)
			m.Handle("/panic", func(c web.C, w http.ResponseWriter, r *http.Request) {
				c.Env["junk"] = 1
				s.ev.Peek()
				panic("handler")
			})
			boom := func(ctx bool) {
				defer func() {
					if e := recover(); e != "handler" {
						panic(e)
					}
				}()
				r := request("GET", "/panic")
				r.Header.Set("Id", "boom")
				if ctx {
					m.ServeHTTPC(web.C{URLParams: map[string]string{"p": "boom"}}, &rec{}, r)
				} else {
					m.ServeHTTP(&rec{}, r)
				}
			}
			s.spawn("q1", func() { boom(true) })
			s.serve(m, "2", false, w1)
			s.wg.Wait()
			s.serve(m, "3", false, w1)
		})
		add("explicit-routing", func(s *isolation) {
			m := web.New()
			m.Use(m.Router)
			m.Use(func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					if c.URLParams["p"] != id(r) || web.GetMatch(*c).RawPattern() != "/p/:p" {
						vrt.Failf("after routing request %s middleware saw %v, %v", id(r), c.URLParams, web.GetMatch(*c).RawPattern())
					}
					s.ev.Peek()
					if c.URLParams["p"] != id(r) {
						vrt.Failf("the parameters of request %s became %v", id(r), c.URLParams)
					}
					h.ServeHTTP(w, r)
				})
			})
			m.Handle("/p/:p", s.handler())
			m.Compile()
			s.spawn("q1", func() { s.serve(m, "1", false, "handler:ID") })
			s.serve(m, "2", true, "handler:ID")
			s.wg.Wait()
			s.serve(m, "3", false, "handler:ID")
		})
		for _, n := range []int{9, 20, 50} {
			n := n
			if miss && n > 9 {
				continue
			}
			// All of a crowd are in the handler before the first one leaves.
			c := add(fmt.Sprintf("crowd-%d", n), func(s *isolation) {
				m := one(s)
				s.crowd = n
				for i := 0; i < n; i++ {
					who := fmt.Sprint("c", i)
					ctx := i%3 == 1
					s.spawn(who, func() { s.serve(m, who, ctx, w1) })
				}
				s.wg.Wait()
				s.serve(m, "last", true, w1)
				s.serve(m, "again", false, w1)
			})
			c.Delay = true
			c.BoundQuick = map[int]int{9: 2, 20: 1, 50: -1}[n]
			c.BoundThorough = map[int]int{9: 3, 20: 2, 50: 1}[n]
			if miss {
				c.BoundQuick, c.BoundThorough = 1, 2
			}
		}
		add("deep-inside-itself", func(s *isolation) {
			// A handler serves a request on its own mux, whose handler does...
			m := one(s)
			m.Handle("/again/:p", func(c web.C, w http.ResponseWriter, r *http.Request) {
				depth := len(c.URLParams["p"])
				if depth < 70 && !miss || depth < 6 {
					q := request("GET", "/again/"+c.URLParams["p"]+"x")
					q.Header.Set("Id", c.URLParams["p"]+"x")
					m.ServeHTTP(&rec{}, q)
				}
				own("re-entrant handler", c, r, env{"m1": id(r)})
				if c.URLParams["p"] != id(r) {
					vrt.Failf("re-entrant handler of %s: parameters %v", id(r), c.URLParams)
				}
				c.Env["h"] = id(r)
			})
			r := request("GET", "/again/x")
			r.Header.Set("Id", "x")
			m.ServeHTTP(&rec{}, r)
			for i := 0; i < 80 && !miss; i++ {
				s.serve(m, fmt.Sprint("0", i), i%2 == 0, w1)
			}
		})
		add("edit-between", func(s *isolation) {
			// The stack is edited between requests (not during them).
			m := one(s)
			m.NotFound(func(http.ResponseWriter, *http.Request) {})
			s.spawn("q1", func() { s.serve(m, "1", false, w1) })
			s.serve(m, "2", true, w1)
			s.wg.Wait()
			m.Use(s.layer("m2", "m1"))
			s.spawn("q3", func() { s.edit(m, "3") })
			s.edit(m, "4")
			s.wg.Wait()
		})
	}
	return out
}

// edit serves a request through both layers; the handler expects only m1 and
// m2 in the environment.
func (s *isolation) edit(m *web.Mux, who string) {
	w := &rec{}
	r := request("GET", "/panic") // no such route: the layers do not expect "h"
	r.Header.Set("Id", who)
	m.ServeHTTP(w, r)
	if want := "<m2:" + who + "<m1:" + who; w.body != want {
		vrt.Failf("request %s was answered %q, expected %q", who, w.body, want)
	}
}

// ---------------------------------------------------------------- C17

func c17() []kit.Scenario {
	var out []kit.Scenario
	add := func(name string, threads, each int, mk func() func(who string, mine *[]string)) *kit.Scenario {
		out = append(out, kit.Scenario{Name: name, SecQuick: 45, SecThorough: 800, Make: func() *vrt.Explorer {
			return explorer(func() {
				serve := mk()
				var wg vrt.WaitGroup
				got := make([][]string, threads)
				for i := 0; i < threads; i++ {
					i := i
					wg.Add(1)
					vrt.Spawn(fmt.Sprintf("q%d", i), func() {
						for j := 0; j < each; j++ {
							serve(fmt.Sprintf("%d.%d", i, j), &got[i])
						}
						wg.Done()
					})
				}
				wg.Wait()
				var last []string
				serve("last", &last)
				seen := map[string]bool{}
				var suffix []string
				for _, l := range append(got, last) {
					for _, x := range l {
						if x == "" {
							vrt.Failf("a request has no id")
						}
						if seen[x] {
							vrt.Failf("two requests have the id %q", x[strings.LastIndex(x, "-")+1:])
						}
						seen[x] = true
						suffix = append(suffix, x[strings.LastIndex(x, "-")+1:])
					}
				}
				if len(suffix) != threads*each+1 {
					vrt.Failf("%d requests got %d ids", threads*each+1, len(suffix))
				}
				vrt.Outcome("%v", suffix)
			})
		}})
		return &out[len(out)-1]
	}
	// Through one middleware stack per request, built by hand.
	direct := func() func(string, *[]string) {
		return func(who string, mine *[]string) {
			c := web.C{}
			if strings.HasSuffix(who, ".1") {
				c.Env = env{"k": who, middleware.RequestIDKey: "old"}
			}
			var inside, later string
			var ev vrt.Event
			h := middleware.RequestID(&c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				inside = middleware.GetReqID(c)
				ev.Point()
				later = middleware.GetReqID(c)
				if strings.HasSuffix(who, ".1") && c.Env["k"] != who {
					vrt.Failf("the environment of request %s became %v", who, c.Env)
				}
			}))
			h.ServeHTTP(&rec{}, request("GET", "/"))
			if inside != later || middleware.GetReqID(c) != inside {
				vrt.Failf("the id of request %s changed from %q to %q to %q", who, inside, later, middleware.GetReqID(c))
			}
			*mine = append(*mine, inside)
		}
	}
	// One stack shared by all requests, as when the handler is built once.
	viaMux := func() func(string, *[]string) {
		m := web.New()
		m.Use(middleware.RequestID)
		m.Use(func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				before := middleware.GetReqID(*c)
				h.ServeHTTP(w, r)
				if got := w.(*rec).body; got != before || middleware.GetReqID(*c) != before {
					vrt.Failf("middleware saw the id %q, the handler %q, middleware afterwards %q", before, got, middleware.GetReqID(*c))
				}
			})
		})
		m.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
			w.(*rec).body = middleware.GetReqID(c)
		})
		return func(who string, mine *[]string) {
			w := &rec{}
			m.ServeHTTP(w, request("GET", "/"+who))
			*mine = append(*mine, w.body)
		}
	}
	// A request that is served again by an inner mux gets one more id.
	nested := func() func(string, *[]string) {
		inner, outer := web.New(), web.New()
		inner.Use(middleware.RequestID)
		outer.Use(middleware.RequestID)
		inner.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
			w.(*rec).body = middleware.GetReqID(c)
		})
		outer.Handle("/*", inner)
		return func(who string, mine *[]string) {
			w := &rec{}
			outer.ServeHTTP(w, request("GET", "/"+who))
			*mine = append(*mine, w.body)
		}
	}
	add("two-requests", 2, 2, direct)
	add("three-requests", 3, 1, direct)
	add("mux/two-requests", 2, 1, viaMux)
	add("mux/two-times-two", 2, 2, viaMux)
	add("mux/three-requests", 3, 1, viaMux).BoundQuick = 2
	add("nested", 2, 1, nested)
	s := add("four-requests", 4, 1, direct)
	s.Thorough = true
	s = add("three-times-two", 3, 2, direct)
	s.BoundQuick, s.BoundThorough = 2, 3
	return out
}

func main() {
	flag.Parse()
	r := kit.New(*kit.Prop)
	var list []kit.Scenario
	switch r.ID {
	case "C07":
		list = c07()
		r.Bound("2-4 goroutines doing 1-3 registrations, compilations or requests each over 1-6 routes; all interleavings except where a part gives a preemption bound")
	case "C09":
		list = c09()
		r.Bound("2-3 concurrent requests (up to 2 each) and one afterwards through one mux with 1-2 layers, nested, re-entrant, panicking and explicitly routed; pool of stacks hitting and missing; crowds of 9, 20 and 50, and 70 requests inside each other; all interleavings except where a part gives a preemption bound")
	case "C17":
		list = c17()
		r.Bound("2-4 concurrent goroutines with 1-2 requests each, with and without a mux; all interleavings except where a part gives a preemption bound")
	case "C36":
		silence()
		list = c36()
		r.Bound("2 concurrent requests of 12 kinds in all combinations, 3 and two times 2 in 12 combinations, crowds of 9, 20 and 50, histories of 120, and one afterwards, through all of the middleware; all interleavings except where a part gives a preemption bound")
	}
	r.Assume("sync and sync/atomic behave as the Go specification and documentation say; sync.Pool may hit or miss but never gives an item to two takers")
	r.RunScenarios(list)
	r.Finish()
}

package main

import (
	"fmt"
	"log"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif.local/mc/kit"
)

// The product of places where handlers, patterns and middleware are accepted
// with the kinds of values that are.

// seen is what a leaf of the product was called with.
type seen struct {
	calls int
	c     web.C
	ctx   bool
	w     http.ResponseWriter
	q     *http.Request
}

func (s *seen) http(w http.ResponseWriter, q *http.Request) { s.calls++; s.w, s.q, s.ctx = w, q, false }
func (s *seen) ctxh(c web.C, w http.ResponseWriter, q *http.Request) {
	s.calls++
	s.c, s.w, s.q, s.ctx = c, w, q, true
}

type kPlain struct{ s *seen }

func (k kPlain) ServeHTTP(w http.ResponseWriter, q *http.Request) { k.s.http(w, q) }

type kPlainPtr struct{ s *seen }

func (k *kPlainPtr) ServeHTTP(w http.ResponseWriter, q *http.Request) { k.s.http(w, q) }

type kCtx struct{ s *seen }

func (k kCtx) ServeHTTPC(c web.C, w http.ResponseWriter, q *http.Request) { k.s.ctxh(c, w, q) }

type kBoth struct{ s *seen }

func (k *kBoth) ServeHTTP(w http.ResponseWriter, q *http.Request)           { k.s.http(w, q) }
func (k *kBoth) ServeHTTPC(c web.C, w http.ResponseWriter, q *http.Request) { k.s.ctxh(c, w, q) }

// kStringer has methods of other well-known interfaces, too.
type kStringer struct{ s *seen }

func (k kStringer) ServeHTTP(w http.ResponseWriter, q *http.Request) { k.s.http(w, q) }
func (k kStringer) String() string                                   { return "/elsewhere" }
func (k kStringer) Error() string                                    { return "error" }
func (k kStringer) Prefix() string                                   { return "/elsewhere" }

// kFunc is a function type with the methods of a handler.
type kFunc func(web.C, http.ResponseWriter, *http.Request)

func (f kFunc) ServeHTTP(w http.ResponseWriter, q *http.Request) { f(web.C{}, w, q) }

// kFuncType is a function type without any methods.
type kFuncType func(http.ResponseWriter, *http.Request)

// pats of the product. They match "/k/v" with v bound to "v" and nothing else.
type pVal struct{}

func (pVal) Prefix() string { return "/k/" }
func (pVal) Match(q *http.Request, c *web.C) bool {
	return strings.HasPrefix(q.URL.Path, "/k/") && strings.Count(q.URL.Path, "/") == 2 && len(q.URL.Path) > 3
}
func (pVal) Run(q *http.Request, c *web.C) {
	if c.URLParams == nil {
		c.URLParams = map[string]string{}
	}
	c.URLParams["v"] = q.URL.Path[3:]
}

type pPtr struct{ pVal }

func (*pPtr) Prefix() string { return "" }

// pStringer looks like other kinds of pattern as well.
type pStringer struct{ pVal }

func (pStringer) String() string { return "/other" }

// pRegexp is a pattern that holds a regexp.
type pRegexp struct {
	*regexp.Regexp
	pVal
}

// Match is here since both of the embedded types have one.
func (p pRegexp) Match(q *http.Request, c *web.C) bool { return p.pVal.Match(q, c) }

// pString is a pattern whose underlying type is string.
type pString string

func (pString) Prefix() string                       { return "/k" }
func (pString) Match(q *http.Request, c *web.C) bool { return pVal{}.Match(q, c) }
func (pString) Run(q *http.Request, c *web.C)        { pVal{}.Run(q, c) }

// pFunc is a pattern that is a function, and has a handler's method.
type pFunc func(string) bool

func (pFunc) Prefix() string                               { return "/" }
func (pFunc) Match(q *http.Request, c *web.C) bool         { return pVal{}.Match(q, c) }
func (pFunc) Run(q *http.Request, c *web.C)                { pVal{}.Run(q, c) }
func (pFunc) ServeHTTP(http.ResponseWriter, *http.Request) {}

type stringType string

type place struct {
	name string
	verb string // "" for any
	reg  func(m *web.Mux, p web.PatternType, h web.HandlerType)
}

var places = []place{
	{"Handle", "", (*web.Mux).Handle}, {"Connect", "CONNECT", (*web.Mux).Connect}, {"Delete", "DELETE", (*web.Mux).Delete}, {"Get", "GET", (*web.Mux).Get},
	{"Head", "HEAD", (*web.Mux).Head}, {"Options", "OPTIONS", (*web.Mux).Options}, {"Patch", "PATCH", (*web.Mux).Patch}, {"Post", "POST", (*web.Mux).Post},
	{"Put", "PUT", (*web.Mux).Put}, {"Trace", "TRACE", (*web.Mux).Trace},
}

type handlerKind struct {
	name string
	ctx  bool
	mk   func(s *seen) web.HandlerType
}

var handlerKinds = []handlerKind{
	{"func(w,r)", false, func(s *seen) web.HandlerType {
		return func(w http.ResponseWriter, q *http.Request) { s.http(w, q) }
	}},
	{"func(C,w,r)", true, func(s *seen) web.HandlerType {
		return func(c web.C, w http.ResponseWriter, q *http.Request) { s.ctxh(c, w, q) }
	}},
	{"method value", false, func(s *seen) web.HandlerType { return s.http }},
	{"method value with context", true, func(s *seen) web.HandlerType { return s.ctxh }},
	{"http.HandlerFunc", false, func(s *seen) web.HandlerType { return http.HandlerFunc(s.http) }},
	{"web.HandlerFunc", true, func(s *seen) web.HandlerType { return web.HandlerFunc(s.ctxh) }},
	{"http.Handler", false, func(s *seen) web.HandlerType { return kPlain{s} }},
	{"pointer http.Handler", false, func(s *seen) web.HandlerType { return &kPlainPtr{s} }},
	{"pointer to a value http.Handler", false, func(s *seen) web.HandlerType { return &kPlain{s} }},
	{"web.Handler", true, func(s *seen) web.HandlerType { return kCtx{s} }},
	{"pointer web.Handler", true, func(s *seen) web.HandlerType { return &kCtx{s} }},
	{"both", true, func(s *seen) web.HandlerType { return &kBoth{s} }},
	{"http.Handler with other methods", false, func(s *seen) web.HandlerType { return kStringer{s} }},
	{"function type that is an http.Handler", false, func(s *seen) web.HandlerType {
		return kFunc(func(c web.C, w http.ResponseWriter, q *http.Request) { s.http(w, q) })
	}},
	{"mux", true, func(s *seen) web.HandlerType { m := web.New(); m.NotFound(s.ctxh); return m }},
	{"net/http mux", false, func(s *seen) web.HandlerType { m := http.NewServeMux(); m.HandleFunc("/", s.http); return m }},
}

var patternKinds = []struct {
	name string
	p    web.PatternType
}{
	{"string", "/k/:v"}, {"regexp", regexp.MustCompile(`^/k/(?P<v>[^/]+)$`)}, {"regexp without anchor", regexp.MustCompile(`/k/(?P<v>[^/]+)$`)},
	{"Pattern", pVal{}}, {"pointer Pattern", &pPtr{}}, {"pointer to a value Pattern", &pVal{}}, {"Pattern with String", pStringer{}},
	{"Pattern holding a regexp", pRegexp{regexp.MustCompile("^/never$"), pVal{}}}, {"Pattern of underlying type string", pString("/never")},
	{"Pattern of function type", pFunc(func(string) bool { return false })}, {"parsed string", web.ParsePattern("/k/:v")}, {"parsed regexp", web.ParsePattern(regexp.MustCompile(`^/k/(?P<v>[^/]+)$`))},
}

// refused are values of types nobody documents.
var refused = []struct {
	name string
	v    interface{}
}{
	{"nil", nil}, {"int", 7}, {"error", fmt.Errorf("x")}, {"func()", func() {}}, {"[]byte", []byte("/k/:v")}, {"string type", stringType("/k/:v")},
	{"regexp.Regexp", *regexp.MustCompile("^/k")}, {"struct", struct{ A int }{}}, {"pointer to string", new(string)},
	{"func(r,w)", func(*http.Request, http.ResponseWriter) {}}, {"func(*C,w,r)", func(*web.C, http.ResponseWriter, *http.Request) {}},
	{"func(w,r) error", func(http.ResponseWriter, *http.Request) error { return nil }}, {"function type without methods", kFuncType(func(http.ResponseWriter, *http.Request) {})},
	{"func(C,Handler) Handler", func(c web.C, h http.Handler) http.Handler { return h }}, {"func(web.Handler) web.Handler", func(h web.Handler) web.Handler { return h }},
	{"func(HandlerFunc) HandlerFunc", func(h http.HandlerFunc) http.HandlerFunc { return h }}, {"pattern", pVal{}}, {"string", "/k/:v"}, {"chan", make(chan int)}, {"map", map[string]string{}},
}

// The three kinds of acceptance, to leave out what is accepted.
func isHandler(v interface{}) bool {
	switch v.(type) {
	case http.Handler, web.Handler, func(http.ResponseWriter, *http.Request), func(web.C, http.ResponseWriter, *http.Request):
		return true
	}
	return false
}

func isPattern(v interface{}) bool {
	switch v.(type) {
	case web.Pattern, string, *regexp.Regexp:
		return true
	}
	return false
}

func isMiddleware(v interface{}) bool {
	switch v.(type) {
	case func(http.Handler) http.Handler, func(*web.C, http.Handler) http.Handler:
		return true
	}
	return false
}

type fatal string

type fatalLog struct{}

func (fatalLog) Write(b []byte) (int, error) { panic(fatal(b)) }

// refuses says whether f ends the program through package log or a panic.
func refuses(f func()) (yes bool) {
	w := log.Writer()
	log.SetOutput(fatalLog{})
	defer func() {
		log.SetOutput(w)
		yes = recover() != nil
	}()
	f()
	return
}

func c11kinds(r *kit.Run) {
	w := r.Watch()
	defer w.Stop()
	// Middleware in front: none, one of each kind, and both.
	layers := []string{"", "h", "c", "hc"}
	for _, pl := range places {
		for _, pk := range patternKinds {
			for _, hk := range handlerKinds {
				for _, lay := range layers {
					for _, viaC := range []bool{false, true} {
						what := func() string {
							return fmt.Sprintf("%s(%s, %s) behind middleware %q, context given %v", pl.name, pk.name, hk.name, lay, viaC)
						}
						w.Case(what, func() {
							s := &seen{}
							m := web.New()
							layerRuns := ""
							var rw http.ResponseWriter = &rec{}
							method := pl.verb
							if method == "" {
								method = "ODD"
							}
							q := request(method, "/k/val")
							q.Host = "h" // for the mux of package net/http
							q.RequestURI = "/k/val"
							for _, l := range lay {
								if l == 'h' {
									m.Use(func(h http.Handler) http.Handler {
										return http.HandlerFunc(func(w http.ResponseWriter, r2 *http.Request) {
											if w != rw || r2 != q {
												layerRuns += "!"
											}
											layerRuns += "h"
											h.ServeHTTP(w, r2)
										})
									})
								} else {
									m.Use(func(c *web.C, h http.Handler) http.Handler {
										return http.HandlerFunc(func(w http.ResponseWriter, r2 *http.Request) {
											if w != rw || r2 != q || (c.Env["given"] == 1) != viaC {
												layerRuns += "!"
											}
											layerRuns += "c"
											h.ServeHTTP(w, r2)
										})
									})
								}
							}
							pl.reg(m, pk.p, hk.mk(s))
							fail := func(f string, args ...interface{}) {
								r.Violation("kinds", what()+": "+fmt.Sprintf(f, args...), nil)
							}
							env := map[interface{}]interface{}{"given": 1}
							if viaC {
								m.ServeHTTPC(web.C{Env: env}, rw, q)
							} else {
								m.ServeHTTP(rw, q)
							}
							r.Transitions.Add(1)
							r.Traces.Add(1)
							switch {
							case s.calls != 1:
								fail("the handler ran %d times", s.calls)
							case s.q != q && hk.name != "net/http mux": // it may copy the request
								fail("the handler got another request")
							case s.w != rw:
								fail("the handler got another response writer")
							case layerRuns != lay:
								fail("the middleware ran as %q", layerRuns)
							case s.ctx != hk.ctx:
								fail("the handler was called through the wrong method")
							case s.ctx && s.c.URLParams["v"] != "val":
								fail("the handler saw the parameters %v", s.c.URLParams)
							case s.ctx && (s.c.Env["given"] == 1) != viaC:
								fail("the handler saw the environment %v", s.c.Env)
							}
							// Another path, and another method.
							for _, q := range []*http.Request{request(method, "/never"), request(method, "/elsewhere"), request(method, "/k/"), request("DIFFERENT", "/k/val")} {
								if q.Method == "DIFFERENT" && pl.verb == "" {
									continue
								}
								m.ServeHTTP(&rec{}, q)
								r.Transitions.Add(1)
								if s.calls != 1 {
									fail("it also answers %s %s", q.Method, q.URL.Path)
									return
								}
							}
							// What ParsePattern makes of it can be registered, too.
							if lay == "" && !viaC {
								s2 := &seen{}
								m2 := web.New()
								pl.reg(m2, web.ParsePattern(pk.p), hk.mk(s2))
								m2.ServeHTTP(&rec{}, q)
								if s2.calls != 1 {
									fail("once parsed, the pattern no longer matches")
								}
							}
						})
						if r.Failed() {
							return
						}
					}
				}
				r.States.Add(1)
			}
		}
	}
	// NotFound takes every kind of handler.
	for _, hk := range handlerKinds {
		for _, viaC := range []bool{false, true} {
			what := func() string { return fmt.Sprintf("NotFound(%s), context given %v", hk.name, viaC) }
			w.Case(what, func() {
				s := &seen{}
				m := web.New()
				m.NotFound(hk.mk(s))
				var rw http.ResponseWriter = &rec{}
				q := request("GET", "/k/val")
				q.Host = "h"
				q.RequestURI = "/k/val"
				if viaC {
					m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{"given": 1}}, rw, q)
				} else {
					m.ServeHTTP(rw, q)
				}
				r.Transitions.Add(1)
				r.Traces.Add(1)
				if s.calls != 1 || s.q != q && hk.name != "net/http mux" || s.w != rw || s.ctx != hk.ctx || s.ctx && (s.c.Env["given"] == 1) != viaC {
					r.Violation("kinds-notfound", fmt.Sprintf("%s: called %d times, the same request %v, the same writer %v, environment %v", what(), s.calls, s.q == q, s.w == rw, s.c.Env), nil)
				}
			})
		}
	}
	// Values of other types are refused at once, everywhere, and leave the
	// mux as it was.
	attempts := refuseAttempts()
	for _, a := range attempts {
		for _, v := range refused {
			if a.ok(v.v) {
				continue
			}
			what := func() string { return fmt.Sprintf("%s with a value of type %s", a.name, v.name) }
			w.Case(what, func() {
				m := web.New()
				m.Use(middleware.EnvInit)
				s := &seen{}
				m.Get("/old", s.http)
				yes := refuses(func() { a.do(m, v.v) })
				r.Transitions.Add(1)
				r.Traces.Add(1)
				if !yes {
					r.Violation("refuse", fmt.Sprintf("%s is not refused", what()), nil)
				}
			})
		}
		r.States.Add(1)
	}
	// And such a refusal really is the end of the process.
	for i, a := range attempts {
		out, err := exec.Command(os.Args[0], "-prop", "refuse", "-only", fmt.Sprint(i)).CombinedOutput()
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() <= 0 || len(out) == 0 {
			r.Violation("refuse-exit", fmt.Sprintf("%s with an int: the process goes on or fails otherwise: %v %s", a.name, err, out), nil)
		}
		r.Transitions.Add(1)
	}
	r.Bound("all of %d places, %d kinds of pattern, %d kinds of handler, %d stacks of middleware and both entry points; %d values of other types at %d places", len(places), len(patternKinds), len(handlerKinds), len(layers), len(refused), len(attempts))
}

type attempt struct {
	name string
	ok   func(interface{}) bool
	do   func(m *web.Mux, v interface{})
}

func refuseAttempts() []attempt {
	var attempts []attempt
	for _, pl := range places {
		pl := pl
		attempts = append(attempts,
			attempt{pl.name + "(pattern, value)", isHandler, func(m *web.Mux, v interface{}) { pl.reg(m, "/k/:v", v) }},
			attempt{pl.name + "(value, handler)", isPattern, func(m *web.Mux, v interface{}) { pl.reg(m, v, http.NotFound) }})
	}
	attempts = append(attempts,
		attempt{"NotFound(value)", isHandler, func(m *web.Mux, v interface{}) { m.NotFound(v) }},
		attempt{"ParsePattern(value)", isPattern, func(m *web.Mux, v interface{}) { web.ParsePattern(v) }},
		attempt{"Use(value)", isMiddleware, func(m *web.Mux, v interface{}) { m.Use(v) }},
		attempt{"Insert(value, before)", isMiddleware, func(m *web.Mux, v interface{}) { m.Insert(v, middleware.EnvInit) }})
	return attempts
}

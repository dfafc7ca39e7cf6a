package main

import (
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"weak"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"github.com/zenazn/goji/web/mutil"
	"verif.local/mc/kit"
)

// writer refers to an object that must be let go with it.
type writer struct {
	o *obj
	h http.Header
}

func (w *writer) Header() http.Header         { return w.h }
func (w *writer) Write(b []byte) (int, error) { return len(b), nil }
func (w *writer) WriteHeader(int)             {}
func (w *writer) Flush()                      {}

// application uses all of the middleware and ways to route.
func application() (*web.Mux, *web.Mux) {
	m := web.New()
	m.Use(middleware.RequestID)
	m.Use(middleware.Logger)
	m.Use(middleware.Recoverer)
	m.Use(middleware.AutomaticOptions)
	m.Use(middleware.RealIP)
	m.Use(middleware.EnvInit)
	m.Use(middleware.URLQuery)
	m.Use(middleware.NoCache)
	m.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			lw := mutil.WrapWriter(w)
			lw.Tee(&strings.Builder{})
			h.ServeHTTP(lw, r)
		})
	})
	leave := func(c web.C, w http.ResponseWriter, r *http.Request) {
		o := &obj{}
		o.self = o
		if p, ok := c.Env["promises"].(*[]weak.Pointer[obj]); ok {
			*p = append(*p, weak.Make(o))
		}
		c.Env["object"] = o
		fmt.Fprint(w, c.URLParams)
	}
	m.Get("/get/:a/:b", leave)
	m.Post("/get/:a/:b", leave)
	m.Handle(regexp.MustCompile("^/re/(?P<n>[0-9]+)$"), leave)
	m.Handle("/tail/*", leave)
	m.Get("/panic/:n", func(c web.C, w http.ResponseWriter, r *http.Request) {
		leave(c, w, r)
		panic(fmt.Sprint("request ", c.URLParams["n"]))
	})
	m.Get("/abort/:n", func(c web.C, w http.ResponseWriter, r *http.Request) { panic(http.ErrAbortHandler) })
	sub := web.New()
	sub.Use(middleware.SubRouter)
	sub.Use(sub.Router)
	sub.Get("/in/:x", leave)
	sub.Handle("/deep/*", application2(leave))
	m.Handle("/sub/*", sub)
	// Another one whose panics get out.
	bare := web.New()
	for _, l := range []interface{}{middleware.RequestID, middleware.Logger, middleware.AutomaticOptions, middleware.RealIP, middleware.EnvInit, middleware.URLQuery, middleware.NoCache, middleware.SubRouter, bare.Router} {
		bare.Use(l)
	}
	bare.Get("/panic/:n", func(c web.C, w http.ResponseWriter, r *http.Request) { leave(c, w, r); panic("out") })
	return m, bare
}

// application2 is inside of a sub-router.
func application2(leave func(web.C, http.ResponseWriter, *http.Request)) http.Handler {
	m := web.New()
	m.Use(middleware.SubRouter)
	m.Get("/get/:a", leave)
	return m
}

type reqKind struct {
	name, method, path string
	do                 func(r *http.Request, n int)
	bare, ctx          bool
}

func webKinds() []reqKind {
	return []reqKind{
		{name: "GET", method: "GET", path: "/get/%d/x"},
		{name: "POST in a context", method: "POST", path: "/get/%d/x", ctx: true},
		{name: "HEAD", method: "HEAD", path: "/get/%d/x"},
		{name: "OPTIONS", method: "OPTIONS", path: "/get/%d/x"},
		{name: "wrong method", method: "PUT", path: "/get/%d/x"},
		{name: "unknown method", method: "M%d", path: "/get/%d/x"},
		{name: "regexp", method: "GET", path: "/re/%d"},
		{name: "wildcard", method: "GET", path: "/tail/%d/x"},
		{name: "no route", method: "GET", path: "/none/%d"},
		{name: "panic", method: "GET", path: "/panic/%d"},
		{name: "abort", method: "GET", path: "/abort/%d"},
		{name: "panic that gets out", method: "GET", path: "/panic/%d", bare: true, ctx: true},
		{name: "sub", method: "GET", path: "/sub/in/%d", ctx: true},
		{name: "sub deep", method: "GET", path: "/sub/deep/get/%d"},
		{name: "sub without route", method: "GET", path: "/sub/none/%d"},
		{name: "query and headers", method: "GET", path: "/get/%d/y", do: func(r *http.Request, n int) {
			r.URL.RawQuery = fmt.Sprintf("a=%d&k%d=v", n, n)
			r.Host = fmt.Sprintf("h%d", n)
			r.Header.Set("X-Forwarded-For", fmt.Sprintf("ip%d", n))
			r.Header.Set("User-Agent", fmt.Sprintf("agent%d", n))
			r.Header.Set(fmt.Sprintf("X-H%d", n), "v")
			r.Header.Set("If-None-Match", fmt.Sprintf("etag%d", n))
		}},
	}
}

//go:noinline
func oneRequest(m, bare *web.Mux, k *reqKind, n int) (l []weak.Pointer[obj]) {
	defer func() { recover() }()
	o, p := &obj{}, &obj{}
	o.self, p.self = o, p
	l = append(l, weak.Make(o), weak.Make(p))
	w := &writer{o: o, h: http.Header{}}
	path, method := k.path, k.method
	path = fmt.Sprintf(path, n)
	if strings.Contains(method, "%d") {
		method = fmt.Sprintf(method, n)
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, Body: &body{p}, RemoteAddr: fmt.Sprintf("c%d", n), RequestURI: path, Host: "h"}
	if k.do != nil {
		k.do(r, n)
	}
	if k.bare {
		m = bare
	}
	if k.ctx {
		e := &obj{}
		e.self = e
		l = append(l, weak.Make(e))
		m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{"mine": e, n: n, "promises": &l}, URLParams: map[string]string{"outer": fmt.Sprint(n)}}, w, r)
	} else {
		m.ServeHTTP(w, r)
	}
	return l
}

type body struct{ o *obj }

func (b *body) Read([]byte) (int, error) { return 0, nil }
func (b *body) Close() error             { return nil }

// webLoops repeats every short history of requests.
func webLoops(r *kit.Run) {
	kinds := webKinds()
	depth := kit.Pick(r, 2, 3)
	laps := kit.Pick(r, 300, 300)
	m, bare := application()
	n := 0
	for k := 1; k <= depth; k++ {
		kit.Sequences(k, len(kinds), func(seq []int) bool {
			var l []string
			for _, s := range seq {
				l = append(l, kinds[s].name)
			}
			desc := "requests: " + strings.Join(l, ", ")
			loop(r, desc, desc, laps, 12, func(int) (out []weak.Pointer[obj]) {
				for _, s := range seq {
					n++
					out = append(out, oneRequest(m, bare, &kinds[s], n)...)
				}
				return out
			})
			return !r.Failed()
		})
	}
	r.Bound("all histories of up to %d requests of %d kinds, each repeated %d times and more with new paths, queries, headers, methods and contexts", depth, len(kinds), laps)
	r.Part("web", map[string]any{"requests": n})
}

// edits repeats histories of edits and requests.
func edits(r *kit.Run) {
	m := web.New()
	m.Get("/get/:a", func(c web.C, w http.ResponseWriter, r *http.Request) {})
	base := func(h http.Handler) http.Handler { return h }
	m.Use(base)
	var layers []interface{}
	layer := func(c *web.C, h http.Handler) http.Handler { return h }
	ops := []struct {
		name string
		do   func(n int)
	}{
		{"Use", func(n int) { m.Use(layer); layers = append(layers, layer) }},
		{"Insert", func(n int) { m.Insert(layer, base); layers = append(layers, layer) }},
		{"Insert before an unknown one", func(n int) { m.Insert(layer, func(http.Handler) http.Handler { return nil }) }},
		{"Abandon an unknown one", func(n int) { m.Abandon(func(*web.C, http.Handler) http.Handler { return nil }) }},
		{"NotFound", func(n int) {
			o := &obj{}
			o.self = o
			m.NotFound(func(w http.ResponseWriter, r *http.Request) { o.pad[0]++ })
		}},
		{"Compile", func(n int) { m.Compile() }},
		{"request", func(n int) {
			m.ServeHTTP(&writer{h: http.Header{}}, &http.Request{Method: "GET", URL: &url.URL{Path: fmt.Sprint("/get/", n)}, Header: http.Header{}})
		}},
		{"404", func(n int) {
			m.ServeHTTP(&writer{h: http.Header{}}, &http.Request{Method: "GET", URL: &url.URL{Path: fmt.Sprint("/none/", n)}, Header: http.Header{}})
		}},
		{"Abandon", func(n int) {
			if len(layers) > 0 {
				m.Abandon(layers[0])
				layers = layers[1:]
			}
		}},
	}
	depth := kit.Pick(r, 3, 4)
	n := 0
	for k := 1; k <= depth; k++ {
		kit.Sequences(k, len(ops), func(seq []int) bool {
			var l []string
			for _, s := range seq {
				l = append(l, ops[s].name)
			}
			desc := "on one mux: " + strings.Join(l, ", ") + ", Abandon what was added"
			loop(r, desc, desc, 100, 12, func(i int) []weak.Pointer[obj] {
				for _, s := range seq {
					n++
					ops[s].do(n)
				}
				for _, x := range layers {
					if err := m.Abandon(x); err != nil {
						r.Violation(desc, desc+": "+err.Error(), nil)
					}
				}
				layers = nil
				return nil
			})
			return !r.Failed()
		})
	}
	r.Bound("all histories of up to %d of %d edits and requests on one mux, each repeated 100 times and more", depth, len(ops))
	r.Part("edits", map[string]any{"operations": n})
}

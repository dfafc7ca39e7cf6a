package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"github.com/zenazn/goji/web/mutil"
	"verif.local/mc/kit"
	"verif.local/mc/vrt"
)

// ---------------------------------------------------------------- C36

// kind is a kind of request, with what the client and the log must get.
type kind struct {
	name, method, path string
	header             http.Header
	status             int
	body               string // ID and IP stand for the request's
	headers            map[string]string
	logStatus          int
	panics             string
}

// app is an application that uses all of the middleware.
type app struct {
	ev    vrt.Event
	mux   *web.Mux
	wg    vrt.WaitGroup
	logs  map[string][]string // by request
	ids   map[string]string   // request by request id
	order []string

	crowd, met int // how many requests wait for each other
}

// meet returns once the whole crowd is in its handlers.
func (a *app) meet() {
	if a.met++; a.crowd > 0 {
		a.ev.Await(func() bool { return a.met >= a.crowd })
	}
}

// full is a response writer with the capabilities that one of HTTP/1 has.
type full struct {
	rec
	flushes int
}

func (w *full) Flush() { w.WriteHeader(200); w.flushes++ }
func (w *full) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	w.Write(b)
	return int64(len(b)), err
}
func (w *full) Push(string, *http.PushOptions) error { return nil }

func newApp() *app {
	a := &app{mux: web.New(), logs: map[string][]string{}, ids: map[string]string{}}
	m := a.mux
	m.Use(middleware.RequestID)
	m.Use(a.note)
	m.Use(middleware.RealIP)
	m.Use(middleware.Logger)
	m.Use(middleware.Recoverer)
	m.Use(middleware.AutomaticOptions)
	m.Use(middleware.EnvInit)
	m.Use(middleware.URLQuery)
	m.Use(a.tee)
	m.Get("/hello/:name", func(c web.C, w http.ResponseWriter, r *http.Request) {
		q, _ := c.Env[middleware.URLQueryKey].(url.Values)
		w.WriteHeader(201)
		fmt.Fprintf(w, "hello %s %v %d from %s", c.URLParams["name"], q["q"], len(q), r.RemoteAddr)
		// What a request does to its own query concerns nobody else.
		q.Set("mark", a.who(c))
		a.ev.Peek()
		a.meet()
		if q.Get("mark") != a.who(c) {
			vrt.Failf("the query of request %s became %v", a.who(c), q)
		}
		fmt.Fprintf(w, ", id %s", a.who(c))
	})
	m.Post("/hello/:name", func(c web.C, w http.ResponseWriter, r *http.Request) {
		a.meet()
		if rf, ok := w.(io.ReaderFrom); ok {
			rf.ReadFrom(strings.NewReader("posted " + c.URLParams["name"]))
		} else {
			io.WriteString(w, "posted "+c.URLParams["name"])
		}
	})
	m.Get("/panic/:name", func(c web.C, w http.ResponseWriter, r *http.Request) {
		a.ev.Peek()
		a.meet()
		panic("boom " + c.URLParams["name"])
	})
	in := web.New()
	in.Use(middleware.SubRouter)
	in.Use(middleware.NoCache)
	in.Use(in.Router)
	in.Get("/leaf/:leaf", func(c web.C, w http.ResponseWriter, r *http.Request) {
		a.ev.Peek()
		a.meet()
		if f, ok := w.(http.Flusher); ok && c.URLParams["leaf"] == "flush" {
			f.Flush()
		}
		fmt.Fprintf(w, "leaf %s at %s, id %s, etag %q, %v", c.URLParams["leaf"], r.URL.Path, a.who(c), r.Header.Get("If-None-Match"), web.GetMatch(c).RawPattern())
	})
	in.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) {
		a.meet()
		w.WriteHeader(404)
		valid, _ := c.Env[web.ValidMethodsKey].([]string)
		sort.Strings(valid)
		fmt.Fprintf(w, "no leaf at %s, valid %v", r.URL.Path, valid)
	})
	m.Handle("/sub/*", in)
	m.Compile()
	return a
}

// who is the name of the request that the context's id was given to.
func (a *app) who(c web.C) string { return a.ids[middleware.GetReqID(c)] }

// note remembers the id of each request. The map is guarded by the scheduler.
func (a *app) note(c *web.C, h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		id := middleware.GetReqID(*c)
		if id == "" || a.ids[id] != "" {
			vrt.Failf("the id %q was given to request %s and to %q", id, r.Header.Get("Id"), a.ids[id])
		}
		a.ids[id] = r.Header.Get("Id")
		h.ServeHTTP(w, r)
		if a.who(*c) != r.Header.Get("Id") {
			vrt.Failf("after request %s its id has become %q", r.Header.Get("Id"), middleware.GetReqID(*c))
		}
	})
}

// tee wraps the writer once more and compares what it saw.
func (a *app) tee(c *web.C, h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		lw := mutil.WrapWriter(w)
		var buf bytes.Buffer
		lw.Tee(&buf)
		url := *r.URL
		if r.Method == "OPTIONS" || strings.HasPrefix(url.Path, "/none/") {
			a.meet()
		}
		h.ServeHTTP(lw, r)
		if lw.BytesWritten() != buf.Len() {
			vrt.Failf("request %s: the wrapped writer counts %d bytes and has copied %q", r.Header.Get("Id"), lw.BytesWritten(), buf.String())
		}
		if url != *r.URL {
			vrt.Failf("request %s has the URL %v afterwards, not %v", r.Header.Get("Id"), r.URL, &url)
		}
	})
}

var duration = regexp.MustCompile(` in [^ ]+$`)

// serve makes a request and checks the response.
func (a *app) serve(k *kind, who string) {
	w := &full{}
	path, query, _ := strings.Cut(strings.ReplaceAll(k.path, "ID", who), "?")
	r := request(k.method, path)
	r.URL.RawQuery = query
	r.RemoteAddr = "10.0.0." + who
	ip := r.RemoteAddr
	for h, v := range k.header {
		r.Header[h] = append([]string{}, v...)
	}
	if r.Header.Get("X-Real-Ip") != "" {
		ip = "9.9.9." + who
		r.Header.Set("X-Real-Ip", ip)
	}
	r.Header.Set("Id", who)
	a.mux.ServeHTTP(w, r)
	subst := strings.NewReplacer("ID", who, "IP", ip)
	if want := subst.Replace(k.body); w.body != want || w.status != k.status {
		vrt.Failf("request %s (%s) was answered %d %q, expected %d %q", who, k.name, w.status, w.body, k.status, want)
	}
	var diff []string
	for h, v := range k.headers {
		g := w.h.Get(h)
		if h == "Allow" {
			l := strings.Split(g, ", ")
			sort.Strings(l)
			g = strings.Join(l, ", ")
		}
		if g != v {
			diff = append(diff, fmt.Sprintf("%s %q, expected %q", h, g, v))
		}
	}
	for _, h := range []string{"Allow", "Cache-Control"} {
		if _, ok := k.headers[h]; !ok && w.h.Get(h) != "" {
			diff = append(diff, fmt.Sprintf("%s %q", h, w.h.Get(h)))
		}
	}
	if sort.Strings(diff); diff != nil {
		vrt.Failf("request %s (%s) got the headers %s", who, k.name, strings.Join(diff, "; "))
	}
}

// checkLog compares the log with the requests that were served.
func (a *app) checkLog(kinds map[string]*kind) {
	lines := map[string][]string{}
	for _, l := range vrt.Logs() {
		n := 0
		for id, who := range a.ids {
			if strings.Contains(l, id) {
				lines[who] = append(lines[who], strings.ReplaceAll(l, id, "<id>"))
				n++
			}
		}
		if n != 1 {
			vrt.Failf("%d requests have something to do with the line %q in the log", n, l)
		}
	}
	for who, k := range kinds {
		var want [][]string
		path := strings.ReplaceAll(k.path, "ID", who)
		ip := "10.0.0." + who
		if k.header.Get("X-Real-Ip") != "" {
			ip = "9.9.9." + who
		}
		want = append(want, []string{k.method, path, ip})
		if k.panics != "" {
			want = append(want, []string{strings.ReplaceAll(k.panics, "ID", who)})
		}
		want = append(want, []string{fmt.Sprint(k.logStatus)})
		got := lines[who]
		ok := len(got) == len(want)
		for i := 0; ok && i < len(got); i++ {
			for _, s := range want[i] {
				ok = ok && strings.Contains(got[i], s)
			}
		}
		if !ok {
			vrt.Failf("the log of request %s (%s) is %q, expected lines with %q", who, k.name, got, want)
		}
	}
}

func c36() []kit.Scenario {
	hdr := func(kv ...string) http.Header {
		h := http.Header{}
		for i := 0; i < len(kv); i += 2 {
			h.Set(kv[i], kv[i+1])
		}
		return h
	}
	nocache := map[string]string{"Cache-Control": "no-cache, private, max-age=0", "Pragma": "no-cache", "X-Accel-Expires": "0"}
	kinds := []*kind{
		{name: "get", method: "GET", path: "/hello/ID?q=ID", status: 201, body: "hello ID [ID] 1 from IP, id ID"},
		{name: "real-ip", method: "GET", path: "/hello/ID?q=ID", header: hdr("X-Real-Ip", "x"), status: 201, body: "hello ID [ID] 1 from IP, id ID"},
		{name: "same-query", method: "GET", path: "/hello/ID?q=same", status: 201, body: "hello ID [same] 1 from IP, id ID"},
		{name: "post", method: "POST", path: "/hello/ID", status: 200, body: "posted ID"},
		{name: "options", method: "OPTIONS", path: "/hello/ID", status: 200, body: "", headers: map[string]string{"Allow": "GET, HEAD, OPTIONS, POST"}},
		{name: "options-2", method: "OPTIONS", path: "/panic/ID", status: 200, body: "", headers: map[string]string{"Allow": "GET, HEAD, OPTIONS"}},
		{name: "panic", method: "GET", path: "/panic/ID", status: 500, body: "Internal Server Error\n", panics: "boom ID"},
		{name: "sub", method: "GET", path: "/sub/leaf/ID", header: hdr("If-None-Match", "x"), status: 200, body: "leaf ID at /leaf/ID, id ID, etag \"\", /leaf/:leaf", headers: nocache},
		{name: "sub-404", method: "POST", path: "/sub/leaf/ID", status: 404, body: "no leaf at /leaf/ID, valid [GET HEAD]", headers: nocache},
		{name: "same-path", method: "GET", path: "/hello/same?q=ID", status: 201, body: "hello same [ID] 1 from IP, id ID"},
		{name: "same-sub", method: "GET", path: "/sub/leaf/flush", status: 200, body: "leaf flush at /leaf/flush, id ID, etag \"\", /leaf/:leaf", headers: nocache},
		{name: "404", method: "GET", path: "/none/ID", status: 404, body: "404 page not found\n"},
	}
	for _, k := range kinds {
		k.logStatus = k.status
	}
	var out []kit.Scenario
	crowd := map[string]int{}
	add := func(name string, miss bool, threads [][]int) *kit.Scenario {
		out = append(out, kit.Scenario{Name: name, SecQuick: 60, SecThorough: 500, Make: func() *vrt.Explorer {
			e := explorer(func() {
				a := newApp()
				a.crowd = crowd[name]
				served := map[string]*kind{}
				n := 0
				for _, t := range threads {
					t := t
					first := n
					for j := range t {
						served[fmt.Sprint(first+j)] = kinds[t[j]]
					}
					n += len(t)
					a.wg.Add(1)
					vrt.Spawn(fmt.Sprintf("q%d", first), func() {
						for j, k := range t {
							a.serve(kinds[k], fmt.Sprint(first+j))
						}
						a.wg.Done()
					})
				}
				a.wg.Wait()
				last := fmt.Sprint(n)
				served[last] = kinds[threads[0][0]]
				a.serve(served[last], last)
				a.checkLog(served)
				vrt.Outcome("%d", len(a.ids))
			})
			e.PoolMiss = miss
			return e
		}})
		return &out[len(out)-1]
	}
	// All of a crowd are in their handlers before the first one leaves, in a
	// few orders; and a long history of one client.
	for _, n := range []int{9, 20, 50} {
		for first := range kinds {
			var threads [][]int
			for i := 0; i < n; i++ {
				threads = append(threads, []int{(first + i*(1+n%5)) % len(kinds)})
			}
			name := fmt.Sprintf("crowd/%d/%s", n, kinds[first].name)
			crowd[name] = n
			s := add(name, false, threads)
			s.Delay = true
			s.BoundQuick = map[int]int{9: 2, 20: 1, 50: -1}[n]
			s.BoundThorough = map[int]int{9: 3, 20: 2, 50: 1}[n]
		}
	}
	for i := range kinds {
		var thread []int
		for l := 0; l < 10*len(kinds); l++ {
			thread = append(thread, (l*(i+1)+l/len(kinds))%len(kinds))
		}
		add("history/"+kinds[i].name, false, [][]int{thread})
	}
	for i := range kinds {
		for j := i; j < len(kinds); j++ {
			add("pair/"+kinds[i].name+"+"+kinds[j].name, false, [][]int{{i}, {j}})
		}
	}
	for i := range kinds {
		j, l := (i+3)%len(kinds), (i+5)%len(kinds)
		s := add("three/"+kinds[i].name+"+"+kinds[j].name+"+"+kinds[l].name, false, [][]int{{i}, {j}, {l}})
		s.BoundQuick, s.BoundThorough = 2, 4
		s = add("two-times-two/"+kinds[i].name, true, [][]int{{i, j}, {l, i}})
		s.BoundQuick, s.BoundThorough = 2, 3
	}
	return out
}

// silence drops what the code under test prints on standard error (stacks).
func silence() {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null
	}
}

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif.local/mc/kit"
)

func init() {
	checks["C15"] = c15
	checks["C16"] = c16
	checks["C18"] = c18
	checks["C19"] = c19
	checks["C20"] = c20
}

// act is a step of a handler under test.
type act struct {
	name string
	do   func(c *web.C, w http.ResponseWriter)
}

func wh(code int) act {
	return act{fmt.Sprintf("WriteHeader(%d)", code), func(c *web.C, w http.ResponseWriter) { w.WriteHeader(code) }}
}
func wr(s string) act {
	return act{fmt.Sprintf("Write(%q)", s), func(c *web.C, w http.ResponseWriter) { w.Write([]byte(s)) }}
}

func describe(acts []act, seq []int) string {
	var l []string
	for _, s := range seq {
		l = append(l, acts[s].name)
	}
	return strings.Join(l, "; ")
}

// c15: AutomaticOptions.
func c15(r *kit.Run) {
	r.Rule = "state: history of a handler's writes under AutomaticOptions; transition: one write; plus whole muxes: every OPTIONS request against a routing table"
	acts := []act{wh(200), wh(404), wh(405), wh(500), wh(103), wr(""), wr("body"),
		{"set Allow", func(c *web.C, w http.ResponseWriter) { w.Header().Set("Allow", "own") }},
		{"routing found methods", func(c *web.C, w http.ResponseWriter) {
			if c.Env == nil {
				c.Env = map[interface{}]interface{}{}
			}
			c.Env[web.ValidMethodsKey] = []string{"GET", "POST"}
		}},
	}
	envs := []struct {
		name string
		mk   func() map[interface{}]interface{}
		m    []string
	}{
		{"no environment", func() map[interface{}]interface{} { return nil }, nil},
		{"empty environment", func() map[interface{}]interface{} { return map[interface{}]interface{}{} }, nil},
		{"one method", func() map[interface{}]interface{} {
			return map[interface{}]interface{}{web.ValidMethodsKey: []string{"PUT"}}
		}, []string{"PUT"}},
		{"OPTIONS among them", func() map[interface{}]interface{} {
			return map[interface{}]interface{}{web.ValidMethodsKey: []string{"DELETE", "OPTIONS", "PUT"}}
		}, []string{"DELETE", "OPTIONS", "PUT"}},
		{"something else under the key", func() map[interface{}]interface{} { return map[interface{}]interface{}{web.ValidMethodsKey: "PUT"} }, nil},
	}
	depth := kit.Pick(r, 5, 6)
	for n := 0; n <= depth; n++ {
		r.Seqs(n, len(acts), func(w *kit.Watch, seq []int) {
			for _, e := range envs {
				for _, method := range []string{"OPTIONS", "GET"} {
					what := func() string { return fmt.Sprintf("%s with %s, handler: %s", method, e.name, describe(acts, seq)) }
					w.Case(what, func() {
						u := &under{failAt: -1}
						ref := &under{failAt: -1}
						var c web.C
						c.Env = e.mk()
						methods := e.m
						intercepted := false
						h := middleware.AutomaticOptions(&c, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
							for _, s := range seq {
								acts[s].do(&c, w)
								// The reference: a 404 with known methods
								// becomes the automatic answer; all else is
								// untouched.
								name := acts[s].name
								switch {
								case name == "routing found methods":
									methods = []string{"GET", "POST"}
								case intercepted && name != "set Allow":
								case method == "OPTIONS" && name == "WriteHeader(404)" && ref.status == 0 && methods != nil:
									intercepted = true
									allow := append([]string{}, methods...)
									found := false
									for _, m := range allow {
										found = found || m == "OPTIONS"
									}
									if !found {
										allow = append(allow, "OPTIONS")
									}
									ref.Header().Set("Allow", strings.Join(allow, ", "))
									ref.WriteHeader(200)
								default:
									acts[s].do(&web.C{}, ref)
								}
							}
						}))
						h.ServeHTTP(u, request(method, "/"))
						if u.status != ref.status || string(u.bodyS) != string(ref.bodyS) || !intercepted && (u.extra != ref.extra || len(u.info) != len(ref.info)) || u.hdr.Get("Allow") != ref.hdr.Get("Allow") {
							r.Violation("options", fmt.Sprintf("%s: sent status %d, body %q, Allow %q; expected %d, %q, %q", what(), u.status, u.bodyS, u.hdr.Get("Allow"), ref.status, ref.bodyS, ref.hdr.Get("Allow")), nil)
						}
						r.Traces.Add(1)
						r.Transitions.Add(int64(len(seq)))
					})
				}
			}
			r.States.Add(1)
		})
	}
	// Whole muxes.
	verbs := append([]string{"ANY"}, allMethods...)
	pats := []string{"/a", "/:x"}
	k := len(verbs) * len(pats)
	for n := 0; n <= kit.Pick(r, 3, 4); n++ {
		r.Seqs(n, k, func(w *kit.Watch, seq []int) {
			path := ""
			what := func() string {
				var l []string
				for _, s := range seq {
					l = append(l, verbs[s%len(verbs)]+" "+pats[s/len(verbs)])
				}
				return fmt.Sprintf("mux with AutomaticOptions and routes %q, OPTIONS %q", l, path)
			}
			w.Case(what, func() {
				m := web.New()
				m.Use(middleware.EnvInit)
				m.Use(middleware.AutomaticOptions)
				for i, s := range seq {
					i := i
					register(m, verbs[s%len(verbs)], pats[s/len(verbs)], func(w http.ResponseWriter, q *http.Request) {
						w.WriteHeader(210 + i)
					})
				}
				for _, path = range []string{"/a", "/b", "/"} {
					want, allow := 404, ""
					valid := map[string]bool{}
					for i, s := range seq {
						if _, ok := refStringPattern(pats[s/len(verbs)]).match(path); !ok {
							continue
						}
						v := verbs[s%len(verbs)]
						valid[v] = true
						if v == "GET" {
							valid["HEAD"] = true
						}
						if v == "ANY" || v == "OPTIONS" {
							want = 210 + i
							break
						}
					}
					if want == 404 && len(valid) > 0 {
						var l []string
						for v := range valid {
							l = append(l, v)
						}
						sort.Strings(l)
						want, allow = 200, strings.Join(append(l, "OPTIONS"), ", ")
					}
					u := &under{failAt: -1}
					m.ServeHTTP(u, request("OPTIONS", path))
					if u.status != want || u.hdr.Get("Allow") != allow || want == 200 && len(u.bodyS) != 0 {
						r.Violation("options-mux", fmt.Sprintf("%s: status %d, Allow %q, body %q; expected %d, %q", what(), u.status, u.hdr.Get("Allow"), u.bodyS, want, allow), nil)
						return
					}
					r.Traces.Add(1)
					r.Transitions.Add(1)
				}
				r.States.Add(1)
			})
		})
	}
	r.Bound("every handler of at most %d of %d steps, %d contexts, OPTIONS and GET; every mux of at most %d routes over %d verb and pattern combinations", depth, len(acts), len(envs), kit.Pick(r, 3, 4), k)
	r.Sample("OPTIONS with one method, handler: WriteHeader(404); Write(\"body\") gives 200 with Allow: PUT, OPTIONS and no body")
}

// logs collects what is printed through package log.
type logBuf struct{ bytes.Buffer }

var ansi = regexp.MustCompile("\033\\[[0-9;]*m")

func (b *logBuf) take() []string {
	s := ansi.ReplaceAllString(b.String(), "")
	b.Reset()
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func captureLog() *logBuf {
	b := &logBuf{}
	log.SetOutput(b)
	log.SetFlags(0)
	return b
}

type panicErr struct{ s string }

func (e *panicErr) Error() string { return e.s }

// c16: Recoverer.
func c16(r *kit.Run) {
	r.Rule = "state: history of a handler's steps ending in a return or a panic, under stacks with Recoverer; transition: one step; then a second request through the same stack"
	lb := captureLog()
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		r.Errorf("%v", err)
		return
	}
	stderr := os.Stderr
	os.Stderr = null // Recoverer prints the stack there
	defer func() { os.Stderr = stderr }()
	acts := []act{wh(201), wh(404), wr("part"),
		{"set headers", func(c *web.C, w http.ResponseWriter) { w.Header().Set("X", "1"); w.Header().Set("Content-Type", "a/b") }},
		{"set context", func(c *web.C, w http.ResponseWriter) {
			if c.Env != nil {
				c.Env["leak"] = true
			}
		}},
	}
	ends := []struct {
		name  string
		value interface{}
		text  string
	}{
		{"return", nil, ""}, {"panic(string)", "boom", "boom"}, {"panic(error)", errors.New("err boom"), "err boom"},
		{"panic(*panicErr)", &panicErr{"perr boom"}, "perr boom"}, {"panic(int)", 42, "42"}, {"panic(struct)", struct{ A int }{7}, "A:7"},
		{"nil map write", "nilmap", "assignment to entry in nil map"}, {"index out of range", "index", "index out of range"},
		// Values that other code gives a meaning to.
		{"panic(http.ErrAbortHandler)", http.ErrAbortHandler, "abort Handler"}, {"panic(wrapped ErrAbortHandler)", fmt.Errorf("w: %w", http.ErrAbortHandler), "w: net/http: abort Handler"},
		{"panic(io.EOF)", io.EOF, "EOF"}, {"panic(context.Canceled)", context.Canceled, "context canceled"},
		{"panic(\"\")", "", ""}, {"panic(nil)", "nil", "nil"}, {"panic(false)", false, "false"}, {"panic(nil *panicErr)", (*panicErr)(nil), ""},
		{"panic(net.ErrClosed)", net.ErrClosed, "use of closed network connection"}, {"panic(func)", func() {}, ""},
		{"failed type assertion", "assert", "interface conversion"}, {"division by zero", "div", "divide by zero"},
		{"nil dereference", "deref", "nil pointer dereference"},
	}
	stacks := []string{"Recoverer", "outer Recoverer RequestID Recoverer", "RequestID Recoverer", "Logger Recoverer", "Recoverer EnvInit Router"}
	depth := kit.Pick(r, 4, 5)
	w := r.Watch()
	defer w.Stop()
	for _, stack := range stacks {
		for n := 0; n <= depth; n++ {
			kit.Sequences(n, len(acts), func(seq []int) bool {
				for _, end := range ends {
					what := func() string {
						return fmt.Sprintf("stack %s, handler: %s; %s", stack, describe(acts, seq), end.name)
					}
					w.Case(what, func() {
						m := web.New()
						outer := 0
						for _, l := range strings.Fields(stack) {
							switch l {
							case "outer":
								m.Use(func(h http.Handler) http.Handler {
									return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
										h.ServeHTTP(w, q)
										outer++
									})
								})
							case "Recoverer":
								m.Use(middleware.Recoverer)
							case "RequestID":
								m.Use(middleware.RequestID)
							case "Logger":
								m.Use(middleware.Logger)
							case "EnvInit":
								m.Use(middleware.EnvInit)
							case "Router":
								m.Use(m.Router)
							}
						}
						steps := true
						leaked := false
						reqID := ""
						m.Handle("/:x", web.HandlerFunc(func(c web.C, w http.ResponseWriter, q *http.Request) {
							if !steps {
								_, leaked = c.Env["leak"]
								w.WriteHeader(207)
								return
							}
							reqID = middleware.GetReqID(c)
							for _, s := range seq {
								acts[s].do(&c, w)
							}
							switch end.value {
							case nil:
							case "nilmap":
								var m map[string]int
								m["x"] = 1
							case "index":
								var s []int
								_ = s[len(q.URL.Path)]
							case "nil":
								panic(nil)
							case "assert":
								var v interface{} = 1
								_ = v.(string)
							case "div":
								_ = 1 / (len(seq) - len(seq))
							case "deref":
								var p *panicErr
								_ = p.s
							default:
								panic(end.value)
							}
						}))
						u := &under{failAt: -1}
						lb.take()
						m.ServeHTTP(u, request("GET", "/q"))
						lines := lb.take()
						// Reference.
						ref := &under{failAt: -1}
						for _, s := range seq {
							acts[s].do(&web.C{}, ref)
						}
						panicked := end.value != nil
						if panicked && ref.status == 0 {
							ref.status = 500
						} else if !panicked && ref.status == 0 && strings.Contains(stack, "Logger") {
							ref.status = 200
						}
						if u.status != ref.status || !bytes.HasPrefix(u.bodyS, ref.bodyS) || !panicked && len(u.bodyS) != len(ref.bodyS) || len(ref.bodyS) == 0 && panicked && ref.status == 500 && len(u.bodyS) == 0 {
							r.Violation("recover", fmt.Sprintf("%s: sent %d %q, expected %d and body starting with %q", what(), u.status, u.bodyS, ref.status, ref.bodyS), nil)
							return
						}
						hits := 0
						for _, l := range lines {
							if strings.Contains(l, "panic") && strings.Contains(l, end.text) && (reqID == "" || strings.HasPrefix(l, "["+reqID+"] ") || !strings.HasPrefix(stack, "RequestID")) {
								hits++
							}
						}
						if panicked && hits == 0 || !panicked && strings.Contains(strings.Join(lines, "\n"), "panic") {
							r.Violation("recover-log", fmt.Sprintf("%s: logged %q", what(), lines), nil)
							return
						}
						if strings.HasPrefix(stack, "outer") && outer != 1 {
							r.Violation("recover-outer", what()+": the layers outside of Recoverer did not see a normal return", nil)
							return
						}
						if strings.Contains(stack, "Logger") {
							if len(lines) < 2 || !strings.HasPrefix(lines[len(lines)-1], fmt.Sprintf("Returning %03d in ", u.status)) {
								r.Violation("recover-logger", fmt.Sprintf("%s: an outer Logger printed %q, the client was sent %d", what(), lines, u.status), nil)
								return
							}
						}
						// The server goes on.
						steps = false
						u2 := &under{failAt: -1}
						m.ServeHTTP(u2, request("GET", "/q"))
						lb.take()
						if u2.status != 207 || leaked {
							r.Violation("recover-next", fmt.Sprintf("%s: the next request got %d, context leaked %v", what(), u2.status, leaked), nil)
							return
						}
						r.Traces.Add(2)
						r.Transitions.Add(int64(len(seq)) + 1)
						r.States.Add(1)
					})
					if r.Failed() {
						return false
					}
				}
				return true
			})
		}
	}
	r.Bound("%d stacks, every handler of at most %d of %d steps with %d ways to end", len(stacks), depth, len(acts), len(ends))
	r.Assume("the response writer treats repeated WriteHeader calls like net/http")
	r.Sample("stack RequestID Recoverer, handler: set headers; Write(\"part\"); panic(error)")
}

// c18: Logger.
func c18(r *kit.Run) {
	r.Rule = "state: request, context and history of a handler's writes; transition: one write; the two log lines are compared with what the client was sent"
	lb := captureLog()
	acts := []act{wh(200), wh(204), wh(101), wh(103), wh(404), wh(500), wh(999), wr(""), wr("x"),
		{"Flush", func(c *web.C, w http.ResponseWriter) {
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		}},
	}
	reqs := []struct{ m, u, from string }{
		{"GET", "/", "1.2.3.4:5"}, {"POST", "/a b%2f?q=\"1\"", "@"}, {"", "http://h/x", "%d%s%!"}, {"%s", "/\n\u00e9%25s", "[fe80::1%eth0]:80"},
	}
	ids := []interface{}{nil, "h%d/abc-000001", 17}
	depth := kit.Pick(r, 4, 5)
	w := r.Watch()
	defer w.Stop()
	end := regexp.MustCompile(`^Returning (\d+) in (\S+)$`)
	for n := 0; n <= depth; n++ {
		kit.Sequences(n, len(acts), func(seq []int) bool {
			for qi, rq := range reqs {
				for _, id := range ids {
					for shape := 0; shape < 3; shape++ {
						flusher := shape > 0
						what := func() string {
							return fmt.Sprintf("%q %q from %q, request ID %v, writer %d, handler: %s", rq.m, rq.u, rq.from, id, shape, describe(acts, seq))
						}
						w.Case(what, func() {
							var c web.C
							if id != nil {
								c.Env = map[interface{}]interface{}{middleware.RequestIDKey: id}
							}
							u := &under{failAt: -1}
							var raw http.ResponseWriter = plainWriter{u}
							switch shape {
							case 1:
								raw = fullWriter{u}
							case 2:
								raw = flushOnly{u}
							}
							ref := &under{failAt: -1}
							q := request(rq.m, "")
							q.URL = &url.URL{Path: rq.u}
							q.RemoteAddr = rq.from
							var during []string
							h := middleware.Logger(&c, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
								during = lb.take()
								for _, s := range seq {
									acts[s].do(&c, w)
									if acts[s].name == "Flush" {
										if flusher {
											ref.flush()
										}
									} else {
										acts[s].do(&c, ref)
									}
								}
							}))
							lb.take()
							h.ServeHTTP(raw, q)
							after := lb.take()
							if ref.status == 0 {
								ref.status = 200
							}
							pre := ""
							if s, ok := id.(string); ok {
								pre = "[" + s + "] "
							}
							fail := func(f string, args ...interface{}) {
								r.Violation("logger", what()+": "+fmt.Sprintf(f, args...), nil)
							}
							start := fmt.Sprintf("%sStarted %s %q from %s", pre, rq.m, q.URL.String(), rq.from)
							if len(during) != 1 || during[0] != start {
								fail("before the handler it logged %q, expected %q", during, start)
								return
							}
							if len(after) != 1 || !strings.HasPrefix(after[0], pre) {
								fail("after the handler it logged %q", after)
								return
							}
							m := end.FindStringSubmatch(strings.TrimPrefix(after[0], pre))
							if m == nil || m[1] != fmt.Sprintf("%03d", u.status) {
								fail("it logged %q, the client was sent %d", after, u.status)
								return
							}
							if u.status != ref.status || string(u.bodyS) != string(ref.bodyS) || len(u.info) != len(ref.info) || u.flushes != ref.flushes {
								fail("the client was sent %d %q, the handler asked for %d %q", u.status, u.bodyS, ref.status, ref.bodyS)
								return
							}
							r.Traces.Add(1)
							r.Transitions.Add(int64(len(seq)) + 1)
						})
						if r.Failed() {
							return false
						}
					}
				}
				_ = qi
			}
			r.States.Add(1)
			return true
		})
	}
	// Every status there is, and handlers of all classes of duration.
	one := func(what string, status int, body bool, nap time.Duration) {
		w.Case(func() string { return what }, func() {
			var c web.C
			u := &under{failAt: -1}
			h := middleware.Logger(&c, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				lb.take()
				time.Sleep(nap)
				w.WriteHeader(status)
				if body {
					io.WriteString(w, "x")
				}
			}))
			lb.take()
			h.ServeHTTP(fullWriter{u}, request("GET", "/"))
			after := lb.take()
			m := []string(nil)
			if len(after) == 1 {
				m = end.FindStringSubmatch(after[0])
			}
			if m == nil || m[1] != fmt.Sprintf("%03d", u.status) {
				r.Violation("logger", fmt.Sprintf("%s: it logged %q, the client was sent %d", what, after, u.status), nil)
				return
			}
			if d, err := time.ParseDuration(m[2]); err != nil || d < nap {
				r.Violation("logger", fmt.Sprintf("%s: it logged %q, the handler took %v", what, after, nap), nil)
			}
			r.Traces.Add(1)
			r.Transitions.Add(2)
		})
	}
	for status := 100; status <= 999 && !r.Failed(); status++ {
		one(fmt.Sprintf("WriteHeader(%d)", status), status, false, 0)
		one(fmt.Sprintf("WriteHeader(%d); Write", status), status, true, 0)
		r.States.Add(1)
	}
	for _, nap := range []time.Duration{510 * time.Millisecond, 5010 * time.Millisecond} {
		if !r.Failed() {
			one(fmt.Sprintf("Sleep(%v); WriteHeader(404)", nap), 404, true, nap)
			r.States.Add(1)
		}
	}
	r.Bound("every handler of at most %d of %d steps, %d requests, %d request IDs, writers with and without Flush; every status from 100 to 999, and handlers that take 0, 0.5 and 5 seconds", depth, len(acts), len(reqs), len(ids))
	r.Sample("POST with a quoted URL, handler: Write(\"x\"); WriteHeader(404) logs Returning 200")
}

// c19: RealIP.
func c19(r *kit.Run) {
	r.Rule = "state: the forwarding headers of a request; transition: one request; the model takes the first address of X-Forwarded-For, else X-Real-IP, else leaves the address alone"
	ips := []string{"1.2.3.4", "::1", "Unknown", "5.6.7.8:99", "", "10.0.0.7", "127.0.0.1", "2001:DB8::A,x"}
	var lists []string
	lists = append(lists, "")
	for n := 1; n <= kit.Pick(r, 4, 5); n++ {
		kit.Sequences(n, len(ips), func(seq []int) bool {
			var l []string
			for _, s := range seq {
				l = append(l, ips[s])
			}
			lists = append(lists, strings.Join(l, ", "))
			return true
		})
	}
	xffs := [][]string{nil}
	for _, l := range lists {
		xffs = append(xffs, []string{l}, []string{l, "9.9.9.9, 8.8.8.8"})
	}
	xrips := [][]string{nil, {""}, {"7.7.7.7"}, {"7.7.7.7", "6.6.6.6"}, {"FE80::1"}, {"7.7.7.7, 6.6.6.6"}, {", 6.6.6.6"}}
	addrs := []string{"", "10.0.0.1:1234", "8.8.8.8:1", "@"}
	names := [][2]string{{"X-Forwarded-For", "X-Real-IP"}, {"x-forwarded-for", "x-real-ip"}, {"X-FORWARDED-FOR", "X-REAL-IP"}}
	r.Each(len(xffs), func(w *kit.Watch, i int) {
		xff := xffs[i]
		for _, xr := range xrips {
			for _, addr := range addrs {
				for _, nm := range names {
					what := func() string { return fmt.Sprintf("%s %q, %s %q, from %q", nm[0], xff, nm[1], xr, addr) }
					w.Case(what, func() {
						q := request("GET", "/")
						q.RemoteAddr = addr
						for _, v := range xff {
							q.Header.Add(nm[0], v)
						}
						for _, v := range xr {
							q.Header.Add(nm[1], v)
						}
						before := q.Header.Clone()
						want := addr
						if len(xff) > 0 && xff[0] != "" {
							// An empty first address leaves the peer's in place.
							if f := strings.Split(xff[0], ", ")[0]; f != "" {
								want = f
							}
						} else if len(xr) > 0 && xr[0] != "" {
							want = xr[0]
						}
						got, calls := "", 0
						middleware.RealIP(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { got = q.RemoteAddr; calls++ })).ServeHTTP(&rec{}, q)
						if got != want || calls != 1 || !reflect.DeepEqual(before, q.Header) {
							r.Violation("realip", fmt.Sprintf("%s: handler saw %q (%d calls), expected %q", what(), got, calls, want), nil)
						}
						r.Traces.Add(1)
						r.Transitions.Add(1)
					})
				}
			}
		}
		r.States.Add(1)
	})
	r.Bound("%d X-Forwarded-For values, %d X-Real-IP values, %d peer addresses, 3 spellings of the header names", len(xffs), len(xrips), len(addrs))
	r.Assume("addresses in X-Forwarded-For are separated by a comma and a space, as proxies write them")
	r.Sample("X-Forwarded-For: 1.2.3.4, ::1 with X-Real-IP: 7.7.7.7 gives 1.2.3.4")
}

// c20: NoCache, URLQuery, EnvInit.
func c20(r *kit.Run) {
	r.Rule = "state: headers or query of one request; transition: one request; compared with the documented effect"
	cond := []string{"ETag", "If-Modified-Since", "If-Match", "If-None-Match", "If-Range", "If-Unmodified-Since", "X-Other"}
	methods := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "WEIRD", ""}
	subsets := 1
	for range cond {
		subsets *= 3
	}
	r.Each(len(methods)*subsets, func(w *kit.Watch, i int) {
		mask, method := i%subsets, methods[i/subsets]
		// Each header is absent, given once, or given twice with an empty
		// value first.
		given := make([]int, len(cond))
		for i := range cond {
			given[i] = mask % 3
			mask /= 3
		}
		for _, preset := range []bool{false, true} {
			for _, sets := range []bool{false, true} {
				what := func() string {
					return fmt.Sprintf("%q request, headers %v of %v, response headers preset %v, handler sets its own %v", method, given, cond, preset, sets)
				}
				w.Case(what, func() {
					q := request(method, "/")
					for i, h := range cond {
						if given[i] == 2 {
							q.Header.Add(h, "")
						}
						if given[i] > 0 {
							q.Header.Add(h, "v")
						}
					}
					u := &under{failAt: -1}
					if preset {
						u.Header().Set("Cache-Control", "public")
						u.Header().Set("Expires", "never")
						u.Header().Set("ETag", "keep")
					}
					calls := 0
					middleware.NoCache(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
						calls++
						for i, h := range cond {
							want := 0
							if h == "X-Other" {
								want = given[i]
							}
							if got := q.Header.Values(h); len(got) != want || want > 0 && got[want-1] != "v" {
								r.Violation("nocache-request", fmt.Sprintf("%s: handler saw %s: %q", what(), h, got), nil)
							}
						}
						if sets {
							w.Header().Set("Cache-Control", "max-age=5")
						}
						w.WriteHeader(200)
					})).ServeHTTP(u, q)
					cc := "no-cache, private, max-age=0"
					if sets {
						cc = "max-age=5"
					}
					for k, v := range map[string]string{"Expires": "Thu, 01 Jan 1970 00:00:00 UTC", "Cache-Control": cc, "Pragma": "no-cache", "X-Accel-Expires": "0"} {
						if got := u.hdr[k]; len(got) != 1 || got[0] != v {
							r.Violation("nocache-response", fmt.Sprintf("%s: sent %s: %q, expected %q", what(), k, got, v), nil)
						}
					}
					if calls != 1 {
						r.Violation("nocache-calls", fmt.Sprintf("%s: handler ran %d times", what(), calls), nil)
					}
					r.Traces.Add(1)
					r.Transitions.Add(1)
				})
			}
		}
		r.States.Add(1)
	})
	// The Expires header is fixed when the process starts, possibly in another
	// time zone.
	for _, tz := range []string{"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Europe/Dublin"} {
		cmd := exec.Command(os.Args[0], "-prop", "expires")
		cmd.Env = append(os.Environ(), "TZ="+tz)
		out, err := cmd.Output()
		if err != nil {
			r.Errorf("TZ=%s: %v", tz, err)
			continue
		}
		r.States.Add(1)
		r.Transitions.Add(1)
		r.Traces.Add(1)
		if string(out) != "Thu, 01 Jan 1970 00:00:00 UTC" {
			r.Violation("nocache-expires", fmt.Sprintf("in time zone %s NoCache sends Expires: %s, expected Thu, 01 Jan 1970 00:00:00 UTC", tz, out), map[string]string{"TZ": tz})
		}
	}
	qs := kit.Strings([]string{"a", "b", "=", "&", "%20", "+", "%zz"}, 0, kit.Pick(r, 5, 6))
	r.Each(len(qs), func(w *kit.Watch, i int) {
		what := func() string { return fmt.Sprintf("query %q", qs[i]) }
		w.Case(what, func() {
			for ei, mk := range []func() map[interface{}]interface{}{
				func() map[interface{}]interface{} { return nil },
				func() map[interface{}]interface{} { return map[interface{}]interface{}{} },
				func() map[interface{}]interface{} { return map[interface{}]interface{}{"k": 1} },
				func() map[interface{}]interface{} {
					return map[interface{}]interface{}{"k": 1, middleware.URLQueryKey: "old", middleware.RequestIDKey: "old"}
				},
			} {
				env := mk()
				c := web.C{Env: env}
				// An environment that exists stays the very same one.
				same := func(c *web.C) bool {
					return c.Env != nil && (env == nil || reflect.ValueOf(c.Env).Pointer() == reflect.ValueOf(env).Pointer()) && (ei < 2 || c.Env["k"] == 1)
				}
				q := request(methods[i%len(methods)], "/")
				q.URL.RawQuery = qs[i]
				// Reference: form decoding written out.
				want := map[string][]string{}
				for _, kv := range strings.Split(qs[i], "&") {
					if kv == "" {
						continue
					}
					k, v, _ := strings.Cut(kv, "=")
					k, ok1 := unescape(k)
					v, ok2 := unescape(v)
					if ok1 && ok2 {
						want[k] = append(want[k], v)
					}
				}
				calls := 0
				middleware.URLQuery(&c, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					calls++
					v, ok := c.Env[middleware.URLQueryKey].(url.Values)
					if !ok || !reflect.DeepEqual(map[string][]string(v), want) {
						r.Violation("urlquery", fmt.Sprintf("%s: handler saw %v, expected %v", what(), c.Env[middleware.URLQueryKey], want), nil)
					}
					if !same(&c) {
						r.Violation("urlquery-env", what()+": the environment was replaced", nil)
					}
				})).ServeHTTP(&rec{}, q)
				calls2 := 0
				env = mk()
				c2 := web.C{Env: env}
				middleware.EnvInit(&c2, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					calls2++
					if !same(&c2) || len(c2.Env) != len(mk()) {
						r.Violation("envinit", fmt.Sprintf("%s: handler saw environment %v", what(), c2.Env), nil)
					}
				})).ServeHTTP(&rec{}, q)
				calls3 := 0
				env = mk()
				c3 := web.C{Env: env}
				middleware.RequestID(&c3, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					calls3++
					id, ok := c3.Env[middleware.RequestIDKey].(string)
					if !same(&c3) || !ok || id == "" || id == "old" || middleware.GetReqID(c3) != id || ei == 3 && c3.Env[middleware.URLQueryKey] != "old" {
						r.Violation("requestid-env", fmt.Sprintf("%s: handler saw environment %v", what(), c3.Env), nil)
					}
				})).ServeHTTP(&rec{}, q)
				if calls != 1 || calls2 != 1 || calls3 != 1 {
					r.Violation("calls", fmt.Sprintf("%s: handlers ran %d, %d and %d times", what(), calls, calls2, calls3), nil)
				}
				r.Traces.Add(3)
				r.Transitions.Add(3)
			}
			r.States.Add(1)
		})
	})
	r.Bound("every way to give %d request headers (absent, one value, an empty and another value) with %d methods, 5 time zones, and all query strings of at most %d of 7 tokens", len(cond), len(methods), kit.Pick(r, 5, 6))
	r.Sample("query a=b&a=+&%zz")
}

func unescape(s string) (string, bool) {
	var out []byte
	hex := func(b byte) int { return strings.IndexByte("0123456789abcdef", b) }
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '+':
			out = append(out, ' ')
		case s[i] == '%':
			if i+2 >= len(s) || hex(s[i+1]) < 0 || hex(s[i+2]) < 0 {
				return "", false
			}
			out = append(out, byte(hex(s[i+1])<<4|hex(s[i+2])))
			i += 2
		default:
			out = append(out, s[i])
		}
	}
	return string(out), true
}

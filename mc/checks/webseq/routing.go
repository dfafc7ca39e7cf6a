package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif.local/mc/kit"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
	checks["C05"] = c05
	checks["C06"] = c06
}

// maskPat is a pattern whose outcome on paths with its prefix is decided by a
// bit of the request, so that enumerating the bits enumerates every outcome of
// every pattern.
type maskPat struct {
	prefix string
	bit    uint
}

func (p maskPat) Prefix() string { return p.prefix }
func (p maskPat) Match(r *http.Request, c *web.C) bool {
	return strings.HasPrefix(r.URL.Path, p.prefix) && r.ContentLength>>p.bit&1 != 0
}
func (p maskPat) Run(r *http.Request, c *web.C) {
	if c.URLParams == nil {
		c.URLParams = map[string]string{}
	}
	c.URLParams["route"] = p.prefix
}

// maskTable checks one table of prefixes against the naive router: for each path
// and each outcome of the plausible patterns the first one that matches runs.
func maskTable(r *kit.Run, w *kit.Watch, prefixes []string, paths []string, family string) {
	var path string
	var mask uint64
	what := func() string {
		return fmt.Sprintf("routes with prefixes %q, request %q, matching routes %b", abbrev(prefixes), abbrev1(path), mask)
	}
	w.Case(what, func() {
		m := web.New()
		m.NotFound(notFoundHit)
		for i, p := range prefixes {
			m.Handle(maskPat{p, uint(i)}, hit(i))
		}
		req := request("GET", "")
		res := &rec{}
		var plausible []int
		n := int64(0)
		for _, path = range paths {
			plausible = plausible[:0]
			for i, p := range prefixes {
				if strings.HasPrefix(path, p) {
					plausible = append(plausible, i)
				}
			}
			req.URL.Path = path
			for s := uint64(0); s < 1<<uint(len(plausible)); s++ {
				mask = 0
				want := int(notFoundHit)
				for j := len(plausible) - 1; j >= 0; j-- {
					if s>>uint(j)&1 != 0 {
						mask |= 1 << uint(plausible[j])
						want = plausible[j]
					}
				}
				req.ContentLength = int64(mask)
				res.hit, res.runs = -99, 0
				m.ServeHTTP(res, req)
				n++
				if res.hit != want || res.runs != 1 {
					r.Violation("mask/"+family, fmt.Sprintf("%s: handler %d ran (%d calls), the first matching route in registration order is %d", what(), res.hit, res.runs, want),
						map[string]any{"prefixes": prefixes, "path": path, "mask": mask})
					return
				}
			}
		}
		r.States.Add(1)
		r.Transitions.Add(n)
		r.Traces.Add(n)
	})
}

func abbrev1(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d bytes)...%s", s[:20], len(s), s[len(s)-20:])
	}
	return s
}

func abbrev(ss []string) []string {
	var out []string
	for i, s := range ss {
		if i == 12 {
			out = append(out, fmt.Sprintf("and %d more", len(ss)-i))
			break
		}
		out = append(out, abbrev1(s))
	}
	return out
}

func c01(r *kit.Run) {
	r.Rule = "state: a routing table (sequence of registered prefixes); transition: one request routed through it with one outcome of its plausible patterns, compared with the naive first-match router"
	r.Assume("Pattern.Match may be true only for paths that start with Pattern.Prefix, as the Pattern interface demands")
	pick := func(all []string, seq []int) []string {
		out := make([]string, len(seq))
		for i, x := range seq {
			out[i] = all[x]
		}
		return out
	}
	seqs := func(name string, n int, prefixes, paths []string) {
		before := r.Traces.Load()
		r.Seqs(n, len(prefixes), func(w *kit.Watch, seq []int) {
			maskTable(r, w, pick(prefixes, seq), paths, name)
		})
		r.Part(name, map[string]any{"routes": n, "prefixes": len(prefixes), "paths": len(paths), "requests": r.Traces.Load() - before})
		r.Bound("%s: every sequence of %d routes over %d prefixes, %d paths, every outcome of every plausible pattern", name, n, len(prefixes), len(paths))
	}
	ab := []string{"a", "b"}
	for n := 0; n <= 4; n++ {
		seqs(fmt.Sprintf("prefixes-up-to-3-bytes/%d-routes", n), n, kit.Strings(ab, 0, 3), kit.Strings(ab, 0, 4))
	}
	seqs("prefixes-up-to-2-bytes/5-routes", 5, kit.Strings(ab, 0, 2), kit.Strings(ab, 0, 3))
	seqs("unary-prefixes/5-routes", 5, kit.Strings([]string{"a"}, 0, 7), kit.Strings([]string{"a"}, 0, 8))
	seqs("bytes/3-routes", 3, kit.Strings([]string{"\x00", "/", "\x7f", "\x80", "\xff"}, 0, 2), kit.Strings([]string{"\x00", "/", "\x7f", "\x80", "\xff"}, 0, 3))
	long := []string{"", "abc", "abcd", "abce", "abcdef", "abcdefg", "abcdeg", "abcxyzu", "b"}
	longPaths := append([]string{"a", "ab", "abcdefgh", "abcdefgabc", "abcdex", "abcxyz", "abcxyzuv", "bcd", "c"}, long...)
	seqs("chunked-prefixes/4-routes", 4, long, longPaths)
	seqs("chunked-prefixes/5-routes", 5, long, longPaths)
	if r.Thorough() {
		seqs("prefixes-up-to-3-bytes/5-routes", 5, kit.Strings(ab, 0, 3), kit.Strings(ab, 0, 4))
		seqs("prefixes-up-to-2-bytes/6-routes", 6, kit.Strings(ab, 0, 2), kit.Strings(ab, 0, 3))
		seqs("prefixes-up-to-2-bytes/7-routes", 7, kit.Strings(ab, 0, 2), kit.Strings(ab, 0, 3))
		seqs("three-letters/4-routes", 4, kit.Strings([]string{"a", "b", "c"}, 0, 2), kit.Strings([]string{"a", "b", "c"}, 0, 3))
		seqs("three-letters/5-routes", 5, kit.Strings([]string{"a", "b", "c"}, 0, 2), kit.Strings([]string{"a", "b", "c"}, 0, 3))
		seqs("chunked-prefixes/6-routes", 6, long, longPaths)
		seqs("unary-prefixes/6-routes", 6, kit.Strings([]string{"a"}, 0, 7), kit.Strings([]string{"a"}, 0, 8))
	} else {
		seqs("prefixes-up-to-2-bytes/6-routes", 6, kit.Strings(ab, 0, 2), kit.Strings(ab, 0, 3))
	}
	// Long prefixes: pairs of routes whose prefixes share a long head, and all
	// the paths around every length involved.
	lens := []int{}
	for i := 0; i <= 40; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 63, 64, 65, 126, 127, 128, 129, 191, 254, 255, 256, 257, 258, 259, 383, 511, 512, 513, 600, 765, 766, 767, 768, 769, 770, 1023, 1024, 1025)
	if r.Thorough() {
		for i := 41; i <= 200; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 196607, 196608, 196609)
	}
	sort.Ints(lens)
	unit := func(n int) string {
		const u = "/abcdefghijklmnopqrstuvwxyz0123456789"
		s := strings.Repeat(u, n/len(u)+1)
		return s[:n]
	}
	before := r.Traces.Load()
	r.Each(len(lens), func(w *kit.Watch, i int) {
		for j := range lens {
			if lens[i] > 5000 && lens[j] > 64 && j != i {
				continue
			}
			a, b := unit(lens[i]), unit(lens[j])
			for v := 0; v < 4; v++ {
				pa, pb := a, b
				if v&1 != 0 {
					pa += "!x"
				}
				if v&2 != 0 {
					pb += "?yz"
				}
				paths := []string{"", pa, pb, pa + "/", pb + "q", a, b, a + "!", b + "?y", pa + pb}
				if len(pa) > 0 {
					paths = append(paths, pa[:len(pa)-1], pa[:len(pa)-1]+"~")
				}
				if len(pb) > 0 {
					paths = append(paths, pb[:len(pb)-1], pb[:len(pb)-1]+"~")
				}
				maskTable(r, w, []string{pa, pb}, paths, "long-pairs")
				maskTable(r, w, []string{pa, pb, pa[:len(pa)/2], pa}, paths, "long-pairs")
				if r.Failed() {
					return
				}
			}
		}
	})
	r.Part("long-prefixes", map[string]any{"lengths": lens, "requests": r.Traces.Load() - before})
	r.Bound("long prefixes: every pair of %d lengths up to %d bytes, with and without differing tails, and the paths around them", len(lens), lens[len(lens)-1])
	// Large tables.
	sizes := []int{1, 2, 3, 10, 63, 127, 128, 129, 255, 256, 257, 300, 511, 512, 700}
	if r.Thorough() {
		sizes = append(sizes, 1023, 1024, 2000, 4000, 9000)
	}
	orders := []string{"up", "down", "inside-out", "stride", "blocked"}
	shapes := []string{"flat", "nested", "tree", "catch-all"}
	before = r.Traces.Load()
	r.Each(len(sizes)*len(orders)*len(shapes), func(w *kit.Watch, x int) {
		n, order, shape := sizes[x%len(sizes)], orders[x/len(sizes)%len(orders)], shapes[x/len(sizes)/len(orders)]
		if shape == "nested" && n > 1100 {
			return
		}
		bigTable(r, w, n, order, shape)
	})
	r.Part("large-tables", map[string]any{"sizes": sizes, "orders": orders, "shapes": shapes, "requests": r.Traces.Load() - before})
	r.Bound("large tables: up to %d routes in %d registration orders and %d shapes", sizes[len(sizes)-1], len(orders), len(shapes))
	c01mixed(r)
	r.Sample("routes with prefixes [\"ab\" \"\" \"abc\" \"a\"], path \"abcb\", all 16 outcomes")
}

// bigTable uses real string patterns.
func bigTable(r *kit.Run, w *kit.Watch, n int, order, shape string) {
	pats := make([]string, n)
	for i := range pats {
		switch shape {
		case "flat":
			pats[i] = fmt.Sprintf("/%05d", i*7919%100000)
		case "nested":
			pats[i] = "/" + strings.Repeat("ab/", i)
		case "tree":
			pats[i] = fmt.Sprintf("/%d/%d/%d", i%7, i/7%11, i/77)
		default:
			if i%50 == 49 {
				pats[i] = fmt.Sprintf("/%d/*", i%3)
			} else {
				pats[i] = fmt.Sprintf("/%d/%d", i%3, i)
			}
		}
	}
	perm := make([]int, 0, n)
	switch order {
	case "up":
		for i := 0; i < n; i++ {
			perm = append(perm, i)
		}
	case "down":
		for i := n - 1; i >= 0; i-- {
			perm = append(perm, i)
		}
	case "inside-out":
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				perm = append(perm, n/2+i/2)
			} else {
				perm = append(perm, n/2-1-i/2)
			}
		}
		for i, p := range perm {
			perm[i] = ((p % n) + n) % n
		}
	case "stride":
		s := 37
		for n%s == 0 {
			s++
		}
		for i := 0; i < n; i++ {
			perm = append(perm, i*s%n)
		}
	default:
		for b := 0; b < n; b += 64 {
			e := b + 64
			if e > n {
				e = n
			}
			for i := e - 1; i >= b; i-- {
				perm = append(perm, i)
			}
		}
	}
	path := ""
	what := func() string {
		return fmt.Sprintf("%d routes, shape %s, registered %s, request %q", n, shape, order, abbrev1(path))
	}
	w.Case(what, func() {
		m := web.New()
		m.NotFound(notFoundHit)
		for i, p := range perm {
			m.Handle(pats[p], hit(i))
		}
		check := func(p string) bool {
			path = p
			want := int(notFoundHit)
			for i, q := range perm {
				pat := pats[q]
				if pat == path || strings.HasSuffix(pat, "*") && strings.HasPrefix(path, pat[:len(pat)-1]) {
					want = i
					break
				}
			}
			res := &rec{hit: -99}
			m.ServeHTTP(res, request("GET", path))
			r.Transitions.Add(1)
			r.Traces.Add(1)
			if res.hit != want {
				r.Violation("large", fmt.Sprintf("%s: route %d ran, expected %d", what(), res.hit, want), map[string]any{"n": n, "order": order, "shape": shape, "path": path})
				return false
			}
			return true
		}
		for _, p := range pats {
			p = strings.TrimSuffix(p, "*")
			if !check(p) || !check(p+"x") || !check(p[:len(p)-1]) {
				return
			}
		}
		for _, p := range []string{"", "/", "/zzz", "\xff"} {
			check(p)
		}
		r.States.Add(1)
	})
}

// c01mixed checks tables of real patterns of every kind with methods.
func c01mixed(r *kit.Run) {
	type kind struct {
		pat     func() web.PatternType
		matches func(path string) bool
		name    string
	}
	var kinds []kind
	for _, s := range []string{"/", "/a", "/a/*", "/:x", "/*", "/a/b", "/:x/b", "/a/:y"} {
		s := s
		pm := refStringPattern(s)
		kinds = append(kinds, kind{func() web.PatternType { return s }, func(p string) bool { _, ok := pm.match(p); return ok }, s})
	}
	for _, s := range []string{`^/a`, `/(?:a|b)$`, `/b`} {
		re := mustRef(s)
		kinds = append(kinds, kind{func() web.PatternType { return mustCompile(s) }, func(p string) bool { return re.MatchString(p) }, "regexp " + s})
	}
	methods := []string{"ANY", "GET", "POST"}
	reqm := []string{"GET", "POST", "HEAD", "PUT"}
	accepts := func(m, req string) bool {
		return m == "ANY" || m == req || m == "GET" && req == "HEAD"
	}
	paths := []string{"", "/", "/a", "/b", "/c", "/a/", "/a/b", "/a/c", "/b/b", "/ab"}
	n := kit.Pick(r, 3, 4)
	k := len(kinds) * len(methods)
	before := r.Traces.Load()
	r.Seqs(n, k, func(w *kit.Watch, seq []int) {
		var path, meth string
		what := func() string {
			var l []string
			for _, s := range seq {
				l = append(l, methods[s%len(methods)]+" "+kinds[s/len(methods)].name)
			}
			return fmt.Sprintf("routes %q, request %s %q", l, meth, path)
		}
		w.Case(what, func() {
			m := web.New()
			m.NotFound(notFoundHit)
			for i, s := range seq {
				register(m, methods[s%len(methods)], kinds[s/len(methods)].pat(), hit(i))
			}
			res := &rec{}
			for _, path = range paths {
				for _, meth = range reqm {
					want := int(notFoundHit)
					for i, s := range seq {
						if accepts(methods[s%len(methods)], meth) && kinds[s/len(methods)].matches(path) {
							want = i
							break
						}
					}
					res.hit = -99
					m.ServeHTTP(res, request(meth, path))
					if res.hit != want {
						r.Violation("mixed", fmt.Sprintf("%s: route %d ran, expected %d", what(), res.hit, want), nil)
						return
					}
				}
			}
			r.States.Add(1)
			r.Transitions.Add(int64(len(paths) * len(reqm)))
			r.Traces.Add(int64(len(paths) * len(reqm)))
		})
	})
	r.Part("mixed", map[string]any{"routes": n, "kinds": k, "requests": r.Traces.Load() - before})
	r.Bound("mixed: every sequence of %d routes over %d pattern and method combinations, %d requests each", n, k, len(paths)*len(reqm))
}

func register(m *web.Mux, method string, p web.PatternType, h web.HandlerType) {
	switch method {
	case "ANY":
		m.Handle(p, h)
	case "CONNECT":
		m.Connect(p, h)
	case "DELETE":
		m.Delete(p, h)
	case "GET":
		m.Get(p, h)
	case "HEAD":
		m.Head(p, h)
	case "OPTIONS":
		m.Options(p, h)
	case "PATCH":
		m.Patch(p, h)
	case "POST":
		m.Post(p, h)
	case "PUT":
		m.Put(p, h)
	case "TRACE":
		m.Trace(p, h)
	default:
		panic(method)
	}
}

// c02: histories of registrations, NotFound, Compile and requests.
func c02(r *kit.Run) {
	r.Rule = "state: history of table edits and requests; transition: one operation; the model is the list of routes so far and the current NotFound handler"
	type rt struct {
		method, pat string
	}
	rts := []rt{{"GET", "/a"}, {"ANY", "/a/*"}, {"ANY", "/:x"}, {"POST", "/a"}, {"ANY", "/"}}
	refs := map[string]refPat{}
	for _, x := range rts {
		refs[x.pat] = refStringPattern(x.pat)
	}
	refs["/self"] = refStringPattern("/self")
	type op struct {
		name string
		kind int // 0 register, 1 notfound, 2 compile, 3 probe all, 4 probe registering, 5 middleware
		arg  int
	}
	var ops []op
	for i, x := range rts {
		ops = append(ops, op{"register " + x.method + " " + x.pat, 0, i})
	}
	ops = append(ops, op{"NotFound(1)", 1, 1}, op{"NotFound(2)", 1, 2}, op{"Compile", 2, 0}, op{"requests", 3, 0},
		op{"request whose handler registers " + rts[0].method + " " + rts[0].pat, 4, 0},
		op{"request whose handler registers " + rts[4].method + " " + rts[4].pat, 4, 4})
	paths := []string{"/a", "/b", "/a/b", "/", "", "/self"}
	meths := []string{"GET", "POST"}
	depth := kit.Pick(r, 5, 6)
	for d := 0; d <= depth; d++ {
		r.Seqs(d, len(ops), func(w *kit.Watch, seq []int) {
			what := func() string {
				var l []string
				for _, s := range seq {
					l = append(l, ops[s].name)
				}
				return "history: " + strings.Join(l, "; ")
			}
			w.Case(what, func() {
				m := web.New()
				type reg struct {
					rt
					id int
				}
				var model []reg
				next := 0
				notFound := 0
				registerNow := -1
				add := func(x rt) {
					register(m, x.method, x.pat, hit(next))
					model = append(model, reg{x, next})
					next++
				}
				// A route whose handler edits the table.
				m.Handle("/self", web.HandlerFunc(func(c web.C, w http.ResponseWriter, q *http.Request) {
					w.(*rec).hit = -50
					if registerNow >= 0 {
						add(rts[registerNow])
					}
				}))
				model = append(model, reg{rt{"ANY", "/self"}, -50})
				n := int64(0)
				probe := func(meth, path string) bool {
					want := -1
					for _, x := range model {
						if x.method != "ANY" && x.method != meth {
							continue
						}
						p := refs[x.pat]
						if _, ok := p.match(path); ok {
							want = x.id
							break
						}
					}
					if want == -1 && notFound > 0 {
						want = -100 - notFound
					}
					res := &rec{hit: -1}
					m.ServeHTTP(res, request(meth, path))
					n++
					if res.hit != want || want == -1 && res.code != 404 {
						r.Violation("history", fmt.Sprintf("%s; then %s %q: handler %d ran (status %d), expected %d", what(), meth, path, res.hit, res.code, want), map[string]any{"ops": what()})
						return false
					}
					return true
				}
				probeAll := func() bool {
					for _, p := range paths {
						for _, meth := range meths {
							if !probe(meth, p) {
								return false
							}
						}
					}
					return true
				}
				for _, s := range seq {
					o := ops[s]
					switch o.kind {
					case 0:
						add(rts[o.arg])
					case 1:
						notFound = o.arg
						m.NotFound(hit(-100 - o.arg))
					case 2:
						m.Compile()
					case 3:
						if !probeAll() {
							return
						}
					case 4:
						registerNow = o.arg
						if !probe("GET", "/self") {
							return
						}
						registerNow = -1
					}
				}
				if !probeAll() {
					return
				}
				r.States.Add(1)
				r.Transitions.Add(int64(len(seq)))
				r.Traces.Add(n)
			})
		})
	}
	r.Bound("every history of at most %d of %d operations (5 registrations, 2 NotFound, Compile, 12 requests, 2 requests that register from within their handler), then 12 requests", depth, len(ops))
	r.Sample("register ANY /:x; requests; register GET /a; Compile; NotFound(1); requests")
}

// c05: after routing, the parameters are exactly those of the selected route (on
// top of what the caller passed in).
func c05(r *kit.Run) {
	r.Rule = "state: a routing table with an incoming context; transition: one request; the model computes the parameters from the selected route's pattern alone"
	type kind struct {
		name string
		mk   func() web.PatternType
		bind func(path string) (map[string]string, bool)
	}
	var kinds []kind
	for _, s := range []string{"/a", "/:x", "/:y/*", "/*", "/:x.:z", "/a/:y", "/:x/:x"} {
		p := refStringPattern(s)
		s := s
		kinds = append(kinds, kind{s, func() web.PatternType { return s }, p.match})
	}
	for _, s := range []string{`^/(?P<r>[a-z]+)$`, `^/(\w)(\w)?`, `^/a`, `/(?P<x>a)|/b`, `^/(?P<x>a)(?P<opt>q)?`} {
		re := mustRef(s)
		s := s
		kinds = append(kinds, kind{"regexp " + s, func() web.PatternType { return mustCompile(s) }, func(p string) (map[string]string, bool) { return refBind(re, p) }})
	}
	kinds = append(kinds, kind{"custom", func() web.PatternType { return custom{} }, custom{}.bind})
	methods := []string{"ANY", "POST"}
	paths := []string{"/", "/a", "/b", "/ab", "/a.b", "/a/b", "/a/a/", "/aq", "/aq/r", ""}
	incoming := []map[string]string{nil, {}, {"x": "outer", "keep": "1"}, {"x": "outer", "keep": "1"}}
	n := kit.Pick(r, 3, 4)
	k := len(kinds) * len(methods)
	for d := 1; d <= n; d++ {
		r.Seqs(d, k, func(w *kit.Watch, seq []int) {
			var path, meth string
			var in map[string]string
			what := func() string {
				var l []string
				for _, s := range seq {
					l = append(l, methods[s%2]+" "+kinds[s/2].name)
				}
				return fmt.Sprintf("routes %q, %s %q, incoming parameters %v", l, meth, path, in)
			}
			w.Case(what, func() {
				m := web.New()
				m.NotFound(notFoundHit)
				for i, s := range seq {
					register(m, methods[s%2], kinds[s/2].mk(), hit(i))
				}
				// The same parameters, bound by an enclosing mux.
				enclosing := web.New()
				enclosing.Handle(binder{}, m)
				for _, path = range paths {
					for _, meth = range []string{"GET", "POST"} {
						for ini := range incoming {
							in = incoming[ini]
							want := map[string]string{}
							for k, v := range in {
								want[k] = v
							}
							sel := int(notFoundHit)
							for i, s := range seq {
								if methods[s%2] != "ANY" && methods[s%2] != meth {
									continue
								}
								if b, ok := kinds[s/2].bind(path); ok {
									sel = i
									for k, v := range b {
										want[k] = v
									}
									break
								}
							}
							var c web.C
							if in != nil {
								c.URLParams = map[string]string{}
								for k, v := range in {
									c.URLParams[k] = v
								}
							}
							res := &rec{hit: -99}
							if ini == 3 {
								enclosing.ServeHTTP(res, request(meth, path))
							} else {
								m.ServeHTTPC(c, res, request(meth, path))
							}
							if res.hit != sel || !sameMap(res.params, want) {
								r.Violation("params", fmt.Sprintf("%s: handler %d got %v; expected handler %d with exactly %v", what(), res.hit, res.params, sel, want), nil)
								return
							}
							r.Traces.Add(1)
							r.Transitions.Add(1)
						}
					}
				}
				r.States.Add(1)
			})
		})
	}
	r.Bound("every sequence of at most %d routes over %d pattern kinds (string, regexp, custom) with 2 methods, %d paths, 2 request methods, 3 incoming contexts and an enclosing mux", n, k/2, len(paths))
	r.Sample("POST regexp ^/(?P<r>[a-z]+)$ then ANY /:x; GET /a binds exactly x")
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// custom is a user-defined pattern.
type custom struct{}

func (custom) Prefix() string { return "/a" }
func (custom) bind(p string) (map[string]string, bool) {
	if strings.HasPrefix(p, "/a") && strings.Contains(p, "b") {
		return map[string]string{"custom": p}, true
	}
	return nil, false
}
func (p custom) Match(r *http.Request, c *web.C) bool { _, ok := p.bind(r.URL.Path); return ok }
func (p custom) Run(r *http.Request, c *web.C) {
	if c.URLParams == nil {
		c.URLParams = map[string]string{}
	}
	c.URLParams["custom"] = r.URL.Path
}

// binder matches every request and binds two parameters.
type binder struct{ everything }

func (binder) Run(r *http.Request, c *web.C) {
	c.URLParams = map[string]string{"x": "outer", "keep": "1"}
}

// everything matches every request.
type everything struct{}

func (everything) Prefix() string                       { return "" }
func (everything) Match(r *http.Request, c *web.C) bool { return true }
func (everything) Run(r *http.Request, c *web.C)        {}

var allMethods = []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}

// c06: methods and the list of valid methods.
func c06(r *kit.Run) {
	r.Rule = "state: a routing table of method-bound routes; transition: one request with one method; the model computes the selected route and the sorted list of methods an otherwise identical request could have used"
	verbs := append([]string{"ANY"}, allMethods...)
	pats := []string{"/a", "/:x", "/b"}
	refs := map[string]refPat{}
	reqs := append(append([]string{}, allMethods...), "FOO", "get", "", "PROPFIND", "HEAD ")
	paths := []string{"/a", "/b", "/c", "/"}
	contexts := []string{"ServeHTTP", "empty Env", "Env with a value", "EnvInit layer", "Router layer", "nested mux"}
	n := kit.Pick(r, 3, 3)
	k := len(verbs) * len(pats)
	serves := func(verb, req string) bool {
		return verb == "ANY" || verb == req || verb == "GET" && req == "HEAD"
	}
	check := func(seq []int, w *kit.Watch) {
		var path, meth, ctx string
		what := func() string {
			var l []string
			for _, s := range seq {
				l = append(l, verbs[s%len(verbs)]+" "+pats[s/len(verbs)])
			}
			return fmt.Sprintf("routes %q, request %q %q, %s", l, meth, path, ctx)
		}
		w.Case(what, func() {
			mux := func() *web.Mux {
				m := web.New()
				m.NotFound(notFoundHit)
				for i, s := range seq {
					register(m, verbs[s%len(verbs)], pats[s/len(verbs)], hit(i))
				}
				return m
			}
			m := mux()
			// What a layer sees once the router has returned.
			var seen map[interface{}]interface{}
			look := func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					h.ServeHTTP(w, q)
					seen = c.Env
				})
			}
			layered := func(l web.MiddlewareType) *web.Mux {
				m := mux()
				m.Use(look)
				m.Use(l)
				return m
			}
			inited := layered(middleware.EnvInit)
			routed := mux()
			routed.Use(routed.Router)
			routed.Use(look)
			nested := web.New()
			nested.Use(middleware.EnvInit)
			nested.Use(look)
			nested.Handle(everything{}, m)
			for _, path = range paths {
				for ri, req := range reqs {
					meth = req
					sel := int(notFoundHit)
					valid := map[string]bool{}
					for i, s := range seq {
						p := refs[pats[s/len(verbs)]]
						if _, ok := p.match(path); !ok {
							continue
						}
						v := verbs[s%len(verbs)]
						for _, x := range allMethods {
							if serves(v, x) {
								valid[x] = true
							}
						}
						if sel == int(notFoundHit) && serves(v, meth) {
							sel = i
						}
					}
					var want []string
					if sel == int(notFoundHit) {
						for x := range valid {
							want = append(want, x)
						}
						sort.Strings(want)
					}
					for ci := range contexts {
						if ci != ri%len(contexts) && !(ci == (ri+len(seq))%len(contexts)) && !r.Thorough() {
							continue
						}
						ctx = contexts[ci]
						res := &rec{hit: -99}
						var c web.C
						q := request(meth, path)
						seen = nil
						switch ci {
						case 0:
							m.ServeHTTP(res, q)
							seen = res.env
						case 1:
							seen = map[interface{}]interface{}{}
							c.Env = seen
							m.ServeHTTPC(c, res, q)
						case 2:
							seen = map[interface{}]interface{}{"k": "v"}
							c.Env = seen
							m.ServeHTTPC(c, res, q)
						case 3:
							inited.ServeHTTP(res, q)
						case 4:
							routed.ServeHTTPC(c, res, q)
						case 5:
							nested.ServeHTTP(res, q)
						}
						for i, env := range []map[interface{}]interface{}{res.env, seen} {
							who := []string{"the handler", "the caller or layer"}[i]
							got, ok := env[web.ValidMethodsKey].([]string)
							_, any := env[web.ValidMethodsKey]
							if res.hit != sel || any != (want != nil) || any && !ok || strings.Join(got, ",") != strings.Join(want, ",") {
								r.Violation("methods", fmt.Sprintf("%s: handler %d, %s finds valid methods %v (present=%v); expected handler %d, valid methods %v", what(), res.hit, who, got, any, sel, want), nil)
								return
							}
							if ci == 2 && env["k"] != "v" {
								r.Violation("env", what()+": the caller's environment is not passed on to "+who, nil)
								return
							}
						}
					}
					r.Traces.Add(1)
					r.Transitions.Add(1)
				}
			}
			r.States.Add(1)
		})
	}
	setPats := func(v, p, rq, pa []string) {
		verbs, pats, reqs, paths, k = v, p, rq, pa, len(v)*len(p)
		for _, p := range pats {
			refs[p] = refStringPattern(p)
		}
	}
	setPats(verbs, pats, reqs, paths)
	for d := 0; d <= n; d++ {
		r.Seqs(d, k, func(w *kit.Watch, seq []int) { check(seq, w) })
	}
	r.Bound("every sequence of at most %d routes over %d verbs and %d patterns, %d request methods, %d paths; in %v", n, len(verbs), len(pats), len(reqs), len(paths), contexts)
	if r.Thorough() {
		// Four routes, two patterns.
		setPats(verbs, pats[:2], reqs, paths)
		r.Seqs(4, k, func(w *kit.Watch, seq []int) { check(seq, w) })
		r.Bound("every sequence of 4 routes over %d verbs and 2 patterns", len(verbs))
	}
	// Patterns with overlapping prefixes, so that routing skips around.
	setPats([]string{"ANY", "GET", "POST", "HEAD"}, []string{"/*", "/a/*", "/a/b", "/:x/b", "/a/b/*", "b"}, []string{"GET", "POST", "HEAD", "PUT", "FOO"}, []string{"/a/b", "/a/c", "/a/b/c", "/c/b", "/", "", "b"})
	nn := kit.Pick(r, 3, 4)
	for d := 2; d <= nn; d++ {
		r.Seqs(d, k, func(w *kit.Watch, seq []int) { check(seq, w) })
	}
	r.Bound("overlapping patterns: every sequence of at most %d routes over %d verbs and %d patterns, %d request methods, %d paths", nn, len(verbs), len(pats), len(reqs), len(paths))
	r.Sample("GET /a, POST /:x; PUT /a -> NotFound with valid methods GET, HEAD, POST")
}

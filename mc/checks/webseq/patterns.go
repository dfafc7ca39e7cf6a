package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/zenazn/goji/web"
	"verif.local/mc/kit"
)

func init() {
	checks["C03"] = c03
	checks["C04"] = c04
}

func mustCompile(s string) *regexp.Regexp { return regexp.MustCompile(s) }

// mustRef is the left-anchored equivalent of s.
func mustRef(s string) *regexp.Regexp { return regexp.MustCompile(`\A(?:` + s + `)`) }

// outer is a context in which an enclosing mux has bound parameters, one of them
// under a name that the patterns use too.
func outer() web.C {
	return web.C{URLParams: map[string]string{"a": "outer", "$1": "", "x": "/", "kept": "k", "*": "/tail"}}
}

// onOuter is what outer's parameters are once want is bound on top of them.
func onOuter(want map[string]string) map[string]string {
	m := outer().URLParams
	for k, v := range want {
		m[k] = v
	}
	return m
}

func refBind(re *regexp.Regexp, p string) (map[string]string, bool) {
	m := re.FindStringSubmatch(p)
	if m == nil {
		return nil, false
	}
	out := map[string]string{}
	for i, n := range re.SubexpNames() {
		if i == 0 {
			continue
		}
		if n == "" {
			n = fmt.Sprintf("$%d", i)
		}
		out[n] = m[i]
	}
	return out, true
}

// refPat is an independent reading of string patterns: a list of items, matched
// left to right.
type refItem struct {
	lit  string // literal text, or
	name string // a variable
	stop byte   // that ends before this byte (or before a slash)
}
type refPat struct {
	items []refItem
	wild  bool
}

func isBreak(b byte) bool { return b == '/' || b == '.' || b == ';' || b == ',' }

// refStringPattern reads a pattern character by character: a colon right after a
// break character starts a variable that extends up to the next break
// character, provided it has a name.
func refStringPattern(s string) refPat {
	var p refPat
	if strings.HasSuffix(s, "/*") {
		p.wild = true
		s = s[:len(s)-1]
	}
	lit := ""
	for i := 0; i < len(s); {
		if s[i] == ':' && i > 0 && isBreak(s[i-1]) && i+1 < len(s) && !isBreak(s[i+1]) {
			j := i + 1
			for j < len(s) && !isBreak(s[j]) {
				j++
			}
			stop := byte('/')
			if j < len(s) {
				stop = s[j]
			}
			p.items = append(p.items, refItem{lit: lit}, refItem{name: s[i+1 : j], stop: stop})
			lit = ""
			i = j
			continue
		}
		lit += s[i : i+1]
		i++
	}
	p.items = append(p.items, refItem{lit: lit})
	return p
}

func (p refPat) match(path string) (map[string]string, bool) {
	out := map[string]string{}
	for _, it := range p.items {
		if it.name == "" {
			if !strings.HasPrefix(path, it.lit) {
				return nil, false
			}
			path = path[len(it.lit):]
			continue
		}
		i := 0
		for i < len(path) && path[i] != '/' && path[i] != it.stop {
			i++
		}
		if i == 0 {
			return nil, false
		}
		out[it.name] = path[:i]
		path = path[i:]
	}
	if p.wild {
		out["*"] = "/" + path
		return out, true
	}
	return out, path == ""
}

// c03: every string pattern against every path.
func c03(r *kit.Run) {
	r.Rule = "state: a string pattern; transition: one request path; compared with an independent reading of the pattern syntax, through a Mux and through Match and Run directly"
	run := func(name string, patAlpha []string, patMax int, pathAlpha []string, pathMax int, pre string) {
		pats := kit.Strings(patAlpha, 0, patMax)
		paths := kit.Strings(pathAlpha, 0, pathMax)
		for i := range paths {
			paths[i] = pre + paths[i]
		}
		const chunk = 32
		before := r.Traces.Load()
		r.Each((len(pats)+chunk-1)/chunk, func(w *kit.Watch, ci int) {
			for i := ci * chunk; i < (ci+1)*chunk && i < len(pats); i++ {
				onePattern(r, w, pre+pats[i], paths)
				if r.Failed() {
					return
				}
			}
		})
		r.Part(name, map[string]any{"patterns": len(pats), "paths": len(paths), "comparisons": r.Traces.Load() - before})
		r.Bound("%s: every pattern of at most %d symbols over %q (after %q) with every path of at most %d symbols over %q", name, patMax, patAlpha, pre, pathMax, pathAlpha)
	}
	d := kit.Pick(r, 0, 1)
	run("slash-dot", []string{"/", ":", "a", ".", "*"}, 5+d, []string{"/", "a", ".", ":"}, 5+d, "")
	run("two-variables", []string{"/:a", "/:b", "/*", ".:c", "a", "/", ".", ","}, 4, []string{"/", "a", "b", ".", ","}, 5+d, "")
	run("breaks", []string{"/", ":a", ";", ",", ":"}, 5, []string{"/", "a", ";", ","}, 4+d, "/")
	run("names", []string{":", "a", "b", "/", "\u00e9", " "}, 4, []string{"/", "a", "\u00e9", " ", "\xff", "%"}, 4, "/")
	run("after-prefix", []string{"/", ":", "a", ".", "*"}, 4, []string{"/", "a", ".", "*"}, 4, "/u/:n")
	r.Sample(map[string]string{"pattern": "/:a.:c/*", "path": "/a.b/", "expected": "a=a c=b *=/"})
}

func onePattern(r *kit.Run, w *kit.Watch, pat string, paths []string) {
	path := ""
	what := func() string { return fmt.Sprintf("pattern %q, path %q", pat, path) }
	w.Case(what, func() {
		ref := refStringPattern(pat)
		m := web.New()
		m.NotFound(notFoundHit)
		m.Handle(pat, hit(1))
		p := web.ParsePattern(pat)
		req := request("GET", "")
		res := &rec{}
		for _, path = range paths {
			want, ok := ref.match(path)
			req.URL.Path = path
			res.hit, res.params = -99, nil
			m.ServeHTTP(res, req)
			if (res.hit == 1) != ok || ok && !sameMap(res.params, want) || !ok && len(res.params) != 0 {
				r.Violation("string-pattern", fmt.Sprintf("%s: matched=%v with %v; expected matched=%v with %v", what(), res.hit == 1, res.params, ok, want), map[string]any{"pattern": pat, "path": path})
				return
			}
			var c web.C
			if oc := outer(); p.Match(req, &oc) != ok || !sameMap(oc.URLParams, onOuter(nil)) {
				r.Violation("string-pattern-match", fmt.Sprintf("%s: Match with outer parameters is not %v, or changed them to %v", what(), ok, oc.URLParams), map[string]any{"pattern": pat, "path": path})
				return
			}
			if got := p.Match(req, &c); got != ok || len(c.URLParams) != 0 || c.Env != nil {
				r.Violation("string-pattern-match", fmt.Sprintf("%s: Match=%v leaving %v; expected %v and no change", what(), got, c.URLParams, ok), map[string]any{"pattern": pat, "path": path})
				return
			}
			if ok {
				if p.Run(req, &c); !sameMap(c.URLParams, want) {
					r.Violation("string-pattern-run", fmt.Sprintf("%s: Run bound %v, expected %v", what(), c.URLParams, want), map[string]any{"pattern": pat, "path": path})
					return
				}
				c = outer()
				if p.Run(req, &c); !sameMap(c.URLParams, onOuter(want)) {
					r.Violation("string-pattern-outer", fmt.Sprintf("%s: Run on top of outer parameters made %v, expected %v", what(), c.URLParams, onOuter(want)), map[string]any{"pattern": pat, "path": path})
					return
				}
				if !strings.HasPrefix(path, p.Prefix()) {
					r.Violation("string-pattern-prefix", fmt.Sprintf("%s matches but does not start with Prefix %q", what(), p.Prefix()), map[string]any{"pattern": pat, "path": path})
					return
				}
			}
			if req.URL.Path != path {
				r.Violation("string-pattern-request", what()+": the request was modified", nil)
				return
			}
		}
		r.States.Add(1)
		r.Transitions.Add(int64(len(paths)))
		r.Traces.Add(int64(len(paths)))
	})
}

// c04: every regular expression that can be spelled with a few tokens.
func c04(r *kit.Run) {
	r.Rule = "state: a regular expression; transition: one request path; compared with \\A(?:re) of package regexp, through a Mux and through Match and Run directly"
	r.Assume("package regexp implements its documented semantics")
	run := func(name string, tokens []string, max int, paths []string) {
		k := len(tokens)
		before, states := r.Traces.Load(), r.States.Load()
		for n := 0; n <= max; n++ {
			r.Seqs(n, k, func(w *kit.Watch, seq []int) {
				var sb strings.Builder
				for _, s := range seq {
					sb.WriteString(tokens[s])
				}
				oneRegexp(r, w, sb.String(), paths)
			})
		}
		r.Part(name, map[string]any{"tokens": tokens, "regexps": r.States.Load() - states, "paths": len(paths), "comparisons": r.Traces.Load() - before})
		r.Bound("%s: every valid regexp of at most %d of the tokens %q, %d paths", name, max, tokens, len(paths))
	}
	plain := kit.Strings([]string{"/", "a", "b"}, 0, 4)
	odd := kit.Strings([]string{"/", "a", "A", "\n", "\xff", "\ufffd", "\u00e9", "\xc3"}, 0, 3)
	d := kit.Pick(r, 1, 2)
	run("structure", []string{"/", "a", "b", ".", "|", "(", ")", "(?P<x>", "(?:", "*", "?", "^", "$"}, 4+d, plain)
	run("repeats", []string{"a", "b", "/", "{2}", "{0}", "{1,}", "(", ")", "|", "?", "+"}, 4+d, plain)
	run("flags-and-bytes", []string{"/", "a", "\u00e9", "\ufffd", "[a\u00e9]", "(?i)", "(?i:", ")", "(?s)", "(?m)^", ".", `\b`, `\A`, `\x{fffd}`, `\Qa|b\E`, "|", `\pL`, "[^a]", `\Q`}, 3+d-1+d/2, odd)
	run("anchors", []string{"^", "$", `\A`, `\z`, `\b`, `\B`, "(?m)", "(", ")", "|", "a", "/", "*"}, 3+d, plain)
	r.Sample(map[string]string{"regexp": "/a|b", "path": "/b", "expected": "no match (left-anchored alternatives)"})
}

func oneRegexp(r *kit.Run, w *kit.Watch, s string, paths []string) {
	re, err := regexp.Compile(s)
	if err != nil {
		return
	}
	if s == "" {
		re = regexp.MustCompile("")
	}
	path := ""
	what := func() string { return fmt.Sprintf("regexp %q, path %q", s, path) }
	w.Case(what, func() {
		ref, err := regexp.Compile(`\A(?:` + s + `)`)
		if err != nil {
			ref = regexp.MustCompile(`\A(?:` + s + `\E)`) // unclosed \Q
		}
		m := web.New()
		m.NotFound(notFoundHit)
		m.Handle(re, hit(1))
		p := web.ParsePattern(re)
		pre := p.Prefix()
		req := request("GET", "")
		res := &rec{}
		for _, path = range paths {
			want, ok := refBind(ref, path)
			req.URL.Path = path
			res.hit, res.params = -99, nil
			m.ServeHTTP(res, req)
			if (res.hit == 1) != ok || ok && !sameMap(res.params, want) || !ok && len(res.params) != 0 {
				r.Violation("regexp", fmt.Sprintf("%s: matched=%v with %v; expected matched=%v with %v (prefix %q, valid UTF-8 %v)", what(), res.hit == 1, res.params, ok, want, pre, utf8.ValidString(path)), map[string]any{"regexp": s, "path": path})
				return
			}
			var c web.C
			if oc := outer(); p.Match(req, &oc) != ok || !sameMap(oc.URLParams, onOuter(nil)) {
				r.Violation("regexp-match", fmt.Sprintf("%s: Match with outer parameters is not %v, or changed them to %v", what(), ok, oc.URLParams), map[string]any{"regexp": s, "path": path})
				return
			}
			if got := p.Match(req, &c); got != ok || len(c.URLParams) != 0 {
				r.Violation("regexp-match", fmt.Sprintf("%s: Match=%v leaving %v; expected %v and no change", what(), got, c.URLParams, ok), map[string]any{"regexp": s, "path": path})
				return
			}
			if ok {
				if p.Run(req, &c); !sameMap(c.URLParams, want) {
					r.Violation("regexp-run", fmt.Sprintf("%s: Run bound %v, expected %v", what(), c.URLParams, want), map[string]any{"regexp": s, "path": path})
					return
				}
				c = outer()
				if p.Run(req, &c); !sameMap(c.URLParams, onOuter(want)) {
					r.Violation("regexp-outer", fmt.Sprintf("%s: Run on top of outer parameters made %v, expected %v", what(), c.URLParams, onOuter(want)), map[string]any{"regexp": s, "path": path})
					return
				}
				if !strings.HasPrefix(path, pre) {
					r.Violation("regexp-prefix", fmt.Sprintf("%s matches but does not start with Prefix %q", what(), pre), map[string]any{"regexp": s, "path": path})
					return
				}
			}
		}
		r.States.Add(1)
		r.Transitions.Add(int64(len(paths)))
		r.Traces.Add(int64(len(paths)))
	})
}

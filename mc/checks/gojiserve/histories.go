package main

import (
	"bufio"
	"fmt"
	"net"
	"regexp"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/kit"
)

// The events of a history.
const (
	evQuick    = "quick request"
	evStd      = "request to a handler of package net/http"
	evPanic    = "request to a handler that panics"
	evOptions  = "OPTIONS request"
	evNone     = "request nobody handles"
	evLate     = "registration of another route and a request to it"
	evSlow     = "slow request"
	evRelease  = "end of the oldest slow request"
	evKeep     = "request on a connection that stays open"
	evAgain    = "another request on the open connection"
	evInt      = "SIGINT at once"
	evIntLater = "SIGINT 2.5 s after the signal before"
	evUsr      = "SIGUSR2 at once"
	evTerm     = "SIGTERM"
	evShutdown = "graceful.Shutdown"
	evNow      = "graceful.ShutdownNow"
)

// model is what should be the case after a history.
type model struct {
	einhorn bool
	drain   bool
	slow    int // slow requests that are going on
	made    int
	keep    bool
	late    bool
	signals int
	over    string // how the process ended
}

// next says what an event leads to; ok is false if it makes no sense.
func (m model) next(e string) (n model, ok bool) {
	n = m
	if m.over != "" {
		return m, false
	}
	shut := func(force bool) {
		n.drain = true
		n.keep = false
		if force {
			n.slow = 0
		}
	}
	switch e {
	case evQuick:
		// While draining it is to be refused.
	case evStd, evPanic, evOptions, evNone:
		ok = !m.drain
		if !ok {
			return
		}
	case evLate:
		if m.drain || m.late {
			return m, false
		}
		n.late = true
	case evSlow:
		if m.drain || m.made == 2 {
			return m, false
		}
		n.slow++
		n.made++
	case evRelease:
		if m.slow == 0 {
			return m, false
		}
		n.slow--
	case evKeep:
		if m.drain || m.keep {
			return m, false
		}
		n.keep = true
	case evAgain:
		if !m.keep {
			return m, false
		}
	case evInt, evIntLater, evUsr:
		if e == evUsr && !m.einhorn {
			// Go programs ignore it.
			return n, true
		}
		if e == evIntLater && m.signals == 0 {
			return m, false
		}
		shut(e != evIntLater && m.signals > 0)
		n.signals++
	case evTerm:
		n.over = "killed by terminated"
		return n, true
	case evShutdown:
		shut(false)
	case evNow:
		shut(true)
	}
	if n.drain && n.slow == 0 {
		n.over = "exit 0"
	}
	return n, true
}

type history struct {
	events []string
	job    job
	src    source
}

func (h history) String() string {
	return fmt.Sprintf("goji.%s %s, listening by %s, flags parsed before %v: %s", h.job.Entry, h.job.Kind, h.src.name, h.job.Parsed, strings.Join(h.events, "; "))
}

var logLine = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d\.\d{6} `)

type slowReq struct {
	c  net.Conn
	rd *bufio.Reader
	n  int
}

// gone says whether the connection was closed by the other side.
func gone(rd *bufio.Reader) error {
	b, err := rd.ReadByte()
	if err == nil {
		return fmt.Errorf("more data: %q", b)
	}
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return fmt.Errorf("it stays open")
	}
	return nil
}

// play runs a history; it returns what is wrong, or "". again is set if the
// timing did not work out.
func play(h history) (wrong string, again bool) {
	p, err := start(h.job, h.src)
	if err != nil {
		return "cannot start: " + err.Error(), false
	}
	defer p.close()
	if err := p.up(h.job, h.src); err != nil {
		return err.Error(), false
	}
	if h.src.einhorn {
		if !p.wait(func() bool { return p.ended || len(p.acks) > 0 }) || p.ended {
			return "it does not report to einhorn", false
		}
	}
	m := model{einhorn: h.src.einhorn}
	var slow []slowReq
	var keep slowReq
	var last time.Time // of the signal before
	defer func() {
		for _, s := range slow {
			s.c.Close()
		}
		if keep.c != nil {
			keep.c.Close()
		}
	}()
	want := func(method, path, res string) string {
		// Serving may begin a little after the message says so.
		got, err := p.request(method, path)
		if err != nil {
			return fmt.Sprintf("%s %s failed: %v", method, path, err)
		}
		if got != res {
			return fmt.Sprintf("%s %s gave %q, not %q", method, path, got, res)
		}
		return ""
	}
	extra := "unset"
	for _, a := range h.src.args {
		if v, ok := strings.CutPrefix(a, "-extra="); ok {
			extra = v
		}
	}
	if h.job.Parsed {
		extra = "fixed"
	}
	// The listener is there before signals are handled; once it answers, they
	// are.
	if msg := want("GET", "/quick/warm", "200 quick warm "+extra); msg != "" {
		return msg, false
	}
	events := h.events
	// Every history is played to the end of the process.
	for n := m; ; {
		if len(events) > 0 {
			for _, e := range events {
				n, _ = n.next(e)
			}
		}
		events = append([]string(nil), h.events...)
		for n.over == "" {
			e := evInt
			switch {
			case n.slow > 0:
				e = evRelease
			}
			events = append(events, e)
			n, _ = n.next(e)
		}
		break
	}
	for i, e := range events {
		n, ok := m.next(e)
		if !ok {
			return fmt.Sprintf("the check is wrong: event %d", i+1), false
		}
		fail := func(f string, args ...interface{}) (string, bool) {
			p.mu.Lock()
			defer p.mu.Unlock()
			return fmt.Sprintf("event %d (%s): %s\n%s", i+1, e, fmt.Sprintf(f, args...), tail(p.stderr)), false
		}
		msg := ""
		switch e {
		case evQuick:
			if !m.drain {
				msg = want("GET", "/quick/joe", "200 quick joe "+extra)
			} else if p.inh == nil {
				c, err := net.Dial(p.network, p.addr)
				if err == nil {
					c.Close()
					msg = "a connection is taken during the shutdown"
				}
			}
		case evStd:
			if msg = want("GET", "/std/x", "200 standard"); msg == "" {
				got, err := p.request("GET", "/debug/vars")
				if err != nil || !strings.Contains(got, `"check": "expvar works"`) {
					msg = fmt.Sprintf("expvar: %v %s", err, got)
				}
			}
		case evPanic:
			msg = want("GET", "/panic", "500 Internal Server Error")
		case evOptions:
			if msg = want("OPTIONS", "/quick/x", "200  Allow GET, HEAD, OPTIONS"); strings.Contains(msg, "gave") {
				got, _ := p.request("OPTIONS", "/quick/x")
				msg = ""
				for _, v := range []string{"200", "GET", "HEAD", "OPTIONS"} {
					if !strings.Contains(got, v) {
						msg = "OPTIONS gave " + got
					}
				}
			}
		case evNone:
			msg = want("GET", "/nowhere", "404 nothing here")
		case evLate:
			if msg = want("GET", "/late", "404 nothing here"); msg != "" {
				break
			}
			p.send("late")
			if !p.wait(func() bool { return p.ended || has(p.stdout, "registered") }) {
				msg = "registering a route takes forever"
				break
			}
			msg = want("GET", "/late", "200 late")
		case evSlow, evKeep, evAgain:
			if e == evAgain {
				if err := ask(keep.c, "GET", "/quick/again", false); err != nil {
					msg = err.Error()
				} else if got, err := answer(keep.rd); err != nil || got != "200 quick again "+extra {
					msg = fmt.Sprintf("it gave %q, %v", got, err)
				}
				break
			}
			c, err := p.dial()
			if err != nil {
				msg = err.Error()
				break
			}
			rq := slowReq{c, bufio.NewReader(c), n.made}
			if e == evKeep {
				keep = rq
				ask(c, "GET", "/quick/keep", false)
				if got, err := answer(rq.rd); err != nil || got != "200 quick keep "+extra {
					msg = fmt.Sprintf("it gave %q, %v", got, err)
				}
				break
			}
			slow = append(slow, rq)
			ask(c, "GET", fmt.Sprintf("/slow/%d", rq.n), false)
			if !p.wait(func() bool { return p.ended || has(p.stdout, fmt.Sprintf("entered %d", rq.n)) }) {
				msg = "its handler is not called"
			}
		case evRelease:
			rq := slow[0]
			slow = slow[1:]
			p.send("release %d", rq.n)
			if got, err := answer(rq.rd); err != nil || got != fmt.Sprintf("200 begin end %d", rq.n) {
				msg = fmt.Sprintf("it gave %q, %v", got, err)
			} else if m.drain {
				if err := gone(rq.rd); err != nil {
					msg = fmt.Sprintf("its connection: %v", err)
				}
			}
			rq.c.Close()
		case evInt, evIntLater, evUsr:
			if e == evIntLater {
				time.Sleep(time.Until(last.Add(2500 * time.Millisecond)))
			}
			s := syscall.SIGINT
			if e == evUsr {
				s = syscall.SIGUSR2
			}
			before := time.Now()
			p.signal(s)
			after := time.Now()
			if e == evUsr && !h.src.einhorn {
				time.Sleep(20 * time.Millisecond)
				break
			}
			if !last.IsZero() && e != evIntLater && after.Sub(last) > 1500*time.Millisecond {
				return "", true
			}
			last = before
			if e == evIntLater {
				// Long enough for it to arrive.
				last = after
				time.Sleep(100 * time.Millisecond)
			}
		case evTerm:
			p.signal(syscall.SIGTERM)
		case evShutdown:
			p.send("shutdown")
		case evNow:
			p.send("now")
		}
		if msg != "" {
			return fail("%s", msg)
		}
		// What the event leads to.
		if n.drain && !m.drain {
			if !p.wait(func() bool { return p.ended || has(p.stderr, "Goji received signal, gracefully stopping") }) {
				return fail("nothing is logged about a shutdown")
			}
			if keep.c != nil {
				if err := gone(keep.rd); err != nil {
					return fail("the idle connection: %v", err)
				}
				keep.c.Close()
				keep.c = nil
			}
			if n.over == "" && p.inh == nil {
				// From some time on there is nobody to connect to.
				deadline := time.Now().Add(patience)
				for {
					c, err := net.Dial(p.network, p.addr)
					if err != nil {
						break
					}
					c.Close()
					if time.Now().After(deadline) {
						return fail("connections are still taken")
					}
					time.Sleep(time.Millisecond)
				}
			}
		}
		if n.drain && n.slow == 0 && e != evRelease {
			for _, rq := range slow {
				if got, err := answer(rq.rd); err == nil {
					return fail("slow request %d is not cut off but gave %q", rq.n, got)
				} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
					return fail("slow request %d goes on", rq.n)
				}
				rq.c.Close()
			}
			slow = nil
		}
		if n.over != "" {
			if got := p.end(); got != n.over {
				return fail("the process: %s, and not %s", got, n.over)
			}
			if n.over == "exit 0" && !has(p.stdout, "returned") {
				return fail("goji.%s does not return", h.job.Entry)
			}
		} else {
			p.mu.Lock()
			ended := p.ended || has(p.stdout, "returned") || has(p.stderr, "Goji stopped")
			p.mu.Unlock()
			if ended {
				return fail("the process ended too early")
			}
			for _, rq := range slow {
				// The beginning of the response has been sent, and no more.
				rq.c.SetReadDeadline(time.Now().Add(time.Millisecond))
				if _, err := rq.rd.Peek(4096); err != nil {
					if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
						return fail("slow request %d: %v", rq.n, err)
					}
				}
				rq.c.SetReadDeadline(time.Now().Add(patience))
			}
		}
		m = n
	}
	// What was logged.
	var said []string
	for _, l := range p.stderr {
		for _, x := range []string{"Starting Goji on ", "Goji received signal, gracefully stopping", "Goji stopped"} {
			if strings.Contains(l, x) {
				said = append(said, x)
				if !logLine.MatchString(l) {
					return "a message without microseconds: " + l, false
				}
			}
		}
	}
	wantSaid := "Starting Goji on "
	if m.drain {
		wantSaid += ";Goji received signal, gracefully stopping"
	}
	if m.over == "exit 0" {
		wantSaid += ";Goji stopped"
	}
	if got := strings.Join(said, ";"); got != wantSaid {
		return fmt.Sprintf("it logged %s, and not %s", got, wantSaid), false
	}
	if h.src.einhorn {
		if w := fmt.Sprintf("{\"command\": \"worker:ack\", \"pid\": %d}\n", p.cmd.Process.Pid); len(p.acks) != 1 || p.acks[0] != w {
			return fmt.Sprintf("it reported to einhorn %q", p.acks), false
		}
	}
	return "", false
}

// judge plays a history; what is wrong counts if it is wrong three times.
func judge(r *kit.Run, key string, h history) {
	wrong := ""
	for i, odd := 0, 0; i < 3; i++ {
		w, again := play(h)
		if again {
			if odd++; odd == 8 {
				r.Incomplete()
				return
			}
			i--
			continue
		}
		if w == "" {
			wrong = ""
			break
		}
		wrong = w
	}
	r.Traces.Add(1)
	r.Transitions.Add(int64(len(h.events)))
	if wrong != "" {
		r.Violation(key, h.String()+": "+wrong, nil)
	}
}

var tcpFlag = source{name: "flag", args: []string{"-bind=127.0.0.1:0"}}
var einhornSrc = source{name: "einhorn", inherited: true, einhorn: true, env: []string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=1", "EINHORN_FD_0=3", "EINHORN_SOCK_PATH=CTL"}}

func histories(r *kit.Run) {
	depth := kit.Pick(r, 3, 5)
	events := []string{evQuick, evStd, evPanic, evOptions, evNone, evLate, evSlow, evRelease, evKeep, evAgain, evInt, evIntLater, evUsr, evTerm, evShutdown, evNow}
	// Requests of which each is independent of all others are put into one
	// event in longer histories.
	var all []history
	states := map[string]bool{}
	var grow func(m model, src source, l []string, max int)
	grow = func(m model, src source, l []string, max int) {
		states[fmt.Sprint(m)] = true
		if m.over != "" || len(l) == max {
			all = append(all, history{append([]string(nil), l...), job{Entry: "Serve"}, src})
			return
		}
		for _, e := range events {
			if n, ok := m.next(e); ok {
				grow(n, src, append(l[:len(l):len(l)], e), max)
			}
		}
	}
	grow(model{}, tcpFlag, nil, depth)
	// The rules of shutting down, deeper.
	events = []string{evSlow, evRelease, evKeep, evInt, evIntLater, evUsr, evShutdown, evNow, evQuick}
	grow(model{}, tcpFlag, nil, depth+1)
	grow(model{einhorn: true}, einhornSrc, nil, depth)
	all = dedupe(all)
	r.States.Add(int64(len(states)))
	r.Parallel(len(all), func(i int) { judge(r, "history", all[i]) })
	r.Bound("all %d histories of at most %d events out of 16, and of at most %d of 9 that matter for shutting down; the latter under einhorn, too", len(all), depth, depth+1)
}

func dedupe(l []history) []history {
	seen := map[string]bool{}
	var out []history
	for _, h := range l {
		if k := h.String(); !seen[k] {
			seen[k] = true
			out = append(out, h)
		}
	}
	return out
}

// sources checks every way of getting a listener with every entry point.
func sources(r *kit.Run) {
	list := []source{
		tcpFlag,
		{name: "two dashes and an application flag", args: []string{"--bind", "127.0.0.1:0", "-extra=given"}},
		{name: "flag for a unix socket", args: []string{"-bind", "./x.sock"}},
		{name: "GOJI_BIND", env: []string{"GOJI_BIND=127.0.0.1:0"}},
		{name: "GOJI_BIND for a unix socket", env: []string{"GOJI_BIND=./y.sock", "PORT=1"}},
		{name: "PORT", env: []string{"PORT=0"}},
		{name: "systemd", inherited: true, env: []string{"LISTEN_PID=OWN", "LISTEN_FDS=1", "PORT=1"}},
		{name: "flag for a descriptor", inherited: true, args: []string{"-bind=fd@3"}, env: []string{"GOJI_BIND=127.0.0.1:1"}},
		{name: "flag against einhorn", args: []string{"-bind=127.0.0.1:0"}, env: einhornSrc.env, einhorn: true},
		{name: "GOJI_BIND against systemd", args: []string{"-extra=yes"}, env: []string{"LISTEN_PID=OWN", "LISTEN_FDS=1", "GOJI_BIND=127.0.0.1:0"}},
		einhornSrc,
	}
	requests := []string{evQuick, evStd, evPanic, evOptions, evNone, evLate, evKeep, evSlow, evAgain, evSlow}
	ends := [][]string{
		{evInt, evQuick, evRelease, evRelease}, {evInt, evRelease, evInt}, {evShutdown, evRelease, evQuick, evRelease}, {evUsr}, {evTerm}, {evNow},
	}
	var all []history
	for _, entry := range []string{"Serve", "ServeTLS"} {
		for _, s := range list {
			for _, parsed := range []bool{false, true} {
				for _, e := range ends {
					all = append(all, history{append(append([]string(nil), requests...), e...), job{Entry: entry, Parsed: parsed}, s})
				}
			}
		}
	}
	for _, kind := range []string{"tcp", "other", "unix", "tls"} {
		for _, s := range []source{{name: "its argument"}, {name: "its argument, under einhorn", env: einhornSrc.env, einhorn: true}} {
			for _, e := range ends {
				all = append(all, history{append(append([]string(nil), requests...), e...), job{Entry: "ServeListener", Kind: kind, Parsed: true}, s})
			}
		}
	}
	// Histories that are over earlier have no more events.
	for i, h := range all {
		m := model{einhorn: h.src.einhorn}
		for k, e := range h.events {
			n, ok := m.next(e)
			if !ok {
				all[i].events = h.events[:k]
				break
			}
			m = n
		}
	}
	r.Parallel(len(all), func(i int) { judge(r, "source", all[i]) })
	r.States.Add(int64(len(list)*2 + 8))
	r.Bound("%d ways of getting a listener with goji.Serve and goji.ServeTLS, 4 kinds of listener with goji.ServeListener, %d ways to end", len(list), len(ends))
}

// reports checks that whoever hears that the process is ready can stop it.
func reports(r *kit.Run) {
	var jobs []job
	for _, e := range []string{"Serve", "ServeTLS"} {
		jobs = append(jobs, job{Entry: e, AtAck: true})
	}
	for _, k := range []string{"tcp", "other", "unix", "tls"} {
		jobs = append(jobs, job{Entry: "ServeListener", Kind: k, AtAck: true})
	}
	r.Parallel(len(jobs), func(i int) {
		got := ""
		for try := 0; try < 3 && got != "exit 0"; try++ {
			p, err := start(jobs[i], einhornSrc)
			if err != nil {
				r.Errorf("%v", err)
				return
			}
			got = p.end()
			p.close()
		}
		r.Traces.Add(1)
		r.Transitions.Add(1)
		if got != "exit 0" {
			r.Violation("report", fmt.Sprintf("goji.%s %s: SIGUSR2 arrives when it reports to einhorn: %s", jobs[i].Entry, jobs[i].Kind, got), nil)
		}
	})
	r.Bound("a signal at the time of the report to einhorn, with every entry point")
}

// failures checks that what cannot be served ends the process with a message.
func failures(r *kit.Run) {
	busy, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Errorf("%v", err)
		return
	}
	defer busy.Close()
	type fcase struct {
		j       job
		s       source
		message string
	}
	var all []fcase
	for _, entry := range []string{"Serve", "ServeTLS"} {
		for _, parsed := range []bool{false, true} {
			j := job{Entry: entry, Parsed: parsed}
			all = append(all,
				fcase{j, source{name: "a busy address", args: []string{"-bind", busy.Addr().String()}}, "address already in use"},
				fcase{j, source{name: "nonsense", args: []string{"-bind", "nonsense"}}, "nonsense"},
				fcase{j, source{name: "a missing descriptor", args: []string{"-bind", "fd@77"}}, ""},
				fcase{j, source{name: "einhorn without einhorn", args: []string{"-bind", "einhorn@0"}}, "einhorn"},
				fcase{j, source{name: "a missing directory", env: []string{"GOJI_BIND=./none/x.sock"}}, "x.sock"},
				fcase{j, source{name: "an unknown flag", args: []string{"-nonsense"}}, "nonsense"})
		}
	}
	for _, kind := range []string{"tcp", "other"} {
		all = append(all,
			fcase{job{Entry: "ServeListener", Kind: kind, Fail: "error"}, source{name: "a broken listener"}, "the listener is broken"},
			fcase{job{Entry: "ServeListener", Kind: kind, Fail: "closed"}, source{name: "a closed listener"}, "closed"},
			// Being ready cannot be reported.
			fcase{job{Entry: "ServeListener", Kind: kind}, source{name: "einhorn without a control socket", env: []string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=1", "EINHORN_FD_0=3", "EINHORN_SOCK_PATH=./nothing"}}, "nothing"})
	}
	r.Parallel(len(all), func(i int) {
		f := all[i]
		what := fmt.Sprintf("goji.%s %s with %s", f.j.Entry, f.j.Kind, f.s.name)
		p, err := start(f.j, f.s)
		if err != nil {
			r.Errorf("%v", err)
			return
		}
		defer p.close()
		got := p.end()
		r.Traces.Add(1)
		r.Transitions.Add(1)
		p.mu.Lock()
		defer p.mu.Unlock()
		text := strings.Join(p.stderr, "\n")
		if !strings.HasPrefix(got, "exit ") || got == "exit 0" || got == "exit 99" || !strings.Contains(text, f.message) || has(p.stdout, "returned") || strings.Contains(text, "goroutine ") {
			r.Violation("failure", fmt.Sprintf("%s: the process: %s\n%s", what, got, tail(p.stderr)), nil)
		}
	})
	r.States.Add(int64(len(all)))
	r.Bound("%d ways to fail", len(all))
}

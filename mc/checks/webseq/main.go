// Exhaustive bounded checks of the web, web/middleware and web/mutil packages
// and of the default mux against reference models (C01 to C21, except the ones
// that need schedules).
package main

import (
	"flag"
	"log"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"strconv"
	"strings"
	_ "time/tzdata"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif.local/mc/kit"
)

var checks = map[string]func(*kit.Run){}

// rec is a cheap response writer: handlers of the checks store what they saw.
type rec struct {
	hdr    http.Header
	hit    int
	runs   int
	params map[string]string
	env    map[interface{}]interface{}
	code   int
}

func (w *rec) Header() http.Header {
	if w.hdr == nil {
		w.hdr = http.Header{}
	}
	return w.hdr
}
func (w *rec) Write(b []byte) (int, error) { return len(b), nil }
func (w *rec) WriteHeader(c int)           { w.code = c }

// hit is a handler that says which it was.
type hit int

const notFoundHit hit = -7

func (h hit) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	x := w.(*rec)
	x.hit = int(h)
	x.runs++
	x.params = c.URLParams
	x.env = c.Env
}

func request(method, path string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}}
}

// guard drops what is logged, except that the last words of a program that is
// about to end turn into a panic, which the check reports.
type guard struct{}

func (guard) Write(b []byte) (int, error) {
	var pcs [8]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic("log.Fatal: " + string(b))
		}
		if !more {
			return len(b), nil
		}
	}
}

func main() {
	flag.Parse()
	if *kit.Prop == "expires" {
		// Helper process of C20.
		x := &rec{}
		middleware.NoCache(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {})).ServeHTTP(x, request("GET", "/"))
		os.Stdout.WriteString(x.Header().Get("Expires"))
		return
	}
	if *kit.Prop == "refuse" {
		// Helper process of C11.
		i, _ := strconv.Atoi(*kit.Only)
		m := web.New()
		m.Use(middleware.EnvInit)
		refuseAttempts()[i].do(m, 7)
		return
	}
	log.SetOutput(guard{})
	f, ok := checks[*kit.Prop]
	if !ok {
		println("unknown property", *kit.Prop)
		os.Exit(2)
	}
	r := kit.New(*kit.Prop)
	f(r)
	r.Finish()
}

package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"log"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/zenazn/goji/bind"
)

func cloexec(fd int) (set, open bool) {
	v, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFD, 0)
	return v&syscall.FD_CLOEXEC != 0, e == 0
}

func inode(fd int) (uint64, bool) {
	var st syscall.Stat_t
	if syscall.Fstat(fd, &st) != nil {
		return 0, false
	}
	return st.Ino, true
}

// fatal is what the log package panics with instead of ending the process.
type fatal string

type fatalWriter struct{}

func (fatalWriter) Write(b []byte) (int, error) { panic(fatal(b)) }

// socket binds and returns the error that would have ended the process.
func socket(f func() net.Listener) (l net.Listener, err error) {
	log.SetOutput(fatalWriter{})
	defer func() {
		log.SetOutput(os.Stderr)
		if x := recover(); x != nil {
			f, ok := x.(fatal)
			if !ok {
				panic(x)
			}
			err = errors.New(strings.TrimSpace(string(f)))
		}
	}()
	l = f()
	if l == nil {
		err = errors.New("returned nil")
	}
	return
}

func child(arg string) {
	// First of all, what initialisation left behind.
	rep := report{Cloexec: map[int]bool{}}
	inos := map[uint64]bool{}
	for fd := 3; fd <= 6; fd++ {
		if set, open := cloexec(fd); open {
			rep.Cloexec[fd] = set
		}
		if i, ok := inode(fd); ok && fd < 6 {
			inos[i] = true
		}
	}
	var j job
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		panic(err)
	}
	if j.DefaultBind != "" {
		bind.DefaultBind = j.DefaultBind
	}
	flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
	rep.Sniff = bind.Sniff()
	bind.WithFlag()
	if f := flag.Lookup("bind"); f != nil {
		rep.Default = f.DefValue
	} else {
		rep.Default = "no flag"
	}
	if len(j.Strings) > 0 {
		compare(&rep, j)
	}
	if err := flag.CommandLine.Parse(j.Args); err != nil {
		panic(err)
	}
	if j.Exit != "" {
		if j.UseDefault {
			bind.Default()
		} else {
			bind.Socket(j.Exit)
		}
		rep.Returned = true
		json.NewEncoder(os.Stdout).Encode(rep)
		os.Exit(0)
	}
	if j.UseDefault {
		l, err := socket(bind.Default)
		rep.result("default", l, err, "")
	}
	var open []net.Listener
	first := [3]uint64{}
	for i := range first {
		first[i], _ = inode(3 + i)
	}
	for i, b := range j.Binds {
		l, err := socket(func() net.Listener { return bind.Socket(b) })
		d := ""
		if i < len(j.Dial) {
			d = j.Dial[i]
		}
		rep.result(b, l, err, d)
		if err == nil {
			open = append(open, l)
		}
	}
	if len(j.Binds) > 0 {
		ents, _ := os.ReadDir("/proc/self/fd")
		for _, e := range ents {
			fd, _ := strconv.Atoi(e.Name())
			if i, ok := inode(fd); ok && inos[i] {
				if set, open := cloexec(fd); open && !set {
					rep.Leaks = append(rep.Leaks, fmt.Sprint(fd))
				}
			}
		}
	}
	if len(open) > 0 {
		for _, l := range open {
			if u, ok := l.(*net.UnixListener); ok {
				u.SetUnlinkOnClose(false) // the supervisor's
			}
			l.Close()
		}
		ents, _ := os.ReadDir("/proc/self/fd")
		for _, e := range ents {
			fd, _ := strconv.Atoi(e.Name())
			for i, x := range first {
				if y, ok := inode(fd); ok && x == y {
					rep.Open = append(rep.Open, fmt.Sprint(3+i))
				}
			}
		}
	}
	if j.Concurrent {
		var wg sync.WaitGroup
		for i := 0; i < j.Ready; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); bind.Ready() }()
		}
		wg.Wait()
	} else {
		for i := 0; i < j.Ready; i++ {
			bind.Ready()
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

func (rep *report) result(name string, l net.Listener, err error, dial string) {
	x := bindResult{Bind: name, Dial: dial}
	if err != nil {
		x.Err = err.Error()
		rep.Results = append(rep.Results, x)
		return
	}
	x.Net, x.Addr = l.Addr().Network(), l.Addr().String()
	if dial != "" {
		nw, addr, _ := strings.Cut(dial, " ")
		done := make(chan bool, 1)
		go func() {
			c, err := l.Accept()
			if err == nil {
				b := make([]byte, 4)
				n, _ := c.Read(b)
				c.Write(b[:n])
				c.Close()
			}
			done <- err == nil
		}()
		c, err := net.Dial(nw, addr)
		if err == nil {
			c.SetDeadline(time.Now().Add(15 * time.Second))
			c.Write([]byte("ping"))
			b := make([]byte, 4)
			n, _ := c.Read(b)
			x.Accepted = string(b[:n]) == "ping" && <-done
			c.Close()
		}
	}
	rep.Results = append(rep.Results, x)
}

// compare binds each string, and has net.Listen bind what it stands for.
func compare(rep *report, j job) {
	list := j.Strings
	// Sockets are only made in a fresh directory, by somebody without rights.
	dir, err := os.MkdirTemp(".", "s")
	if err == nil {
		os.Chmod(dir, 0o777)
		err = os.Chdir(dir)
	}
	if err != nil {
		panic(err)
	}
	if os.Getuid() == 0 {
		syscall.Setgroups(nil)
		syscall.Setgid(65534)
		if err := syscall.Setuid(65534); err != nil {
			rep.Attempt = "cannot give up root: " + err.Error()
		}
	}
	if j.Existing {
		defer populate()()
	}
	cwd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	before := files(".")
	for _, form := range list {
		// ABS stands for the path of the directory.
		s := form
		if t, ok := strings.CutPrefix(form, "ABS"); ok {
			s = cwd + t
		} else if rep.Attempt != "" && strings.HasPrefix(s, "/") {
			continue
		}
		rep.Strings++
		kind := ""
		switch {
		case strings.Contains(s, ":"):
			kind = "tcp"
		case strings.HasPrefix(s, "."), strings.HasPrefix(s, "/"):
			kind = "unix"
		}
		got := func() string {
			l, err := socket(func() net.Listener { return bind.Socket(s) })
			return describe(l, err)
		}
		want := func() string {
			if kind == "" {
				return "error"
			}
			return describe(net.Listen(kind, s))
		}
		w := want()
		if form == "ABS/new" && w == "error" {
			rep.Attempt = "no socket can be made under the path " + s
		}
		g := got()
		for try := 0; g != w && kind == "tcp" && try < 3; try++ { // the port may have been taken meanwhile
			w, g = want(), got()
		}
		if g != w {
			rep.MismatchString = form
			rep.Mismatch = fmt.Sprintf("the address %q gives %s, wanted %s (%s)", s, g, w, map[string]string{"tcp": "a TCP address", "unix": "the path of a UNIX socket", "": "no form of address"}[kind])
			return
		}
		if after := files("."); after != before {
			rep.MismatchString = form
			rep.Mismatch = fmt.Sprintf("the address %q changes the directory from [%s] to [%s]", s, before, after)
			return
		}
	}
}

// populate makes files of all kinds in the current directory.
func populate() func() {
	ok := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	ok(os.WriteFile("file", []byte("contents"), 0o644))
	ok(os.WriteFile("empty", nil, 0o644))
	ok(os.Mkdir("dir", 0o755))
	ok(os.WriteFile("dir/file", nil, 0o644))
	ok(os.Symlink("file", "link"))
	ok(os.Symlink("nothing", "dangling"))
	ok(os.Symlink("dir", "dirlink"))
	ok(syscall.Mkfifo("fifo", 0o644))
	l, err := net.Listen("unix", "./live")
	ok(err)
	s, err := net.Listen("unix", "./stale")
	ok(err)
	s.(*net.UnixListener).SetUnlinkOnClose(false)
	s.Close()
	return func() { l.Close() }
}

// files describes what is in a directory.
func files(dir string) string {
	var l []string
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		d := dir + "/" + e.Name()
		if i, err := os.Lstat(d); err == nil {
			l = append(l, fmt.Sprintf("%s %v %d bytes, inode %d", d, i.Mode(), i.Size(), i.Sys().(*syscall.Stat_t).Ino))
		}
		if e.IsDir() {
			l = append(l, files(d))
		}
	}
	return strings.Join(l, "; ")
}

func describe(l net.Listener, err error) string {
	if err != nil {
		return "error"
	}
	defer l.Close()
	a := l.Addr().String()
	if l.Addr().Network() == "tcp" {
		h, p, _ := net.SplitHostPort(a)
		if len(p) > 4 || p > "1023" { // chosen by the kernel
			p = "*"
		}
		a = h + " " + p
	}
	return l.Addr().Network() + " " + a
}

// C31 and C32: package bind over all small environments, address strings and
// inherited descriptors. Package bind looks at its environment when it is
// initialised, so that every case is a process of its own.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/mc/kit"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "child" {
		child(os.Args[2])
		return
	}
	flag.Parse()
	r := kit.New(*kit.Prop)
	switch r.ID {
	case "C31":
		c31(r)
	case "C32":
		c32(r)
	default:
		fmt.Println("ERROR unknown property")
		os.Exit(2)
	}
	r.Finish()
}

// job is what a child is to do.
type job struct {
	Env         []string // PARENT stands for the parent's process id, OWN for the child's, FOREIGN for another's
	DefaultBind string
	Args        []string // command line
	UseDefault  bool     // bind the default socket
	Binds       []string // sockets to bind
	Dial        []string // where each of them has to be reached: network address
	Ready       int      // calls of Ready
	Concurrent  bool
	Strings     []string // address strings to compare with net.Listen
	Existing    bool     // compare in a directory in which they exist
	Exit        string   // bind this, which must end the process
}

// report is what it found.
type report struct {
	Pid     int
	Sniff   string
	Default string // default of the flag
	Cloexec map[int]bool
	Results []bindResult
	Leaks   []string // descriptors of inherited sockets that a child would get, after binding
	Open    []string // inherited sockets that are open after the listeners were closed
	Mismatch,
	MismatchString string
	Strings  int
	Attempt  string
	Returned bool // from binding what must end the process
}

type bindResult struct {
	Bind, Err, Net, Addr, Dial string
	Accepted                   bool
}

// sup is the supervisor of one child at a time: it owns the sockets passed on.
type sup struct {
	dir   string
	a, c  *net.TCPListener
	b     *net.UnixListener
	files []*os.File
	inos  []uint64
	dial  [3]string
	ctl   int
	path  string
}

func newSup() *sup {
	s := &sup{}
	var err error
	fatal := func() {
		if err != nil {
			panic(err)
		}
	}
	s.dir, err = os.MkdirTemp("", "bind")
	fatal()
	os.Chmod(s.dir, 0o755)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fatal()
	s.a = l.(*net.TCPListener)
	l, err = net.Listen("unix", s.dir+"/b")
	fatal()
	s.b = l.(*net.UnixListener)
	os.Chmod(s.dir+"/b", 0o777)
	l, err = net.Listen("tcp", "127.0.0.1:0")
	fatal()
	s.c = l.(*net.TCPListener)
	s.dial = [3]string{"tcp " + s.a.Addr().String(), "unix " + s.dir + "/b", "tcp " + s.c.Addr().String()}
	for _, x := range []interface{ File() (*os.File, error) }{s.a, s.b, s.c} {
		f, err := x.File()
		if err != nil {
			panic(err)
		}
		s.files = append(s.files, f)
	}
	f, err := os.Create(s.dir + "/file")
	fatal()
	s.files = append(s.files, f)
	s.path = s.dir + "/ctl"
	s.ctl, err = syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
	fatal()
	err = syscall.Bind(s.ctl, &syscall.SockaddrUnix{Name: s.path})
	fatal()
	err = syscall.Listen(s.ctl, 64)
	fatal()
	return s
}

func (s *sup) close() {
	s.a.Close()
	s.b.Close()
	s.c.Close()
	for _, f := range s.files {
		f.Close()
	}
	syscall.Close(s.ctl)
	os.RemoveAll(s.dir)
}

// acks takes the messages that arrived on the control socket.
func (s *sup) acks() []string {
	var l []string
	for {
		c, _, err := syscall.Accept(s.ctl)
		if err != nil {
			return l
		}
		var b []byte
		buf := make([]byte, 4096)
		syscall.SetsockoptTimeval(c, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &syscall.Timeval{Sec: 10})
		for {
			n, err := syscall.Read(c, buf)
			if n <= 0 || err != nil {
				break
			}
			b = append(b, buf[:n]...)
		}
		syscall.Close(c)
		l = append(l, string(b))
	}
}

// drain takes connections nobody accepted off the sockets.
func (s *sup) drain() {
	for _, f := range s.files[:3] {
		fd := int(f.Fd())
		syscall.SetNonblock(fd, true)
		for {
			c, _, err := syscall.Accept(fd)
			if err != nil {
				break
			}
			syscall.Close(c)
		}
	}
}

// start runs a child and returns its report; exit is its exit status.
func (s *sup) start(j job) (rep report, exit int, text string, err error) {
	env := []string{"HOME=/", "PATH=/usr/bin:/bin"}
	own := ""
	for _, e := range j.Env {
		k, v, _ := strings.Cut(e, "=")
		switch v {
		case "PARENT":
			v = fmt.Sprint(os.Getpid())
		case "FOREIGN":
			v = fmt.Sprint(os.Getpid() + 100000)
		case "CTL":
			v = s.path
		case "OWN":
			own += " " + k + "=$$"
			continue
		}
		env = append(env, k+"="+v)
	}
	arg, _ := json.Marshal(j)
	exe, err := os.Executable()
	if err != nil {
		return
	}
	cmd := exec.Command(exe, "child", string(arg))
	if own != "" {
		cmd = exec.Command("/bin/sh", "-c", own+` exec "$0" child "$1"`, exe, string(arg))
	}
	cmd.Env = env
	cmd.Dir = s.dir
	cmd.ExtraFiles = s.files
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err = cmd.Start(); err != nil {
		return
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	if !t.Stop() {
		text = "did not finish"
		exit = -2
		return
	}
	text = errb.String()
	if werr != nil {
		exit = cmd.ProcessState.ExitCode()
		return
	}
	err = json.Unmarshal(out.Bytes(), &rep)
	if err != nil {
		err = fmt.Errorf("%v: %q %q", err, out.String(), text)
	}
	rep.Pid = cmd.Process.Pid
	return
}

// each plays n cases on all cores, each with a supervisor of its own.
func each(r *kit.Run, n int, f func(s *sup, i int)) {
	var pool sync.Pool
	pool.New = func() any { return newSup() }
	var all sync.Map
	r.Parallel(n, func(i int) {
		s := pool.Get().(*sup)
		all.Store(s, true)
		f(s, i)
		pool.Put(s)
	})
	all.Range(func(k, _ any) bool { k.(*sup).close(); return true })
}

// atoi is the reference's reading of a number.
func atoi(s string) (int, bool) {
	neg := strings.HasPrefix(s, "-")
	t := strings.TrimPrefix(s, "-")
	if t == "" || len(t) > 9 {
		return 0, false
	}
	n := 0
	for _, c := range t {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

func lookup(env []string, k string) (string, bool) {
	for _, e := range env {
		if v, ok := strings.CutPrefix(e, k+"="); ok {
			return v, true
		}
	}
	return "", false
}

// einhornCount and systemdCount are how many descriptors the supervisor that
// really started the process passed.
func einhornCount(env []string) int {
	pid, _ := lookup(env, "EINHORN_MASTER_PID")
	s, _ := lookup(env, "EINHORN_FD_COUNT")
	n, ok := atoi(s)
	if pid != "PARENT" || !ok || n < 0 {
		return 0
	}
	return n
}

func systemdCount(env []string) int {
	pid, _ := lookup(env, "LISTEN_PID")
	s, _ := lookup(env, "LISTEN_FDS")
	n, ok := atoi(s)
	if pid != "OWN" || !ok || n < 0 {
		return 0
	}
	return n
}

func modelSniff(env []string) string {
	if b, _ := lookup(env, "GOJI_BIND"); b != "" {
		return b
	}
	if einhornCount(env) > 0 {
		return "einhorn@0"
	}
	if systemdCount(env) > 0 {
		return "fd@3"
	}
	if p, _ := lookup(env, "PORT"); p != "" {
		return ":" + p
	}
	return ""
}

// vars builds the environments in which each variable has one of its values;
// "unset" leaves it out.
func vars(spec []struct {
	Name   string
	Values []string
}) [][]string {
	out := [][]string{nil}
	for _, v := range spec {
		var next [][]string
		for _, e := range out {
			for _, x := range v.Values {
				if x == "unset" {
					next = append(next, e)
					continue
				}
				next = append(next, append(append([]string(nil), e...), v.Name+"="+x))
			}
		}
		out = next
	}
	return out
}

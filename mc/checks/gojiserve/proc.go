package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
)

// source is where the process gets its listener from.
type source struct {
	name string
	args []string
	env  []string
	// inherited sockets stay open in the parent, so that connections are
	// never refused.
	inherited bool
	einhorn   bool
}

// proc is a child process.
type proc struct {
	cmd   *exec.Cmd
	stdin io.WriteCloser
	dir   string

	mu      sync.Mutex
	cond    *sync.Cond
	stdout  []string
	stderr  []string
	open    int // streams that have not ended
	ended   bool
	network string
	addr    string
	tls     bool
	ctl     net.Listener
	acks    []string
	ackErrs int
	inh     net.Listener
}

const patience = 30 * time.Second

// wait waits until f, which is called with the lock held, holds.
func (p *proc) wait(f func() bool) bool {
	deadline := time.Now().Add(patience)
	t := time.AfterFunc(patience, func() { p.mu.Lock(); p.cond.Broadcast(); p.mu.Unlock() })
	defer t.Stop()
	p.mu.Lock()
	defer p.mu.Unlock()
	for !f() {
		if !time.Now().Before(deadline) {
			return false
		}
		p.cond.Wait()
	}
	return true
}

func has(l []string, s string) bool {
	for _, x := range l {
		if strings.Contains(x, s) {
			return true
		}
	}
	return false
}

func (p *proc) done() bool { return p.ended }

func (p *proc) collect(rd io.Reader, to *[]string) {
	s := bufio.NewScanner(rd)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		p.mu.Lock()
		*to = append(*to, s.Text())
		p.cond.Broadcast()
		p.mu.Unlock()
	}
	p.mu.Lock()
	p.open--
	last := p.open == 0
	p.mu.Unlock()
	if last {
		p.cmd.Wait()
		p.mu.Lock()
		p.ended = true
		p.cond.Broadcast()
		p.mu.Unlock()
	}
}

func start(j job, s source) (*proc, error) {
	p := &proc{open: 2}
	p.cond = sync.NewCond(&p.mu)
	var err error
	if p.dir, err = os.MkdirTemp("", "gojiserve"); err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	arg, _ := json.Marshal(j)
	env := []string{"HOME=/", "PATH=/usr/bin:/bin", childVar + "=" + string(arg)}
	own := ""
	for _, e := range s.env {
		switch k, v, _ := strings.Cut(e, "="); v {
		case "PARENT":
			env = append(env, k+"="+fmt.Sprint(os.Getpid()))
		case "CTL":
			path := p.dir + "/ctl"
			if p.ctl, err = net.Listen("unix", path); err != nil {
				return nil, err
			}
			env = append(env, k+"="+path)
			go p.takeAcks()
		case "OWN":
			own += k + "=$$ "
		default:
			env = append(env, e)
		}
	}
	p.cmd = exec.Command(exe, s.args...)
	if own != "" {
		p.cmd = exec.Command("/bin/sh", append([]string{"-c", own + `exec "$0" "$@"`, exe}, s.args...)...)
	}
	p.cmd.Env = env
	p.cmd.Dir = p.dir
	if s.inherited {
		if p.inh, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			return nil, err
		}
		f, err := p.inh.(*net.TCPListener).File()
		if err != nil {
			return nil, err
		}
		defer f.Close()
		p.cmd.ExtraFiles = []*os.File{f}
	}
	if p.stdin, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	// Pipes of our own, since Wait closes the ones it makes.
	for _, x := range []struct {
		w  *io.Writer
		to *[]string
	}{{&p.cmd.Stdout, &p.stdout}, {&p.cmd.Stderr, &p.stderr}} {
		rd, w, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		*x.w = w
		defer w.Close()
		go func(rd *os.File, to *[]string) { p.collect(rd, to); rd.Close() }(rd, x.to)
	}
	if err = p.cmd.Start(); err != nil {
		return nil, err
	}
	return p, nil
}

func (p *proc) takeAcks() {
	for {
		c, err := p.ctl.Accept()
		if err != nil {
			return
		}
		c.SetDeadline(time.Now().Add(patience))
		b, _ := io.ReadAll(c)
		c.Close()
		p.mu.Lock()
		p.acks = append(p.acks, string(b))
		p.cond.Broadcast()
		p.mu.Unlock()
	}
}

// close ends the process if need be, and removes what it left.
func (p *proc) close() {
	p.cmd.Process.Kill()
	p.stdin.Close()
	p.wait(p.done)
	if p.ctl != nil {
		p.ctl.Close()
	}
	if p.inh != nil {
		p.inh.Close()
	}
	os.RemoveAll(p.dir)
}

var startLine = regexp.MustCompile(`Starting Goji on (\S+)$`)

// up waits until the process says where it listens and connections are taken.
func (p *proc) up(j job, s source) error {
	ok := p.wait(func() bool { return p.ended || has(p.stderr, "Starting Goji on ") })
	p.mu.Lock()
	defer p.mu.Unlock()
	if !ok || p.ended {
		return fmt.Errorf("it does not start: %s", tail(p.stderr))
	}
	for _, l := range p.stderr {
		if m := startLine.FindStringSubmatch(l); m != nil {
			p.addr = m[1]
		}
	}
	p.network = "tcp"
	if p.inh != nil {
		if p.addr != p.inh.Addr().String() {
			return fmt.Errorf("it says that it listens on %s, not on the inherited %s", p.addr, p.inh.Addr())
		}
	} else if strings.HasSuffix(p.addr, ".sock") {
		p.network = "unix"
		if !strings.HasPrefix(p.addr, "/") {
			p.addr = p.dir + "/" + p.addr
		}
	} else if strings.HasPrefix(p.addr, "[::]:") {
		p.addr = "127.0.0.1:" + p.addr[5:]
	}
	p.tls = j.Entry == "ServeTLS" || j.Kind == "tls"
	return nil
}

func tail(l []string) string {
	if len(l) > 6 {
		l = l[len(l)-6:]
	}
	return strings.Join(l, "\n")
}

func (p *proc) dial() (net.Conn, error) {
	c, err := net.DialTimeout(p.network, p.addr, patience)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(patience))
	if p.tls {
		t := tls.Client(c, &tls.Config{InsecureSkipVerify: true})
		if err := t.Handshake(); err != nil {
			c.Close()
			return nil, err
		}
		return t, nil
	}
	return c, nil
}

func (p *proc) send(f string, args ...interface{}) { fmt.Fprintf(p.stdin, f+"\n", args...) }

// answer reads a response.
func answer(rd *bufio.Reader) (string, error) {
	res, err := http.ReadResponse(rd, nil)
	if err != nil {
		return "", err
	}
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return "", fmt.Errorf("after %q: %v", b, err)
	}
	s := fmt.Sprintf("%d %s", res.StatusCode, bytes.TrimSpace(b))
	if a := res.Header.Get("Allow"); a != "" {
		s += " Allow " + a
	}
	return s, nil
}

func ask(c net.Conn, method, path string, close bool) error {
	h := ""
	if close {
		h = "Connection: close\r\n"
	}
	_, err := fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: h\r\n%s\r\n", method, path, h)
	return err
}

// request makes a request on a connection of its own.
func (p *proc) request(method, path string) (string, error) {
	c, err := p.dial()
	if err != nil {
		return "", err
	}
	defer c.Close()
	if err := ask(c, method, path, true); err != nil {
		return "", err
	}
	return answer(bufio.NewReader(c))
}

// signal sends a signal.
func (p *proc) signal(s syscall.Signal) { p.cmd.Process.Signal(s) }

// end waits for the end of the process and says how it ended.
func (p *proc) end() string {
	if !p.wait(p.done) {
		return "goes on"
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	ws := p.cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return "killed by " + ws.Signal().String()
	}
	return fmt.Sprintf("exit %d", ws.ExitStatus())
}

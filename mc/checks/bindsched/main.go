// Second part of C32: readiness reported by several goroutines, under the
// controlled scheduler.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/zenazn/goji/bind"
	"verif.local/mc/kit"
	"verif.local/mc/vrt"
)

// control is the supervisor's control socket.
type control struct {
	fd  int
	got []string
	ev  vrt.Event
}

func open(path string) int {
	fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrUnix{Name: path})
	}
	if err == nil {
		err = syscall.Listen(fd, 64)
	}
	if err != nil {
		panic(err)
	}
	return fd
}

// take counts the connections that were made.
func (c *control) take() int {
	for {
		s, _, err := syscall.Accept(c.fd)
		if err != nil {
			return len(c.got)
		}
		buf := make([]byte, 4096)
		n, _ := syscall.Read(s, buf)
		syscall.Close(s)
		c.got = append(c.got, string(buf[:max(n, 0)]))
	}
}

// scenario: goroutines that report readiness so many times each; supervised
// says whether einhorn started the process.
func scenario(fd int, supervised bool, calls ...int) kit.Scenario {
	name := fmt.Sprintf("einhorn %v, calls %v", supervised, calls)
	return kit.Scenario{Name: name, Make: func() *vrt.Explorer {
		return &vrt.Explorer{Races: true, WgReuse: true, Horizon: 5000, Body: func() {
			pid := os.Getppid()
			if !supervised {
				pid += 100000
			}
			os.Setenv("EINHORN_MASTER_PID", fmt.Sprint(pid))
			os.Setenv("EINHORN_FD_COUNT", "1")
			os.Setenv("EINHORN_FD_0", "1000")
			bind.VerifReset()
			c := &control{fd: fd}
			c.take()
			c.got = nil
			var done vrt.Event
			left := len(calls)
			for _, n := range calls {
				vrt.Spawn("caller", func() {
					for i := 0; i < n; i++ {
						bind.Ready()
					}
					done.Point()
					left--
				})
			}
			done.Await(func() bool { return left == 0 && (!supervised || c.take() > 0) })
			want := 0
			if supervised {
				want = 1
			}
			if n := c.take(); n != want {
				vrt.Failf("%d messages were sent to the supervisor, wanted %d: %q", n, want, c.got)
			}
			for _, m := range c.got {
				if !strings.Contains(m, "worker:ack") || !strings.Contains(m, fmt.Sprint(os.Getpid())) {
					vrt.Failf("the message %q is not an acknowledgement", m)
				}
			}
			vrt.Outcome(fmt.Sprint(len(c.got)))
		}}
	}}
}

func main() {
	flag.Parse()
	r := kit.New(*kit.Prop)
	path := fmt.Sprintf("@verif-einhorn-%d", os.Getpid())
	fd := open(path)
	os.Setenv("EINHORN_SOCK_PATH", path)
	l := []kit.Scenario{
		scenario(fd, true, 1, 1),
		scenario(fd, true, 1, 1, 1),
		scenario(fd, true, 2, 2),
		scenario(fd, true, 2, 1, 1),
		scenario(fd, false, 2, 1),
	}
	if r.Thorough() {
		l = append(l, scenario(fd, true, 1, 1, 1, 1), scenario(fd, true, 2, 2, 2))
	}
	r.RunScenarios(l)
	r.Finish()
}

// Exhaustive bounded comparison of graceful's servers with net/http's (C35).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"verif.local/mc/kit"
)

const workerVar = "SERVERCMP_WORKER"

// share is what one worker process does: every Of-th case from Index on.
type share struct {
	Index, Of int
	Tier      string
	Only      string
	Pinned    bool
	TCP       bool
}

type result struct {
	Traces, Transitions, States int64
	Violations                  []string
	Bounds                      []string
}

func main() {
	testing.Init()
	if arg := os.Getenv(workerVar); arg != "" {
		worker(arg)
		return
	}
	flag.Parse()
	r := kit.New(*kit.Prop)
	r.Rule = "state: a server with some fields set and a connection with a history; transition: one action of the client, or time passing; everything the client, the handlers, the hooks and the log see is compared with net/http's server"
	r.Assume("connections are in memory and time is virtual (testing/synctest), except in the part over TCP")
	n := runtime.NumCPU()
	exe, err := os.Executable()
	if err != nil {
		r.Errorf("%v", err)
	}
	r.Parallel(n+1, func(i int) {
		arg, _ := json.Marshal(share{Index: i, Of: n, Tier: r.Tier, Only: *kit.Only, TCP: i == n})
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), workerVar+"="+string(arg))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Start(); err != nil {
			r.Errorf("%v", err)
			return
		}
		t := time.AfterFunc(time.Duration(kit.Pick(r, 300, 840))*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		if !t.Stop() {
			r.Violation("no-termination", "a worker does not end; last case: "+last(out.String()), nil)
			return
		}
		var res result
		if e := json.Unmarshal([]byte(last(out.String())), &res); e != nil || err != nil {
			text := errb.String()
			if len(text) > 2000 {
				text = text[:2000]
			}
			r.Violation("crash", fmt.Sprintf("a worker crashes: %v %v\n%s", err, e, text), nil)
			return
		}
		r.Traces.Add(res.Traces)
		r.Transitions.Add(res.Transitions)
		r.States.Add(res.States)
		if i == 0 || i == n {
			for _, b := range res.Bounds {
				r.Bound("%s", b)
			}
		}
		for _, v := range res.Violations {
			r.Violation("difference", v, nil)
		}
	})
	r.Finish()
}

func last(s string) string {
	b := bytes.Split(bytes.TrimSpace([]byte(s)), []byte("\n"))
	return string(b[len(b)-1])
}

// worker does a share of the work, on one processor: graceful's listeners are
// never forgotten, and their size depends on the number of processors.
func worker(arg string) {
	var s share
	if err := json.Unmarshal([]byte(arg), &s); err != nil {
		panic(err)
	}
	if !s.Pinned {
		s.Pinned = true
		b, _ := json.Marshal(s)
		os.Setenv(workerVar, string(b))
		runtime.LockOSThread()
		var mask, one [128]byte
		n, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, uintptr(len(mask)), uintptr(unsafe.Pointer(&mask)))
		if e == 0 {
			var cpus []int
			for i := 0; i < int(n)*8; i++ {
				if mask[i/8]&(1<<(i%8)) != 0 {
					cpus = append(cpus, i)
				}
			}
			if len(cpus) > 0 {
				c := cpus[s.Index%len(cpus)]
				one[c/8] |= 1 << (c % 8)
				syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, n, uintptr(unsafe.Pointer(&one)))
			}
		}
		exe, _ := os.Executable()
		panic(syscall.Exec(exe, os.Args[:1], os.Environ()))
	}
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "x", F: func(t *testing.T) {
		var res result
		if s.TCP {
			res = overTCP()
		} else {
			res = compare(t, s)
		}
		b, _ := json.Marshal(res)
		fmt.Println(string(b))
		os.Exit(0)
	}}}, nil, nil)
	os.Exit(3)
}

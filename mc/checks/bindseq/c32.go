package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"verif.local/mc/kit"
)

// target is the descriptor a bind string stands for (3 to 6), or 0.
func target(env []string, b string) int {
	if s, ok := strings.CutPrefix(b, "fd@"); ok {
		if n, ok := atoi(s); ok && n >= 3 && n <= 5 {
			return n
		}
		return 0
	}
	if s, ok := strings.CutPrefix(b, "einhorn@"); ok {
		n, ok := atoi(s)
		if !ok || n < 0 || n >= einhornCount(env) {
			return 0
		}
		v, _ := lookup(env, fmt.Sprintf("EINHORN_FD_%d", n))
		if fd, ok := atoi(v); ok && fd >= 3 && fd <= 5 {
			return fd
		}
	}
	return 0
}

// fds are the descriptors that belong to the supervisors.
func fds(env []string) map[int]bool {
	m := map[int]bool{}
	for i := 0; i < einhornCount(env); i++ {
		v, _ := lookup(env, fmt.Sprintf("EINHORN_FD_%d", i))
		if fd, ok := atoi(v); ok {
			m[fd] = true
		}
	}
	for i := 0; i < systemdCount(env); i++ {
		m[3+i] = true
	}
	return m
}

func judge32(s *sup, j job, rep report, exit int, text string, acks []string) string {
	broken := false // einhorn promises a descriptor it does not name
	for i := 0; i < einhornCount(j.Env); i++ {
		v, _ := lookup(j.Env, fmt.Sprintf("EINHORN_FD_%d", i))
		if _, ok := atoi(v); !ok {
			broken = true
		}
	}
	if exit != 0 {
		if broken && exit > 0 {
			return ""
		}
		return fmt.Sprintf("the process ends with status %d: %.300s", exit, text)
	}
	own := fds(j.Env)
	if !broken {
		for fd := 3; fd <= 6; fd++ {
			set, open := rep.Cloexec[fd]
			if !open {
				return fmt.Sprintf("descriptor %d is closed by initialisation", fd)
			}
			if set != own[fd] {
				return fmt.Sprintf("descriptor %d, %s, is %s", fd, map[bool]string{true: "passed by the supervisor", false: "not passed by a supervisor of this process"}[own[fd]], map[bool]string{true: "marked close-on-exec", false: "not marked close-on-exec: children inherit it"}[set])
			}
		}
	}
	used := map[int]bool{}
	for _, x := range rep.Results {
		fd := target(j.Env, x.Bind)
		if used[fd] {
			continue // bound before: nothing is said about that
		}
		used[fd] = fd != 0
		if fd == 0 {
			if x.Err == "" {
				return fmt.Sprintf("binding %q gives a listener on %s %s, wanted an error", x.Bind, x.Net, x.Addr)
			}
			continue
		}
		if x.Err != "" {
			return fmt.Sprintf("binding %q fails: %s; wanted descriptor %d", x.Bind, x.Err, fd)
		}
		if x.Net+" "+x.Addr != s.dial[fd-3] {
			return fmt.Sprintf("binding %q gives a listener on %s %s, wanted descriptor %d, %s", x.Bind, x.Net, x.Addr, fd, s.dial[fd-3])
		}
		if !x.Accepted {
			return fmt.Sprintf("binding %q: a connection to %s is not accepted", x.Bind, s.dial[fd-3])
		}
	}
	var leaks []string
	for _, l := range rep.Leaks {
		n, _ := atoi(l)
		if n >= 3 && n <= 5 && !own[n] && !used[n] {
			continue // an inherited descriptor that was not ours to begin with
		}
		leaks = append(leaks, l)
	}
	if len(leaks) > 0 {
		return fmt.Sprintf("after binding %v, children inherit the descriptors %v", j.Binds, leaks)
	}
	for _, l := range rep.Open {
		if n, _ := atoi(l); used[n] {
			return fmt.Sprintf("after binding %v and closing the listeners, the socket passed as descriptor %d is still open in the process", j.Binds, n)
		}
	}
	want := 0
	if einhornCount(j.Env) > 0 && j.Ready > 0 {
		want = 1
	}
	if len(acks) != want {
		return fmt.Sprintf("%d calls of Ready (concurrent: %v) send %d messages, wanted %d: %q", j.Ready, j.Concurrent, len(acks), want, acks)
	}
	for _, a := range acks {
		var m map[string]any
		if !strings.HasSuffix(a, "\n") || strings.Count(a, "\n") != 1 || json.Unmarshal([]byte(a), &m) != nil ||
			m["command"] != "worker:ack" || m["pid"] != float64(rep.Pid) || len(m) != 2 {
			return fmt.Sprintf("the message %q is not an acknowledgement of process %d", a, rep.Pid)
		}
	}
	return ""
}

func c32(r *kit.Run) {
	binds := []string{"einhorn@-1", "einhorn@0", "einhorn@1", "einhorn@2", "einhorn@3", "einhorn@x", "einhorn@", "einhorn@0 ", "fd@3", "fd@4", "fd@5", "fd@6", "fd@99", "fd@x", "fd@", "fd@-1", "fd@3 ", "fd@03", "fd@0x3", "einhorn@00", "einhorn@0x0", "fd@4_", "fd@3.0", "fd@3,4", "einhorn@8", "einhorn@10", "einhorn@11", "einhorn@12"}
	maps := [][3]string{{"3", "4", "5"}, {"5", "3", "4"}, {"4", "5", "3"}}
	var einhorn [][]string
	einhorn = append(einhorn, nil)
	for _, pid := range []string{"PARENT", "FOREIGN"} {
		for n := 0; n <= 3; n++ {
			for mi, m := range maps {
				if (n == 0 || pid == "FOREIGN") && mi > 0 {
					continue
				}
				e := []string{"EINHORN_MASTER_PID=" + pid, fmt.Sprintf("EINHORN_FD_COUNT=%d", n)}
				for i := 0; i < 3; i++ { // more are named than counted
					e = append(e, fmt.Sprintf("EINHORN_FD_%d=%s", i, m[i]))
				}
				einhorn = append(einhorn, e)
			}
		}
	}
	many := []string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=12"}
	for i := 0; i < 12; i++ { // the same numbers again, for the first ten
		many = append(many, fmt.Sprintf("EINHORN_FD_%d=%d", i, []int{3, 3, 3, 3, 3, 3, 3, 3, 3, 6, 5, 4}[i]))
	}
	einhorn = append(einhorn,
		[]string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=2", "EINHORN_FD_0=4"},
		[]string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=2", "EINHORN_FD_0=4", "EINHORN_FD_1=x"},
		[]string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=3", "EINHORN_FD_0=-1", "EINHORN_FD_1=99", "EINHORN_FD_2=6"},
		many,
		[]string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=x", "EINHORN_FD_0=4"},
		[]string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_0=4"},
		[]string{"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=-1", "EINHORN_FD_0=4"},
		[]string{"EINHORN_MASTER_PID=OWN", "EINHORN_FD_COUNT=2", "EINHORN_FD_0=4", "EINHORN_FD_1=5"},
		[]string{"EINHORN_MASTER_PID=0", "EINHORN_FD_COUNT=2", "EINHORN_FD_0=4", "EINHORN_FD_1=5"},
		[]string{"EINHORN_MASTER_PID=", "EINHORN_FD_COUNT=2", "EINHORN_FD_0=4", "EINHORN_FD_1=5"},
		[]string{"EINHORN_FD_COUNT=2", "EINHORN_FD_0=4", "EINHORN_FD_1=5"})
	var systemd [][]string
	systemd = append(systemd, nil)
	for _, pid := range []string{"OWN", "FOREIGN", "PARENT", "x"} {
		for _, n := range []string{"0", "1", "2", "3", "4", "12"} {
			if len(n) > 1 && pid != "OWN" {
				continue
			}
			if pid == "x" && n != "2" || pid == "PARENT" && n != "3" {
				continue
			}
			systemd = append(systemd, []string{"LISTEN_PID=" + pid, "LISTEN_FDS=" + n})
		}
	}
	systemd = append(systemd, []string{"LISTEN_PID=OWN", "LISTEN_FDS=x"}, []string{"LISTEN_PID=OWN"}, []string{"LISTEN_FDS=2"}, []string{"LISTEN_PID=OWN", "LISTEN_FDS=-1"})
	var jobs []job
	for _, e := range einhorn {
		for _, d := range systemd {
			env := append(append([]string{"EINHORN_SOCK_PATH=CTL"}, e...), d...)
			jobs = append(jobs, job{Env: env})
			for _, b := range binds {
				jobs = append(jobs, job{Env: env, Binds: []string{b}})
			}
			// Pairs of sockets in both orders, and then all of them.
			var ok []string
			for _, b := range binds {
				if target(env, b) != 0 {
					ok = append(ok, b)
				}
			}
			pairs := kit.Pick(r, len(d) == 0 || e == nil, true)
			for _, b1 := range ok {
				for _, b2 := range ok {
					if pairs && target(env, b1) != target(env, b2) {
						jobs = append(jobs, job{Env: env, Binds: []string{b1, b2}})
						if r.Thorough() {
							for _, b3 := range ok {
								if target(env, b1) != target(env, b3) && target(env, b2) != target(env, b3) {
									jobs = append(jobs, job{Env: env, Binds: []string{b1, b2, b3}})
								}
							}
						}
					}
				}
			}
			// Whatever was bound, and whatever the flag says.
			for _, args := range [][]string{{"-bind", "fd@3"}, {"-bind", "127.0.0.1:0"}, {"-bind", ""}, {"-bind", "einhorn@0"}} {
				jobs = append(jobs, job{Env: env, Args: args, Ready: 2})
			}
			for _, b := range ok {
				jobs = append(jobs, job{Env: env, Binds: []string{b}, Ready: 2})
			}
			for n := 1; n <= kit.Pick(r, 3, 5); n++ {
				jobs = append(jobs, job{Env: env, Ready: n})
				if n > 1 {
					jobs = append(jobs, job{Env: env, Ready: n * n, Concurrent: true})
				}
			}
		}
	}
	check := func(s *sup, j job) string {
		for _, b := range j.Binds {
			d := ""
			if t := target(j.Env, b); t != 0 {
				d = s.dial[t-3]
			}
			j.Dial = append(j.Dial, d)
		}
		rep, exit, text, err := s.start(j)
		acks := s.acks()
		if err != nil {
			r.Errorf("%v", err)
			return ""
		}
		return judge32(s, j, rep, exit, text, acks)
	}
	if *kit.Replay != "" {
		var f struct{ Data job }
		b, err := os.ReadFile(*kit.Replay)
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			r.Errorf("%v", err)
			return
		}
		s := newSup()
		defer s.close()
		if msg := check(s, f.Data); msg != "" {
			r.Violation("replay", msg, f.Data)
		}
		return
	}
	var mu sync.Mutex
	kinds := map[string]int{}
	each(r, len(jobs), func(s *sup, i int) {
		j := jobs[i]
		msg := check(s, j)
		r.Traces.Add(1)
		r.Transitions.Add(int64(1 + len(j.Binds) + j.Ready))
		mu.Lock()
		kinds[fmt.Sprintf("einhorn %d systemd %d", einhornCount(j.Env), systemdCount(j.Env))]++
		mu.Unlock()
		if msg == "" {
			return
		}
		s.drain()
		for k := 0; k < 2; k++ {
			if check(s, j) == "" {
				return
			}
			s.drain()
		}
		r.Violation("sockets", msg+"; environment: "+j.String(), j)
	})
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r.States.Store(int64(len(einhorn) * len(systemd)))
	r.Part("supervisors", kinds)
	r.Part("processes", len(jobs))
	r.Sample(jobs[len(jobs)/2])
	r.Sample(jobs[len(jobs)-1])
	r.Bound("%d environments of einhorn times %d of systemd; each bind string alone, pairs of valid ones in both orders, and up to %d calls of Ready, also concurrent", len(einhorn), len(systemd), kit.Pick(r, 3, 5))
}

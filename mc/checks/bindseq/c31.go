package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"

	"verif.local/mc/kit"
)

type spec = []struct {
	Name   string
	Values []string
}

// sniffEnvs are the environments of C31.
func sniffEnvs(r *kit.Run) [][]string {
	return vars(spec{
		{"GOJI_BIND", kit.Pick(r, []string{"unset", "", ":9", ":"}, []string{"unset", "", ":9", ":", "garbage", "einhorn@0"})},
		{"EINHORN_MASTER_PID", []string{"unset", "PARENT", "FOREIGN", "", "x", "OWN"}},
		{"EINHORN_FD_COUNT", kit.Pick(r, []string{"unset", "", "0", "1", "-1", "x"}, []string{"unset", "", "0", "1", "2", "-1", "x", "1x"})},
		{"EINHORN_FD_0", []string{"4"}},
		{"EINHORN_FD_1", []string{"5"}},
		{"LISTEN_PID", []string{"unset", "OWN", "FOREIGN", "", "x", "PARENT"}},
		{"LISTEN_FDS", kit.Pick(r, []string{"unset", "", "0", "1", "-1", "x"}, []string{"unset", "", "0", "1", "2", "-1", "x", "1x"})},
		{"PORT", kit.Pick(r, []string{"unset", "", "80", ":80"}, []string{"unset", "", "80", "x", ":80", "127.0.0.1:80", " "})},
	})
}

// addrStrings are all strings of up to n tokens, apart from those whose
// meaning depends on the resolver and those naming descriptors (C32).
func addrStrings(n int) []string {
	tokens := []string{":", ".", "/", "fd@", "einhorn@", "0", "3", "x", "-", "127.0.0.1", "[::1]", "FD@", "@", " ", "unix", "tcp"}
	seen := map[string]bool{}
	var out []string
	all := kit.Strings(tokens, 0, n)
	// Numbers that other notations would read as those of descriptors.
	for _, x := range kit.Strings([]string{"0", "3", "x", "b", "o", "_", "-", " ", ".", "e"}, 0, 4) {
		all = append(all, "fd@"+x, "einhorn@"+x)
	}
	for _, s := range all {
		if seen[s] {
			continue
		}
		seen[s] = true
		if i := strings.LastIndex(s, ":"); i >= 0 {
			switch h := s[:i]; {
			case h == "", h == "127.0.0.1", h == "[::1]", strings.Contains(h, ":") && !strings.Contains(h, "["), strings.ContainsAny(h, "/@ "):
			default:
				continue
			}
			if strings.ContainsAny(s[:i], "/@ ") && strings.Count(s, ":") == 1 {
				// An odd host name: the resolver would be asked.
				continue
			}
		} else if strings.HasPrefix(s, "fd@") {
			if n, ok := atoi(s[3:]); ok && n >= 0 {
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

func (j job) String() string {
	e := strings.Join(j.Env, " ")
	if e == "" {
		e = "empty environment"
	}
	return e
}

func judge31(j job, rep report, exit int, text string) string {
	if exit != 0 {
		return fmt.Sprintf("the process ends with status %d: %.300s", exit, text)
	}
	want := modelSniff(j.Env)
	if rep.Sniff != want {
		return fmt.Sprintf("Sniff() = %q, wanted %q", rep.Sniff, want)
	}
	if want == "" {
		want = j.DefaultBind
		if want == "" {
			want = ":8000"
		}
	}
	if rep.Default != want {
		return fmt.Sprintf("the default of the flag is %q, wanted %q", rep.Default, want)
	}
	return ""
}

func c31(r *kit.Run) {
	var jobs []job
	for i, e := range sniffEnvs(r) {
		j := job{Env: e}
		if i%2 == 1 {
			j.DefaultBind = "127.0.0.1:7"
		}
		jobs = append(jobs, j)
	}
	n := len(jobs)
	// The default socket: what the flag says, and its default without it.
	type def struct {
		job
		want string
	}
	var defs []def
	for _, env := range [][]string{nil, {"GOJI_BIND=127.0.0.1:0"}, {"PORT=0"}, {"GOJI_BIND=./g"}, {"LISTEN_PID=OWN", "LISTEN_FDS=1"}, {"EINHORN_MASTER_PID=PARENT", "EINHORN_FD_COUNT=1", "EINHORN_FD_0=4"}, {"LISTEN_PID=FOREIGN", "LISTEN_FDS=1"}, {"GOJI_BIND=nonsense"}, {"PORT=nonsense"}} {
		for _, args := range [][]string{nil, {"-bind", "127.0.0.1:0"}, {"-bind", "./d"}, {"-bind", "fd@5"}, {"-bind", "nonsense"}, {"-bind", ""}} {
			for _, db := range []string{"127.0.0.2:0", "./z", "nonsense"} {
				s := modelSniff(env)
				if s == "" {
					s = db
				}
				if args != nil {
					s = args[1]
				}
				defs = append(defs, def{job{Env: env, Args: args, DefaultBind: db, UseDefault: true}, s})
			}
		}
	}
	check := func(s *sup, j job, want string) (string, report) {
		rep, exit, text, err := s.start(j)
		if err != nil {
			r.Errorf("%v", err)
			return "", rep
		}
		if j.Exit != "" {
			if exit <= 0 || text == "" {
				return fmt.Sprintf("binding %q (by Default: %v) must end the process with a message and a status of failure, it returns: %v (status %d, message %q)", j.Exit, j.UseDefault, rep.Returned, exit, text), rep
			}
			return "", rep
		}
		if !j.UseDefault {
			if len(j.Strings) > 0 {
				if exit != 0 {
					return fmt.Sprintf("the process ends with status %d: %.300s", exit, text), rep
				}
				return rep.Mismatch, rep
			}
			return judge31(j, rep, exit, text), rep
		}
		if exit != 0 {
			return fmt.Sprintf("Default(): the process ends with status %d: %.300s", exit, text), rep
		}
		x := rep.Results[0]
		ok := false
		switch want {
		case "127.0.0.1:0", "127.0.0.2:0":
			ok = x.Net == "tcp" && strings.HasPrefix(x.Addr, strings.TrimSuffix(want, "0"))
		case ":0":
			ok = x.Net == "tcp" && (strings.HasPrefix(x.Addr, "[::]:") || strings.HasPrefix(x.Addr, "0.0.0.0:"))
		case "./g", "./d", "./z":
			ok = x.Net == "unix" && x.Addr == want
			os.Remove(s.dir + want[1:])
		case "fd@3":
			ok = x.Net+" "+x.Addr == s.dial[0]
		case "einhorn@0":
			ok = x.Net+" "+x.Addr == s.dial[1]
		case "fd@5":
			ok = x.Net+" "+x.Addr == s.dial[2]
		default:
			ok = x.Err != ""
		}
		if !ok {
			return fmt.Sprintf("Default() with the arguments %q, DefaultBind %q and the environment %v gives %+v, wanted %q to be bound", j.Args, j.DefaultBind, j.Env, x, want), rep
		}
		return "", rep
	}
	strs := addrStrings(kit.Pick(r, 4, 5))
	const chunk = 2000
	var chunks []job
	for i := 0; i < len(strs); i += chunk {
		chunks = append(chunks, job{Strings: strs[i:min(i+chunk, len(strs))]})
	}
	var exist []string
	for _, p := range []string{"./", "././", "./dir/../", "../", "ABS/", "ABS//", "ABS/dir/../"} {
		for _, x := range []string{"file", "empty", "dir", "dir/file", "link", "dangling", "dirlink", "dirlink/file", "dirlink/new", "fifo", "live", "stale", "new", "dir/new", "none/new", "file/new", "live/new"} {
			exist = append(exist, p+x)
		}
	}
	chunks = append(chunks, job{Strings: exist, Existing: true})
	for _, x := range exist {
		chunks = append(chunks, job{Strings: []string{x}, Existing: true}) // by itself
	}
	for _, x := range []string{"nonsense", "fd@x", "fd@", "fd@99", "fd@-1", "einhorn@0", "einhorn@1", "einhorn@x", "./none/x", ".", "/", "./file", "127.0.0.1:99999", "127.0.0.1:x", " ", "-", "8000"} {
		chunks = append(chunks, job{Exit: x}, job{Exit: x, UseDefault: true, Args: []string{"-bind", x}}, job{Exit: x, UseDefault: true, Env: []string{"GOJI_BIND=" + x}})
	}
	if *kit.Replay != "" {
		var f struct {
			Data struct {
				Job  job
				Want string
			}
		}
		b, err := os.ReadFile(*kit.Replay)
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			r.Errorf("%v", err)
			return
		}
		s := newSup()
		defer s.close()
		if msg, _ := check(s, f.Data.Job, f.Data.Want); msg != "" {
			r.Violation("replay", msg, f.Data)
		}
		return
	}
	var mu sync.Mutex
	sniffed := map[string]int{}
	strCount := 0
	each(r, n+len(defs)+len(chunks), func(s *sup, i int) {
		var j job
		want := ""
		switch {
		case i < len(chunks):
			j = chunks[i]
		case i < len(chunks)+len(defs):
			d := defs[i-len(chunks)]
			j, want = d.job, d.want
		default:
			j = jobs[i-len(chunks)-len(defs)]
		}
		msg, rep := check(s, j, want)
		r.Traces.Add(1)
		mu.Lock()
		if j.Strings == nil && !j.UseDefault && j.Exit == "" {
			sniffed[rep.Sniff]++
		}
		strCount += rep.Strings
		if rep.Attempt != "" {
			r.Incomplete()
		}
		mu.Unlock()
		if msg == "" {
			return
		}
		for k := 0; k < 2; k++ {
			if m, _ := check(s, j, want); m == "" {
				return
			}
		}
		if j.Strings != nil {
			for _, x := range j.Strings { // a case of its own, when it fails by itself
				if x == rep.MismatchString {
					one := job{Strings: []string{x}, Existing: j.Existing}
					if m, _ := check(s, one, ""); m != "" {
						j, msg = one, m
					}
				}
			}
			r.Violation("string/"+rep.MismatchString, msg, map[string]any{"Job": j})
			return
		}
		r.Violation("env/"+j.String(), msg+"; environment: "+j.String(), map[string]any{"Job": j, "Want": want})
	})
	r.States.Add(int64(len(sniffed)))
	r.Transitions.Add(int64(n + len(defs) + strCount))
	r.Part("environments", map[string]any{"cases": n, "answers": sniffed})
	r.Part("default socket", map[string]any{"cases": len(defs)})
	r.Bound("%d paths in a directory with files of ten kinds, each by itself and all in turn; 17 strings that cannot be bound, by Socket and by Default", len(exist))
	r.Part("address strings", map[string]any{"cases": strCount})
	r.Sample(jobs[n/2].String())
	r.Sample(jobs[n-1].String())
	r.Sample(strs[len(strs)/2])
	r.Bound("all combinations of the six variables over unset, empty, valid, foreign and malformed values (%d processes)", n)
	r.Bound("all address strings of up to %d tokens out of 16 (%d strings) against net.Listen; host names that need a resolver are left out", kit.Pick(r, 4, 5), strCount)
}

package main

// P28: what is reported to the outside, for every state of the user's choice,
// every command and every behaviour of the server.

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"alda.io/client/generated"
)

// tcmd is a command and the name under which it may be reported.
type tcmd struct {
	args   []string
	report string // "" if it must not be reported
	sets   string // what it sets the choice to
	shows  bool   // it says what the choice is
	code   int    // -1: whatever
}

const secret = "sEcReT"

var tcmds = []tcmd{
	{[]string{"version"}, "version", "", false, 0},
	{[]string{"telemetry", "--enable"}, "telemetry", "enabled", false, 0},
	{[]string{"telemetry", "--disable"}, "telemetry", "disabled", false, 0},
	{[]string{"telemetry"}, "telemetry", "", true, -1},
	{[]string{"telemetry", "--status"}, "telemetry", "", true, -1},
	{[]string{"parse", "-c", "piano \"" + secret + "\": c"}, "parse", "", false, 0},
	{[]string{}, "", "", false, 0},
	{[]string{"--help"}, "", "", false, 0},
	{[]string{"telemetry", "--enable", "--disable"}, "telemetry", "", false, 1},
	{[]string{"parse", "-c", "piano: " + secret + "xyz"}, "parse", "", false, 1},
	{[]string{"parse", "-f", "/tmp/" + secret + "/none.alda"}, "parse", "", false, 1},
	{[]string{"format", "-f", secret + ".alda"}, "format", "", false, 1},
	{[]string{"instruments"}, "instruments", "", false, 0},
	{[]string{"ps"}, "ps", "", false, 0},
	{[]string{"parse", "--help"}, "", "", false, 0},
	{[]string{"telemetry", "--help"}, "", "", false, 0},
	{[]string{secret}, "", "", false, 1},
	{[]string{"parse", "--" + secret}, "", "", false, 1},
	{[]string{"telemetry", "--nonsense"}, "", "", false, 1},
	{[]string{"-v9", "version"}, "", "", false, 1},
	{[]string{"-v0", "version"}, "version", "", false, 0},
	{[]string{"telemetry", "--disable", "--status"}, "telemetry", "disabled", false, 0},
}

// choices are the contents of the file that says what the user has chosen.
var choices = []string{"absent", "enabled", "disabled", "", "disabled\n", "Disabled", "no", "enabled ", "directory"}

const (
	tNone = iota
	tOn
	tOff
	tBad
)

func choice(file string) int {
	switch file {
	case "absent":
		return tNone
	case "enabled":
		return tOn
	case "disabled":
		return tOff
	}
	return tBad
}

// tmodel: what one run does to the file and what it reports.
func tmodel(file, env string, cm tcmd) (after, report string, informed bool, shown string) {
	status := choice(file)
	if env == "yes" {
		status = tOff
	}
	after = file
	if status == tNone || status == tBad {
		informed = true
		if file != "directory" {
			after = "enabled"
			status = tOn
		}
	}
	if status == tOn {
		report = cm.report
	}
	if cm.sets != "" && file != "directory" {
		after = cm.sets
	}
	if cm.shows {
		switch status {
		case tOn:
			shown = "enabled"
		case tOff:
			shown = "disabled"
		}
	}
	return
}

type tenv struct {
	x    *aldaEnv
	w    *web
	file string
	cond string
}

func newTenv(cond string) (*tenv, error) {
	x, err := newAldaEnv()
	if err != nil {
		return nil, err
	}
	x.set("ALDA_DISABLE_SPAWNING=yes")
	w, err := newWeb(x, func(q webReq, out io.Writer) {
		switch cond {
		case "ok", "refused":
			httpAnswer(out, 200, "{}")
		case "created":
			httpAnswer(out, 201, "")
		case "error":
			httpAnswer(out, 500, "no")
		case "not found":
			httpAnswer(out, 404, strings.Repeat("x", 100000))
		case "hang up":
		case "junk":
			io.WriteString(out, "junk\r\n\r\n")
		case "half":
			io.WriteString(out, "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n{")
		case "redirect":
			io.WriteString(out, "HTTP/1.1 302 Found\r\nLocation: https://files.alda.test/elsewhere\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
		case "slow":
			time.Sleep(7 * time.Second)
			httpAnswer(out, 200, "{}")
		}
	})
	if err != nil {
		x.close()
		return nil, err
	}
	if cond == "refused" {
		w.l.Close()
	}
	return &tenv{x: x, w: w, cond: cond, file: filepath.Join(x.dir, "config", "alda", "telemetry-status")}, nil
}

func (t *tenv) close() { t.w.close(); t.x.close() }

func (t *tenv) setChoice(s string) error {
	switch s {
	case "absent":
		return nil
	case "directory":
		return os.MkdirAll(t.file, 0755)
	}
	if err := os.MkdirAll(filepath.Dir(t.file), 0755); err != nil {
		return err
	}
	return os.WriteFile(t.file, []byte(s), 0644)
}

func (t *tenv) choice() string {
	fi, err := os.Stat(t.file)
	if err != nil {
		return "absent"
	}
	if fi.IsDir() {
		return "directory"
	}
	b, _ := os.ReadFile(t.file)
	return string(b)
}

// step runs one command and compares everything with the model.
func (t *tenv) step(env string, cm tcmd) string {
	before := t.choice()
	was := len(t.w.requests())
	t.x.set("ALDA_DISABLE_TELEMETRY=" + env)
	r, err := t.x.start(nil, cm.args...)
	if err != nil {
		return err.Error()
	}
	if !r.wait(60 * time.Second) {
		return "the command does not end: " + r.text()
	}
	after, report, informed, shown := tmodel(before, env, cm)
	said := strings.Contains(r.err.String(), "anonymous usage statistics")
	if said != informed && !(cm.shows && informed) && !strings.Contains(r.out.String(), "anonymous usage statistics") {
		return fmt.Sprintf("the user is informed: %v, expected %v; %s", said, informed, r.text())
	}
	if now := t.choice(); now != after {
		return fmt.Sprintf("the choice was %q and is %q, expected %q; %s", before, now, after, r.text())
	}
	if cm.code >= 0 && !(before == "directory" && cm.sets != "") && r.code != cm.code {
		return fmt.Sprintf("the exit code is %d, expected %d; %s", r.code, cm.code, r.text())
	}
	if before == "directory" && cm.sets != "" && r.code == 0 {
		return "the choice cannot be written, but success is reported; " + r.text()
	}
	if shown != "" && !strings.Contains(r.out.String(), "Telemetry is "+shown+".") {
		return fmt.Sprintf("telemetry is %s; %s", shown, r.text())
	}
	if cm.sets != "" && r.code == 0 && !strings.Contains(r.out.String(), "Telemetry is "+cm.sets+".") {
		return fmt.Sprintf("telemetry is now %s; %s", cm.sets, r.text())
	}
	if strings.Contains(r.err.String(), "goroutine ") {
		return "it crashes: " + r.text()
	}
	if t.cond == "refused" {
		return ""
	}
	return t.sent(t.w.requests()[was:], report)
}

// sent compares the requests of one run with what may be sent.
func (t *tenv) sent(reqs []webReq, report string) string {
	if report == "" {
		if len(reqs) > 0 {
			return fmt.Sprintf("%v is sent", reqs)
		}
		return ""
	}
	if len(reqs) != 1 {
		return fmt.Sprintf("%d requests are sent instead of one: %v", len(reqs), reqs)
	}
	q := reqs[0]
	if q.method != "POST" || q.host != "api.alda.io:443" || q.path != "/telemetry" {
		return fmt.Sprintf("%s to %s%s is sent", q.method, q.host, q.path)
	}
	var got map[string]any
	if err := json.Unmarshal([]byte(q.body), &got); err != nil {
		return fmt.Sprintf("%v: %s", err, q.body)
	}
	want := map[string]any{"os": runtime.GOOS, "arch": runtime.GOARCH, "version": generated.ClientVersion, "command": report}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("%v is sent, expected %v", got, want)
	}
	return ""
}

func init() {
	register("P28", "model_checking", func(c *Ctx) {
		c.stubborn = 2
		hangLimit = 150 * time.Second
		c.Rule("evaluations = histories of runs of the real alda binary with a configuration directory of its own and a stand-in for every server on the internet; after every run the file with the user's choice, the output and all requests are compared with the model; states = model states (choice, environment, command, behaviour of the server)")
		c.Assume("commands run one after another, except in the phase about interruptions; all traffic respects the HTTPS_PROXY setting (the client uses Go's default transport)")
		const workers = 24
		type step struct {
			env string
			cm  tcmd
		}
		type hist struct {
			first, cond string
			steps       []step
		}
		name := func(h *hist) string {
			s := fmt.Sprintf("choice %q, server %s", h.first, h.cond)
			for _, st := range h.steps {
				s += fmt.Sprintf("; %s%s", strings.Join(st.cm.args, " "), map[string]string{"": "", "yes": " (switched off)", "no": " (no)"}[st.env])
			}
			return s
		}
		run := func(key string, v any) *Fail {
			h := v.(*hist)
			t, err := newTenv(h.cond)
			if err != nil {
				return failf(key, "%v", err)
			}
			defer t.close()
			if err := t.setChoice(h.first); err != nil {
				return failf(key, "%v", err)
			}
			for i, st := range h.steps {
				c.State(fmt.Sprint(t.choice(), st.env, st.cm.args, h.cond))
				if d := t.step(st.env, st.cm); d != "" {
					return failf(key, "run %d: %s", i+1, d)
				}
				c.Trans(1)
			}
			c.Outcome(t.choice())
			c.Nontrivial()
			c.Trace()
			return nil
		}
		c.ExploreN("single commands", workers, func(yield func(string, any) bool) {
			for _, f := range choices {
				for _, env := range []string{"", "yes", "no"} {
					for _, cm := range tcmds {
						h := &hist{f, "ok", []step{{env, cm}}}
						if !yield(name(h), h) {
							return
						}
					}
				}
			}
		}, run)
		c.ExploreN("histories of two", workers, func(yield func(string, any) bool) {
			for _, f := range choices[:5] {
				for _, a := range tcmds[:9] {
					for _, b := range tcmds[:9] {
						for _, env := range [][]string{{"", ""}, {"yes", ""}, {"", "yes"}} {
							h := &hist{f, "ok", []step{{env[0], a}, {env[1], b}}}
							if !yield(name(h), h) {
								return
							}
						}
					}
				}
			}
		}, run)
		c.ExploreN("servers", workers, func(yield func(string, any) bool) {
			conds := []string{"created", "error", "not found", "hang up", "junk", "half", "refused"}
			for _, cond := range conds {
				for _, f := range choices[:5] {
					for _, env := range []string{"", "yes"} {
						for _, cm := range tcmds[:9] {
							h := &hist{f, cond, []step{{env, cm}, {env, tcmds[0]}}}
							if !yield(name(h), h) {
								return
							}
						}
					}
				}
			}
			for _, f := range choices[:3] {
				h := &hist{f, "slow", []step{{"", tcmds[0]}}}
				if !yield(name(h), h) {
					return
				}
			}
		}, run)
		c.telemetryFaults()
		n := 3
		if c.Thorough {
			n = 4
		}
		c.ExploreN(fmt.Sprintf("histories of %d", n), workers, func(yield func(string, any) bool) {
			core := append(append([]tcmd{}, tcmds[:3]...), tcmds[5], tcmds[7])
			idx := make([]int, n)
			for {
				for _, f := range choices[:5] {
					for off := -1; off < n; off++ {
						h := &hist{f, "ok", nil}
						for i, k := range idx {
							env := ""
							if i == off {
								env = "yes"
							}
							h.steps = append(h.steps, step{env, core[k]})
						}
						if !yield(name(h), h) {
							return
						}
					}
				}
				k := n - 1
				for ; k >= 0; k-- {
					if idx[k]++; idx[k] < len(core) {
						break
					}
					idx[k] = 0
				}
				if k < 0 {
					return
				}
			}
		}, run)
	})
}

// telemetryFaults: a command that sets the choice fails or is killed at any
// system call, or another command runs at that moment.
func (c *Ctx) telemetryFaults() {
	type fc struct {
		first string
		cm    tcmd
		ft    *fault
	}
	traced := func(h *fc) (*tenv, *aldaRun, []*sysEvent, error) {
		t, err := newTenv("ok")
		if err != nil {
			return nil, nil, nil, err
		}
		t.x.set("ALDA_DISABLE_TELEMETRY=")
		if err := t.setChoice(h.first); err != nil {
			return t, nil, nil, err
		}
		dir := filepath.Join(t.x.dir, "config")
		os.MkdirAll(dir, 0755)
		real, err := filepath.EvalSymlinks(dir)
		if err != nil {
			return t, nil, nil, err
		}
		spec := ""
		if h.ft != nil {
			b, _ := json.Marshal(h.ft)
			spec = string(b)
		}
		log := filepath.Join(t.x.dir, "log")
		r, err := t.x.startWith(nil, append([]string{os.Getenv("VERIF_MC"), "tracer", log, real, spec, os.Getenv("VERIF_ALDA")}, h.cm.args...))
		if err != nil {
			return t, nil, nil, err
		}
		if !r.wait(60 * time.Second) {
			return t, r, nil, fmt.Errorf("the command does not end: %s", r.text())
		}
		b, err := os.ReadFile(log)
		if err != nil {
			return t, r, nil, fmt.Errorf("no trace: %v: %s", err, r.text())
		}
		var evs []*sysEvent
		return t, r, evs, json.Unmarshal(b, &evs)
	}
	c.ExploreN("interruptions", 16, func(yield func(string, any) bool) {
		for _, first := range []string{"enabled", "disabled", "absent"} {
			for _, cm := range []tcmd{tcmds[1], tcmds[2], tcmds[0]} {
				h := &fc{first: first, cm: cm}
				base := fmt.Sprintf("choice %q, %s", first, strings.Join(cm.args, " "))
				t, r, evs, err := traced(h)
				if t != nil {
					t.close()
				}
				if err != nil {
					yield(base+": "+err.Error(), &fc{})
					return
				}
				_ = r
				for k := 0; k < len(evs); k++ {
					e := evs[k]
					fts := []*fault{{K: k, Kill: true, Cut: -1}}
					for _, er := range []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS} {
						fts = append(fts, &fault{K: k, Errno: int(er), Cut: -1})
					}
					if e.Call == "write" {
						for n := 0; n < int(e.Count); n++ {
							fts = append(fts, &fault{K: k, Kill: true, Cut: n})
							if n > 0 {
								fts = append(fts, &fault{K: k, Cut: n, Errno: int(syscall.ENOSPC)}, &fault{K: k, Cut: n})
							}
						}
					}
					for _, ft := range fts {
						b, _ := json.Marshal(ft)
						if !yield(fmt.Sprintf("%s: %s %s", base, e.Call, b), &fc{first, cm, ft}) {
							return
						}
					}
					// another command runs at that moment
					for _, o := range []int{0, 1, 2} {
						if first == "absent" {
							continue
						}
						ft := &fault{K: k, Cut: -1, Run: append([]string{os.Getenv("VERIF_ALDA")}, tcmds[o].args...)}
						if !yield(fmt.Sprintf("%s: at the %dth call, %s, %s", base, k, e.Call, strings.Join(tcmds[o].args, " ")), &fc{first, cm, ft}) {
							return
						}
					}
				}
				c.State(base)
			}
		}
	}, func(key string, v any) *Fail {
		h := v.(*fc)
		if h.cm.args == nil {
			return failf(key, "%s", key)
		}
		t, r, _, err := traced(h)
		if t != nil {
			defer t.close()
		}
		if err != nil {
			return failf(key, "%v", err)
		}
		now := t.choice()
		old, _, _, _ := tmodel(h.first, "", tcmds[0])
		ok := map[string]bool{h.first: true, old: true}
		if h.cm.sets != "" {
			ok[h.cm.sets] = true
		}
		if h.ft.Run != nil {
			o := strings.Join(h.ft.Run[1:], " ")
			for _, cm := range tcmds[1:3] {
				if o == strings.Join(cm.args, " ") {
					ok[cm.sets] = true
				}
			}
		}
		if strings.Contains(r.err.String(), "anonymous usage statistics") {
			ok["enabled"] = true // it could not be read, and the user has been informed again
		}
		if !ok[now] {
			return failf(key, "the choice was %q and is %q; %s", h.first, now, r.text())
		}
		if h.ft.Run != nil {
			// both commands have succeeded
			if r.code != 0 {
				return failf(key, "it fails: %s", r.text())
			}
			if h.cm.sets == "" && len(ok) > 1 {
				for _, cm := range tcmds[1:3] {
					if strings.Join(h.ft.Run[1:], " ") == strings.Join(cm.args, " ") && now != cm.sets {
						return failf(key, "telemetry was to be %s and is %s", cm.sets, now)
					}
				}
			}
			if h.cm.sets != "" && strings.Join(h.ft.Run[1:], " ") == "version" && now != h.cm.sets {
				return failf(key, "telemetry was to be %s and is %s", h.cm.sets, now)
			}
		} else if r.code == 0 && h.cm.sets != "" && now != h.cm.sets {
			return failf(key, "success is reported, but telemetry is %s; %s", now, r.text())
		}
		if strings.Contains(r.err.String(), "goroutine ") {
			return failf(key, "it crashes: %s", r.text())
		}
		// from now on, the choice counts
		if d := t.step("", tcmds[0]); d != "" {
			return failf(key, "the run after that: %s", d)
		}
		c.Outcome(now)
		c.Trans(1)
		c.Trace()
		return nil
	})
}

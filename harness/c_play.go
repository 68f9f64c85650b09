package main

// P22: which players the commands use, given the player state files.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"alda.io/client/generated"
)

// ear is a stand-in for a player process: it records what it is sent.
type ear struct {
	l     net.Listener
	port  int
	mu    sync.Mutex
	msgs  [][]omsg
	pings int
	bad   string
	syncs chan int
	on    func(e *ear, m omsg) // called for every message
}

func newEar() *ear {
	l, err := listen()
	if err != nil {
		panic(err)
	}
	e := &ear{l: l, port: l.Addr().(*net.TCPAddr).Port, syncs: make(chan int, 4)}
	go func() {
		for {
			conn, err := e.l.Accept()
			if err != nil {
				return
			}
			conn.SetDeadline(time.Now().Add(20 * time.Second))
			b, _ := io.ReadAll(conn)
			conn.Close()
			if bytes.HasPrefix(b, []byte("SYNC")) {
				e.syncs <- 1
				continue
			}
			if len(b) == 0 {
				continue
			}
			ms, err := decodeOSC(b)
			e.mu.Lock()
			switch {
			case err != nil:
				e.bad = err.Error()
			case len(ms) == 1 && ms[0].addr == "/ping":
				e.pings++
			default:
				e.msgs = append(e.msgs, ms)
			}
			e.mu.Unlock()
			if e.on != nil {
				for _, m := range ms {
					e.on(e, m)
				}
			}
		}
	}()
	return e
}

// heard returns what has been sent so far, except pings.
func (e *ear) heard() ([][]omsg, string) {
	if conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", e.port)); err == nil {
		conn.Write([]byte("SYNC"))
		conn.Close()
		<-e.syncs
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.msgs, e.bad
}

// aldaEnv is the surroundings of a run of the alda binary.
type aldaEnv struct {
	dir, players, repls, pending, log string
	env                               []string
}

var envCount atomic.Int64

// spawnScript stands in for the alda-player executable: "info" reports the
// version, "run" is counted and moves the next prepared state file (if any)
// to where players keep theirs.
const spawnScript = `#!/bin/sh
case "$1" in
info) printf '%s\n' "$FAKE_INFO"; exit "${FAKE_INFO_EXIT:-0}" ;;
run)
  echo run >> "$FAKE_LOG"
  for f in "$FAKE_PENDING"/*; do
    [ -e "$f" ] && mv "$f" "$FAKE_PLAYERS/" 2>/dev/null && break
  done
  ;;
*) echo "other $*" >> "$FAKE_LOG" ;;
esac
`

func newAldaEnv() (*aldaEnv, error) {
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("env%d", envCount.Add(1)))
	x := &aldaEnv{dir: dir, players: filepath.Join(dir, "cache", "alda", "state", "players", generated.ClientVersion),
		repls: filepath.Join(dir, "cache", "alda", "state", "repl-servers"), pending: filepath.Join(dir, "pending"), log: filepath.Join(dir, "spawned")}
	bin := filepath.Join(dir, "bin")
	for _, d := range []string{x.players, x.repls, x.pending, bin, filepath.Join(dir, "tmp"), filepath.Join(dir, "cwd")} {
		if err := os.MkdirAll(d, 0755); err != nil {
			return nil, err
		}
	}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "HOME", "PATH", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "TMPDIR", "ALDA_DISABLE_SPAWNING", "GOMAXPROCS":
		default:
			x.env = append(x.env, kv)
		}
	}
	x.env = append(x.env, "HOME="+dir, "PATH="+bin+":/usr/bin:/bin", "XDG_CACHE_HOME="+filepath.Join(dir, "cache"), "XDG_CONFIG_HOME="+filepath.Join(dir, "config"), "TMPDIR="+filepath.Join(dir, "tmp"),
		"ALDA_DISABLE_TELEMETRY=yes", "GOMAXPROCS=2", "GOTRACEBACK=single", "FAKE_LOG="+x.log, "FAKE_PENDING="+x.pending, "FAKE_PLAYERS="+x.players, "FAKE_INFO=alda-player "+generated.ClientVersion)
	return x, nil
}

func (x *aldaEnv) set(kv ...string) { x.env = append(x.env, kv...) }

func (x *aldaEnv) install() { x.installText(spawnScript) }

func (x *aldaEnv) installText(s string) {
	p := filepath.Join(x.dir, "bin", "alda-player")
	// written by another process, so that no writable descriptor of the
	// script can be inherited by a process started at the same time
	cmd := exec.Command("/bin/sh", "-c", `cat > "$1" && chmod 755 "$1"`, "sh", p)
	cmd.Stdin = strings.NewReader(s)
	if err := cmd.Run(); err != nil {
		panic(err)
	}
}

func (x *aldaEnv) close() { os.RemoveAll(x.dir) }

func (x *aldaEnv) spawned() (n int, other string) {
	b, _ := os.ReadFile(x.log)
	for _, l := range strings.Split(string(b), "\n") {
		if l == "run" {
			n++
		} else if l != "" {
			other = l
		}
	}
	return
}

// awaitSpawned waits until that many players have been started.
func (x *aldaEnv) awaitSpawned(want int) string {
	deadline := time.Now().Add(15 * time.Second)
	for {
		n, other := x.spawned()
		if other != "" {
			return "alda-player was run with the arguments " + other
		}
		if n > want {
			return fmt.Sprintf("%d player processes are started, %d are missing", n, want)
		}
		if n == want {
			return ""
		}
		if time.Now().After(deadline) {
			return fmt.Sprintf("%d player processes are started, %d are missing", n, want)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (x *aldaEnv) writeState(dir, name, content string, age time.Duration) {
	tmp := filepath.Join(x.dir, "tmp-"+name)
	os.WriteFile(tmp, []byte(content), 0644)
	t := time.Now().Add(-age)
	os.Chtimes(tmp, t, t)
	os.Rename(tmp, filepath.Join(dir, name))
}

type aldaRun struct {
	out, err bytes.Buffer
	code     int
	done     chan struct{}
	cmd      *exec.Cmd
}

func (x *aldaEnv) start(stdin io.Reader, args ...string) (*aldaRun, error) {
	return x.startWith(stdin, append([]string{os.Getenv("VERIF_ALDA")}, args...))
}

func (x *aldaEnv) startWith(stdin io.Reader, argv []string) (*aldaRun, error) {
	r := &aldaRun{done: make(chan struct{})}
	r.cmd = exec.Command(argv[0], argv[1:]...)
	r.cmd.Dir = filepath.Join(x.dir, "cwd")
	r.cmd.Env = x.env
	r.cmd.Stdin = stdin
	r.cmd.Stdout, r.cmd.Stderr = &r.out, &r.err
	r.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := r.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		r.cmd.Wait()
		r.code = r.cmd.ProcessState.ExitCode()
		close(r.done)
	}()
	return r, nil
}

// wait reports whether the command ended in time.
func (r *aldaRun) wait(d time.Duration) bool {
	select {
	case <-r.done:
		return true
	case <-time.After(d):
		syscall.Kill(-r.cmd.Process.Pid, syscall.SIGKILL)
		<-r.done
		return false
	}
}

func (r *aldaRun) text() string {
	return fmt.Sprintf("exit %d, stdout %.300q, stderr %.600q", r.code, r.out.String(), r.err.String())
}

// pkind is a kind of player state file.
type pkind struct {
	name  string
	state string // what the file says, "" if it is no valid state file
	live  bool   // somebody listens at the port
	age   time.Duration
	stale bool
	where string // "", "other version", "parent"
	text  func(port int) string
	make  func(path string)
}

func stateJSON(state string, port int) string {
	return fmt.Sprintf(`{"state":%q,"port":%d,"expiry":%d,"pid":%d}`, state, port, time.Now().Add(time.Hour).UnixMilli(), os.Getpid())
}

var pkinds = func() map[string]*pkind {
	m := map[string]*pkind{}
	add := func(k *pkind) { m[k.name] = k }
	add(&pkind{name: "ready", state: "ready", live: true})
	add(&pkind{name: "active", state: "active", live: true})
	add(&pkind{name: "starting", state: "starting", live: true})
	add(&pkind{name: "finishing", state: "finishing", live: true})
	add(&pkind{name: "odd-state", state: "READY", live: true})
	add(&pkind{name: "odd-state-2", state: "not ready", live: true})
	add(&pkind{name: "dead-active", state: "active"})
	add(&pkind{name: "dead-starting", state: "starting"})
	add(&pkind{name: "dead-ready", state: "ready"})
	add(&pkind{name: "old-ready", state: "ready", live: true, age: 95 * time.Second})
	add(&pkind{name: "old-active", state: "active", live: true, age: 95 * time.Second})
	add(&pkind{name: "stale-ready", state: "ready", live: true, age: 150 * time.Second, stale: true})
	add(&pkind{name: "stale-active", state: "active", live: true, age: 9 * time.Hour, stale: true})
	add(&pkind{name: "stale-starting", state: "starting", age: 150 * time.Second, stale: true})
	add(&pkind{name: "stale-junk", age: 150 * time.Second, stale: true, text: func(int) string { return "{" }})
	add(&pkind{name: "other-version", state: "ready", live: true, where: "other"})
	add(&pkind{name: "other-version-active", state: "active", live: true, where: "other"})
	add(&pkind{name: "parent", state: "ready", live: true, where: "parent"})
	add(&pkind{name: "empty", text: func(int) string { return "" }})
	add(&pkind{name: "half", live: true, text: func(p int) string { s := stateJSON("ready", p); return s[:len(s)-9] }})
	add(&pkind{name: "junk", text: func(int) string { return "\x00\x01 not json" }})
	add(&pkind{name: "array", live: true, text: func(p int) string { return "[" + stateJSON("ready", p) + "]" }})
	add(&pkind{name: "string", text: func(int) string { return `"ready"` }})
	add(&pkind{name: "bad-port", live: true, text: func(p int) string { return fmt.Sprintf(`{"state":"ready","port":"%d"}`, p) }})
	add(&pkind{name: "bad-state", live: true, text: func(p int) string { return fmt.Sprintf(`{"port":%d,"state":["ready"]}`, p) }})
	add(&pkind{name: "directory", make: func(p string) { os.Mkdir(p, 0755) }})
	add(&pkind{name: "dangling", make: func(p string) { os.Symlink("/nonexistent/alda", p) }})
	return m
}()

type pfile struct {
	*pkind
	id   string
	path string
	ear  *ear
	port int
}

// known: a player that the client knows about.
func (f *pfile) known() bool { return f.state != "" && !f.stale && f.where == "" && f.make == nil }

var deadPort = struct {
	sync.Once
	p int
}{}

// closedPort is a port at which nobody listens, now and later.
func closedPort() int {
	deadPort.Do(func() {
		// bound, but not listening: connections are refused
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			panic(err)
		}
		if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
			panic(err)
		}
		sa, _ := syscall.Getsockname(fd)
		deadPort.p = sa.(*syscall.SockaddrInet4).Port
	})
	return deadPort.p
}

// playerID: ids are made of letters and digits, also of those of ".json".
func playerID(i int) string {
	ids := []string{"jon", "p1b", "nos", "sj", "oaj", "json", "o.j"}
	if i < len(ids) {
		return ids[i]
	}
	return fmt.Sprintf("p%d%s", i, string(rune('a'+i)))
}

func (x *aldaEnv) place(i int, k *pkind) *pfile {
	f := &pfile{pkind: k, id: playerID(i)}
	dir := x.players
	switch k.where {
	case "other":
		dir = filepath.Join(filepath.Dir(x.players), "0.0.1")
		os.MkdirAll(dir, 0755)
	case "parent":
		dir = filepath.Dir(x.players)
	}
	f.path = filepath.Join(dir, f.id+".json")
	f.port = closedPort()
	if k.live {
		f.ear = newEar()
		f.port = f.ear.port
	}
	switch {
	case k.make != nil:
		k.make(f.path)
	case k.text != nil:
		x.writeState(dir, f.id+".json", k.text(f.port), k.age)
	default:
		x.writeState(dir, f.id+".json", stateJSON(k.state, f.port), k.age)
	}
	return f
}

// missing is how many players have to be started.
func missing(fs []*pfile) int {
	n := 3
	for _, f := range fs {
		if f.known() && (f.state == "ready" || f.state == "starting") {
			n--
		}
	}
	return max0(n)
}

// command runs one command with the given state files and checks who is sent
// what, what is started, what is reported and which files are left.
func (c *Ctx) playerCommand(key string, kinds []string, cmd string) *Fail {
	x, err := newAldaEnv()
	if err != nil {
		return failf(key, "%v", err)
	}
	defer x.close()
	x.install()
	var fs []*pfile
	for i, k := range kinds {
		f := x.place(i, pkinds[k])
		if f.ear != nil {
			defer f.ear.l.Close()
		}
		fs = append(fs, f)
	}
	verb, target, _ := strings.Cut(cmd, " ")
	args := []string{verb}
	fills := verb != "ps" && verb != "shutdown"
	var to *pfile // the player chosen by an option
	byOpt, fails := false, false
	switch {
	case strings.HasPrefix(target, "-i "):
		byOpt = true
		id := strings.TrimPrefix(target, "-i ")
		if w := map[string]string{"nosuch": "nosuch", "upper": strings.ToUpper(fs[0].id), "longer": fs[0].id + "x", "shorter": fs[0].id[:len(fs[0].id)-1], "file": fs[0].id + ".json", "dot": "./" + fs[0].id}[id]; w != "" {
			args = append(args, "-i", w)
		} else {
			var n int
			fmt.Sscanf(id, "#%d", &n)
			args = append(args, "-i", fs[n].id)
			if fs[n].known() {
				to = fs[n]
			}
		}
		fails = to == nil
	case strings.HasPrefix(target, "-p "):
		byOpt = true
		var n int
		fmt.Sscanf(strings.TrimPrefix(target, "-p "), "#%d", &n)
		args = append(args, "-p", fmt.Sprint(fs[n].port))
		to = fs[n]
	case target != "":
		args = append(args, strings.Fields(target)...)
	}
	addr := ""
	want := map[*pfile]bool{} // who must be sent something
	var oneOf []*pfile        // exactly one of these must be
	code := 0
	switch verb {
	case "play":
		addr = "notes"
		args = append(args, "-c", "piano: c8 d8")
		if byOpt {
			if to != nil && to.ear != nil {
				want[to] = true
			} else {
				fails = true
			}
		} else {
			for _, f := range fs {
				if f.known() && f.state == "ready" && f.ear != nil {
					oneOf = append(oneOf, f)
				}
			}
		}
	case "unpause":
		args[0] = "play"
		addr = "/system/play"
		for _, f := range fs {
			if byOpt && f == to || !byOpt && f.known() && f.state == "active" {
				if f.ear != nil {
					want[f] = true
				} else if byOpt {
					fails = true
				}
			}
		}
	case "stop", "shutdown":
		addr = "/system/" + verb
		for _, f := range fs {
			if (byOpt && f == to || !byOpt && f.known()) && f.ear != nil {
				want[f] = true
			}
		}
	case "ps":
		x.writeState(x.repls, "abc.json", `{"id":"abc","port":1234,"pid":77}`, 0)
		x.writeState(x.repls, "def.json", `{"id":"def","port":`, 0)
		x.writeState(x.repls, "ghi.json", `{"id":"ghi","port":4321,"pid":78}`, 5*time.Minute)
	}
	n := 0
	if fills {
		n = missing(fs)
	}
	for _, f := range fs {
		if f.name == "dead-ready" {
			// the players that are started are coming up
			for i := 0; i < 6; i++ {
				os.WriteFile(filepath.Join(x.pending, fmt.Sprintf("q%d.json", i)), []byte(stateJSON("starting", closedPort())), 0644)
			}
		}
	}
	r, err := x.start(nil, args...)
	if err != nil {
		return failf(key, "%v", err)
	}
	var late *pfile
	if verb == "play" && !byOpt && len(oneOf) == 0 {
		// a player becomes available only later
		if d := x.awaitSpawned(n); d != "" {
			r.wait(0)
			return failf(key, "%s; %s", d, r.text())
		}
		if n == 0 {
			time.Sleep(150 * time.Millisecond)
		}
		select {
		case <-r.done:
			return failf(key, "the command ends although no player is available: %s", r.text())
		default:
		}
		late = x.place(9, pkinds["ready"])
		defer late.ear.l.Close()
		oneOf = []*pfile{late}
	}
	limit := 15 * time.Second
	for _, f := range fs {
		if f.name == "dead-ready" {
			limit += 45 * time.Second
		}
	}
	if !r.wait(limit) {
		return failf(key, "the command does not end: %s", r.text())
	}
	if fails {
		code = 1
	}
	if r.code != code {
		return failf(key, "expected exit %d: %s", code, r.text())
	}
	if fails && strings.TrimSpace(r.err.String()) == "" {
		return failf(key, "it fails without a report")
	}
	if fills {
		// players that turn out to be gone are replaced
		var there []*pfile
		for _, f := range fs {
			if _, err := os.Lstat(f.path); err == nil || f.name != "dead-ready" {
				there = append(there, f)
			}
		}
		n = missing(there)
	}
	if d := x.awaitSpawned(n); d != "" {
		return failf(key, "%s; %s", d, r.text())
	}
	all := fs
	if late != nil {
		all = append(all[:len(all):len(all)], late)
	}
	got := 0
	for _, f := range all {
		if f.ear == nil {
			continue
		}
		ms, bad := f.ear.heard()
		if bad != "" {
			return failf(key, "%s (%s) was sent %s", f.id, f.name, bad)
		}
		cand := want[f]
		for _, o := range oneOf {
			if o == f && len(ms) > 0 {
				cand = true
				got++
			}
		}
		if !cand {
			if len(ms) > 0 {
				return failf(key, "%s (%s) is sent %v", f.id, f.name, ms)
			}
			continue
		}
		if len(ms) != 1 {
			return failf(key, "%s (%s) is sent %d packets: %v; %s", f.id, f.name, len(ms), ms, r.text())
		}
		if addr == "notes" {
			notes := 0
			for _, m := range ms[0] {
				if strings.HasSuffix(m.addr, "/midi/note") {
					notes++
				}
			}
			if notes != 2 {
				return failf(key, "%s is sent %d notes: %v", f.id, notes, ms[0])
			}
		} else if len(ms[0]) != 1 || ms[0][0].addr != addr {
			return failf(key, "%s is sent %v, expected %s", f.id, ms[0], addr)
		}
	}
	if len(oneOf) > 0 && got != 1 {
		return failf(key, "%d players are sent the score", got)
	}
	// state files: stale ones are removed, all others are left alone
	for _, f := range all {
		_, err := os.Lstat(f.path)
		there := err == nil
		if f.name == "dead-ready" && fills && !byOpt && verb == "play" {
			continue // removed if it was tried
		}
		if reads := verb == "ps" || fills || !byOpt || strings.HasPrefix(target, "-i "); f.stale && there && reads {
			return failf(key, "the stale state file %s (%s) is not removed", f.id, f.name)
		}
		if !f.stale && !there {
			return failf(key, "the state file %s (%s) is removed", f.id, f.name)
		}
	}
	if verb == "ps" {
		if d := checkPs(r.out.String(), fs); d != "" {
			return failf(key, "%s\n%s", d, r.out.String())
		}
	}
	var left []string
	if es, err := os.ReadDir(x.players); err == nil {
		for _, e := range es {
			left = append(left, e.Name())
		}
	}
	b, _ := json.Marshal(kinds)
	c.State(string(b))
	if len(kinds) > 0 {
		c.Nontrivial()
	}
	c.Outcome(fmt.Sprintf("%s code=%d spawned=%d sent=%d left=%d", verb, code, n, got+len(want), len(left)))
	c.Trans(1 + len(kinds))
	c.Trace()
	return nil
}

func checkPs(out string, fs []*pfile) string {
	var want, got []string
	for _, f := range fs {
		if f.known() {
			want = append(want, fmt.Sprintf("%s %d %s player %d", f.id, f.port, f.state, os.Getpid()))
		}
	}
	want = append(want, "abc 1234 - repl-server 77")
	for i, l := range strings.Split(strings.TrimSpace(out), "\n") {
		cols := strings.Split(l, "\t")
		if i == 0 {
			continue
		}
		if len(cols) != 6 {
			return fmt.Sprintf("unexpected line %q", l)
		}
		got = append(got, strings.Join([]string{cols[0], cols[1], cols[2], cols[4], cols[5]}, " "))
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return fmt.Sprintf("listed: %q, expected: %q", got, want)
	}
	return ""
}

func init() {
	register("P22", "fault_enumeration", func(c *Ctx) {
		c.stubborn = 2
		hangLimit = 120 * time.Second
		c.Rule("evaluations = runs of the real alda binary with a directory of player state files and stand-in players; states = different directories; each run is checked for who is sent what, which players are started, what is reported and which files are left; distinct_nontrivial = runs with at least one state file")
		c.Assume("a player process is a TCP listener plus a state file, as in StateManager.kt; alda-player is a stand-in on PATH that counts how often it is run")
		const workers = 32
		type hc struct {
			kinds []string
			cmd   string
		}
		run := func(key string, v any) *Fail {
			h := v.(hc)
			return c.playerCommand(key, h.kinds, h.cmd)
		}
		name := func(h hc) string { return "[" + strings.Join(h.kinds, " ") + "] " + h.cmd }
		var kinds []string
		for _, k := range sortedKeys(pkinds) {
			if k != "dead-ready" {
				kinds = append(kinds, k)
			}
		}
		core := []string{"ready", "active", "starting", "dead-active", "stale-ready", "half", "other-version"}
		c.ExploreN("one or two state files", workers, func(yield func(string, any) bool) {
			cmds := []string{"play", "unpause", "stop", "shutdown", "ps"}
			dirs := [][]string{{}}
			for _, a := range kinds {
				dirs = append(dirs, []string{a})
			}
			for _, a := range kinds {
				for _, b := range kinds {
					dirs = append(dirs, []string{a, b})
				}
			}
			for _, d := range dirs {
				for _, m := range cmds {
					if h := (hc{d, m}); !yield(name(h), h) {
						return
					}
				}
			}
		}, run)
		c.ExploreN("players chosen by an option", workers, func(yield func(string, any) bool) {
			for _, a := range kinds {
				for _, b := range []string{"ready", "active", "half"} {
					for _, verb := range []string{"play", "unpause", "stop", "shutdown"} {
						for _, o := range []string{"-i #0", "-p #0", "-i nosuch", "-i upper", "-i longer", "-i shorter", "-i file", "-i dot"} {
							if len(o) > 5 && o != "-i nosuch" && (b != "ready" || a != "ready" && a != "active" && a != "half") {
								continue
							}
							if o == "-p #0" && !pkinds[a].live && pkinds[a].state == "" {
								continue
							}
							for _, d := range [][]string{{a, b}} {
								if h := (hc{d, verb + " " + o}); !yield(name(h), h) {
									return
								}
							}
						}
					}
				}
			}
		}, run)
		c.ExploreN("three and more state files", workers, func(yield func(string, any) bool) {
			n := 3
			if c.Thorough {
				n = 4
			}
			var rec func(d []string) bool
			rec = func(d []string) bool {
				if len(d) >= 3 {
					for _, m := range []string{"play", "unpause", "stop", "shutdown", "ps"} {
						if len(d) == 4 && m != "play" && m != "stop" {
							continue
						}
						if h := (hc{d, m}); !yield(name(h), h) {
							return false
						}
					}
				}
				if len(d) == n {
					return true
				}
				for _, k := range core {
					if !rec(append(d[:len(d):len(d)], k)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, run)
		c.ExploreN("commands that fill the pool", workers, func(yield func(string, any) bool) {
			for r := 0; r <= 4; r++ {
				for s := 0; r+s <= 4; s++ {
					for _, extra := range []string{"", "active", "stale-ready", "half", "other-version", "stale-starting"} {
						var d []string
						for i := 0; i < r; i++ {
							d = append(d, "ready")
						}
						for i := 0; i < s; i++ {
							d = append(d, "starting")
						}
						if extra != "" {
							d = append(d, extra)
						}
						for _, m := range []string{"play", "stop", "ps", "shutdown", "instruments", "version"} {
							if m == "play" && r == 0 && s > 0 {
								continue
							}
							if h := (hc{d, m}); !yield(name(h), h) {
								return
							}
						}
					}
				}
			}
		}, run)
		c.truncatedStates(workers)
		c.startedPlayers(workers)
		c.ExploreN("players that are gone, but look ready", 64, func(yield func(string, any) bool) {
			dirs := [][]string{{"dead-ready", "ready"}, {"ready", "dead-ready"}, {"active", "dead-ready", "ready"}, {"dead-ready", "active", "ready"}, {"active", "ready", "dead-ready"}, {"ready", "active", "dead-ready"}, {"dead-ready", "ready", "active"}, {"ready", "dead-ready", "active"}, {"half", "dead-ready", "ready"}, {"dead-ready", "ready", "ready", "ready"}}
			if c.Thorough {
				dirs = append(dirs, []string{"dead-ready", "dead-ready", "ready"}, []string{"dead-ready", "stale-ready", "old-ready"}, []string{"starting", "dead-ready", "junk", "ready"})
			}
			for _, d := range dirs {
				if h := (hc{d, "play"}); !yield(name(h), h) {
					return
				}
			}
			for _, a := range kinds {
				for _, m := range []string{"unpause", "stop", "shutdown", "ps"} {
					for _, d := range [][]string{{"dead-ready", a}, {a, "dead-ready"}} {
						if h := (hc{d, m}); !yield(name(h), h) {
							return
						}
					}
				}
			}
		}, run)
	})
}

// truncatedStates: a state file cut at every byte, next to a usable player.
func (c *Ctx) truncatedStates(workers int) {
	c.ExploreN("state files cut at every byte", workers, func(yield func(string, any) bool) {
		for n := 0; n < len(stateJSON("ready", 12345)); n++ {
			for _, cmd := range []string{"play", "stop", "ps"} {
				if !yield(fmt.Sprintf("%s with a state file cut after %d bytes", cmd, n), [2]any{n, cmd}) {
					return
				}
			}
		}
	}, func(key string, v any) *Fail {
		n, cmd := v.([2]any)[0].(int), v.([2]any)[1].(string)
		x, err := newAldaEnv()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer x.close()
		x.install()
		cut := newEar()
		defer cut.l.Close()
		s := stateJSON("ready", cut.port)
		x.writeState(x.players, "p0.json", s[:minInt(n, len(s)-1)], 0)
		f := x.place(1, pkinds["ready"])
		defer f.ear.l.Close()
		args := []string{cmd}
		if cmd == "play" {
			args = append(args, "-c", "piano: c8 d8")
		}
		if cmd == "ps" {
			x.writeState(x.repls, "abc.json", `{"id":"abc","port":1234,"pid":77}`, 0)
		}
		r, err := x.start(nil, args...)
		if err != nil {
			return failf(key, "%v", err)
		}
		if !r.wait(15*time.Second) || r.code != 0 {
			return failf(key, "%s", r.text())
		}
		if ms, _ := cut.heard(); len(ms) > 0 || cut.pings > 0 {
			return failf(key, "the player of the cut state file is used")
		}
		if ms, _ := f.ear.heard(); cmd != "ps" && len(ms) != 1 {
			return failf(key, "the other player is sent %d packets", len(ms))
		}
		if cmd == "ps" {
			if d := checkPs(r.out.String(), []*pfile{f}); d != "" {
				return failf(key, "%s", d)
			}
		} else if d := x.awaitSpawned(2); d != "" {
			return failf(key, "%s", d)
		}
		c.Trans(1)
		c.Trace()
		return nil
	})
}

// startedPlayers: the players that are started come up (or not), and the
// alda-player executable is usable (or not).
func (c *Ctx) startedPlayers(workers int) {
	type hc struct {
		have    []string
		up      int // how many of the started ones become ready
		player  string
		cmdline []string
		fails   bool
	}
	c.ExploreN("players that are started", 64, func(yield func(string, any) bool) {
		play := []string{"play", "-c", "piano: c8 d8"}
		for _, have := range [][]string{{}, {"active"}, {"starting"}, {"stale-ready", "half"}, {"dead-active", "other-version"}, {"starting", "starting"}} {
			for up := 1; up <= 3; up++ {
				m := 3
				for _, k := range have {
					if k == "starting" {
						m--
					}
				}
				if up > m {
					continue
				}
				for _, pl := range []string{"", "other version", "slow"} {
					if !yield(fmt.Sprintf("%v: %d come up, alda-player %s", have, up, pl), hc{have, up, pl, play, false}) {
						return
					}
				}
			}
		}
		for _, pl := range []string{"absent", "info fails", "info is junk"} {
			for _, have := range [][]string{{"ready"}, {"active", "ready"}} {
				if !yield(fmt.Sprintf("%v: alda-player %s", have, pl), hc{have, 0, pl, play, false}) {
					return
				}
			}
			for _, have := range [][]string{{}, {"active"}} {
				if !yield(fmt.Sprintf("%v: alda-player %s", have, pl), hc{have, 0, pl, play, true}) {
					return
				}
			}
		}
	}, func(key string, v any) *Fail {
		h := v.(hc)
		x, err := newAldaEnv()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer x.close()
		var fs []*pfile
		n := 0
		switch h.player {
		case "absent":
		case "info fails":
			x.install()
			x.set("FAKE_INFO_EXIT=3")
		case "info is junk":
			x.install()
			x.set("FAKE_INFO=hello")
		case "other version":
			x.install()
			x.set("FAKE_INFO=alda-player 1.2.3")
		case "slow":
			x.installText(strings.Replace(spawnScript, "for f in", "sleep 1\n  for f in", 1))
		default:
			x.install()
		}
		for i, k := range h.have {
			f := x.place(i, pkinds[k])
			if f.ear != nil {
				defer f.ear.l.Close()
			}
			fs = append(fs, f)
		}
		if h.player != "absent" && !strings.HasPrefix(h.player, "info") {
			n = missing(fs)
		}
		var cands []*ear
		for i := 0; i < h.up; i++ {
			e := newEar()
			defer e.l.Close()
			os.WriteFile(filepath.Join(x.pending, fmt.Sprintf("q%d.json", i)), []byte(stateJSON("ready", e.port)), 0644)
			cands = append(cands, e)
		}
		for _, f := range fs {
			if f.known() && f.state == "ready" {
				cands = append(cands, f.ear)
			}
		}
		r, err := x.start(nil, h.cmdline...)
		if err != nil {
			return failf(key, "%v", err)
		}
		if !r.wait(60 * time.Second) {
			return failf(key, "the command does not end: %s", r.text())
		}
		if (r.code != 0) != h.fails {
			return failf(key, "%s", r.text())
		}
		if h.fails && strings.TrimSpace(r.err.String()) == "" {
			return failf(key, "it fails without a report")
		}
		if d := x.awaitSpawned(n); d != "" {
			return failf(key, "%s; %s", d, r.text())
		}
		got := 0
		for _, e := range cands {
			ms, bad := e.heard()
			if bad != "" {
				return failf(key, "a player is sent %s", bad)
			}
			got += len(ms)
		}
		for _, f := range fs {
			if f.ear != nil && !(f.known() && f.state == "ready") {
				if ms, _ := f.ear.heard(); len(ms) > 0 {
					return failf(key, "%s (%s) is sent %v", f.id, f.name, ms)
				}
			}
		}
		if want := map[bool]int{true: 0, false: 1}[h.fails]; got != want {
			return failf(key, "%d transmissions, expected %d: %s", got, want, r.text())
		}
		c.Outcome(fmt.Sprintf("started %d, %d up, code %d", n, h.up, r.code))
		c.Trans(1)
		c.Trace()
		return nil
	})
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

package main

// P33: what `alda doctor` says about the surroundings it finds.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"alda.io/client/generated"
)

// standIn is how a stand-in for a player process behaves. Every field is
// empty if it behaves as a player does.
type standIn struct {
	Listen   string // "late", "never", "exits"
	Ping     string // "leaves": stops listening after the first ping
	Log      string // "late", "never", "no ping", "late ping"
	State    string // "late", "never", or another state than usual
	Port     string // "wrong": registers a port where nobody listens
	Midi     string // see midiFile
	Shutdown string // "late", "keeps its file"
}

// standIns are the one that is told its port, and the ones that aren't.
type standIns struct {
	Told, Untold standIn
	Gone         bool // the executable is removed when the first one is run
}

// midiOf is a MIDI file with these notes.
func midiOf(notes ...byte) []byte {
	var t bytes.Buffer
	t.Write([]byte{0, 0xc0, 9, 0, 0xb0, 7, 100})
	for _, n := range notes {
		t.Write([]byte{0, 0x90, n, 69, 0x40, 0x80, n, 69})
	}
	t.Write([]byte{0, 0xff, 0x2f, 0})
	b := []byte("MThd\x00\x00\x00\x06\x00\x00\x00\x01\x00\x80MTrk")
	n := t.Len()
	return append(append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n)), t.Bytes()...)
}

var doctorNotes = []byte{84, 88, 91, 96}

func writeMidi(path, how string) {
	whole := midiOf(doctorNotes...)
	w := func(b []byte) { os.WriteFile(path, b, 0644) }
	switch {
	case how == "never":
	case how == "empty":
		w(nil)
	case how == "text":
		w([]byte("this is no MIDI file"))
	case how == "others":
		w(midiOf(60, 62, 64, 65))
	case how == "with others":
		w(midiOf(60, 84, 61, 88, 91, 91, 62, 96, 63))
	case how == "backwards":
		w(midiOf(96, 91, 88, 84))
	case strings.HasPrefix(how, "without "):
		i, _ := strconv.Atoi(how[8:])
		w(midiOf(append(append([]byte{}, doctorNotes[:i]...), doctorNotes[i+1:]...)...))
	case strings.HasPrefix(how, "cut "):
		i, _ := strconv.Atoi(how[4:])
		w(whole[:i])
	case strings.HasPrefix(how, "pause "):
		i, _ := strconv.Atoi(how[6:])
		f, err := os.Create(path)
		if err != nil {
			return
		}
		f.Write(whole[:i])
		time.Sleep(400 * time.Millisecond)
		f.Write(whole[i:])
		f.Close()
	case how == "late":
		time.Sleep(1500 * time.Millisecond)
		w(whole)
	default:
		w(whole)
	}
}

// bindPort is a socket that has a port (of the loopback address), but doesn't
// listen.
func bindPort(port int) (int, error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0, err
	}
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}}); err != nil || port == 0 {
		syscall.Close(fd)
	}
	return fd, err
}

func listenOn(fd int) (net.Listener, error) {
	if err := syscall.Listen(fd, 128); err != nil {
		return nil, err
	}
	f := os.NewFile(uintptr(fd), "")
	defer f.Close()
	return net.FileListener(f)
}

// hold leaves a process behind that keeps a port from being used.
func hold(fd int) {
	cmd := exec.Command("sleep", "60")
	cmd.ExtraFiles = []*os.File{os.NewFile(uintptr(fd), "")}
	cmd.Start()
}

// runFakePlayer is the main function of the stand-in.
func runFakePlayer(args []string) {
	go func() { time.Sleep(100 * time.Second); os.Exit(0) }()
	var fs standIns
	json.Unmarshal([]byte(os.Getenv("FAKE_BEHAVIOUR")), &fs)
	note := func(f string, a ...any) {
		l, err := os.OpenFile(os.Getenv("FAKE_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err == nil {
			fmt.Fprintf(l, "%d %s\n", os.Getpid(), fmt.Sprintf(f, a...))
			l.Close()
		}
	}
	note("run %s", strings.Join(args, " "))
	b, port, lazy := fs.Untold, 0, false
	for i, a := range args {
		if a == "-p" && i+1 < len(args) {
			b = fs.Told
			port, _ = strconv.Atoi(args[i+1])
		}
		lazy = lazy || a == "--lazy-audio"
	}
	// The port is taken from the beginning even if nobody listens yet, so that
	// nothing else that runs at the same time can come to listen there. The
	// ports of those that aren't told one are not the ones that the system
	// hands out.
	fd, err := bindPort(port)
	for i := 0; port == 0 && i < 1000; i++ {
		p := 10000 + (os.Getpid()*7+i*101)%20000
		if fd, err = bindPort(p); err == nil {
			port = p
		}
	}
	if err != nil {
		note("cannot listen: %v", err)
		return
	}
	switch b.Listen {
	case "exits":
		hold(fd)
		return
	case "late":
		time.Sleep(1500 * time.Millisecond)
	case "never":
		time.Sleep(100 * time.Second)
	}
	players, id := os.Getenv("FAKE_PLAYERS"), fmt.Sprintf("fake%d", os.Getpid())
	logs := filepath.Join(filepath.Dir(filepath.Dir(filepath.Dir(players))), "logs")
	logLine := func(s string) {
		os.MkdirAll(logs, 0755)
		f, err := os.OpenFile(filepath.Join(logs, "alda-player.log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err == nil {
			f.WriteString(s + "\n")
			f.Close()
		}
	}
	if b.Log == "" || b.Log == "no ping" || b.Log == "late ping" {
		logLine("INFO waiting to be sent a ping")
	}
	l, err := listenOn(fd)
	if err != nil {
		note("cannot listen: %v", err)
		return
	}
	file := filepath.Join(players, id+".json")
	register := func(state string) {
		p := port
		if b.Port == "wrong" {
			p = 1
		}
		tmp := filepath.Join(filepath.Dir(os.Getenv("FAKE_LOG")), id)
		os.WriteFile(tmp, []byte(stateJSON(state, p)), 0644)
		os.Rename(tmp, file)
	}
	usual := "ready"
	if lazy {
		usual = "starting"
	}
	switch b.State {
	case "":
		register(usual)
	case "late":
		go func() { time.Sleep(1200 * time.Millisecond); register(usual) }()
	case "never":
	default:
		register(b.State)
	}
	for {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		conn.SetDeadline(time.Now().Add(20 * time.Second))
		data, _ := io.ReadAll(conn)
		conn.Close()
		if len(data) == 0 {
			continue
		}
		ms, err := decodeOSC(data)
		if err != nil {
			note("undecodable")
		}
		for i, m := range ms {
			switch m.addr {
			case "/ping":
				note("ping")
				switch b.Log {
				case "":
					logLine("INFO received ping")
				case "late", "late ping":
					go func() { time.Sleep(1200 * time.Millisecond); logLine("INFO received ping") }()
				}
				if b.Ping == "leaves" {
					l.Close()
					bindPort(port)
					time.Sleep(100 * time.Second)
				}
			case "/system/midi/export":
				note("export")
				go writeMidi(m.args[0].(string), b.Midi)
			case "/system/shutdown":
				note("shutdown %v", m.args[0])
				if b.Shutdown == "late" {
					time.Sleep(1200 * time.Millisecond)
				}
				if b.Shutdown != "keeps its file" {
					os.Remove(file)
				}
				return
			default:
				if i == 0 {
					note("score")
					if b.State == "" {
						register("active")
					}
				}
			}
		}
	}
}

// the checks, in order
const (
	dOSC      = "Send and receive OSC messages"
	dLocate   = "Locate alda-player executable on PATH"
	dVersion  = "Check alda-player version"
	dSpawn    = "Spawn a player process"
	dPing     = "Ping player process"
	dPlay     = "Play score"
	dExport   = "Export score as MIDI"
	dLogs     = "Locate player logs"
	dLogPing  = "Player logs show the ping was received"
	dShutdown = "Shut down player process"
	dSpawn2   = "Spawn a player on an unknown port"
	dDiscover = "Discover the player"
	dPing2    = "Ping the player"
	dShut2    = "Shut the player down"
	dREPL     = "Start a REPL server"
	dFind     = "Find the REPL server"
)

var doctorSteps = []string{"Parse source code", "Generate score model", "Ensure that there are no stale player processes", "Find an open port", dOSC, dLocate, dVersion, dSpawn, dPing, dPlay, dExport, dLogs, dLogPing, dShutdown, dSpawn2, dDiscover, dPing2, dShut2, dREPL, dFind, "Interact with the REPL server", "Shut down the REPL server"}

// trouble is something that is not as it should be, and the check that finds
// it ("" if it does no harm).
type trouble struct {
	name  string
	step  string
	or    string // the next check may find it, too
	quiet string // the check that finds it with --no-audio, "-" if as above
	set   func(f *standIns, x *aldaEnv)
	stdin string
}

func troubles() []trouble {
	told := func(name, step, quiet string, fn func(p *standIn)) trouble {
		return trouble{name: "the first player " + name, step: step, quiet: quiet, set: func(f *standIns, _ *aldaEnv) { fn(&f.Told) }}
	}
	untold := func(name, step, quiet string, fn func(p *standIn)) trouble {
		return trouble{name: "the second player " + name, step: step, quiet: quiet, set: func(f *standIns, _ *aldaEnv) { fn(&f.Untold) }}
	}
	env := func(name, step string, kv ...string) trouble {
		return trouble{name: name, step: step, quiet: "-", set: func(_ *standIns, x *aldaEnv) { x.set(kv...) }}
	}
	both := func(name, step, quiet string, fn func(p *standIn)) trouble {
		return trouble{name: "the players " + name, step: step, quiet: quiet, set: func(f *standIns, _ *aldaEnv) { fn(&f.Told); fn(&f.Untold) }}
	}
	out := []trouble{
		env("the player reports nothing", dLocate, "FAKE_INFO="),
		env("the player reports something else", dLocate, "FAKE_INFO=command not found: java"),
		env("the player fails", dLocate, "FAKE_INFO_EXIT=1"),
		env("the player is older", dVersion, "FAKE_INFO=alda-player 1.0.0"),
		env("the player's version is longer", dVersion, "FAKE_INFO=alda-player "+generated.ClientVersion+".1"),
		env("the player's version is shorter", dVersion, "FAKE_INFO=alda-player "+generated.ClientVersion[:len(generated.ClientVersion)-1]),
		env("the player says more", "", "FAKE_INFO=Picked up JAVA_OPTIONS\nalda-player "+generated.ClientVersion+"\nlog path: /x"),
		{name: "there is no player", step: dLocate, quiet: "-", set: func(_ *standIns, x *aldaEnv) { os.Remove(filepath.Join(x.dir, "bin", "alda-player")) }},
		{name: "the player cannot be executed", step: dLocate, quiet: "-", set: func(_ *standIns, x *aldaEnv) { os.Chmod(filepath.Join(x.dir, "bin", "alda-player"), 0644) }},
		env("the player disappears after its version is known", dSpawn, "FAKE_VANISH=info"),
		{name: "the player disappears once it runs", step: dSpawn2, quiet: "-", set: func(f *standIns, _ *aldaEnv) { f.Gone = true }},
		told("listens late", "", "-", func(p *standIn) { p.Listen = "late" }),
		told("never listens", dPing, "-", func(p *standIn) { p.Listen = "never" }),
		told("exits", dPing, "-", func(p *standIn) { p.Listen = "exits" }),
		{name: "the first player leaves", step: dPlay, or: dExport, quiet: dShutdown, set: func(f *standIns, _ *aldaEnv) { f.Told.Ping = "leaves" }},
		told("keeps its file", "", "-", func(p *standIn) { p.Shutdown = "keeps its file" }),
		told("never registers", "", "-", func(p *standIn) { p.State = "never" }),
		both("log late", "", "-", func(p *standIn) { p.Log = "late" }),
		both("log pings late", "", "-", func(p *standIn) { p.Log = "late ping" }),
		both("log nothing", dLogs, "-", func(p *standIn) { p.Log = "never" }),
		both("log no ping", dLogPing, "-", func(p *standIn) { p.Log = "no ping" }),
		untold("registers late", "", "-", func(p *standIn) { p.State = "late" }),
		untold("never registers", dDiscover, "-", func(p *standIn) { p.State = "never" }),
		untold("is active", dDiscover, "-", func(p *standIn) { p.State = "active" }),
		untold("is starting", dDiscover, "", func(p *standIn) { p.State = "starting" }),
		untold("is ready", "", "-", func(p *standIn) { p.State = "ready" }),
		untold("exits", dDiscover, "-", func(p *standIn) { p.Listen = "exits" }),
		untold("registers a port where nobody listens", dPing2, "-", func(p *standIn) { p.Port = "wrong" }),
		untold("shuts down late", "", "-", func(p *standIn) { p.Shutdown = "late" }),
		untold("keeps its file", dShut2, "-", func(p *standIn) { p.Shutdown = "keeps its file" }),
		untold("leaves", dShut2, "-", func(p *standIn) { p.Ping = "leaves" }),
		{name: "servers cannot be registered", step: dFind, quiet: "-", set: func(_ *standIns, x *aldaEnv) {
			os.Remove(x.repls)
			os.WriteFile(x.repls, []byte("a file"), 0644)
		}},
	}
	midi := func(how, step string) {
		out = append(out, told("exports: "+how, step, "", func(p *standIn) { p.Midi = how }))
	}
	for _, how := range []string{"never", "empty", "text", "others", "backwards", "without 0", "without 1", "without 2", "without 3"} {
		midi(how, dExport)
	}
	n := len(midiOf(doctorNotes...))
	for _, how := range []string{"with others", "late"} {
		midi(how, "")
	}
	for i := 0; i < n; i++ {
		midi(fmt.Sprint("pause ", i), "")
	}
	for i := 0; i < n-11; i++ {
		midi(fmt.Sprint("cut ", i), dExport)
	}
	return out
}

var (
	escapes = regexp.MustCompile("\x1b\\[[0-9;]*m")
	docLine = regexp.MustCompile(`(?:^|\] )(OK|ERR) +(.*\S)\s*$`)
)

type docCase struct {
	ts    []trouble
	quiet bool     // --no-audio
	files []string // kinds of players that are there before
}

const doctorScript = `#!/bin/sh
case "$2$1" in
*info) printf '%s\n' "$FAKE_INFO"; [ "$FAKE_VANISH" = info ] && rm -f "$0"; exit "${FAKE_INFO_EXIT:-0}" ;;
esac
[ -n "$FAKE_GONE" ] && rm -f "$0"
exec "$VERIF_MC" fakeplayer "$@"
`

func (c *Ctx) doctor(key string, d *docCase) *Fail {
	x, err := newAldaEnv()
	if err != nil {
		return failf(key, "%v", err)
	}
	defer x.close()
	x.installText(doctorScript)
	x.set("ALDA_DISABLE_SPAWNING=yes")
	var fs standIns
	stdin := "n\n"
	fails, or := "", ""
	at := len(doctorSteps)
	for _, t := range d.ts {
		t.set(&fs, x)
		step := t.step
		if d.quiet && t.quiet != "-" {
			step = t.quiet
		}
		for i, s := range doctorSteps {
			if s == step && i < at {
				at, fails, or = i, s, ""
				if !d.quiet {
					or = t.or
				}
			}
		}
	}
	b, _ := json.Marshal(fs)
	x.set("FAKE_BEHAVIOUR=" + string(b))
	if fs.Gone {
		x.set("FAKE_GONE=yes")
	}
	var ps []*pfile
	for i, k := range d.files {
		f := x.place(i, pkinds[k])
		if f.ear != nil {
			defer f.ear.l.Close()
		}
		ps = append(ps, f)
	}
	args := []string{"doctor"}
	if d.quiet {
		args = append(args, "--no-audio")
	}
	before := snapshot(filepath.Join(x.dir, "cwd"))
	r, err := x.start(strings.NewReader(stdin), args...)
	if err != nil {
		return failf(key, "%v", err)
	}
	defer syscall.Kill(-r.cmd.Process.Pid, syscall.SIGKILL)
	select {
	case <-r.done:
	case <-time.After(100 * time.Second):
		return failf(key, "the command does not end: %s", r.text())
	}
	// what is said
	var want, got []string
	for i, s := range doctorSteps {
		if d.quiet && (s == dPlay || s == dExport) {
			continue
		}
		if i < at {
			want = append(want, "OK "+s)
		} else if i == at {
			want = append(want, "ERR "+s)
		}
	}
	for _, l := range strings.Split(escapes.ReplaceAllString(r.out.String(), ""), "\n") {
		if m := docLine.FindStringSubmatch(l); m != nil {
			got = append(got, m[1]+" "+m[2])
		}
	}
	if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w && !(or != "" && g == strings.Replace(w, "ERR "+fails, "OK "+fails+"\nERR "+or, 1)) {
		return failf(key, "it reports\n%s\nexpected\n%s\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"), r.text())
	}
	if (r.code != 0) != (fails != "") {
		return failf(key, "the exit status is %d; %s", r.code, r.text())
	}
	if fails != "" && strings.TrimSpace(r.err.String()) == "" {
		return failf(key, "no reason is given; %s", r.text())
	}
	if strings.Contains(r.err.String(), "goroutine ") {
		return failf(key, "it crashes: %s", r.text())
	}
	// what the players were told
	var told, untold []string
	lb, _ := os.ReadFile(x.log)
	kind := map[string]*[]string{}
	for _, l := range strings.Split(strings.TrimSpace(string(lb)), "\n") {
		pid, what, _ := strings.Cut(l, " ")
		if strings.HasPrefix(what, "run") || strings.Contains(what, " run") {
			kind[pid] = &untold
			if regexp.MustCompile(` -p \d+`).MatchString(what) {
				kind[pid] = &told
			}
			if strings.Contains(what, "--lazy-audio") != d.quiet {
				return failf(key, "a player is started with the arguments %q", what)
			}
			what = "run"
		}
		if k := kind[pid]; k != nil {
			*k = append(*k, what)
		}
	}
	if fails == "" {
		t, u := "run ping score export shutdown 0", "run ping shutdown 0"
		if d.quiet {
			t = "run ping shutdown 0"
		}
		if g := strings.Join(told, " "); g != t {
			return failf(key, "the first player is told %q, expected %q", g, t)
		}
		if g := strings.Join(untold, " "); g != u {
			return failf(key, "the second player is told %q, expected %q\n%s\n%s", g, u, lb, escapes.ReplaceAllString(r.out.String(), ""))
		}
	}
	// what is left
	for _, f := range ps {
		_, err := os.Lstat(f.path)
		gone := os.IsNotExist(err)
		dead := f.known() && f.state != "starting" && f.ear == nil
		switch {
		case f.stale:
		case gone && !dead:
			return failf(key, "the state file of a %s player is deleted; %s", f.name, r.text())
		case !gone && dead && at > 2:
			return failf(key, "the state file of a %s player is still there; %s", f.name, r.text())
		}
		if f.ear != nil {
			if ms, bad := f.ear.heard(); len(ms) > 0 || bad != "" {
				return failf(key, "a %s player is told %v %s", f.name, ms, bad)
			}
		}
	}
	if ch := changed(before, snapshot(filepath.Join(x.dir, "cwd")), ""); ch != "" {
		return failf(key, "%s", ch)
	}
	if es, _ := os.ReadDir(filepath.Join(x.dir, "tmp")); len(es) > 0 {
		return failf(key, "%s is left in the directory for temporary files", es[0].Name())
	}
	if es, err := os.ReadDir(x.repls); err == nil && len(es) > 0 {
		return failf(key, "%s is left in the directory of REPL servers", es[0].Name())
	}
	c.Nontrivial()
	c.State(strings.Join(got, "\n") + fmt.Sprint(d.quiet))
	c.Outcome(fmt.Sprint(r.code, fails, d.quiet))
	c.Trans(len(got))
	c.Trace()
	return nil
}

func init() {
	register("P33", "fault_enumeration", func(c *Ctx) {
		c.stubborn = 3
		c.Rule("states = distinct reports; transitions = checks reported; every case runs the real command with stand-in players that behave as told, and compares the report, the exit status, what the players were told and what is left behind with a table of what each trouble means")
		run := func(key string, v any) *Fail { return c.doctor(key, v.(*docCase)) }
		name := func(d *docCase) string {
			var n []string
			for _, t := range d.ts {
				n = append(n, t.name)
			}
			if len(n) == 0 {
				n = []string{"all is well"}
			}
			s := strings.Join(n, "; ")
			if d.quiet {
				s += "; without audio"
			}
			if d.files != nil {
				s += "; other players: " + strings.Join(d.files, " ")
			}
			return s
		}
		ts := troubles()
		c.ExploreN("one trouble", 64, func(yield func(string, any) bool) {
			for _, q := range []bool{false, true} {
				d := &docCase{quiet: q}
				if !yield(name(d), d) {
					return
				}
				for _, t := range ts {
					if q && (strings.Contains(t.name, "exports")) {
						continue
					}
					d := &docCase{ts: []trouble{t}, quiet: q}
					if !yield(name(d), d) {
						return
					}
				}
			}
		}, run)
		harmless := func(t trouble) bool { return t.step == "" && !strings.Contains(t.name, "pause") }
		c.ExploreN("two troubles", 64, func(yield func(string, any) bool) {
			for i, a := range ts {
				for j, b := range ts {
					if !harmless(a) || i == j || harmless(b) && j < i || strings.Contains(b.name, "pause") || strings.Contains(b.name, "cut") || strings.Contains(b.name, "without") {
						continue
					}
					if f := strings.Fields(a.name); strings.HasPrefix(b.name, strings.Join(f[:3], " ")) || strings.HasPrefix(b.name, "the players") && strings.HasPrefix(a.name, "the players") {
						continue // the same process can't do both
					}
					for _, q := range []bool{false, true} {
						if q && (strings.Contains(a.name+b.name, "exports")) || !q && a.quiet != "-" && !c.Thorough {
							continue
						}
						if !c.Thorough && !harmless(b) && (i+j)%4 != 0 {
							continue
						}
						d := &docCase{ts: []trouble{a, b}, quiet: q}
						if !yield(name(d), d) {
							return
						}
					}
				}
			}
		}, run)
		c.ExploreN("other players", 64, func(yield func(string, any) bool) {
			kinds := sortedKeys(pkinds)
			var dirs [][]string
			for _, a := range kinds {
				dirs = append(dirs, []string{a})
			}
			for _, a := range []string{"dead-ready", "dead-starting", "active", "half"} {
				for _, b := range []string{"dead-active", "active", "ready", "starting", "finishing", "other-version", "junk"} {
					dirs = append(dirs, []string{a, b})
				}
			}
			for _, fs := range dirs {
				for _, q := range []bool{false, true} {
					d := &docCase{quiet: q, files: fs}
					if !yield(name(d), d) {
						return
					}
				}
			}
		}, run)
	})
}

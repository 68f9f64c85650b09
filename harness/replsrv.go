package main

// Driver for the interactive server: the real `alda repl --server` process,
// a strict nREPL (bencode) client, and player stand-ins that appear and
// disappear like real players do (state file + OSC over TCP).

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"alda.io/client/generated"
	"alda.io/client/model"
)

// ---- bencode ----

func benc(v any) []byte {
	var b bytes.Buffer
	var w func(v any)
	w = func(v any) {
		switch x := v.(type) {
		case string:
			fmt.Fprintf(&b, "%d:%s", len(x), x)
		case int:
			fmt.Fprintf(&b, "i%de", x)
		case []any:
			b.WriteByte('l')
			for _, e := range x {
				w(e)
			}
			b.WriteByte('e')
		case map[string]any:
			b.WriteByte('d')
			for _, k := range sortedKeys(x) {
				w(k)
				w(x[k])
			}
			b.WriteByte('e')
		default:
			panic(fmt.Sprintf("benc %T", v))
		}
	}
	w(v)
	return b.Bytes()
}

func bdec(r *bufio.Reader) (any, error) {
	c, err := r.ReadByte()
	if err != nil {
		return nil, err
	}
	switch {
	case c == 'd':
		m := map[string]any{}
		for {
			if p, err := r.Peek(1); err != nil {
				return nil, err
			} else if p[0] == 'e' {
				r.ReadByte()
				return m, nil
			}
			k, err := bdec(r)
			if err != nil {
				return nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("dictionary key is not a string")
			}
			if _, dup := m[ks]; dup {
				return nil, fmt.Errorf("duplicate key %q", ks)
			}
			if m[ks], err = bdec(r); err != nil {
				return nil, err
			}
		}
	case c == 'l':
		l := []any{}
		for {
			if p, err := r.Peek(1); err != nil {
				return nil, err
			} else if p[0] == 'e' {
				r.ReadByte()
				return l, nil
			}
			v, err := bdec(r)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
	case c == 'i':
		s, err := r.ReadString('e')
		if err != nil {
			return nil, err
		}
		return strconv.Atoi(s[:len(s)-1])
	case c >= '0' && c <= '9':
		r.UnreadByte()
		s, err := r.ReadString(':')
		if err != nil {
			return nil, err
		}
		n, err := strconv.Atoi(s[:len(s)-1])
		if err != nil {
			return nil, err
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		return string(b), nil
	}
	return nil, fmt.Errorf("unexpected byte %q", c)
}

// ---- player stand-ins ----

var nextPort atomic.Int64

// listen opens a port that no other stand-in of this run has had: a message
// meant for one that is gone must not reach another one. The ports are below
// those that the system assigns to outgoing connections.
func listen() (net.Listener, error) {
	const lo, hi = 11000, 32000
	nextPort.CompareAndSwap(0, int64(lo+os.Getpid()*997%(hi-lo)))
	for i := 0; i < hi-lo; i++ {
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", lo+(nextPort.Add(1)-lo)%(hi-lo)))
		if err == nil {
			return l, nil
		}
	}
	return net.Listen("tcp", "127.0.0.1:0")
}

type fakePlayer struct {
	id     string
	port   int
	l      net.Listener
	active bool
	stop   bool // has shut down, or was killed
	told   bool // has been told to shut down
	msgs   [][]omsg
	bad    string
	mu     sync.Mutex
	syncs  chan int
	srv    *replSrv
}

func (p *fakePlayer) path() string { return filepath.Join(p.srv.players, p.id+".json") }

func (p *fakePlayer) writeState(state string) {
	b := fmt.Sprintf(`{"state":%q,"port":%d,"expiry":%d,"pid":%d}`, state, p.port, time.Now().Add(time.Hour).UnixMilli(), os.Getpid())
	tmp := filepath.Join(p.srv.dir, "tmp-"+p.id)
	os.WriteFile(tmp, []byte(b), 0644)
	os.Rename(tmp, p.path())
}

func (p *fakePlayer) down() {
	p.mu.Lock()
	was := p.stop
	p.stop = true
	if !was {
		os.Remove(p.path())
	}
	p.mu.Unlock()
	if !was {
		p.l.Close()
	}
}

func (p *fakePlayer) serve() {
	for {
		conn, err := p.l.Accept()
		if err != nil {
			close(p.syncs)
			return
		}
		conn.SetDeadline(time.Now().Add(20 * time.Second))
		b, _ := io.ReadAll(conn)
		conn.Close()
		if bytes.HasPrefix(b, []byte("SYNC")) {
			p.syncs <- 1
			continue
		}
		if len(b) == 0 {
			continue
		}
		ms, err := decodeOSC(b)
		if err != nil {
			p.mu.Lock()
			p.bad = err.Error()
			p.mu.Unlock()
			continue
		}
		if len(ms) == 1 && ms[0].addr == "/ping" {
			continue
		}
		p.mu.Lock()
		p.msgs = append(p.msgs, ms)
		quits := len(ms) == 1 && ms[0].addr == "/system/shutdown"
		if p.told {
			p.bad = fmt.Sprintf("something after it was told to shut down: %v", ms[0])
		}
		if !p.stop && !p.active && !(quits && p.srv.linger > 0) {
			p.active = true
			p.writeState("active")
		}
		p.told = p.told || quits && p.srv.linger > 0
		p.mu.Unlock()
		for _, m := range ms {
			switch m.addr {
			case "/system/midi/export":
				if len(m.args) == 1 {
					if f, ok := m.args[0].(string); ok && p.srv.exportBytes != nil {
						writeSlowly(f, p.srv.exportBytes, 2*time.Millisecond)
					}
				}
			case "/system/shutdown":
				if len(ms) == 1 {
					if p.srv.linger > 0 {
						go func() { time.Sleep(p.srv.linger); p.down() }()
					} else {
						p.down()
					}
					if p.srv.refill.Load() {
						p.srv.newPlayer()
					}
				}
			}
		}
	}
}

// midiBytes is a MIDI file of n tracks with every byte value in it.
func midiBytes(n int) []byte {
	b := []byte("MThd\x00\x00\x00\x06\x00\x01\x00")
	b = append(b, byte(n), 0, 96)
	for i := 0; i < n; i++ {
		d := make([]byte, 256+i)
		for j := range d {
			d[j] = byte(j)
		}
		b = append(b, 'M', 'T', 'r', 'k', 0, 0, byte(len(d)>>8), byte(len(d)))
		b = append(b, d...)
	}
	return b
}

// writeSlowly writes a file the way the player does: it exists, but is empty
// at first, and grows.
func writeSlowly(f string, b []byte, pause time.Duration) {
	w, err := os.Create(f)
	if err != nil {
		return
	}
	defer w.Close()
	for _, cut := range [][2]int{{0, 0}, {0, 14}, {14, len(b) / 2}, {len(b) / 2, len(b)}} {
		w.Write(b[cut[0]:cut[1]])
		time.Sleep(pause)
	}
}

// sync waits until everything that was sent to the player has been handled.
func (p *fakePlayer) sync() {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", p.port))
	if err != nil {
		// gone: wait until it has handled the shutdown
		for range p.syncs {
		}
		return
	}
	conn.Write([]byte("SYNC"))
	conn.Close()
	<-p.syncs
}

// ---- server process ----

type replSrv struct {
	dir, players string
	port         int
	cmd          *exec.Cmd
	out          *tailBuf
	outMu        sync.Mutex
	exited       chan struct{}
	refill       atomic.Bool
	linger       time.Duration // how long players take to shut down
	exportBytes  []byte
	mu           sync.Mutex
	all          []*fakePlayer
	seen         map[*fakePlayer]int
	n            int
}

type lockedTail struct{ s *replSrv }

func (l lockedTail) Write(b []byte) (int, error) {
	l.s.outMu.Lock()
	defer l.s.outMu.Unlock()
	return l.s.out.Write(b)
}

func (s *replSrv) newPlayer() *fakePlayer {
	l, err := listen()
	if err != nil {
		panic(err)
	}
	s.mu.Lock()
	s.n++
	p := &fakePlayer{id: fmt.Sprintf("p%04d", s.n), port: l.Addr().(*net.TCPAddr).Port, l: l, syncs: make(chan int, 16), srv: s}
	s.all = append(s.all, p)
	s.mu.Unlock()
	go p.serve()
	p.writeState("ready")
	return p
}

// drain returns what was sent to the players since the last call, in order of
// arrival per player, oldest player first.
func (s *replSrv) drain() (out [][]omsg, from []*fakePlayer, bad string) {
	s.mu.Lock()
	all := append([]*fakePlayer{}, s.all...)
	s.mu.Unlock()
	for _, p := range all {
		p.sync()
	}
	for _, p := range all {
		p.mu.Lock()
		for _, m := range p.msgs {
			out = append(out, m)
			from = append(from, p)
		}
		p.msgs = nil
		if p.bad != "" {
			bad = p.bad
		}
		p.mu.Unlock()
	}
	// forget players that are gone
	s.mu.Lock()
	var keep []*fakePlayer
	for _, p := range s.all {
		p.mu.Lock()
		if !p.stop || len(p.msgs) > 0 {
			keep = append(keep, p)
		}
		p.mu.Unlock()
	}
	s.all = keep
	s.mu.Unlock()
	return
}

func (s *replSrv) live() []*fakePlayer {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*fakePlayer
	for _, p := range s.all {
		p.mu.Lock()
		if !p.stop && !p.told {
			out = append(out, p)
		}
		p.mu.Unlock()
	}
	return out
}

var srvCount atomic.Int64

func startServer() (*replSrv, error) {
	var last error
	for try := 0; try < 5; try++ {
		dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("srv%d", srvCount.Add(1)))
		s := &replSrv{dir: dir, players: filepath.Join(dir, "cache", "alda", "state", "players", generated.ClientVersion), out: &tailBuf{}, exited: make(chan struct{}), seen: map[*fakePlayer]int{}}
		s.refill.Store(true)
		s.exportBytes = midiBytes(3)
		for _, d := range []string{s.players, filepath.Join(dir, "cwd"), filepath.Join(dir, "tmp")} {
			if err := os.MkdirAll(d, 0755); err != nil {
				return nil, err
			}
		}
		l, err := listen()
		if err != nil {
			return nil, err
		}
		s.port = l.Addr().(*net.TCPAddr).Port
		l.Close()
		s.newPlayer()
		s.cmd = exec.Command(os.Getenv("VERIF_ALDA"), "repl", "--server", "--port", strconv.Itoa(s.port))
		s.cmd.Dir = filepath.Join(dir, "cwd")
		s.cmd.Env = append(os.Environ(), "HOME="+dir, "XDG_CACHE_HOME="+filepath.Join(dir, "cache"), "XDG_CONFIG_HOME="+filepath.Join(dir, "config"), "TMPDIR="+filepath.Join(dir, "tmp"), "ALDA_DISABLE_SPAWNING=yes", "ALDA_DISABLE_TELEMETRY=yes", "GOMAXPROCS=2", "GOTRACEBACK=single")
		s.cmd.Stdout, s.cmd.Stderr = lockedTail{s}, lockedTail{s}
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			return nil, err
		}
		go func() { s.cmd.Wait(); close(s.exited) }()
		deadline := time.Now().Add(20 * time.Second)
		for time.Now().Before(deadline) {
			conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.port))
			if err == nil {
				conn.Close()
				s.outMu.Lock()
				up := strings.Contains(s.out.String(), "nREPL server started")
				s.outMu.Unlock()
				if up {
					return s, nil
				}
			}
			select {
			case <-s.exited:
				deadline = time.Now()
			case <-time.After(5 * time.Millisecond):
			}
		}
		s.outMu.Lock()
		last = fmt.Errorf("the server did not start: %s", s.out.String())
		s.outMu.Unlock()
		s.close()
	}
	return nil, last
}

func (s *replSrv) alive() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

func (s *replSrv) output() string {
	s.outMu.Lock()
	defer s.outMu.Unlock()
	return s.out.String()
}

func (s *replSrv) close() {
	s.cmd.Process.Kill()
	<-s.exited
	s.refill.Store(false)
	for _, p := range s.live() {
		p.down()
	}
	os.RemoveAll(s.dir)
}

// waitPlayer waits until the server is known to be using a live player: it
// answers "stop", which needs one, and that player receives it.
func (s *replSrv) waitPlayer() error {
	deadline := time.Now().Add(45 * time.Second)
	for {
		c, err := s.dial()
		if err != nil {
			return err
		}
		r, err := c.ask(map[string]any{"op": "stop"}, 40*time.Second)
		c.close()
		if err != nil {
			return err
		}
		ms, from, _ := s.drain()
		for i := range ms {
			from[i].mu.Lock()
			dead := from[i].stop
			from[i].mu.Unlock()
			if !dead && !isErr(r) {
				return nil
			}
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("the server found no player: %v", r)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// ---- client ----

type replConn struct {
	c net.Conn
	r *bufio.Reader
}

func (s *replSrv) dial() (*replConn, error) {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.port))
	if err != nil {
		return nil, fmt.Errorf("cannot connect to the server: %v\nserver output: %s", err, s.output())
	}
	return &replConn{c, bufio.NewReader(c)}, nil
}

func (c *replConn) close() { c.c.Close() }

func (c *replConn) recv(d time.Duration) (map[string]any, error) {
	c.c.SetReadDeadline(time.Now().Add(d))
	v, err := bdec(c.r)
	if err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return nil, fmt.Errorf("no response within %s", d)
		}
		return nil, fmt.Errorf("no response: %v", err)
	}
	m, ok := v.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("response is not a dictionary: %v", v)
	}
	return m, nil
}

func (c *replConn) ask(m map[string]any, d time.Duration) (map[string]any, error) {
	if _, err := c.c.Write(benc(m)); err != nil {
		return nil, err
	}
	return c.recv(d)
}

func statusOf(r map[string]any) map[string]bool {
	out := map[string]bool{}
	l, _ := r["status"].([]any)
	for _, x := range l {
		s, _ := x.(string)
		out[s] = true
	}
	return out
}

func isErr(r map[string]any) bool { return statusOf(r)["error"] }

// checkStatus: what every response has to look like.
func checkStatus(r map[string]any) string {
	st := statusOf(r)
	if !st["done"] {
		return fmt.Sprintf("the status is not done: %v", r)
	}
	if st["error"] && !st["unknown-op"] {
		pr, _ := r["problems"].([]any)
		if len(pr) == 0 {
			return fmt.Sprintf("an error without an explanation: %v", r)
		}
		for _, p := range pr {
			if t, _ := p.(string); strings.TrimSpace(t) == "" {
				return fmt.Sprintf("an error without an explanation: %v", r)
			}
		}
	}
	return ""
}

// srvPool hands out running servers.
type srvPool struct {
	mu   sync.Mutex
	free []*replSrv
	all  []*replSrv
}

func (p *srvPool) get() (*replSrv, error) {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		s := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		if s.alive() {
			return s, nil
		}
		s.close()
	} else {
		p.mu.Unlock()
	}
	s, err := startServer()
	if err == nil {
		p.mu.Lock()
		p.all = append(p.all, s)
		p.mu.Unlock()
	}
	return s, err
}

// put returns a server; one that misbehaved is replaced.
func (p *srvPool) put(s *replSrv, ok bool) {
	if !ok || !s.alive() {
		s.close()
		return
	}
	s.refill.Store(true)
	p.mu.Lock()
	p.free = append(p.free, s)
	p.mu.Unlock()
}

func (p *srvPool) closeAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, s := range p.all {
		s.cmd.Process.Kill()
	}
	for _, s := range p.free {
		s.close()
	}
	p.free = nil
}

// with runs fn with a server whose session is empty.
func (p *srvPool) with(key string, fn func(s *replSrv) *Fail) *Fail {
	s, err := p.get()
	if err != nil {
		return failf(key, "%v", err)
	}
	if len(s.live()) == 0 {
		s.newPlayer()
	}
	reset := func() error {
		c, err := s.dial()
		if err != nil {
			return err
		}
		defer c.close()
		for i := 0; ; i++ {
			r, err := c.ask(map[string]any{"op": "new-score", "id": "reset"}, 40*time.Second)
			if err != nil {
				return err
			}
			if !isErr(r) {
				return nil
			}
			if i == 100 {
				return fmt.Errorf("new-score fails: %v", r)
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	if err := reset(); err != nil {
		// a server left over from an earlier case; this case gets a fresh one
		s.close()
		if s, err = p.get(); err != nil {
			return failf(key, "%v", err)
		}
	}
	s.drain()
	f := fn(s)
	if f == nil && !s.alive() {
		f = failf(key, "the server died: %s", s.output())
	}
	if f != nil && !s.alive() {
		f.Msg += "\nthe server died: " + s.output()
	}
	p.put(s, f == nil)
	return f
}

// ---- session digest ----

// sessionDigest renders exported score data without the arbitrary identifiers.
func sessionDigest(text string) (string, error) {
	v, err := jdec(text)
	if err != nil {
		return "", err
	}
	root, ok := v.(jmap)
	if !ok {
		return "", fmt.Errorf("score data is not an object: %s", text)
	}
	parts, _ := root["parts"].(jmap)
	events, _ := root["events"].([]any)
	aliases, _ := root["aliases"].(jmap)
	evOf := map[string][]string{}
	str := func(v any) string {
		b, _ := json.Marshal(roundAll(v))
		// bar lines mean nothing: they belong to a duration when they follow one
		// in the same text, which depends on how a session is cut into inputs
		t := strings.ReplaceAll(string(b), `{"type":"barline"},`, "")
		t = strings.ReplaceAll(t, `,{"type":"barline"}`, "")
		return strings.ReplaceAll(t, `{"type":"barline"}`, "")
	}
	for _, e := range events {
		o, _ := e.(jmap)
		id, _ := o["part"].(string)
		cp := jmap{}
		for k, v := range o {
			if k != "part" {
				cp[k] = v
			}
		}
		evOf[id] = append(evOf[id], str(cp))
	}
	sig := map[string]string{}
	var ids []string
	for id, p := range parts {
		sort.Strings(evOf[id])
		al := []string{}
		for a, l := range aliases {
			xs, _ := l.([]any)
			for _, x := range xs {
				if x == id {
					al = append(al, a)
				}
			}
		}
		sort.Strings(al)
		sig[id] = str(p) + strings.Join(evOf[id], ",") + strings.Join(al, ",")
		ids = append(ids, id)
	}
	for id := range evOf {
		if _, ok := parts[id]; !ok {
			return "", fmt.Errorf("an event of part %s, which is not listed", id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return sig[ids[i]] < sig[ids[j]] })
	name := map[string]string{}
	var sb strings.Builder
	for i, id := range ids {
		name[id] = fmt.Sprintf("part%d", i)
		fmt.Fprintf(&sb, "part%d %s %v\n", i, str(parts[id]), evOf[id])
	}
	sub := func(l any) string {
		xs, _ := l.([]any)
		var out []string
		for _, x := range xs {
			id, _ := x.(string)
			if name[id] == "" {
				out = append(out, "UNLISTED")
			} else {
				out = append(out, name[id])
			}
		}
		return fmt.Sprint(out)
	}
	fmt.Fprintf(&sb, "current %s\n", sub(root["current-parts"]))
	for _, a := range sortedKeys(aliases) {
		fmt.Fprintf(&sb, "alias %s %s\n", a, sub(aliases[a]))
	}
	for _, k := range sortedKeys(root) {
		switch k {
		case "parts", "events", "aliases", "current-parts":
		default:
			fmt.Fprintf(&sb, "%s %s\n", k, str(root[k]))
		}
	}
	return sb.String(), nil
}

func roundAll(v any) any {
	switch x := v.(type) {
	case float64:
		return math.Round(x*1e6) / 1e6
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = roundAll(x[i])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k := range x {
			out[k] = roundAll(x[k])
		}
		return out
	}
	return v
}

// freshSession evaluates the inputs one after another in a new score.
func freshSession(inputs []string) (*model.Score, error) {
	s := model.NewScore()
	for _, in := range inputs {
		ups, err := parseUpdates(in)
		if err != nil {
			return nil, fmt.Errorf("%q: %v", in, err)
		}
		if err := s.Update(ups...); err != nil {
			return nil, fmt.Errorf("%q: %v", in, err)
		}
	}
	return s, nil
}

// checkSession compares text and data of the server's session with a score
// that was built from the given inputs only.
func (c *Ctx) checkSession(s *replSrv, inputs []string) string {
	conn, err := s.dial()
	if err != nil {
		return err.Error()
	}
	defer conn.close()
	rt, err := conn.ask(map[string]any{"op": "score-text", "id": "t"}, 30*time.Second)
	if err != nil {
		return "score-text: " + err.Error()
	}
	want := strings.Join(inputs, "\n")
	if t, _ := rt["text"].(string); lines(t) != lines(want) {
		return fmt.Sprintf("the session's text is %q, expected %q", t, want)
	}
	rd, err := conn.ask(map[string]any{"op": "score-data", "id": "d"}, 30*time.Second)
	if err != nil {
		return "score-data: " + err.Error()
	}
	data, _ := rd["data"].(string)
	got, err := sessionDigest(data)
	if err != nil {
		return fmt.Sprintf("score-data: %v", err)
	}
	fresh, err := freshSession(inputs)
	if err != nil {
		return "reference session: " + err.Error()
	}
	exp, err := sessionDigest(fresh.JSON().String())
	if err != nil {
		return "reference session: " + err.Error()
	}
	if got != exp {
		return "the session's score differs from that of its inputs\n" + lineDiff(exp, got)
	}
	c.State(exp)
	return ""
}

// lines is a text without its blank lines and the blanks at the ends of lines.
func lines(t string) string {
	var out []string
	for _, l := range strings.Split(t, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func lineDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	var sb strings.Builder
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			fmt.Fprintf(&sb, "  expected: %s\n  got:      %s\n", p, q)
		}
	}
	return sb.String()
}

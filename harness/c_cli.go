package main

// P32: the REPL's client against a scripted server, and the life of the
// processes.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	ajson "alda.io/client/json"
	"alda.io/client/parser"
)

// nrepl is a scripted server: it greets properly and answers the n-th request
// after that as told.
type nrepl struct {
	l      net.Listener
	port   int
	mu     sync.Mutex
	seen   []map[string]any
	bad    string
	ids    map[string]bool
	hello  string
	answer func(n int, req map[string]any) (send []byte, keep bool)
	n      int
}

func newNrepl() (*nrepl, error) {
	l, err := listen()
	if err != nil {
		return nil, err
	}
	s := &nrepl{l: l, port: l.Addr().(*net.TCPAddr).Port, ids: map[string]bool{}}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(conn)
		}
	}()
	return s, nil
}

func (s *nrepl) problem(f string, a ...any) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

func (s *nrepl) serve(conn net.Conn) {
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(100 * time.Second))
	r := bufio.NewReader(conn)
	for {
		v, err := bdec(r)
		if err != nil {
			return
		}
		req, ok := v.(map[string]any)
		s.mu.Lock()
		id, _ := req["id"].(string)
		if !ok || id == "" || s.ids[id] {
			s.problem("a request without an id of its own: %v", v)
		}
		s.ids[id] = true
		op, _ := req["op"].(string)
		cp := map[string]any{}
		for k, v := range req {
			if k != "id" && k != "session" {
				cp[k] = v
			}
		}
		out, keep := []byte(nil), true
		switch {
		case op == "clone" && s.hello == "" && len(s.ids) == 1:
			out = benc(map[string]any{"id": id, "status": []any{"done"}, "new-session": "sess-1"})
		case op == "describe" && s.hello == "" && len(s.ids) == 2:
			out = benc(describeAnswer(id))
		default:
			if sid, _ := req["session"].(string); sid != "sess-1" && s.hello == "" {
				s.problem("a request of another session: %v", req)
			}
			s.seen = append(s.seen, cp)
			out, keep = s.answer(s.n, req)
			s.n++
		}
		s.mu.Unlock()
		conn.Write(out)
		if !keep {
			return
		}
	}
}

func describeAnswer(id string) map[string]any {
	return map[string]any{"id": id, "session": "sess-1", "status": []any{"done"}, "ops": map[string]any{"eval-and-play": map[string]any{}, "replay": map[string]any{}}, "versions": map[string]any{"alda": map[string]any{"version-string": "9.8.7"}}}
}

const cliScore = `{"parts":{"0xa1":{"stock-instrument":"midi-acoustic-grand-piano","name":"piano"},"0xb2":{"stock-instrument":"midi-violin","name":"violin"}},"current-parts":["0xb2"],"aliases":{},"events":[{"a":1},{"b":2},{"c":3}],"markers":{"later":1500.5,"start":0,"mid":700}}`

const cliEvents = `[{"type":"note","x":1},{"type":"barline"}]`

// cliCmd is a line typed at the prompt.
type cliCmd struct {
	line  string
	req   map[string]any    // the request it means, nil if none
	data  map[string]any    // what the answer contains besides
	needs string            // the part of the answer it cannot do without
	shows []string          // what is printed, in this order
	lines [][]string        // lines that contain all of these, in any order
	json  string            // a JSON value that is printed
	files map[string]string // what it writes
	fails bool              // it is refused without asking the server
	quits bool
}

func cliCmds() []cliCmd {
	ev := func(l, code string) cliCmd {
		return cliCmd{line: l, req: map[string]any{"op": "eval-and-play", "code": code}}
	}
	op := func(l, op string, kv ...any) cliCmd {
		m := map[string]any{"op": op}
		for i := 0; i+1 < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return cliCmd{line: l, req: m}
	}
	with := func(k cliCmd, needs string, v any, fn func(k *cliCmd)) cliCmd {
		k.needs, k.data = needs, map[string]any{needs: v}
		fn(&k)
		return k
	}
	fails := func(l string) cliCmd { return cliCmd{line: l, fails: true} }
	shows := func(l string, s ...string) cliCmd { return cliCmd{line: l, shows: s} }
	ast, _ := parser.ParseString("piano: c8 d {e f}2")
	astJSON := ast.JSON().String()
	parsed, _ := ajson.ParseJSON([]byte(astJSON))
	human := parser.HumanReadableAST(parsed)
	text := "piano: c8\n  d \"żółć\"\n"
	parts := [][]string{{"0xa1", "midi-acoustic-grand-piano"}, {"0xb2", "midi-violin"}}
	out := []cliCmd{
		ev("piano: c8 d", "piano: c8 d"), ev("  violin: e \t ", "violin: e"), ev("ż (vol 50) # \"x\"", "ż (vol 50) # \"x\""), ev(":", ":"),
		op(":new", "new-score"), op(":stop", "stop"), op(":play", "replay"), op(":play from 0:05", "replay", "from", "0:05"), op(":play to verse", "replay", "to", "verse"),
		op(":play from a to b", "replay", "from", "a", "to", "b"), op(":play to 0:10 from 0:05", "replay", "from", "0:05", "to", "0:10"), op("  :play from 'x y' ", "replay", "from", "x y"),
		with(op(":instruments", "instruments"), "instruments", []any{"zither", "alphorn", "kazoo"}, func(k *cliCmd) { k.shows = []string{"zither\nalphorn\nkazoo\n"} }),
		with(op(":score", "score-text"), "text", text, func(k *cliCmd) { k.shows = []string{text} }),
		with(op(":score text", "score-text"), "text", text, func(k *cliCmd) { k.shows = []string{text} }),
		with(op(":score data", "score-data"), "data", cliScore, func(k *cliCmd) { k.json = cliScore }),
		with(op(":score events", "score-events"), "events", cliEvents, func(k *cliCmd) { k.json = cliEvents }),
		with(op(":score ast", "score-ast"), "ast", astJSON, func(k *cliCmd) { k.shows = []string{human} }),
		with(op(":score info", "score-data"), "data", cliScore, func(k *cliCmd) {
			k.lines = parts
			k.shows = []string{"0xb2", "3", "start", "mid", "later"}
		}),
		with(op(":parts", "score-data"), "data", cliScore, func(k *cliCmd) { k.lines = parts }),
		with(op(":version", "describe"), "versions", map[string]any{"alda": map[string]any{"version-string": "9.8.7"}}, func(k *cliCmd) { k.shows = []string{versionText(), "9.8.7"} }),
		with(op(":save s.alda", "score-text"), "text", text, func(k *cliCmd) { k.files = map[string]string{"s.alda": text} }),
		with(op(":save 'a b.alda'", "score-text"), "text", text, func(k *cliCmd) { k.files = map[string]string{"a b.alda": text} }),
		with(op(":export e.mid", "export"), "binary-data", "MThd\x00\x01\xff\xfe", func(k *cliCmd) { k.files = map[string]string{"e.mid": "MThd\x00\x01\xff\xfe"} }),
		op(":load there.alda", "load", "code", "violin: c\r\n  # żółć\n"), op(":load 'my score.alda'", "load", "code", "piano: \xff"), op(":load empty.alda", "load", "code", ""),
		shows(":help", ":export", ":help", ":instruments", ":load", ":new", ":parts", ":play", ":quit", ":save", ":score", ":stop", ":version"),
		shows(":help play", "Plays the current score", "from", "to"), shows(":help score", "info", "data", "events", "ast"), shows(":help load", "Loads"),
		fails(":help nonsense"), fails(":nonsense"), fails(":play from"), fails(":play from a from b"), fails(":play to a to b"), fails(":play x"), fails(":play from a to"), fails(":score nonsense"), fails(":score text data"),
		fails(":load nothere.alda"), fails(":load there.alda empty.alda"), fails(":load"), fails(":save"), fails(":save a b"), fails(":export"), fails(":export a b"), fails(": x"), fails(":play from 'a"), fails(":load 'a"), fails(":export 'a"), fails(":help 'a"), fails(":score 'a"), fails(":save 'a"),
		{line: ""}, {line: "   "},
		{line: ":quit", quits: true}, {line: "quit", quits: true}, {line: "exit", quits: true}, {line: "bye", quits: true}, {line: " exit ", quits: true},
	}
	for i := range out {
		if out[i].line == "   " {
			// a blank input is sent as it is
			out[i].req = map[string]any{"op": "eval-and-play", "code": ""}
		}
	}
	return out
}

// answers are the ways in which a request can be answered. "good" is whether
// the request succeeds; the text is what has to be reported.
type answerKind struct {
	name   string
	good   bool
	after  bool // the request after this one may be lost, too
	report []string
	make   func(id string, k *cliCmd) (send []byte, keep bool)
}

func okAnswer(id string, k *cliCmd) map[string]any {
	m := map[string]any{"id": id, "session": "sess-1", "status": []any{"done"}}
	for f, v := range k.data {
		m[f] = v
	}
	return m
}

func answerKinds() []answerKind {
	edit := func(name string, good bool, report []string, fn func(m map[string]any, k *cliCmd)) answerKind {
		return answerKind{name: name, good: good, report: report, make: func(id string, k *cliCmd) ([]byte, bool) {
			m := okAnswer(id, k)
			fn(m, k)
			return benc(m), true
		}}
	}
	drop := func(m map[string]any, k *cliCmd) {
		for f := range k.data {
			delete(m, f)
		}
	}
	raw := func(name, text string, keep bool) answerKind {
		return answerKind{name: name, make: func(string, *cliCmd) ([]byte, bool) { return []byte(text), keep }}
	}
	return []answerKind{
		edit("ok", true, nil, func(map[string]any, *cliCmd) {}),
		edit("ok, with more in it", true, nil, func(m map[string]any, k *cliCmd) {
			m["extra"] = []any{1, "x", map[string]any{}}
			m["status"] = []any{"whatever", "done"}
		}),
		edit("one problem", false, []string{"the problem żółć"}, func(m map[string]any, k *cliCmd) {
			drop(m, k)
			m["status"], m["problems"] = []any{"done", "error"}, []any{"the problem żółć"}
		}),
		edit("two problems", false, []string{"first problem", "second problem"}, func(m map[string]any, k *cliCmd) {
			drop(m, k)
			m["status"], m["problems"] = []any{"error", "done"}, []any{"first problem", "second problem"}
		}),
		edit("an error without problems", false, nil, func(m map[string]any, k *cliCmd) {
			drop(m, k)
			m["status"] = []any{"done", "error"}
		}),
		edit("an error with an empty list of problems", false, nil, func(m map[string]any, k *cliCmd) {
			drop(m, k)
			m["status"], m["problems"] = []any{"done", "error"}, []any{}
		}),
		edit("a problem that is no string", false, nil, func(m map[string]any, k *cliCmd) {
			drop(m, k)
			m["status"], m["problems"] = []any{"done", "error"}, []any{7, map[string]any{}}
		}),
		edit("unknown op", false, []string{"unknown-op"}, func(m map[string]any, k *cliCmd) {
			drop(m, k)
			m["status"] = []any{"done", "error", "unknown-op"}
		}),
		edit("no status", false, nil, func(m map[string]any, k *cliCmd) { drop(m, k); delete(m, "status") }),
		edit("a status that is no list", false, nil, func(m map[string]any, k *cliCmd) { drop(m, k); m["status"] = "done" }),
		edit("another id", false, nil, func(m map[string]any, k *cliCmd) { m["id"] = "other" }),
		edit("no id", false, nil, func(m map[string]any, k *cliCmd) { delete(m, "id") }),
		edit("an id that is no string", false, nil, func(m map[string]any, k *cliCmd) { m["id"] = 5 }),
		raw("the connection is closed", "", false), raw("a list", "le", true), raw("a string", "4:done", true), raw("a number", "i7e", true),
		raw("no bencode", "xyz\n", false), raw("a negative length", "-5:abcde", false), raw("a length that is no number", "1x:a", false), raw("an open dictionary", "d2:id", false), raw("a key that is no string", "di1e1:xe", false), raw("a huge number", "i99999999999999999999999e", true),
		{name: "ok, then closed", good: true, after: true, make: func(id string, k *cliCmd) ([]byte, bool) { return benc(okAnswer(id, k)), false }},
		edit("the data is missing", false, nil, drop), edit("the data is a number", false, nil, func(m map[string]any, k *cliCmd) {
			for f := range k.data {
				m[f] = 7
			}
		}),
		edit("the data is no JSON", false, nil, func(m map[string]any, k *cliCmd) {
			for f := range k.data {
				m[f] = "{\"parts\":"
			}
		}),
		edit("the data is an empty object", false, nil, func(m map[string]any, k *cliCmd) {
			for f := range k.data {
				m[f] = "{}"
			}
		}),
	}
}

// fits: whether this way of answering means anything for the command.
func (a *answerKind) fits(k *cliCmd) bool {
	switch a.name {
	case "the data is missing", "the data is a number":
		return k.needs != ""
	case "the data is no JSON":
		return k.json != "" || k.lines != nil || strings.HasSuffix(k.line, "ast")
	case "the data is an empty object":
		return k.lines != nil
	}
	return true
}

type cliStep struct {
	cmd *cliCmd
	ans *answerKind
}

var banner = regexp.MustCompile(`(?s)^.*Type :help for a list of available commands\.[^\n]*\n\n?`)

// cli types the lines and checks what the server gets, what is printed and
// which files are written.
func (c *Ctx) cli(key string, steps []cliStep, spaced bool) *Fail {
	x, err := newAldaEnv()
	if err != nil {
		return failf(key, "%v", err)
	}
	defer x.close()
	x.set("ALDA_DISABLE_SPAWNING=yes")
	s, err := newNrepl()
	if err != nil {
		return failf(key, "%v", err)
	}
	defer s.l.Close()
	cwd := filepath.Join(x.dir, "cwd")
	buildFiles(cwd, []string{"there.alda", "violin: c\r\n  # żółć\n", "my score.alda", "piano: \xff", "empty.alda", "", "e.mid", "old"})
	want := snapshot(cwd)
	var asked []cliStep
	var askedAt []int
	var lines, stdin []string
	for _, st := range steps {
		stdin = append(stdin, st.cmd.line+"\n")
		lines = append(lines, st.cmd.line)
	}
	for i, st := range steps {
		if st.cmd.quits {
			break
		}
		if st.cmd.req != nil {
			asked, askedAt = append(asked, st), append(askedAt, i)
		}
	}
	s.answer = func(n int, req map[string]any) ([]byte, bool) {
		id, _ := req["id"].(string)
		// the request is found by what it is, since one may have been lost
		for i := n; i < len(asked); i++ {
			if asked[i].cmd.req["op"] == req["op"] {
				s.n = i
				return asked[i].ans.make(id, asked[i].cmd)
			}
		}
		return benc(map[string]any{"id": id, "status": []any{"done"}}), true
	}
	var in io.Reader = strings.NewReader(strings.Join(stdin, ""))
	if spaced {
		p := &pieces{pause: 60 * time.Millisecond}
		for _, l := range stdin {
			p.p = append(p.p, []byte{}, []byte(l))
		}
		p.p = append(p.p, []byte{})
		in = p
	}
	r, err := x.start(in, "repl", "--client", "--port", fmt.Sprint(s.port))
	if err != nil {
		return failf(key, "%v", err)
	}
	if !r.wait(100 * time.Second) {
		return failf(key, "the client does not end: %s", r.text())
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	c.Trans(len(steps))
	if r.code != 0 {
		return failf(key, "the client fails: %s", r.text())
	}
	if s.bad != "" {
		return failf(key, "%s", s.bad)
	}
	// requests: each exactly once; one may be lost after the server has closed
	// the connection
	i := 0
	lost := map[int]bool{}
	mayLose := false
	for n, st := range asked {
		if i < len(s.seen) && reflect.DeepEqual(s.seen[i], st.cmd.req) {
			i++
			mayLose = st.ans.after
			continue
		}
		if !mayLose {
			return failf(key, "requests %v, expected one for each of %q", s.seen, lines)
		}
		lost[askedAt[n]] = true
		mayLose = false
	}
	if i != len(s.seen) {
		return failf(key, "requests %v, expected one for each of %q", s.seen, lines)
	}
	out := banner.ReplaceAllString(r.out.String(), "")
	all := out + r.err.String()
	wantErrs, pos := 0, 0
	for i, st := range steps {
		k := st.cmd
		if k.quits {
			break
		}
		if k.fails || lost[i] {
			wantErrs++
			continue
		}
		if k.req != nil && !st.ans.good {
			wantErrs++
			for _, p := range st.ans.report {
				if !strings.Contains(all, p) {
					return failf(key, "the answer to %q says %q, which is not shown: %s", k.line, p, r.text())
				}
			}
			continue
		}
		for _, w := range k.shows {
			n := strings.Index(out[pos:], w)
			if n < 0 {
				return failf(key, "%q does not show %q (in this place): %s", k.line, w, r.text())
			}
			pos += n + len(w)
		}
		for _, w := range k.lines {
			ok := false
			for _, l := range strings.Split(out, "\n") {
				ok = ok || strings.Contains(l, w[0]) && strings.Contains(l, w[1])
			}
			if !ok {
				return failf(key, "%q does not show %q: %s", k.line, w, r.text())
			}
		}
		if k.json != "" {
			var v any
			json.Unmarshal([]byte(k.json), &v)
			b, _ := json.Marshal(v)
			if !strings.Contains(strings.Join(strings.Fields(out), ""), string(b)) {
				return failf(key, "%q does not show %s: %s", k.line, b, r.text())
			}
		}
		for f, t := range k.files {
			mode := "644"
			if old, ok := want[f]; ok {
				mode, _ = content(old)
			}
			want[f] = mode + " " + t
		}
	}
	errs := strings.Count(all, "ERROR")
	if (errs > 0) != (wantErrs > 0) || errs < wantErrs {
		return failf(key, "%d lines fail, %d failures are reported: %s", wantErrs, errs, r.text())
	}
	if d := changed(want, snapshot(cwd), ""); d != "" {
		return failf(key, "%s; %s", d, r.text())
	}
	c.State(strings.Join(lines, "|"))
	c.Outcome(fmt.Sprintf("%d errors, %d lost", wantErrs, len(lost)))
	c.Trace()
	if len(asked) > 0 {
		c.Nontrivial()
	}
	return nil
}

// greeting: every way in which the server greets.
func (c *Ctx) greeting(workers int) {
	type hc struct {
		name  string
		reply func(op, id string) []byte
		ok    bool
	}
	two := func(clone, desc func(m map[string]any)) func(op, id string) []byte {
		return func(op, id string) []byte {
			if op == "clone" {
				m := map[string]any{"id": id, "status": []any{"done"}, "new-session": "s"}
				clone(m)
				return benc(m)
			}
			if op == "describe" {
				m := describeAnswer(id)
				desc(m)
				return benc(m)
			}
			return benc(map[string]any{"id": id, "status": []any{"done"}})
		}
	}
	same := func(map[string]any) {}
	cases := []hc{
		{"as documented", two(same, same), true},
		{"no session", two(func(m map[string]any) { delete(m, "new-session") }, same), true},
		{"a session that is no string", two(func(m map[string]any) { m["new-session"] = 5 }, same), true},
		{"no versions", two(same, func(m map[string]any) { delete(m, "versions") }), false},
		{"versions of something else", two(same, func(m map[string]any) { m["versions"] = map[string]any{"clojure": map[string]any{}} }), false},
		{"a version that is no dictionary", two(same, func(m map[string]any) { m["versions"] = map[string]any{"alda": "1.2"} }), false},
		{"versions that are a list", two(same, func(m map[string]any) { m["versions"] = []any{} }), false},
		{"no ops", two(same, func(m map[string]any) { delete(m, "ops") }), false},
		{"ops that are a list", two(same, func(m map[string]any) { m["ops"] = []any{"eval-and-play"} }), false},
		{"no eval-and-play", two(same, func(m map[string]any) { m["ops"] = map[string]any{"eval": map[string]any{}} }), false},
		{"another id", two(func(m map[string]any) { m["id"] = "x" }, same), false},
		{"another id of describe", two(same, func(m map[string]any) { m["id"] = "x" }), false},
		{"a web server", func(op, id string) []byte { return []byte("HTTP/1.1 400 Bad Request\r\n\r\n") }, false},
		{"nothing", func(op, id string) []byte { return nil }, false},
		{"nothing to describe", func(op, id string) []byte {
			if op == "clone" {
				return two(same, same)(op, id)
			}
			return nil
		}, false},
		{"a negative length", func(op, id string) []byte { return []byte("d2:id-3:xe") }, false},
	}
	c.ExploreN("greetings", workers, func(yield func(string, any) bool) {
		for _, h := range cases {
			for _, mode := range []string{"client", "message"} {
				if !yield(h.name+", "+mode, [2]any{h, mode}) {
					return
				}
			}
		}
	}, func(key string, v any) *Fail {
		h, mode := v.([2]any)[0].(hc), v.([2]any)[1].(string)
		x, err := newAldaEnv()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer x.close()
		x.set("ALDA_DISABLE_SPAWNING=yes")
		s, err := newNrepl()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer s.l.Close()
		s.hello = h.name
		stops := 0
		s.answer = func(n int, req map[string]any) ([]byte, bool) {
			op, _ := req["op"].(string)
			if op == "stop" {
				stops++
			}
			b := h.reply(op, fmt.Sprint(req["id"]))
			return b, len(b) > 0 && b[0] == 'd' && !strings.Contains(string(b), "-3:")
		}
		args := []string{"repl", "--client", "--port", fmt.Sprint(s.port)}
		if mode == "message" {
			args = []string{"repl", "--port", fmt.Sprint(s.port), "--message", `{"op": "stop"}`}
		}
		r, err := x.start(strings.NewReader(":stop\n"), args...)
		if err != nil {
			return failf(key, "%v", err)
		}
		if !r.wait(60 * time.Second) {
			return failf(key, "the client does not end: %s", r.text())
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		if (r.code == 0) != h.ok || r.code > 1 || strings.Contains(r.err.String(), "goroutine ") {
			return failf(key, "%s", r.text())
		}
		if n := map[bool]int{true: 1, false: 0}[h.ok]; stops != n {
			return failf(key, "%d stop requests, expected %d: %s", stops, n, r.text())
		}
		if !h.ok && strings.TrimSpace(r.err.String()) == "" {
			return failf(key, "it fails without a report: %s", r.text())
		}
		c.Trans(1)
		c.Trace()
		return nil
	})
}

// messages: alda repl --message.
func (c *Ctx) messages(workers int) {
	type hc struct {
		msg  string
		req  map[string]any // nil: refused
		kind string
	}
	ok := okAnswer("", &cliCmd{})
	_ = ok
	c.ExploreN("messages", workers, func(yield func(string, any) bool) {
		good := []hc{
			{msg: `{"op": "stop"}`, req: map[string]any{"op": "stop"}},
			{msg: ` {"op":"eval-and-play","code":"piano: c # żółć \u0000 \ud83c\udfb9\n\"x\""} `, req: map[string]any{"op": "eval-and-play", "code": "piano: c # żółć \x00 🎹\n\"x\""}},
			{msg: `{"op":"replay","from":"a","to":"0:10"}`, req: map[string]any{"op": "replay", "from": "a", "to": "0:10"}},
			{msg: `{"op":"x","list":["a",["b"]],"dict":{"k":"v"}}`, req: map[string]any{"op": "x", "list": []any{"a", []any{"b"}}, "dict": map[string]any{"k": "v"}}},
			{msg: `{"op":"stop","id":"mine","session":"theirs"}`, req: map[string]any{"op": "stop"}},
		}
		for _, h := range good {
			for _, k := range []string{"ok", "ok, with more in it", "one problem", "two problems", "an error without problems", "no status", "another id", "the connection is closed", "no bencode", "a negative length", "a list"} {
				h.kind = k
				if !yield(h.msg+" answered by "+k, h) {
					return
				}
			}
		}
		for _, m := range []string{`{`, `[]`, `["op"]`, `"op"`, `5`, `null`, `{}`, `{"code":"x"}`, `{"OP":"stop"}`, `{"op":"stop"} x`, `op`, ` `, `{"op":"x","n":{"y":`} {
			if !yield(m, hc{msg: m}) {
				return
			}
		}
	}, func(key string, v any) *Fail {
		h := v.(hc)
		x, err := newAldaEnv()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer x.close()
		x.set("ALDA_DISABLE_SPAWNING=yes")
		s, err := newNrepl()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer s.l.Close()
		var ans answerKind
		for _, a := range answerKinds() {
			if a.name == h.kind {
				ans = a
			}
		}
		s.answer = func(n int, req map[string]any) ([]byte, bool) {
			return ans.make(fmt.Sprint(req["id"]), &cliCmd{})
		}
		r, err := x.start(nil, "repl", "--port", fmt.Sprint(s.port), "-m", h.msg)
		if err != nil {
			return failf(key, "%v", err)
		}
		if !r.wait(60 * time.Second) {
			return failf(key, "it does not end: %s", r.text())
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		c.Trans(1)
		if strings.Contains(r.err.String(), "goroutine ") || r.code > 1 || r.code < 0 {
			return failf(key, "%s", r.text())
		}
		if h.req == nil {
			if r.code == 0 || len(s.seen) > 0 || strings.TrimSpace(r.err.String()) == "" {
				return failf(key, "it is not refused: %v; %s", s.seen, r.text())
			}
			c.Trace()
			return nil
		}
		if len(s.seen) != 1 || !reflect.DeepEqual(s.seen[0], h.req) {
			return failf(key, "requests %v, expected %v", s.seen, h.req)
		}
		if (r.code == 0) != ans.good {
			return failf(key, "%s", r.text())
		}
		if ans.good || ans.report != nil {
			var got map[string]any
			if err := json.Unmarshal(r.out.Bytes(), &got); err != nil || got["status"] == nil {
				return failf(key, "the answer is not shown as JSON: %s", r.text())
			}
			for _, p := range ans.report {
				if !strings.Contains(r.out.String(), p) {
					return failf(key, "the answer is not shown: %s", r.text())
				}
			}
		} else if strings.TrimSpace(r.err.String()) == "" {
			return failf(key, "it fails without a report: %s", r.text())
		}
		c.Nontrivial()
		c.Trace()
		c.Outcome(h.kind)
		return nil
	})
}

// ---- the life of the processes ----

type liveRepl struct {
	r    *aldaRun
	in   *os.File
	port string
}

func (x *aldaEnv) startRepl(args ...string) (*liveRepl, error) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	r, err := x.start(pr, append([]string{"repl"}, args...)...)
	pr.Close()
	if err != nil {
		pw.Close()
		return nil, err
	}
	return &liveRepl{r: r, in: pw}, nil
}

func (x *aldaEnv) portFile() string {
	b, _ := os.ReadFile(filepath.Join(x.dir, "cwd", ".alda-nrepl-port"))
	return string(b)
}

func (x *aldaEnv) replStates() map[string]string {
	out := map[string]string{}
	es, _ := os.ReadDir(x.repls)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(x.repls, e.Name()))
		out[e.Name()] = string(b)
	}
	return out
}

func awaitThat(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// up waits until the server can be discovered and is answering.
func (x *aldaEnv) up(l *liveRepl, others map[string]string) string {
	pid := l.r.cmd.Process.Pid
	id := ""
	if !awaitThat(20*time.Second, func() bool {
		for n, t := range x.replStates() {
			var st struct {
				ID        string
				Port, Pid int
			}
			if _, old := others[n]; !old && json.Unmarshal([]byte(t), &st) == nil && st.Pid == pid && n == st.ID+".json" {
				l.port, id = fmt.Sprint(st.Port), st.ID
			}
		}
		return l.port != "" && x.portFile() == l.port
	}) {
		return fmt.Sprintf("no state file and port file of the server: %v, %q", x.replStates(), x.portFile())
	}
	conn, err := net.Dial("tcp", "127.0.0.1:"+l.port)
	if err != nil {
		return err.Error()
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(30 * time.Second))
	conn.Write(benc(map[string]any{"op": "describe", "id": "q"}))
	v, err := bdec(bufio.NewReader(conn))
	if m, _ := v.(map[string]any); err != nil || m["id"] != "q" {
		return fmt.Sprintf("the server answers %v %v", v, err)
	}
	ps, err := x.start(nil, "ps")
	if err != nil {
		return err.Error()
	}
	if !ps.wait(30*time.Second) || ps.code != 0 {
		return "ps: " + ps.text()
	}
	for _, ln := range strings.Split(ps.out.String(), "\n") {
		f := strings.Split(ln, "\t")
		if len(f) == 6 && f[0] == id && f[1] == l.port && f[4] == "repl-server" && strings.TrimSpace(f[5]) == fmt.Sprint(pid) {
			return ""
		}
	}
	return fmt.Sprintf("ps does not list the server %s %s %d: %s", id, l.port, pid, ps.text())
}

// stop ends the process in the given way.
func (l *liveRepl) stop(how string) string {
	switch how {
	case "end of input":
		l.in.Close()
	case "SIGINT":
		l.r.cmd.Process.Signal(syscall.SIGINT)
	case "SIGTERM":
		l.r.cmd.Process.Signal(syscall.SIGTERM)
	default:
		l.in.WriteString(how + "\n")
	}
	defer l.in.Close()
	if !l.r.wait(20 * time.Second) {
		return "the process does not end: " + l.r.text()
	}
	if how != "SIGINT" && how != "SIGTERM" && l.r.code != 0 {
		return "the process fails: " + l.r.text()
	}
	if strings.Contains(l.r.err.String(), "goroutine ") {
		return l.r.text()
	}
	if conn, err := net.Dial("tcp", "127.0.0.1:"+l.port); err == nil {
		conn.Close()
		return "the server is still there"
	}
	return ""
}

func (c *Ctx) replLives(workers int) {
	type hc struct {
		args []string
		end  string
		pre  []string
	}
	freePort := func() string {
		l, err := listen()
		if err != nil {
			panic(err)
		}
		defer l.Close()
		return fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
	}
	modes := map[string][]string{"repl": {}, "repl -c -s": {"--client", "--server"}, "repl -p": {"--port", "P"}, "repl -s": {"--server"}, "repl -s -p": {"--server", "--port", "P"}}
	ends := []string{"end of input", ":quit", "quit", "exit", "bye", "SIGINT", "SIGTERM"}
	use := func(args []string) []string {
		out := append([]string{}, args...)
		for i := range out {
			if out[i] == "P" {
				out[i] = freePort()
			}
		}
		return out
	}
	pres := map[string][]string{"": nil, "files there": {".alda-nrepl-port", "1", "score.alda", "piano: c"}}
	setup := func() (*aldaEnv, map[string]string, error) {
		x, err := newAldaEnv()
		if err != nil {
			return nil, nil, err
		}
		x.set("ALDA_DISABLE_SPAWNING=yes")
		x.writeState(x.repls, "zzz0.json", `{"id":"zzz0","port":1,"pid":1}`, 0)
		return x, x.replStates(), nil
	}
	c.ExploreN("lives of servers", workers, func(yield func(string, any) bool) {
		for _, m := range sortedKeys(modes) {
			for _, e := range ends {
				if strings.HasPrefix(m, "repl -s") && !strings.HasPrefix(e, "SIG") {
					continue
				}
				for _, p := range sortedKeys(pres) {
					if !yield(fmt.Sprintf("%s, %s, %s", m, e, p), hc{modes[m], e, pres[p]}) {
						return
					}
				}
			}
		}
	}, func(key string, v any) *Fail {
		h := v.(hc)
		x, others, err := setup()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer x.close()
		cwd := filepath.Join(x.dir, "cwd")
		buildFiles(cwd, h.pre)
		want := snapshot(cwd)
		delete(want, ".alda-nrepl-port")
		l, err := x.startRepl(use(h.args)...)
		if err != nil {
			return failf(key, "%v", err)
		}
		if d := x.up(l, others); d != "" {
			l.stop("SIGTERM")
			return failf(key, "%s; %s", d, l.r.text())
		}
		if d := l.stop(h.end); d != "" {
			return failf(key, "%s", d)
		}
		if d := changed(want, snapshot(cwd), ""); d != "" {
			return failf(key, "%s", d)
		}
		if now := x.replStates(); !reflect.DeepEqual(now, others) {
			return failf(key, "state files before: %v, after: %v", others, now)
		}
		c.Trans(1)
		c.Trace()
		c.Nontrivial()
		return nil
	})
	c.ExploreN("two servers in one directory", workers, func(yield func(string, any) bool) {
		for _, a := range sortedKeys(modes) {
			for _, first := range []int{0, 1} {
				for _, e := range []string{"SIGINT", "SIGTERM", ":quit"} {
					if strings.HasPrefix(a, "repl -s") && e == ":quit" {
						continue
					}
					if !yield(fmt.Sprintf("%s, number %d ends first by %s", a, first, e), hc{modes[a], e, []string{fmt.Sprint(first)}}) {
						return
					}
				}
			}
		}
	}, func(key string, v any) *Fail {
		h := v.(hc)
		x, others, err := setup()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer x.close()
		var ls []*liveRepl
		old := map[string]string{"zzz0.json": others["zzz0.json"]}
		for i := 0; i < 2; i++ {
			l, err := x.startRepl(use(h.args)...)
			if err != nil {
				return failf(key, "%v", err)
			}
			if d := x.up(l, old); d != "" {
				l.stop("SIGTERM")
				return failf(key, "server %d: %s; %s", i, d, l.r.text())
			}
			old = x.replStates()
			ls = append(ls, l)
		}
		first := 0
		if h.pre[0] == "1" {
			first = 1
		}
		if d := ls[first].stop(h.end); d != "" {
			return failf(key, "%s", d)
		}
		other := ls[1-first]
		if n := len(x.replStates()); n != 2 {
			return failf(key, "state files after one of two servers ended: %v", x.replStates())
		}
		pf := x.portFile()
		if first == 0 && pf != other.port {
			return failf(key, "the port file of the running server says %q instead of %q after another one ended", pf, other.port)
		}
		if first == 1 && pf != "" && pf != other.port {
			return failf(key, "the port file says %q, which is the port of a server that ended", pf)
		}
		if d := other.stop(h.end); d != "" {
			return failf(key, "%s", d)
		}
		if now := x.replStates(); !reflect.DeepEqual(now, others) || x.portFile() != "" {
			return failf(key, "left over: %v, port file %q", now, x.portFile())
		}
		c.Trans(2)
		c.Trace()
		c.Nontrivial()
		return nil
	})
	c.ExploreN("servers that cannot start, clients without a server", workers, func(yield func(string, any) bool) {
		for _, a := range []string{"--server --port USED", "--port USED", "--client --server --port USED", "--client", "--client --port FREE", "--message {\"op\":\"stop\"}", "--message {\"op\":\"stop\"} --port FREE", "--client --port FREE --host nowhere.invalid"} {
			if !yield(a, a) {
				return
			}
		}
	}, func(key string, v any) *Fail {
		x, others, err := setup()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer x.close()
		l, err := listen()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer l.Close()
		a := strings.ReplaceAll(v.(string), "USED", fmt.Sprint(l.Addr().(*net.TCPAddr).Port))
		a = strings.ReplaceAll(a, "FREE", freePort())
		cwd := filepath.Join(x.dir, "cwd")
		buildFiles(cwd, []string{".alda-nrepl-port", "1"})
		want := snapshot(cwd)
		r, err := x.start(strings.NewReader(":stop\n"), append([]string{"repl"}, strings.Fields(a)...)...)
		if err != nil {
			return failf(key, "%v", err)
		}
		if !r.wait(60*time.Second) || r.code != 1 || strings.TrimSpace(r.err.String()) == "" || strings.Contains(r.err.String(), "goroutine ") {
			return failf(key, "%s", r.text())
		}
		if d := changed(want, snapshot(cwd), ""); d != "" {
			return failf(key, "%s", d)
		}
		if now := x.replStates(); !reflect.DeepEqual(now, others) {
			return failf(key, "state files before: %v, after: %v", others, now)
		}
		c.Trans(1)
		c.Trace()
		return nil
	})
}

func init() {
	register("P32", "model_checking", func(c *Ctx) {
		c.stubborn = 2
		hangLimit = 150 * time.Second
		const workers = 32
		c.Rule("evaluations = runs of the real alda binary: a REPL client that is fed lines and answered by a scripted server (requests, output and files are compared with a model), single messages, and REPL servers that are started and ended; states = distinct lists of lines")
		c.Assume("lines come through a pipe, not a terminal; the scripted server speaks bencode over TCP")
		cmds := cliCmds()
		kinds := answerKinds()
		ok := &kinds[0]
		run := func(key string, v any) *Fail { return c.cli(key, v.([]cliStep), strings.HasSuffix(key, " slowly")) }
		name := func(st []cliStep) string {
			var out []string
			for _, s := range st {
				n := fmt.Sprintf("%q", s.cmd.line)
				if s.cmd.req != nil && s.ans != ok {
					n += " (" + s.ans.name + ")"
				}
				out = append(out, n)
			}
			return strings.Join(out, " ")
		}
		find := func(line string) *cliCmd {
			for i := range cmds {
				if cmds[i].line == line {
					return &cmds[i]
				}
			}
			panic(line)
		}
		last := find("piano: c8 d")
		c.ExploreN("every line, every answer", workers, func(yield func(string, any) bool) {
			for i := range cmds {
				for k := range kinds {
					if k > 0 && cmds[i].req == nil || !kinds[k].fits(&cmds[i]) {
						continue
					}
					st := []cliStep{{&cmds[i], &kinds[k]}, {find(":new"), ok}, {last, ok}}
					if !yield(name(st), st) {
						return
					}
				}
			}
		}, run)
		c.ExploreN("answers cut at every byte", workers, func(yield func(string, any) bool) {
			for _, l := range []string{":stop", ":score", ":save s.alda", ":export e.mid"} {
				k := find(l)
				full := benc(okAnswer(strings.Repeat("x", 36), k))
				for n := 0; n < len(full); n++ {
					n := n
					a := &answerKind{name: fmt.Sprintf("cut after %d bytes", n), make: func(id string, k *cliCmd) ([]byte, bool) {
						b := benc(okAnswer(id, k))
						return b[:minInt(n, len(b)-1)], false
					}}
					st := []cliStep{{k, a}, {find(":new"), ok}, {last, ok}}
					if !yield(name(st), st) {
						return
					}
				}
			}
		}, run)
		c.ExploreN("histories of lines", workers, func(yield func(string, any) bool) {
			depth := 2
			if c.Thorough {
				depth = 3
			}
			var rec func(st []cliStep) bool
			rec = func(st []cliStep) bool {
				if len(st) == depth {
					return yield(name(st), append(st[:len(st):len(st)], cliStep{last, ok}))
				}
				for i := range cmds {
					if len(st) > 0 && (strings.HasPrefix(st[0].cmd.line, ":load") && cmds[i].line == ":load" || (strings.HasPrefix(st[0].cmd.line, ":load") || strings.HasPrefix(st[0].cmd.line, ":save")) && (cmds[i].line == ":save" || cmds[i].line == ":load")) {
						continue // these remember a file, which P25 covers
					}
					if depth == 3 && len(st) == 1 && i%3 != 0 {
						continue
					}
					if !rec(append(st[:len(st):len(st)], cliStep{&cmds[i], ok})) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, run)
		c.ExploreN("histories of answers", workers, func(yield func(string, any) bool) {
			lines := []string{"piano: c8 d", ":score data", ":export e.mid", ":new"}
			for _, a := range lines {
				for _, b := range lines {
					for i := range kinds {
						for k := range kinds {
							if !kinds[i].fits(find(a)) || !kinds[k].fits(find(b)) || a == b && kinds[i].after {
								continue
							}
							st := []cliStep{{find(a), &kinds[i]}, {find(b), &kinds[k]}, {find(":stop"), ok}, {find(":score"), ok}}
							if kinds[i].after && kinds[k].after {
								continue
							}
							if !c.Thorough && (i+k)%2 == 1 && i > 1 && k > 1 {
								continue
							}
							if !yield(name(st), st) {
								return
							}
						}
					}
				}
			}
		}, run)
		c.ExploreN("lines that arrive slowly", 64, func(yield func(string, any) bool) {
			for i := range cmds {
				st := []cliStep{{&cmds[i], ok}, {find(":score"), ok}, {last, ok}}
				if !yield(name(st)+" slowly", st) {
					return
				}
			}
		}, run)
		c.greeting(workers)
		c.messages(workers)
		c.replLives(workers)
	})
}

package main

// P31: a score means the same by whatever way its text reaches Alda.

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	ajson "alda.io/client/json"
	"alda.io/client/model"
	"alda.io/client/parser"
	"alda.io/client/transmitter"
)

// meaning is what a text means when it is read from the named file.
type meaning struct {
	astErr, updErr, scoreErr error
	ast, human, events       string
	score                    *model.Score
}

func (m *meaning) err(out string) error {
	switch {
	case m.astErr != nil:
		return m.astErr
	case out == "ast" || out == "ast-human":
		return nil
	case m.updErr != nil:
		return m.updErr
	case out == "events":
		return nil
	}
	return m.scoreErr
}

func meaningOf(name, text string) *meaning {
	m := &meaning{}
	ast, err := parser.Parse(name, text)
	if err != nil {
		m.astErr = err
		return m
	}
	m.ast = ast.JSON().String()
	if j, err := ajson.ParseJSON([]byte(m.ast)); err == nil {
		m.human = parser.HumanReadableAST(j)
	}
	ups, err := ast.Updates()
	if err != nil {
		m.updErr = err
		return m
	}
	arr := ajson.Array()
	for _, u := range ups {
		arr.ArrayAppend(u.JSON())
	}
	m.events = arr.String()
	s := model.NewScore()
	if err := s.Update(ups...); err != nil {
		m.scoreErr = err
		return m
	}
	m.score = s
	return m
}

func jsonSame(a, b string) bool {
	x, e1 := jdec(a)
	y, e2 := jdec(b)
	return e1 == nil && e2 == nil && reflect.DeepEqual(x, y)
}

// pieces delivers a text in pieces, with pauses.
type pieces struct {
	p     [][]byte
	pause time.Duration
}

func (r *pieces) Read(b []byte) (int, error) {
	for len(r.p) > 0 && len(r.p[0]) == 0 {
		r.p = r.p[1:]
		time.Sleep(r.pause)
	}
	if len(r.p) == 0 {
		return 0, io.EOF
	}
	n := copy(b, r.p[0])
	r.p[0] = r.p[0][n:]
	return n, nil
}

func splitAt(text string, at ...int) [][]byte {
	var out [][]byte
	k := 0
	for _, i := range at {
		out = append(out, []byte(text[k:i]))
		k = i
	}
	return append(out, []byte(text[k:]))
}

// chunked delivers a text in pieces of n bytes.
func bitByBit(text string, n int, pause time.Duration) io.Reader {
	var p [][]byte
	for len(text) > n {
		p = append(p, []byte(text[:n]))
		text = text[n:]
	}
	return &pieces{append(p, []byte(text)), pause}
}

// way is a way to give a text to a command.
type way struct {
	name string
	can  func(text string) bool
	// file: the name under which the text is known
	give func(x *aldaEnv, text string) (args []string, stdin io.Reader, file string)
}

const noFile = "<no file>"

func always(string) bool     { return true }
func arguable(t string) bool { return t != "" && !strings.Contains(t, "\x00") && len(t) < 100000 }

func (x *aldaEnv) put(name, text string) string {
	p := filepath.Join(x.dir, "cwd", name)
	os.MkdirAll(filepath.Dir(p), 0755)
	os.WriteFile(p, []byte(text), 0644)
	return name
}

var ways = []way{
	{"-c", arguable, func(x *aldaEnv, t string) ([]string, io.Reader, string) { return []string{"-c", t}, nil, noFile }},
	{"--code=", arguable, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		return []string{"--code=" + t}, nil, noFile
	}},
	{"-c, with something on the standard input", arguable, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		return []string{"-c", t}, strings.NewReader("violin: ]"), noFile
	}},
	{"-f", always, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		return []string{"-f", x.put("score.alda", t)}, nil, "score.alda"
	}},
	{"--file, a path with blanks", always, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		f := x.put("my scores/nº 1.txt", t)
		return []string{"--file", f}, strings.NewReader("violin: ]"), f
	}},
	{"-f, a symbolic link", always, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		os.Symlink(x.put("a.alda", t), filepath.Join(x.dir, "cwd", "link"))
		return []string{"-f", "link"}, nil, "link"
	}},
	{"-f, an absolute path", always, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		f := filepath.Join(x.dir, "cwd", x.put("a.alda", t))
		return []string{"-f", f}, nil, f
	}},
	{"-f, a pipe", always, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		return []string{"-f", "/dev/stdin"}, strings.NewReader(t), "/dev/stdin"
	}},
	{"standard input", always, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		return nil, &pieces{p: [][]byte{[]byte(t)}}, noFile
	}},
	{"standard input, a file", always, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		f, _ := os.Open(filepath.Join(x.dir, "cwd", x.put("in", t)))
		return nil, f, noFile
	}},
	{"standard input, 3 bytes at a time", func(t string) bool { return len(t) < 2000 }, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		return nil, bitByBit(t, 3, 0), noFile
	}},
	{"standard input, after a pause, in two halves", func(t string) bool { return len(t) < 200 }, func(x *aldaEnv, t string) ([]string, io.Reader, string) {
		return nil, &pieces{p: append([][]byte{{}}, splitAt(t, len(t)/2)...), pause: 150 * time.Millisecond}, noFile
	}},
}

// msgsOf: the messages without regard to order; the order in which a score's
// tempo changes are listed is arbitrary.
func msgsOf(ms []omsg) []string {
	var out []string
	for _, m := range ms {
		out = append(out, m.String())
	}
	sort.Strings(out)
	return out
}

func sameMsgs(want, got []omsg) string {
	w, g := msgsOf(want), msgsOf(got)
	if reflect.DeepEqual(w, g) {
		return ""
	}
	return fmt.Sprintf("sent:\n%s\nexpected:\n%s", msgText(got), msgText(want))
}

// sentAs compares what was sent with what the options demand.
func sentAs(s *model.Score, got []omsg, e playExp, opts ...transmitter.TransmissionOption) string {
	b, err := transmitter.OSCTransmitter{}.ScoreToOSCBundle(s, opts...)
	if err != nil {
		return err.Error()
	}
	if d := sameMsgs(bundleMsgs(b), got); d != "" {
		return d
	}
	if e.shift != nil {
		if d := checkTransmission(got, e); d != "" {
			return d + "\nsent:\n" + msgText(got)
		}
	}
	return ""
}

type entryCase struct {
	text string
	way  way
	out  string // parse output, or "play", "export"
	args []string
	opts []transmitter.TransmissionOption
	exp  func(s *model.Score) playExp
}

// entry runs one command on a text and compares everything that comes out.
func (c *Ctx) entry(key string, h *entryCase) *Fail {
	x, err := newAldaEnv()
	if err != nil {
		return failf(key, "%v", err)
	}
	defer x.close()
	x.set("ALDA_DISABLE_SPAWNING=yes")
	srcArgs, stdin, file := h.way.give(x, h.text)
	if f, ok := stdin.(*os.File); ok {
		defer f.Close()
	}
	m := meaningOf(file, h.text)
	var e *ear
	midi := midiSmall()
	var args []string
	switch h.out {
	case "play", "export", "export to a file":
		f := x.place(0, pkinds["ready"])
		e = f.ear
		defer e.l.Close()
		e.on = func(_ *ear, m omsg) {
			if m.addr == "/system/midi/export" && len(m.args) == 1 {
				if p, ok := m.args[0].(string); ok {
					writeSlowly(p, midi, time.Millisecond)
				}
			}
		}
		args = append([]string{strings.Fields(h.out)[0]}, h.args...)
		if h.out == "export to a file" {
			args = append(args, "-o", "out.mid")
		}
		args = append(args, srcArgs...)
	case "data by default":
		args = append([]string{"parse"}, srcArgs...)
	default:
		args = append([]string{"parse", "-o", h.out}, srcArgs...)
	}
	before := snapshot(filepath.Join(x.dir, "cwd"))
	r, err := x.start(stdin, args...)
	if err != nil {
		return failf(key, "%v", err)
	}
	if !r.wait(60 * time.Second) {
		return failf(key, "the command does not end: %s", r.text())
	}
	var sent [][]omsg
	if e != nil {
		var bad string
		if sent, bad = e.heard(); bad != "" {
			return failf(key, "the player is sent %s", bad)
		}
	}
	dest := ""
	if h.out == "export to a file" {
		b, _ := os.ReadFile(filepath.Join(x.dir, "cwd", "out.mid"))
		dest = string(b)
		os.Remove(filepath.Join(x.dir, "cwd", "out.mid"))
	}
	if d := changed(before, snapshot(filepath.Join(x.dir, "cwd")), ""); d != "" {
		return failf(key, "%s", d)
	}
	c.Trans(1)
	want := m.err(h.out)
	if want == nil && e != nil {
		if _, err := (transmitter.OSCTransmitter{}).ScoreToOSCBundle(m.score, h.opts...); err != nil {
			want = err
		}
	}
	if want != nil {
		if r.code == 0 {
			return failf(key, "the command succeeds, expected the error %q: %s", want, r.text())
		}
		if !strings.Contains(r.err.String(), want.Error()) {
			return failf(key, "the error is not reported as %q: %s", want, r.text())
		}
		if dest != "" {
			return failf(key, "the command fails and writes the output: %s", r.text())
		}
		if r.out.Len() > 0 {
			return failf(key, "the command fails and prints something: %s", r.text())
		}
		if len(sent) > 0 {
			return failf(key, "the command fails, and the player is sent %v", sent)
		}
		c.Outcome(want.Error())
		c.Trace()
		return nil
	}
	if r.code != 0 {
		return failf(key, "the command fails: %s", r.text())
	}
	same := func(what string, ok bool) *Fail {
		if !ok {
			return failf(key, "the %s differs from the text's: %s", what, r.text())
		}
		return nil
	}
	var f *Fail
	o := r.out.String()
	switch h.out {
	case "ast":
		f = same("syntax tree", jsonSame(o, m.ast))
	case "ast-human":
		f = same("listing of the syntax tree", o == m.human+"\n")
	case "events":
		f = same("list of events", jsonSame(o, m.events))
	case "data", "data by default":
		got, err := sessionDigest(o)
		if err != nil {
			return failf(key, "%v: %s", err, r.text())
		}
		exp, err := sessionDigest(m.score.JSON().String())
		if err != nil {
			return failf(key, "%v", err)
		}
		if got != exp {
			f = failf(key, "the score differs from the text's\n%s", lineDiff(exp, got))
		}
		c.State(exp)
	case "play":
		if len(sent) != 1 {
			return failf(key, "%d transmissions: %s", len(sent), r.text())
		}
		var pe playExp
		if h.exp != nil {
			pe = h.exp(m.score)
			pe.oneOff = true
		}
		if d := sentAs(m.score, sent[0], pe, append(h.opts, transmitter.OneOff())...); d != "" {
			f = failf(key, "%s", d)
		}
		if o != "" {
			f = failf(key, "something is printed: %s", r.text())
		}
	case "export", "export to a file":
		if len(sent) != 3 || len(sent[1]) != 1 || sent[1][0].addr != "/system/midi/export" || len(sent[2]) != 1 || sent[2][0].addr != "/system/shutdown" {
			return failf(key, "expected a score, an export command and a shutdown, sent: %v", sent)
		}
		var pe playExp
		if h.exp != nil {
			pe = h.exp(m.score)
			pe.play = false
		}
		if d := sentAs(m.score, sent[0], pe, append(h.opts, transmitter.LoadOnly())...); d != "" {
			f = failf(key, "%s", d)
		}
		if h.out == "export to a file" {
			if o != "" {
				f = failf(key, "something is printed: %s", r.text())
			}
			o = dest
		}
		if o != string(midi) {
			f = failf(key, "the output is not what the player exported: %s", r.text())
		}
	}
	if f != nil {
		return f
	}
	c.Nontrivial()
	c.Outcome("ok " + h.out)
	c.Trace()
	return nil
}

func entryTexts() (good, bad []string) {
	long := "piano: " + strings.Repeat("c16 d e f ", 7000) // one line of 70 kB
	many := "piano:\n" + strings.Repeat("  o4 c8 d e f | g a b > c <\n", 2600)
	good = []string{
		"", " ", "\n", "# nothing", "piano:", "c d e", "piano: c8 d e", "piano: c8 d e\n", "\n\n  piano: c8\n\n", "piano: c8 # no newline at the end",
		"piano: c8\r\nviolin: d4\r\n# comment\r\n  e f\r\n", "piano: c8\tviolin:\td", "piano: c8 | d | e |",
		"# żółć 🎵 \u2028 ünï\npiano: c8 (vol 40) d # 🎹", "# null \x00 byte\npiano: c8", "# \xff\xfe bytes\npiano: c8 d",
		"piano: c8 %a d @a e\ncello: @a f", "(tempo! 90)\npiano: c (tempo 60) d\nbass: e (tempo 200) f", "piano \"p\": c/e/g [c d]*3 {c d e}2\nviolin/cello \"s\": (vol 30) g1\np: (pan 20) a",
		"xx = c d [e f]*2\npiano: xx xx xx", "piano: V1: c d V2: e f V0: g\nmidi-percussion: o2 c8 d", "piano: (octave 5) (transpose 3) (key-sig \"f+ c+\") f c\nguitar: o2 [c8 d e f]*8",
		"guitar: c8 -c", "piano: c ~ d c1~1~1", long, many,
	}
	good[len(good)-4] = "guitar: c8 d- e+ f_ c=d" // looks like options and assignments
	bad = []string{
		"piano: ]", "piano: c8\n  d4 }", "c8 d", "piano: c8 d @nowhere", "piano: (vol 500)", "piano: (vol", "piano: \"", "nosuchinstrument: c", "piano: o12 c",
		"piano: c8\r\n  ]\r\n", "piano: ż", "piano: \xff", "piano: \x00", "\ufeffpiano: c8", "piano: undefinedvar", "piano: (tempo 60)\nviolin: c (tempo :a)", "piano/violin: c", "piano: c8 d\n" + strings.Repeat("# comment\n", 9000) + "  ]",
		"-c", "--help", "piano: o0 c-", "piano: c8 \n (undefined-function 1)", "piano \"foo\": c\nviolin \"foo\": d",
	}
	return
}

// ---- the WebAssembly module ----

const wasmDriver = `
require(process.env.WASM_EXEC);
const fs = require('fs'), rl = require('readline');
const go = new Go();
console.error = () => {};
WebAssembly.instantiate(fs.readFileSync(process.env.WASM_MODULE), go.importObject).then(r => {
  go.run(r.instance);
  const out = o => process.stdout.write(JSON.stringify(o) + "\n");
  out({version: globalThis.Alda.VERSION, names: Object.keys(globalThis.Alda).sort()});
  rl.createInterface({input: process.stdin, terminal: false, crlfDelay: Infinity}).on('line', async l => {
    const calls = JSON.parse(l), res = calls.map(q => {
      try {
        const r = globalThis.Alda[q.f](...q.args);
        if (!(r instanceof Promise)) return Promise.resolve({plain: r === undefined ? null : r});
        return r.then(v => v instanceof Uint8Array ? {bytes: Buffer.from(v).toString('base64')} : {odd: String(v)}, e => ({error: e instanceof Error ? e.message : String(e), kind: e instanceof Error ? 'Error' : typeof e}));
      } catch (e) { return Promise.resolve({threw: String(e)}); }
    });
    out(await Promise.all(res));
  }).on('close', () => process.exit(0));
});
`

type wasmCall struct {
	F    string `json:"f"`
	Args []any  `json:"args"`
}

type wasmRes struct {
	Bytes, Odd, Error, Kind, Threw *string
	Plain                          any
}

// wasmMod is a running module.
type wasmMod struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *tailBuf
	head struct {
		Version string
		Names   []string
	}
	seen string
}

func newWasm() (*wasmMod, error) {
	dir := os.Getenv("VERIF_SCRATCH")
	js := filepath.Join(dir, "driver.js")
	if _, err := os.Stat(js); err != nil {
		tmp := fmt.Sprintf("%s.%d", js, envCount.Add(1))
		os.WriteFile(tmp, []byte(wasmDriver), 0644)
		os.Rename(tmp, js)
	}
	w := &wasmMod{errs: &tailBuf{}}
	w.cmd = exec.Command("node", js)
	w.cmd.Env = append(os.Environ(), "WASM_MODULE="+os.Getenv("VERIF_WASM"), "WASM_EXEC="+os.Getenv("VERIF_WASM_EXEC"))
	w.cmd.Stderr = w.errs
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	line, err := w.line()
	if err == nil {
		err = json.Unmarshal(line, &w.head)
	}
	return w, err
}

func (w *wasmMod) line() ([]byte, error) {
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		b, err := w.out.ReadBytes('\n')
		ch <- res{b, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			w.cmd.Wait()
			return nil, fmt.Errorf("the module ends: %.600s", w.errs.String())
		}
		return r.b, nil
	case <-time.After(60 * time.Second):
		w.cmd.Process.Kill()
		return nil, fmt.Errorf("no answer within 60 s")
	}
}

// call makes calls at once, without waiting for their results in between.
func (w *wasmMod) call(calls []wasmCall) ([]wasmRes, error) {
	b, _ := json.Marshal(calls)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, fmt.Errorf("the module ended: %.600s", w.errs.String())
	}
	line, err := w.line()
	if err != nil {
		return nil, err
	}
	var out []wasmRes
	if err := json.Unmarshal(line, &out); err != nil {
		return nil, fmt.Errorf("%v: %.200q", err, line)
	}
	return out, nil
}

func (w *wasmMod) close() { w.in.Close(); w.cmd.Process.Kill(); w.cmd.Wait() }

// wasmWant compares the result of one call.
func (c *Ctx) wasmWant(q wasmCall, r wasmRes) string {
	if r.Threw != nil {
		return fmt.Sprintf("%v throws %s", q, *r.Threw)
	}
	if q.F == "setLogLevel" {
		if r.Plain != nil || r.Error != nil || r.Bytes != nil {
			return fmt.Sprintf("%v returns something: %+v", q, r)
		}
		return ""
	}
	text, isText := "", false
	if len(q.Args) > 0 {
		text, isText = q.Args[0].(string)
	}
	if !isText {
		if r.Error == nil || *r.Kind != "Error" {
			return fmt.Sprintf("%v is not rejected with an Error: %+v", q, r)
		}
		return ""
	}
	m := meaningOf(noFile, strings.ToValidUTF8(text, "\ufffd"))
	var want []omsg
	err := m.err("data")
	if err == nil {
		b, e := transmitter.OSCTransmitter{}.ScoreToOSCBundle(m.score, transmitter.LoadOnly())
		if err = e; err == nil {
			want = bundleMsgs(b)
		}
	}
	if err != nil {
		if r.Error == nil || *r.Kind != "Error" || *r.Error != err.Error() {
			return fmt.Sprintf("%.200q is not rejected with %q: %+v", text, err, show(r))
		}
		c.Outcome("rejected")
		return ""
	}
	if r.Bytes == nil {
		return fmt.Sprintf("%.200q does not result in bytes: %s", text, show(r))
	}
	b, _ := base64.StdEncoding.DecodeString(*r.Bytes)
	got, err := decodeOSC(b)
	if err != nil {
		return fmt.Sprintf("%.200q: %v", text, err)
	}
	if d := sameMsgs(want, got); d != "" {
		return fmt.Sprintf("%.200q: %s", text, d)
	}
	e := fullExp(m.score)
	e.play = false
	if d := checkTransmission(got, e); d != "" {
		return fmt.Sprintf("%.200q: %s", text, d)
	}
	c.Nontrivial()
	c.Outcome("bytes")
	return ""
}

func show(r wasmRes) string { b, _ := json.Marshal(r); return fmt.Sprintf("%.300s", b) }

func (c *Ctx) wasm(good, bad []string) {
	var mu sync.Mutex
	var free []*wasmMod
	defer func() {
		for _, w := range free {
			w.close()
		}
	}()
	with := func(key string, fn func(w *wasmMod) *Fail) *Fail {
		mu.Lock()
		var w *wasmMod
		if n := len(free); n > 0 {
			w, free = free[n-1], free[:n-1]
		}
		mu.Unlock()
		if w == nil {
			var err error
			if w, err = newWasm(); err != nil {
				return failf(key, "%v", err)
			}
		}
		f := fn(w)
		if f != nil {
			w.close()
			return f
		}
		mu.Lock()
		free = append(free, w)
		mu.Unlock()
		return nil
	}
	run := func(key string, v any) *Fail {
		return with(key, func(w *wasmMod) *Fail {
			groups := v.([][]wasmCall)
			if strings.Join(w.head.Names, " ") != "VERSION setLogLevel toOSCBytes" || w.head.Version != versionText() {
				return failf(key, "the module offers %v, version %s", w.head.Names, w.head.Version)
			}
			for i, g := range groups {
				res, err := w.call(g)
				if err != nil {
					return failf(key, "calls %d: %v", i, err)
				}
				if len(res) != len(g) {
					return failf(key, "%d results for %d calls", len(res), len(g))
				}
				for k := range g {
					if d := c.wasmWant(g[k], res[k]); d != "" {
						return failf(key, "call %d.%d: %s", i, k, d)
					}
					c.Trans(1)
				}
			}
			c.Trace()
			return nil
		})
	}
	call := func(t string) wasmCall { return wasmCall{"toOSCBytes", []any{t}} }
	c.ExploreN("the WebAssembly module: every text", 8, func(yield func(string, any) bool) {
		for i, t := range append(append([]string{}, good...), bad...) {
			if !yield(fmt.Sprintf("wasm text %d: %.60q", i, t), [][]wasmCall{{call(t)}}) {
				return
			}
		}
	}, run)
	alpha := []wasmCall{call("piano: c8 d"), call("(tempo! 90) violin/cello \"s\": [c d]*2 {e f g}2"), call("piano: ]"), call("piano: c @nowhere"), call("piano: o12 c"), call(""), {"toOSCBytes", []any{}}, {"toOSCBytes", []any{nil}}, {"setLogLevel", []any{"nonsense"}}, {"setLogLevel", []any{"error"}}, {"setLogLevel", []any{}}, call("xx = c\npiano: xx"), call("piano: xx")}
	c.ExploreN("the WebAssembly module: histories of calls", 8, func(yield func(string, any) bool) {
		var names []string
		for i := range alpha {
			b, _ := json.Marshal(alpha[i])
			names = append(names, string(b))
		}
		depth := 3
		if c.Thorough {
			depth = 4
		}
		var rec func(h []int) bool
		rec = func(h []int) bool {
			if len(h) > 0 && len(h) == depth || len(h) == 2 {
				for mode := 0; mode < 2; mode++ {
					var g [][]wasmCall
					var all []wasmCall
					var nm []string
					for _, i := range h {
						g, all, nm = append(g, []wasmCall{alpha[i]}), append(all, alpha[i]), append(nm, names[i])
					}
					what := "one by one"
					if mode == 1 {
						g, what = [][]wasmCall{all}, "at once"
					}
					if !yield("wasm "+what+" "+strings.Join(nm, " "), g) {
						return false
					}
				}
			}
			if len(h) == depth {
				return true
			}
			for i := range alpha {
				if !rec(append(h[:len(h):len(h)], i)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}, run)
}

// ---- the interactive server ----

// replEntry: a text that is typed, loaded or sent to an empty session.
func (c *Ctx) replEntry(good, bad []string) {
	pool := &srvPool{}
	defer pool.closeAll()
	typed := func(t string) bool {
		if strings.TrimSpace(t) == "" || strings.TrimSpace(t) != t || t[0] == ':' || t[0] == '-' || !utf8.ValidString(t) || len(t) > 5000 {
			return false
		}
		for _, r := range t {
			if r < 32 || r == 0x7f || r == 0xfffd || r == 0x2028 {
				return false
			}
		}
		return true
	}
	type hc struct{ text, how string }
	c.ExploreN("the interactive server", srvWorkers, func(yield func(string, any) bool) {
		for i, t := range append(append([]string{}, good...), bad...) {
			for _, how := range []string{"typed", "message eval-and-play", "message load", ":load"} {
				if how == "typed" && !typed(t) || strings.HasPrefix(how, "message") && (!utf8.ValidString(t) || len(t) > 100000) {
					continue
				}
				if !yield(fmt.Sprintf("text %d %.60q: %s", i, t, how), hc{t, how}) {
					return
				}
			}
		}
	}, func(key string, v any) *Fail {
		h := v.(hc)
		return pool.with(key, func(s *replSrv) *Fail {
			x, err := newAldaEnv()
			if err != nil {
				return failf(key, "%v", err)
			}
			defer x.close()
			x.set("ALDA_DISABLE_SPAWNING=yes")
			if err := s.waitPlayer(); err != nil {
				return failf(key, "%v", err)
			}
			m := meaningOf(noFile, h.text)
			want := m.err("data")
			var r *aldaRun
			port := fmt.Sprint(s.port)
			plays := true
			switch h.how {
			case "typed":
				r, err = x.start(strings.NewReader(h.text+"\n"), "repl", "--client", "--port", port)
			case ":load":
				x.put("a b.alda", h.text)
				plays = false
				r, err = x.start(strings.NewReader(":load 'a b.alda'\n"), "repl", "--client", "--port", port)
			default:
				op := strings.TrimPrefix(h.how, "message ")
				plays = op == "eval-and-play"
				b, _ := json.Marshal(map[string]string{"op": op, "code": h.text})
				r, err = x.start(nil, "repl", "--port", port, "--message", string(b))
			}
			if err != nil {
				return failf(key, "%v", err)
			}
			if !r.wait(60 * time.Second) {
				return failf(key, "the command does not end: %s", r.text())
			}
			text := r.out.String() + r.err.String()
			if strings.HasPrefix(h.how, "message") {
				if (r.code != 0) != (want != nil) {
					return failf(key, "expected error %v: %s", want, r.text())
				}
				var res map[string]any
				if err := json.Unmarshal(r.out.Bytes(), &res); err != nil {
					return failf(key, "the response is not printed as JSON: %s", r.text())
				}
				b, _ := json.Marshal(res["problems"])
				text = fmt.Sprint(res["problems"])
				if isErr(res) != (want != nil) {
					return failf(key, "expected error %v, response %s", want, b)
				}
			} else if r.code != 0 {
				return failf(key, "the client fails: %s", r.text())
			} else if strings.Contains(text, "ERROR") != (want != nil) {
				return failf(key, "expected error %v: %s", want, r.text())
			}
			if want != nil && !strings.Contains(text, want.Error()) {
				return failf(key, "the error is not reported as %q: %s", want, r.text())
			}
			z := &sess{c: c, s: s}
			sm, badMsg := z.sent()
			if badMsg != "" {
				return failf(key, "%s", badMsg)
			}
			n := 0
			if want == nil {
				n = 1
			}
			if len(sm.scores) != n {
				return failf(key, "%d transmissions, expected %d: %v", len(sm.scores), n, sm.scores)
			}
			if n == 1 {
				e := fullExp(m.score)
				e.play = plays
				if len(m.score.Parts) == 0 {
					e.tempo = nil
				}
				var opts []transmitter.TransmissionOption
				if !plays {
					opts = append(opts, transmitter.LoadOnly())
				}
				if d := sentAs(m.score, sm.scores[0], e, opts...); d != "" {
					return failf(key, "%s", d)
				}
			}
			inputs := []string{h.text}
			if want != nil {
				inputs = nil
			}
			if d := c.checkSession(s, inputs); d != "" {
				return failf(key, "%s; %s", d, r.text())
			}
			c.Trans(1)
			c.Trace()
			c.Nontrivial()
			c.Outcome(h.how)
			return nil
		})
	})
}

func init() {
	register("P31", "model_checking", func(c *Ctx) {
		c.stubborn = 2
		hangLimit = 150 * time.Second
		good, bad := entryTexts()
		texts := append(append([]string{}, good...), bad...)
		outs := []string{"ast", "ast-human", "events", "data", "data by default", "play", "export"}
		run := func(key string, v any) *Fail { return c.entry(key, v.(*entryCase)) }
		whole := func(s *model.Score) playExp {
			e := fullExp(s)
			if len(s.Parts) == 0 {
				e.tempo = nil
			}
			return e
		}
		c.Rule("evaluations = runs of the real alda binary, of a REPL server with its client, or of the WebAssembly module on one text; what is printed and what the stand-in player receives is compared with the text parsed, evaluated and transmitted in process; states = distinct scores")
		c.Assume("stand-in players; the texts are those of a fixed corpus, the ways they are given and cut are enumerated")
		c.ExploreN("texts, ways and outputs", 32, func(yield func(string, any) bool) {
			for i, t := range texts {
				for _, w := range ways {
					if !w.can(t) {
						continue
					}
					for _, o := range outs {
						if !c.Thorough && o != "data" && o != "play" && (len(t) > 2000 || w.name != "-c" && w.name != "-f" && w.name != "standard input") {
							continue
						}
						if !yield(fmt.Sprintf("%s, %s, text %d %.60q", o, w.name, i, t), &entryCase{text: t, way: w, out: o, exp: whole}) {
							return
						}
					}
				}
			}
		}, run)
		multi := "piano: c8 # żółć 🎵\r\n\"x\"\nviolin: \xff d"
		ok := "# żółć 🎵\r\npiano: c8 (vol 30) d"
		c.ExploreN("standard input cut at every byte", 32, func(yield func(string, any) bool) {
			for _, t := range []string{ok, multi} {
				for i := 0; i <= len(t); i++ {
					i := i
					w := way{give: func(x *aldaEnv, t string) ([]string, io.Reader, string) {
						return nil, &pieces{p: append(append(splitAt(t, i)[:1:1], []byte{}), splitAt(t, i)[1]), pause: 20 * time.Millisecond}, noFile
					}}
					for _, o := range []string{"ast", "data", "play"} {
						if !yield(fmt.Sprintf("%s of %.20q cut at %d", o, t, i), &entryCase{text: t, way: w, out: o, exp: whole}) {
							return
						}
					}
				}
			}
		}, run)
		c.ExploreN("texts of every size around the sizes of buffers", 32, func(yield func(string, any) bool) {
			for _, n := range []int{511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131073, 1 << 20} {
				for _, nl := range []string{" ", "\n"} {
					t := "piano: c8" + nl
					for nl == "\n" && len(t)+20 < n {
						t += "#" + strings.Repeat("x", minInt(n-len(t)-20, 1<<14)) + "\n"
					}
					t += strings.Repeat(" ", max0(n-len(t)-3)) + "d16"
					for _, w := range ways {
						if !w.can(t) || strings.Contains(w.name, "halves") {
							continue
						}
						if !yield(fmt.Sprintf("%d bytes, %q, %s", n, nl, w.name), &entryCase{text: t, way: w, out: "data"}) {
							return
						}
					}
				}
			}
		}, run)
		c.excerpts(run)
		c.wasm(good, bad)
		c.replEntry(good, bad)
	})
}

// excerpts: the options --from and --to, and the choice of the player.
func (c *Ctx) excerpts(run func(string, any) *Fail) {
	text := "(tempo! 120)\npiano: c2 d %mid e f %m02 g a %end\nviolin: (vol 30) o5 c1 (pan 90) d e\nmidi-percussion: o2 [c4 d]*6"
	at := map[string]float64{"": math.NaN(), "0:00": 0, "0:01": 1000, "0:03": 3000, "0:59": 59000, "mid": 2000, "m02": 4000, "end": 6000}
	points := []string{"", "0:00", "0:01", "0:03", "0:59", "mid", "end", "nowhere", "1:2:3", "0:0x"}
	c.ExploreN("excerpts, by every way", 32, func(yield func(string, any) bool) {
		for _, cmd := range []string{"play", "export", "export to a file"} {
			for _, from := range points {
				for _, to := range points {
					for i, w := range []way{ways[0], ways[3], ways[8]} {
						if i > 0 && (from == "0:59" || to == "0:59") && !c.Thorough {
							continue
						}
						for style := 0; style < 2; style++ {
							h := &entryCase{text: text, way: w, out: cmd}
							if from != "" {
								h.args = append(h.args, [][]string{{"--from", from}, {"-F", from}}[style]...)
								h.opts = append(h.opts, transmitter.TransmitFrom(from))
							}
							if to != "" {
								h.args = append(h.args, [][]string{{"--to", to}, {"-T", to}}[style]...)
								h.opts = append(h.opts, transmitter.TransmitTo(to))
							}
							if style == 1 {
								h.opts = nil
								if to != "" {
									h.opts = append(h.opts, transmitter.TransmitTo(to))
								}
								if from != "" {
									h.opts = append(h.opts, transmitter.TransmitFrom(from))
								}
							}
							f, okF := at[from]
							t, okT := at[to]
							if okF && okT {
								h.exp = func(s *model.Score) playExp {
									e := fullExp(s)
									if !math.IsNaN(f) {
										e.start = f
									}
									if !math.IsNaN(t) {
										e.end = t
									}
									var ns []model.NoteEvent
									for _, n := range e.notes {
										if n.Offset >= e.start && n.Offset < e.end {
											ns = append(ns, n)
										}
									}
									e.notes = ns
									st := e.start
									e.shift = func(model.NoteEvent) float64 { return st }
									return e
								}
							}
							if !yield(fmt.Sprintf("%s from %q to %q, style %d, %s", cmd, from, to, style, w.name), h) {
								return
							}
						}
					}
				}
			}
		}
	}, run)
}

func versionText() string {
	b, _ := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO_DIR"), "VERSION"))
	return strings.TrimSpace(string(b))
}

package main

// P20: the interactive server answers every request exactly once.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"alda.io/client/model"
	"alda.io/client/parser"
)

const srvWorkers = 48

// protoReq is one request of the protocol alphabet with its specification.
type protoReq struct {
	name string
	msg  map[string]any
	// wantErr: "", "error" or "any" (the outcome is not specified)
	wantErr string
	unknown bool
	// effect on the session
	eval, load string
	reset      bool
	slow       bool
	payload    func(st *protoState, r map[string]any) string
}

// protoState is the model of a session: the inputs it consists of.
type protoState struct{ inputs []string }

func (st *protoState) apply(q *protoReq) {
	switch {
	case q.eval != "":
		st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], q.eval)
	case q.load != "":
		st.inputs = []string{q.load}
	case q.reset:
		st.inputs = nil
	}
}

func (st *protoState) text() string { return strings.Join(st.inputs, "\n") }

func wantString(r map[string]any, k string, ok func(string) string) string {
	s, is := r[k].(string)
	if !is {
		return fmt.Sprintf("no %q in the response %v", k, r)
	}
	return ok(s)
}

func sameJSON(want, got string) string {
	var a, b any
	if err := json.Unmarshal([]byte(want), &a); err != nil {
		return "reference: " + err.Error()
	}
	if err := json.Unmarshal([]byte(got), &b); err != nil {
		return fmt.Sprintf("not JSON: %v", err)
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	if string(x) != string(y) {
		return fmt.Sprintf("expected %s\ngot      %s", x, y)
	}
	return ""
}

// everyOp: the documented operations.
var everyOp = []string{"clone", "describe", "eval", "eval-and-play", "export", "instruments", "load", "new-score", "replay", "score-ast", "score-data", "score-events", "score-text", "stop"}

func protoAlphabet() []*protoReq {
	one := func(name string, kv ...any) *protoReq {
		m := map[string]any{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return &protoReq{name: name, msg: m}
	}
	var out []*protoReq
	add := func(q *protoReq, f func(q *protoReq)) {
		if f != nil {
			f(q)
		}
		out = append(out, q)
	}
	add(one("describe", "op", "describe"), func(q *protoReq) {
		q.payload = func(st *protoState, r map[string]any) string {
			ops, _ := r["ops"].(map[string]any)
			for _, o := range everyOp {
				if _, ok := ops[o]; !ok {
					return fmt.Sprintf("operation %s is not described: %v", o, r)
				}
			}
			v, _ := r["versions"].(map[string]any)
			a, _ := v["alda"].(map[string]any)
			if s, _ := a["version-string"].(string); s == "" {
				return fmt.Sprintf("no version: %v", r)
			}
			return ""
		}
	})
	add(one("score-text", "op", "score-text"), func(q *protoReq) {
		q.payload = func(st *protoState, r map[string]any) string {
			return wantString(r, "text", func(s string) string {
				if lines(s) != lines(st.text()) {
					return fmt.Sprintf("text %q, expected %q", s, st.text())
				}
				return ""
			})
		}
	})
	add(one("eval-and-play", "op", "eval-and-play", "code", "piano: c8 d"), func(q *protoReq) { q.eval = "piano: c8 d" })
	add(one("eval-and-play parse error", "op", "eval-and-play", "code", "piano: [c d"), func(q *protoReq) { q.wantErr = "error" })
	add(one("eval-and-play eval error", "op", "eval-and-play", "code", "violin: c (vol 500)"), func(q *protoReq) { q.wantErr = "error" })
	add(one("eval-and-play no code", "op", "eval-and-play"), func(q *protoReq) { q.wantErr = "error" })
	add(one("eval-and-play code int", "op", "eval-and-play", "code", 3), func(q *protoReq) { q.wantErr = "error" })
	add(one("eval-and-play code list", "op", "eval-and-play", "code", []any{"c", 1}), func(q *protoReq) { q.wantErr = "error" })
	add(one("eval-and-play code dict", "op", "eval-and-play", "code", map[string]any{"x": "y"}), func(q *protoReq) { q.wantErr = "error" })
	add(one("unknown op", "op", "frobnicate"), func(q *protoReq) { q.wantErr, q.unknown = "error", true })
	add(one("empty op", "op", ""), func(q *protoReq) { q.wantErr, q.unknown = "error", true })
	add(one("no op"), func(q *protoReq) { q.wantErr = "error" })
	add(one("op int", "op", 7), func(q *protoReq) { q.wantErr = "error" })
	add(one("op list", "op", []any{"describe"}), func(q *protoReq) { q.wantErr = "error" })
	add(one("clone", "op", "clone"), func(q *protoReq) {
		q.payload = func(st *protoState, r map[string]any) string {
			return wantString(r, "new-session", func(s string) string {
				if s == "" {
					return "empty session id"
				}
				return ""
			})
		}
	})
	add(one("eval", "op", "eval", "code", "(+ 1 2)"), nil)
	add(one("instruments", "op", "instruments"), func(q *protoReq) {
		n := len(model.InstrumentsList())
		q.payload = func(st *protoState, r map[string]any) string {
			l, _ := r["instruments"].([]any)
			if len(l) != n || n == 0 {
				return fmt.Sprintf("%d instruments, expected %d", len(l), n)
			}
			return ""
		}
	})
	add(one("score-data", "op", "score-data"), func(q *protoReq) {
		q.payload = func(st *protoState, r map[string]any) string {
			return wantString(r, "data", func(s string) string {
				got, err := sessionDigest(s)
				if err != nil {
					return err.Error()
				}
				fresh, err := freshSession(st.inputs)
				if err != nil {
					return "reference: " + err.Error()
				}
				want, err := sessionDigest(fresh.JSON().String())
				if err != nil {
					return "reference: " + err.Error()
				}
				if got != want {
					return "the score differs from that of the session's inputs\n" + lineDiff(want, got)
				}
				return ""
			})
		}
	})
	add(one("score-events", "op", "score-events"), func(q *protoReq) {
		q.payload = func(st *protoState, r map[string]any) string {
			return wantString(r, "events", func(s string) string {
				ups, err := parseUpdates(st.text() + "\n")
				if err != nil {
					return "reference: " + err.Error()
				}
				want := []string{}
				for _, u := range ups {
					want = append(want, u.JSON().String())
				}
				return sameJSON("["+strings.Join(want, ",")+"]", s)
			})
		}
	})
	add(one("score-ast", "op", "score-ast"), func(q *protoReq) {
		q.payload = func(st *protoState, r map[string]any) string {
			return wantString(r, "ast", func(s string) string {
				ast, err := parser.ParseString(st.text() + "\n")
				if err != nil {
					return "reference: " + err.Error()
				}
				return sameJSON(ast.JSON().String(), s)
			})
		}
	})
	add(one("stop", "op", "stop"), nil)
	add(one("new-score", "op", "new-score"), func(q *protoReq) { q.reset, q.slow = true, true })
	add(one("load", "op", "load", "code", "violin: e8 f"), func(q *protoReq) { q.load, q.slow = "violin: e8 f", true })
	add(one("load parse error", "op", "load", "code", "violin: [e"), func(q *protoReq) { q.wantErr = "error" })
	add(one("load eval error", "op", "load", "code", "violin: e (pan 700)"), func(q *protoReq) { q.wantErr = "error" })
	add(one("load no code", "op", "load"), func(q *protoReq) { q.wantErr = "error" })
	add(one("load code int", "op", "load", "code", 12), func(q *protoReq) { q.wantErr = "error" })
	add(one("replay", "op", "replay"), func(q *protoReq) { q.slow = true })
	add(one("replay from", "op", "replay", "from", "0:00", "to", "0:10"), func(q *protoReq) { q.slow = true })
	add(one("replay bad from", "op", "replay", "from", "nowhere"), func(q *protoReq) { q.wantErr, q.slow = "error", true })
	add(one("replay from int", "op", "replay", "from", 3), func(q *protoReq) { q.wantErr, q.slow = "any", true })
	add(one("replay from and to int", "op", "replay", "from", 3, "to", 4), func(q *protoReq) { q.wantErr, q.slow = "any", true })
	add(one("export", "op", "export"), func(q *protoReq) {
		q.slow = true
		q.payload = func(st *protoState, r map[string]any) string {
			return wantString(r, "binary-data", func(s string) string {
				if s != string(midiBytes(3)) {
					return fmt.Sprintf("exported bytes %q", s)
				}
				return ""
			})
		}
	})
	return out
}

// withIDs gives a request an id and a session (or not), by position.
func withIDs(m map[string]any, i int, mode int) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		out[k] = v
	}
	switch mode % 4 {
	case 0:
		out["id"], out["session"] = fmt.Sprintf("id-%d", i), fmt.Sprintf("session-%d", i)
	case 1:
		out["id"] = []any{"0", "", fmt.Sprintf("only-%d", i)}[i%3]
	case 2: // neither
	case 3:
		out["id"], out["session"] = 100+i, "s"
	}
	return out
}

// checkReply compares one response with its request.
func checkReply(st *protoState, q *protoReq, sent, r map[string]any) string {
	for _, k := range []string{"id", "session"} {
		a, ina := sent[k]
		b, inb := r[k]
		if ina != inb || fmt.Sprint(a) != fmt.Sprint(b) {
			return fmt.Sprintf("request %v: the response carries %s %v (present: %v), not %v (present: %v)", sent, k, b, inb, a, ina)
		}
	}
	if d := checkStatus(r); d != "" {
		return fmt.Sprintf("request %v: %s", sent, d)
	}
	s := statusOf(r)
	if q.wantErr != "any" && (q.wantErr == "error") != s["error"] {
		return fmt.Sprintf("request %v: response %v", sent, r)
	}
	if q.unknown != s["unknown-op"] {
		return fmt.Sprintf("request %v: response %v", sent, r)
	}
	if !s["error"] {
		if _, p := r["problems"]; p {
			return fmt.Sprintf("request %v: a successful response with problems: %v", sent, r)
		}
		if q.payload != nil {
			if d := q.payload(st, r); d != "" {
				return fmt.Sprintf("request %v: %s", sent, d)
			}
		}
		st.apply(q)
	}
	return ""
}

// quiet: no further response arrives.
func (c *replConn) quiet(what string) string {
	// an extra request flushes out a surplus response without waiting for it
	r, err := c.ask(map[string]any{"op": "frobnicate", "id": "last"}, 60*time.Second)
	if err != nil {
		return fmt.Sprintf("after %s: %v", what, err)
	}
	if r["id"] != "last" {
		return fmt.Sprintf("after %s: a surplus response %v", what, r)
	}
	return ""
}

func init() {
	register("P20", "model_checking", func(c *Ctx) {
		hangLimit = 150 * time.Second
		c.Rule("states = distinct session states reached; transitions = requests sent; every history of requests is sent to the real server process over TCP, every response is compared with a protocol model of the session")
		c.Assume("player processes are stand-ins that accept the same connections and write the same state files")
		pool := &srvPool{}
		defer pool.closeAll()
		alpha := protoAlphabet()
		byName := map[string]*protoReq{}
		for _, q := range alpha {
			byName[q.name] = q
		}
		type hist struct {
			reqs []*protoReq
			mode int // 0: one at a time, 1: pipelined in one packet
			ids  int
		}
		run := func(key string, v any) *Fail {
			h := v.(hist)
			return pool.with(key, func(s *replSrv) *Fail {
				conn, err := s.dial()
				if err != nil {
					return failf(key, "%v", err)
				}
				defer conn.close()
				st := &protoState{}
				var sent []map[string]any
				var all []byte
				for i, q := range h.reqs {
					m := withIDs(q.msg, i, h.ids+i)
					sent = append(sent, m)
					all = append(all, benc(m)...)
				}
				if h.mode == 1 {
					conn.c.Write(all)
				}
				for i, q := range h.reqs {
					if h.mode == 0 {
						conn.c.Write(benc(sent[i]))
					}
					c.Trans(1)
					r, err := conn.recv(60 * time.Second)
					if err != nil {
						return failf(key, "request %d %v: %v", i, sent[i], err)
					}
					if d := checkReply(st, q, sent[i], r); d != "" {
						return failf(key, "%s", d)
					}
				}
				if d := conn.quiet(key); d != "" {
					return failf(key, "%s", d)
				}
				if d := c.checkSession(s, st.inputs); d != "" {
					return failf(key, "after %s: %s", key, d)
				}
				c.Trace()
				c.Outcome(st.text())
				return nil
			})
		}
		key := func(h hist) string {
			var n []string
			for _, q := range h.reqs {
				n = append(n, q.name)
			}
			return fmt.Sprintf("%s | mode %d ids %d", strings.Join(n, "; "), h.mode, h.ids)
		}
		histories := func(name string, alpha []*protoReq, n int, modes []int) {
			c.ExploreN(name, srvWorkers, func(yield func(string, any) bool) {
				var rec func(p []*protoReq) bool
				rec = func(p []*protoReq) bool {
					if len(p) == n {
						for _, m := range modes {
							h := hist{append([]*protoReq{}, p...), m, len(p[0].name) + 3*len(p[n-1].name)}
							if !yield(key(h), h) {
								return false
							}
						}
						return true
					}
					for _, q := range alpha {
						if !rec(append(p, q)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			}, run)
		}
		histories("every request alone", alpha, 1, []int{0, 1})
		// every identification of every request
		c.ExploreN("identification", srvWorkers, func(yield func(string, any) bool) {
			for _, q := range alpha {
				for ids := 0; ids < 4; ids++ {
					h := hist{[]*protoReq{q, byName["describe"]}, 0, ids}
					if !yield(key(h)+" id", h) {
						return
					}
				}
			}
		}, run)
		histories("pairs", alpha, 2, []int{1})
		var core []*protoReq
		for _, n := range []string{"describe", "score-text", "eval-and-play", "eval-and-play eval error", "eval-and-play no code", "op int", "score-data", "new-score", "load", "load eval error", "replay"} {
			core = append(core, byName[n])
		}
		histories("triples of a core alphabet", core, 3, []int{pick(c.Thorough, 1, 1)})
		if c.Thorough {
			histories("pairs, one at a time", alpha, 2, []int{0})
			histories("quadruples of a core alphabet", core, 4, []int{1})
		}
		c.framing(pool, byName)
		c.connections(pool, byName)
	})
}

// framing: every way of cutting the byte stream of some requests into packets.
func (c *Ctx) framing(pool *srvPool, by map[string]*protoReq) {
	type cut struct {
		reqs []*protoReq
		at   []int
		pad  int
	}
	stream := func(x cut) ([]map[string]any, []byte) {
		var sent []map[string]any
		var all []byte
		for i, q := range x.reqs {
			m := withIDs(q.msg, i, i)
			if i == 0 && x.pad > 0 {
				m["padding"] = strings.Repeat("x", x.pad)
			}
			sent = append(sent, m)
			all = append(all, benc(m)...)
		}
		return sent, all
	}
	run := func(key string, v any) *Fail {
		x := v.(cut)
		one := func(s *replSrv) *Fail {
			conn, err := s.dial()
			if err != nil {
				return failf(key, "%v", err)
			}
			defer conn.close()
			sent, all := stream(x)
			go func() {
				last := 0
				for _, a := range append(x.at, len(all)) {
					if a > last {
						conn.c.Write(all[last:a])
						time.Sleep(1500 * time.Microsecond)
						last = a
					}
				}
			}()
			st := &protoState{}
			for i, q := range x.reqs {
				c.Trans(1)
				r, err := conn.recv(60 * time.Second)
				if err != nil {
					return failf(key, "request %d: %v", i, err)
				}
				if d := checkReply(st, q, sent[i], r); d != "" {
					return failf(key, "%s", d)
				}
			}
			if d := conn.quiet(key); d != "" {
				return failf(key, "%s", d)
			}
			c.Trace()
			return nil
		}
		return pool.with(key, one)
	}
	sets := [][]*protoReq{
		{by["score-text"], by["eval-and-play"], by["score-text"]},
		{by["no op"], by["describe"], by["eval-and-play code list"]},
	}
	c.ExploreN("packets: every cut", srvWorkers, func(yield func(string, any) bool) {
		for si, reqs := range sets {
			_, all := stream(cut{reqs: reqs})
			for a := 0; a < len(all); a++ {
				if !yield(fmt.Sprintf("set %d cut at %d", si, a), cut{reqs, []int{a}, 0}) {
					return
				}
			}
			step := pick(c.Thorough, 11, 2)
			for a := 1; a < len(all); a += step {
				for b := a + 1; b < len(all); b += step {
					if !yield(fmt.Sprintf("set %d cut at %d and %d", si, a, b), cut{reqs, []int{a, b}, 0}) {
						return
					}
				}
			}
			var each []int
			for a := 1; a < len(all); a++ {
				each = append(each, a)
			}
			if !yield(fmt.Sprintf("set %d byte by byte", si), cut{reqs, each, 0}) {
				return
			}
		}
	}, run)
	// message boundaries at every position around the sizes buffers have
	c.ExploreN("packets: sizes", srvWorkers, func(yield func(string, any) bool) {
		for _, size := range []int{512, 1024, 4096, 8192, 65536} {
			w := pick(c.Thorough, 6, 40)
			for d := -w; d <= w; d++ {
				reqs := []*protoReq{by["score-text"], by["describe"], by["eval-and-play no code"]}
				_, all := stream(cut{reqs: reqs[:1], pad: 100000})
				pad := 100000 + (size + d - len(all))
				if pad < 1 {
					continue
				}
				if !yield(fmt.Sprintf("first request ends near %d%+d", size, d), cut{reqs, nil, pad}) {
					return
				}
			}
		}
	}, run)
}

// connections: several clients, connections that break, bytes that are not
// requests.
func (c *Ctx) connections(pool *srvPool, by map[string]*protoReq) {
	inA := []string{"piano: c8 d", "violin: (vol 30) e8"}
	inB := []string{"cello: g8", "flute: a8 | b %mm c"}
	type il struct {
		order string // e.g. "ABAB": whose next request is sent
		wait  bool   // wait for each response before the next request is sent
		mode  int
	}
	c.ExploreN("two clients", srvWorkers, func(yield func(string, any) bool) {
		for mode := 0; mode < 3; mode++ {
			na, nb := 3, 3
			var rec func(p string, a, b int) bool
			rec = func(p string, a, b int) bool {
				if a == 0 && b == 0 {
					for _, w := range []bool{false, true} {
						if !yield(fmt.Sprintf("%s wait=%v mode %d", p, w, mode), il{p, w, mode}) {
							return false
						}
					}
					return true
				}
				return (a == 0 || rec(p+"A", a-1, b)) && (b == 0 || rec(p+"B", a, b-1))
			}
			if !rec("", na, nb) {
				return
			}
		}
	}, func(key string, v any) *Fail {
		x := v.(il)
		return pool.with(key, func(s *replSrv) *Fail {
			conns := map[byte]*replConn{}
			for _, n := range []byte("AB") {
				k, err := s.dial()
				if err != nil {
					return failf(key, "%v", err)
				}
				defer k.close()
				conns[n] = k
			}
			mk := func(who byte, i int) map[string]any {
				in := inA
				if who == 'B' {
					in = inB
				}
				m := map[string]any{"id": fmt.Sprintf("%c%d", who, i), "session": string(who)}
				switch {
				case i < 2 && x.mode == 2 && who == 'B' && i == 0:
					m["op"], m["code"] = "eval-and-play", "trumpet: c8 (vol 999) d"
				case i < 2:
					m["op"], m["code"] = "eval-and-play", in[i]
				case x.mode == 1:
					m["op"] = "replay"
				default:
					m["op"] = "score-text"
				}
				return m
			}
			n := map[byte]int{}
			texts := map[byte]string{}
			check := func(who byte, i int, r map[string]any) string {
				m := mk(who, i)
				if r["id"] != m["id"] || r["session"] != m["session"] {
					return fmt.Sprintf("client %c, request %v: response %v", who, m, r)
				}
				if d := checkStatus(r); d != "" {
					return d
				}
				if bad := m["code"] == "trumpet: c8 (vol 999) d"; bad != isErr(r) {
					return fmt.Sprintf("client %c, request %v: response %v", who, m, r)
				}
				if m["op"] == "score-text" {
					texts[who], _ = r["text"].(string)
				}
				return ""
			}
			var serial []string
			for _, who := range []byte(x.order) {
				i := n[who]
				n[who]++
				m := mk(who, i)
				conns[who].c.Write(benc(m))
				c.Trans(1)
				if x.wait {
					r, err := conns[who].recv(60 * time.Second)
					if err != nil {
						return failf(key, "client %c, request %v: %v", who, m, err)
					}
					if d := check(who, i, r); d != "" {
						return failf(key, "%s", d)
					}
					if code, ok := m["code"].(string); ok && !isErr(r) {
						serial = append(serial, code)
					}
				}
			}
			if !x.wait {
				for _, who := range []byte("AB") {
					for i := 0; i < n[who]; i++ {
						r, err := conns[who].recv(60 * time.Second)
						if err != nil {
							return failf(key, "client %c, request %d: %v", who, i, err)
						}
						if d := check(who, i, r); d != "" {
							return failf(key, "%s", d)
						}
					}
				}
			}
			for _, who := range []byte("AB") {
				if d := conns[who].quiet(key); d != "" {
					return failf(key, "%s", d)
				}
			}
			var cands [][]string
			if x.wait {
				cands = [][]string{serial}
			} else {
				b := inB
				if x.mode == 2 {
					b = inB[1:]
				}
				cands = merges(inA, b)
			}
			why := ""
			for _, in := range cands {
				if why = c.checkSession(s, in); why == "" {
					break
				}
			}
			if why != "" {
				return failf(key, "the session is no interleaving of whole inputs: %s", why)
			}
			c.Trace()
			return nil
		})
	})
	// connections that end or break at every byte, and bytes that are no request
	type brk struct {
		bytes []byte
		full  int // whole requests contained in bytes
		rst   bool
	}
	q1 := benc(map[string]any{"op": "eval-and-play", "code": "piano: c8", "id": "x"})
	q2 := benc(map[string]any{"op": "score-text", "id": "y"})
	both := append(append([]byte{}, q1...), q2...)
	run := func(key string, v any) *Fail {
		b := v.(brk)
		return pool.with(key, func(s *replSrv) *Fail {
			keep, err := s.dial() // another client, connected all the time
			if err != nil {
				return failf(key, "%v", err)
			}
			defer keep.close()
			conn, err := s.dial()
			if err != nil {
				return failf(key, "%v", err)
			}
			conn.c.Write(b.bytes)
			c.Trans(1)
			if b.full >= 0 {
				for i := 0; i < b.full; i++ {
					r, err := conn.recv(60 * time.Second)
					if err != nil {
						return failf(key, "request %d before the break: %v", i, err)
					}
					if d := checkStatus(r); d != "" {
						return failf(key, "%s", d)
					}
				}
			} else {
				time.Sleep(3 * time.Millisecond)
			}
			conn.close()
			for i, k := range []*replConn{keep, nil} {
				if k == nil {
					if k, err = s.dial(); err != nil {
						return failf(key, "%v", err)
					}
					defer k.close()
				}
				r, err := k.ask(map[string]any{"op": "describe", "id": fmt.Sprint("after", i)}, 60*time.Second)
				if err != nil {
					return failf(key, "another client's request after the break: %v", err)
				}
				if r["id"] != fmt.Sprint("after", i) || isErr(r) {
					return failf(key, "another client's request after the break is answered %v", r)
				}
			}
			if b.full >= 0 {
				var in []string
				if b.full >= 1 {
					in = []string{"piano: c8"}
				}
				if d := c.checkSession(s, in); d != "" {
					return failf(key, "%s", d)
				}
			}
			c.Trace()
			return nil
		})
	}
	c.ExploreN("connections that end early", srvWorkers, func(yield func(string, any) bool) {
		for n := 0; n <= len(both); n++ {
			full := 0
			if n >= len(q1) {
				full++
			}
			if n >= len(both) {
				full++
			}
			if !yield(fmt.Sprintf("connection ends after %d bytes", n), brk{both[:n], full, false}) {
				return
			}
		}
	}, run)
	c.ExploreN("bytes that are no request", srvWorkers, func(yield func(string, any) bool) {
		subst := []byte("x0d:e")
		if c.Thorough {
			subst = []byte("x09deil:-\x00\xff")
		}
		for i := range q1 {
			for _, b := range subst {
				m := append([]byte{}, q1...)
				if m[i] == b {
					continue
				}
				m[i] = b
				if !yield(fmt.Sprintf("byte %d replaced with %q", i, b), brk{m, -1, false}) {
					return
				}
			}
		}
		for _, t := range []string{"i5e", "le", "li1ei2ee", "4:op  ", "e", "\n", "GET / HTTP/1.0\r\n\r\n", "d2:opd1:ai1eee", "d2:op4:eval", "i99999999999999999999999e", "i1.5e", "-1:", "d1:a-1:e", "99999:abc", strings.Repeat("l", 3000), strings.Repeat("d1:a", 3000), strings.Repeat("i1e", 500)} {
			if !yield(fmt.Sprintf("bytes %.40q", t), brk{[]byte(t), -1, false}) {
				return
			}
		}
	}, run)
	// values that are requests of no operation must not keep the connection's
	// next request from being answered
	c.ExploreN("non-requests before a request", srvWorkers, func(yield func(string, any) bool) {
		for _, t := range []string{"i5e", "le", "li1ei2ee", "2:op", "0:", "l2:ope", "i-7e"} {
			if !yield(t, t) {
				return
			}
		}
	}, func(key string, v any) *Fail {
		return pool.with(key, func(s *replSrv) *Fail {
			conn, err := s.dial()
			if err != nil {
				return failf(key, "%v", err)
			}
			defer conn.close()
			conn.c.Write([]byte(v.(string)))
			for i := 0; i < 2; i++ {
				// the server may answer the non-request or not
				conn.c.Write(benc(map[string]any{"op": "describe", "id": "after"}))
				for {
					r, err := conn.recv(30 * time.Second)
					if err != nil {
						return failf(key, "the request after it: %v", err)
					}
					if r["id"] == "after" {
						break
					}
				}
			}
			c.Trace()
			return nil
		})
	})
}

// merges lists every interleaving of two sequences.
func merges(a, b []string) [][]string {
	var out [][]string
	var rec func(p, a, b []string)
	rec = func(p, a, b []string) {
		if len(a) == 0 && len(b) == 0 {
			out = append(out, append([]string{}, p...))
			return
		}
		if len(a) > 0 {
			rec(append(p, a[0]), a[1:], b)
		}
		if len(b) > 0 {
			rec(append(p, b[0]), a, b[1:])
		}
	}
	rec(nil, a, b)
	sort.Slice(out, func(i, j int) bool { return strings.Join(out[i], "|") < strings.Join(out[j], "|") })
	return out
}

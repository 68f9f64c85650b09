package main

// P19, P21: the interactive session as a state machine. The model is the list
// of inputs the session consists of; the reference model gives the position of
// every part, the player stand-ins record what is played.

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"alda.io/client/model"
)

// sess is the model of a session.
type sess struct {
	c      *Ctx
	s      *replSrv
	conn   *replConn
	inputs []string
	ref    *Ref         // reference model after the inputs
	shadow *model.Score // the inputs evaluated one after another
	on     *fakePlayer  // the player that has been sent something since the last change of player
	dead   bool         // that player has died
}

func newSess(c *Ctx, s *replSrv) (*sess, error) {
	conn, err := s.dial()
	if err != nil {
		return nil, err
	}
	return &sess{c: c, s: s, conn: conn, ref: NewRef(), shadow: model.NewScore()}, nil
}

func (z *sess) reset() { z.inputs, z.ref, z.shadow = nil, NewRef(), model.NewScore() }

// reach: how far a part has got, in whichever of its voices is the furthest.
func (r *Ref) reach(i int) float64 {
	p := r.parts[i]
	o := p.st.off
	for _, v := range p.voices {
		o = math.Max(o, v.off)
	}
	return o
}

// push adds an input to the model and describes what it has to play.
func (z *sess) push(nodes []*Node) (playExp, error) {
	return z.pushText(Text(nodes), nodes)
}

func (z *sess) pushText(text string, nodes []*Node) (playExp, error) {
	first := len(z.ref.parts) == 0
	var base []float64
	for i := range z.ref.parts {
		base = append(base, z.ref.reach(i))
	}
	if err := z.ref.Run(nodes); err != nil {
		return playExp{}, err
	}
	z.c.Trans(z.ref.Steps)
	ups, err := parseUpdates(text)
	if err != nil {
		return playExp{}, err
	}
	n0 := len(z.shadow.Events)
	if err := z.shadow.Update(ups...); err != nil {
		return playExp{}, err
	}
	z.inputs = append(z.inputs[:len(z.inputs):len(z.inputs)], text)
	e := playExp{tracks: z.shadow.Tracks(), play: true, end: math.Inf(1)}
	for _, ev := range z.shadow.Events[n0:] {
		if n, ok := ev.(model.NoteEvent); ok {
			e.notes = append(e.notes, n)
		}
	}
	idx := partIndex(z.shadow)
	min := map[int]float64{}
	for _, n := range e.notes {
		i := idx[n.Part]
		if o, ok := min[i]; !ok || n.Offset < o {
			min[i] = n.Offset
		}
	}
	e.shift = func(n model.NoteEvent) float64 {
		i := idx[n.Part]
		b := 0.0
		if i < len(base) {
			b = base[i]
		}
		return math.Min(b, min[i])
	}
	if first {
		e.tempo = z.shadow.TempoItinerary()
	}
	return e, nil
}

// whole: the whole session, or the part of it between two offsets.
func (z *sess) whole(from, to float64, play bool) playExp {
	e := playExp{tracks: z.shadow.Tracks(), play: play, start: from, end: to, tempo: z.shadow.TempoItinerary(), shift: func(model.NoteEvent) float64 { return from }}
	for _, n := range scoreNotes(z.shadow) {
		if n.Offset >= from && n.Offset < to {
			e.notes = append(e.notes, n)
		}
	}
	return e
}

func (z *sess) ask(m map[string]any) (map[string]any, error) {
	m["id"] = "q"
	r, err := z.conn.ask(m, 50*time.Second)
	if err == nil {
		if d := checkStatus(r); d != "" {
			err = fmt.Errorf("%v: %s", m, d)
		}
	}
	return r, err
}

// sent: the packets the players received, by kind.
type sentMsgs struct {
	scores   [][]omsg
	on       []*fakePlayer
	offsets  []int32
	shutdown int
	stops    int
	exports  int
	other    []string
}

func (z *sess) sent() (*sentMsgs, string) {
	pk, from, bad := z.s.drain()
	if bad != "" {
		return nil, "a player received " + bad
	}
	out := &sentMsgs{}
	for i, ms := range pk {
		if len(ms) == 1 {
			switch m := ms[0]; m.addr {
			case "/system/shutdown":
				out.shutdown++
				continue
			case "/system/stop":
				out.stops++
				continue
			case "/system/offset":
				o, _ := m.args[0].(int32)
				out.offsets = append(out.offsets, o)
				continue
			case "/system/midi/export":
				out.exports++
				continue
			}
		}
		out.scores = append(out.scores, ms)
		out.on = append(out.on, from[i])
	}
	return out, ""
}

func msgText(ms []omsg) string {
	var sb strings.Builder
	for i, m := range ms {
		if i < 40 {
			fmt.Fprintln(&sb, " ", m)
		}
	}
	return sb.String()
}

// played checks that exactly one transmission was made and that it is right.
func (z *sess) played(e playExp) string {
	sm, bad := z.sent()
	if bad != "" {
		return bad
	}
	if len(sm.scores) != 1 {
		return fmt.Sprintf("%d transmissions, expected one: %v", len(sm.scores), sm.scores)
	}
	if d := checkTransmission(sm.scores[0], e); d != "" {
		return d + "\nsent:\n" + msgText(sm.scores[0])
	}
	if z.on != nil && !z.dead && z.on != sm.on[0] {
		return "sent to another player than what was sent before"
	}
	z.on, z.dead = sm.on[0], false
	return ""
}

func (z *sess) silent() string {
	sm, bad := z.sent()
	if bad != "" {
		return bad
	}
	if len(sm.scores) != 0 {
		return fmt.Sprintf("something is played: %v", sm.scores)
	}
	return ""
}

// eval sends a good input and checks everything about it.
func (z *sess) eval(nodes []*Node) string {
	return z.evalText(Text(nodes), nodes)
}

func (z *sess) evalText(text string, nodes []*Node) string {
	r, err := z.ask(map[string]any{"op": "eval-and-play", "code": text})
	if err != nil {
		return fmt.Sprintf("input %q: %v", text, err)
	}
	if isErr(r) {
		return fmt.Sprintf("input %q fails: %v", text, r["problems"])
	}
	e, err := z.pushText(text, nodes)
	if err != nil {
		return fmt.Sprintf("reference: %q: %v", text, err)
	}
	if d := z.played(e); d != "" {
		return fmt.Sprintf("input %q: %s", text, d)
	}
	return ""
}

// canEval: the reference and the evaluator accept the input now.
func (z *sess) canEval(text string) bool {
	_, err := freshSession(append(z.inputs[:len(z.inputs):len(z.inputs)], text))
	return err == nil
}

func init() {
	good := [][]*Node{
		{Pt("", "piano"), N("c8"), N("d4")},
		{N("e8"), R("r4"), N("f")},
		{Pt("", "violin"), Vol(20, false), N("g2")},
		{Pt("", "piano"), V(1), N("c4"), N("d4"), V(2), N("e8"), V(0)},
		{Mk("mm"), Ch(N("a4"), N("b8"))},
		{Pt("", "piano"), At("mm"), N("g8"), N("a8")},
		{VD("foo", N("c8"), Up(), N("d8"))},
		{Pt("", "piano"), VR("foo"), N("e")},
		{Tempo(240, true), Pt("", "cello"), N("c4"), N("d4")},
		{Pt("", "piano"), V(1), N("c4"), N("d4"), V(2), N("e8")},
		{Pt("", "piano"), V(2), N("f4"), N("g4")},
		{Pt("", "piano", "violin"), N("c4")},
		{Pt("vv", "violin"), Octave(5, false), Sq(N("c8"), N("d8"))},
	}
	register("P19", "fault_enumeration", func(c *Ctx) {
		hangLimit = 150 * time.Second
		c.Rule("evaluations = histories of inputs sent to the real server, each containing inputs that fail; distinct_nontrivial = histories whose failing input changes the score before it fails; after every input the session's text and data are compared with a session that was given the good inputs only, and what is played afterwards with the reference model")
		c.Assume("which inputs fail is taken from the evaluator itself; that the right ones fail is decided by other properties")
		pool := &srvPool{}
		defer pool.closeAll()
		// failing inputs: a failing element at every position of every base
		bases := []string{
			"piano: c8 (vol 20) [ d e ]*2 {f g}2 > %nn foo",
			"violin: c/e/g (tempo! 60) V1: a8 V2: b4 V0: @mm d",
			"foo = c [ d e ]\nbar = foo {a}4\npiano: bar [ c'1 d'2 ]*3",
			"piano \"pp\": c (key-sig! \"f+\") [ c/e (oct 3) ] *2 | e~4",
			"(quant! 50) cello/viola \"cv\": c4 (octave 3) cv.cello: d",
			"%mm {c [ d {e f} ] }1 (midi-channel 3) c",
		}
		bad := []string{"(vol 500)", "@nowhere", "nosuchvar", "(no-such-function 1)", "]"}
		var fails []string
		seen := map[string]bool{}
		for _, b := range bases {
			toks := strings.SplitAfter(b, " ")
			for i := 0; i <= len(toks); i++ {
				for _, x := range bad {
					t := strings.Join(toks[:i], "") + x + " " + strings.Join(toks[i:], "")
					if !seen[t] {
						seen[t] = true
						fails = append(fails, t)
					}
				}
			}
		}
		fails = append(fails, "", "piano", "piano: c }", "\"", "c", "piano: c/", "nosuchinstrument: c", "piano: (vol", "piano: c (pan -1", "zz.qq: c", "piano \"aa\": c\naa/violin \"aa\": d")
		pre := [][][]*Node{{}, {good[0]}, {good[0], good[3], good[4]}, {good[6], good[9]}, {good[12], good[11]}, {good[8], good[9], good[4]}}
		probes := [][]*Node{good[0], good[1], good[5], good[10], good[7], good[2], good[11]}
		type hist struct {
			pre   [][]*Node
			fails []string
			load  bool
		}
		run := func(key string, v any) *Fail {
			h := v.(hist)
			return pool.with(key, func(s *replSrv) *Fail {
				z, err := newSess(c, s)
				if err != nil {
					return failf(key, "%v", err)
				}
				defer z.conn.close()
				for _, g := range h.pre {
					if d := z.eval(g); d != "" {
						return failf(key, "%s", d)
					}
				}
				for _, f := range h.fails {
					var ctx []string
					if !h.load {
						ctx = z.inputs
					}
					if _, err := freshSession(append(ctx[:len(ctx):len(ctx)], f)); err == nil {
						return nil // this one does not fail here
					}
					// does it change the score before it fails?
					if ups, err := parseUpdates(f); err == nil && len(ups) > 1 {
						c.Nontrivial()
					}
					op := "eval-and-play"
					if h.load {
						op = "load"
					}
					r, err := z.ask(map[string]any{"op": op, "code": f})
					if err != nil {
						return failf(key, "input %q: %v", f, err)
					}
					if !isErr(r) {
						return failf(key, "input %q cannot be evaluated, but the answer is %v", f, r)
					}
					if d := z.silent(); d != "" {
						return failf(key, "input %q fails but %s", f, d)
					}
					if d := c.checkSession(s, z.inputs); d != "" {
						return failf(key, "after inputs %q and the failing %s %q:\n%s", z.inputs, op, f, d)
					}
					c.Outcome(fmt.Sprint(r["problems"]))
				}
				// later results
				var i int
				for k := range h.fails[0] {
					i += int(h.fails[0][k])
				}
				for k := 0; k < 2; k++ {
					p := probes[(i+k*3)%len(probes)]
					if !z.canEval(Text(p)) {
						p = probes[0]
					}
					if d := z.eval(p); d != "" {
						return failf(key, "after inputs %q and the failing %q:\n%s", h.pre, h.fails, d)
					}
				}
				if d := c.checkSession(s, z.inputs); d != "" {
					return failf(key, "after the failing %q and further inputs %q:\n%s", h.fails, z.inputs, d)
				}
				c.Trace()
				return nil
			})
		}
		name := func(p [][]*Node) string {
			var t []string
			for _, g := range p {
				t = append(t, Text(g))
			}
			return strings.Join(t, " // ")
		}
		for _, load := range []bool{false, true} {
			load := load
			c.ExploreN(map[bool]string{false: "failing inputs", true: "failing loads"}[load], srvWorkers, func(yield func(string, any) bool) {
				for pi, p := range pre {
					for fi, f := range fails {
						if !c.Thorough && (pi+fi)%pick(load, 6, 2) != 0 {
							continue
						}
						if !yield(fmt.Sprintf("%s /// %s load=%v", name(p), f, load), hist{p, []string{f}, load}) {
							return
						}
					}
				}
			}, run)
		}
		c.ExploreN("several failing inputs", srvWorkers, func(yield func(string, any) bool) {
			step := pick(c.Thorough, 23, 5)
			for pi, p := range pre {
				for a := pi; a < len(fails); a += step {
					for b := (a * 7) % step; b < len(fails); b += step * 3 {
						if !yield(fmt.Sprintf("%s /// %s /// %s", name(p), fails[a], fails[b]), hist{p, []string{fails[a], fails[b]}, false}) {
							return
						}
					}
				}
			}
		}, run)
	})

	register("P21", "model_checking", func(c *Ctx) {
		hangLimit = 240 * time.Second
		c.Rule("states = distinct session states reached (exported score data without identifiers); transitions = steps of the reference model; every history of inputs, commands and player failures is executed by the real server with player stand-ins, whose received messages are compared with the reference model")
		c.Assume("player processes are stand-ins that accept the same connections, write and remove the same state files, and die on command")
		pool := &srvPool{}
		defer pool.closeAll()
		type ev struct {
			name     string
			nodes    []*Node // an input
			op       string
			from, to string
			code     string // what is loaded, if it is not the text of nodes
		}
		var evs []ev
		for _, i := range []int{0, 1, 2, 3, 4, 5, 7, 9, 10, 11} {
			evs = append(evs, ev{name: Text(good[i]), nodes: good[i]})
		}
		foo := ev{name: "foo", nodes: good[6]}
		cmds := []ev{{name: ":replay", op: "replay"}, {name: ":replay from mm", op: "replay", from: "mm"}, {name: ":replay from 0:01 to 0:02", op: "replay", from: "0:01", to: "0:02"},
			{name: ":new", op: "new-score"}, {name: ":load", op: "load", nodes: []*Node{Pt("", "piano"), N("c4"), V(1), N("d4"), N("e4"), V(2), N("g8"), V(0), Mk("mm"), Pt("", "violin"), Tempo(60, false), N("a4")}},
			{name: ":export", op: "export"}, {name: ":stop", op: "stop"}, {name: "player dies", op: "kill"}}
		step := func(z *sess, e ev) string {
			s := z.s
			settle := func(wantShutdown bool) (*sentMsgs, string) {
				sm, bad := z.sent()
				if bad != "" {
					return nil, bad
				}
				if wantShutdown {
					// a player that has been found, but not used yet, is
					// replaced, too
					if sm.shutdown > 1 || sm.shutdown == 0 && z.on != nil && !z.dead {
						return nil, fmt.Sprintf("%s: %d shutdown messages", e.name, sm.shutdown)
					}
					old := z.on
					z.on, z.dead = nil, false
					for _, p := range sm.on {
						if p == old {
							return nil, e.name + ": the player is not replaced"
						}
						z.on = p
					}
				}
				return sm, ""
			}
			switch e.op {
			case "":
				if !z.canEval(e.name) {
					r, err := z.ask(map[string]any{"op": "eval-and-play", "code": e.name})
					if err != nil {
						return err.Error()
					}
					if !isErr(r) {
						return fmt.Sprintf("%s cannot be evaluated, but the answer is %v", e.name, r)
					}
					return z.silent()
				}
				return z.evalText(e.name, e.nodes)
			case "replay":
				m := map[string]any{"op": "replay"}
				from, to, ok := 0.0, math.Inf(1), true
				off := func(t string) float64 {
					if sec, ok := strings.CutPrefix(t, "0:"); ok {
						f, _ := strconv.ParseFloat(sec, 64)
						return f * 1000
					}
					o, hit := z.ref.markers[t]
					ok = ok && hit
					return o
				}
				if e.from != "" {
					m["from"] = e.from
					from = off(e.from)
				}
				if e.to != "" {
					m["to"] = e.to
					to = off(e.to)
				}
				r, err := z.ask(m)
				if err != nil {
					return err.Error()
				}
				if isErr(r) != !ok {
					return fmt.Sprintf("%s: %v", e.name, r)
				}
				if !ok {
					sm, bad := settle(true)
					if bad == "" && len(sm.scores) != 0 {
						bad = "something is played"
					}
					return bad
				}
				sm, bad := settle(true)
				if bad != "" {
					return bad
				}
				if len(sm.scores) != 1 {
					return fmt.Sprintf("%s: %d transmissions", e.name, len(sm.scores))
				}
				if d := checkTransmission(sm.scores[0], z.whole(from, to, true)); d != "" {
					return e.name + ": " + d + "\nsent:\n" + msgText(sm.scores[0])
				}
			case "new-score":
				r, err := z.ask(map[string]any{"op": "new-score"})
				if err != nil {
					return err.Error()
				}
				if isErr(r) {
					return fmt.Sprint(r)
				}
				z.reset()
				_, bad := settle(true)
				if strings.HasSuffix(e.name, "later") {
					time.Sleep(200 * time.Millisecond)
				}
				return bad
			case "pause":
				time.Sleep(200 * time.Millisecond)
			case "load", "export":
				m := map[string]any{"op": e.op}
				if e.op == "load" {
					m["code"] = e.code
					if e.code == "" {
						m["code"] = Text(e.nodes)
					}
				}
				r, err := z.ask(m)
				if err != nil {
					return err.Error()
				}
				if isErr(r) {
					return fmt.Sprintf("%s: %v", e.name, r)
				}
				if e.op == "load" {
					z.reset()
					if _, err := z.pushText(m["code"].(string), e.nodes); err != nil {
						return "reference: " + err.Error()
					}
				}
				sm, bad := settle(true)
				if bad != "" {
					return bad
				}
				if len(sm.scores) != 1 || len(sm.offsets) != 1 {
					return fmt.Sprintf("%s: %d transmissions, %d offset messages", e.name, len(sm.scores), len(sm.offsets))
				}
				if d := checkTransmission(sm.scores[0], z.whole(0, math.Inf(1), false)); d != "" {
					return e.name + ": " + d + "\nsent:\n" + msgText(sm.scores[0])
				}
				end := 0.0
				for i := range z.ref.parts {
					end = math.Max(end, z.ref.reach(i))
				}
				if !near(sm.offsets[0], end) {
					return fmt.Sprintf("%s: the player is positioned at %d, the score ends at %g", e.name, sm.offsets[0], end)
				}
				if e.op == "export" {
					if sm.exports != 1 {
						return fmt.Sprintf("%d export messages", sm.exports)
					}
					if r["binary-data"] != string(s.exportBytes) {
						return fmt.Sprintf("exported %q", r["binary-data"])
					}
				}
			case "stop":
				r, err := z.ask(map[string]any{"op": "stop"})
				if err != nil {
					return err.Error()
				}
				sm, bad := settle(false)
				if bad != "" {
					return bad
				}
				if isErr(r) || sm.stops != 1 || len(sm.scores) != 0 {
					return fmt.Sprintf("stop: %v, %d stop messages", r, sm.stops)
				}
			case "kill":
				for _, p := range s.live() {
					p.down()
				}
				s.newPlayer()
				if err := s.waitPlayer(); err != nil {
					return err.Error()
				}
				z.sent()
				z.dead = true
			}
			return ""
		}
		var linger time.Duration
		history := func(key string, h []ev) *Fail {
			return pool.with(key, func(s *replSrv) *Fail {
				s.linger = linger
				defer func() { s.linger = 0 }()
				z, err := newSess(c, s)
				if err != nil {
					return failf(key, "%v", err)
				}
				defer z.conn.close()
				if d := z.eval(foo.nodes); d != "" {
					return failf(key, "%s", d)
				}
				for _, e := range h {
					if d := step(z, e); d != "" {
						return failf(key, "history %s: %s", key, d)
					}
				}
				if d := c.checkSession(s, z.inputs); d != "" {
					return failf(key, "history %s: %s", key, d)
				}
				c.Trace()
				return nil
			})
		}
		join := func(h []ev) string {
			var t []string
			for _, e := range h {
				t = append(t, e.name)
			}
			return strings.Join(t, " // ")
		}
		seq := func(name string, alpha []ev, lo, hi int, ok func(h []ev) bool) {
			c.ExploreN(name, srvWorkers, func(yield func(string, any) bool) {
				var rec func(h []ev) bool
				rec = func(h []ev) bool {
					if len(h) >= lo && (ok == nil || ok(h)) {
						hh := append([]ev{}, h...)
						if !yield(join(hh), hh) {
							return false
						}
					}
					if len(h) == hi {
						return true
					}
					for _, e := range alpha {
						if !rec(append(h, e)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			}, func(key string, v any) *Fail { return history(key, v.([]ev)) })
		}
		all := append(append([]ev{}, evs...), cmds...)
		// inputs that add nothing to the score, or only a little of it
		quiet := []ev{{name: "# a comment"}, {name: " "}, {name: ""}, {name: "|", nodes: []*Node{Bar()}}, {name: "\n# one\n\n  # two  \n"},
			{name: "piano:", nodes: []*Node{Pt("", "piano")}}, {name: "piano:   # no notes  ", nodes: []*Node{Pt("", "piano")}}, {name: "(vol 30)", nodes: []*Node{Vol(30, false)}},
			{name: "%nn", nodes: []*Node{Mk("nn")}}, {name: "  e8   # a note\n", nodes: []*Node{N("e8")}}, {name: "r1", nodes: []*Node{R("r1")}}}
		var both []ev
		both = append(both, evs[0], evs[2], evs[3], evs[7])
		isQuiet := map[string]bool{}
		for _, q := range quiet {
			isQuiet[q.name] = true
		}
		both = append(both, quiet...)
		seq("nothing new", both, 1, 3, func(h []ev) bool {
			n := 0
			for _, e := range h {
				if isQuiet[e.name] {
					n++
				}
			}
			return n > 0 && (len(h) < 3 || n < 3 || c.Thorough)
		})
		// parts of long scores
		long := ev{name: ":load long", op: "load", code: "# long\npiano: (tempo! 60) o4 c8 d8 [e8 f8]*4 %mm V1: g2 a2 V2: b4 a4 g4 f4 V0: e1\n%nn\nviolin: (tempo 60) o5 r8 c2 d2 e2 f2 @nn a4\n\n"}
		long.nodes = []*Node{Pt("", "piano"), Tempo(60, true), Oct(4), N("c8"), N("d8"), Rp(Sq(N("e8"), N("f8")), 4), Mk("mm"), V(1), N("g2"), N("a2"), V(2), N("b4"), N("a4"), N("g4"), N("f4"), V(0), N("e1"), Mk("nn"),
			Pt("", "violin"), Tempo(60, false), Oct(5), R("r8"), N("c2"), N("d2"), N("e2"), N("f2"), At("nn"), N("a4")}
		bounds := []string{"", "0:01", "0:02", "0:04", "0:05", "0:09", "mm", "nn", "0:30"}
		for _, pre := range [][]ev{{long}, {evs[0], evs[4], {name: "piano: (tempo 60) c4 d8 e8 f2", nodes: []*Node{Pt("", "piano"), Tempo(60, false), N("c4"), N("d8"), N("e8"), N("f2")}}, {name: "%nn a1", nodes: []*Node{Mk("nn"), N("a1")}}}} {
			var reps []ev
			for _, from := range bounds {
				for _, to := range bounds {
					reps = append(reps, ev{name: ":replay from " + from + " to " + to, op: "replay", from: from, to: to})
				}
			}
			pre := pre
			c.ExploreN("ranges of "+pre[0].name, srvWorkers, func(yield func(string, any) bool) {
				for i, r := range reps {
					// and then one with the ends the other way round
					h := append(append([]ev{}, pre...), r, reps[(i*29+13)%len(reps)], evs[0])
					if !yield(join(h), h) {
						return
					}
				}
			}, func(key string, v any) *Fail { return history(key, v.([]ev)) })
		}
		seq("histories", all, 1, 2, nil)
		seq("histories of three", all, 3, 3, nil)
		if c.Thorough {
			seq("inputs", evs, 4, 4, nil)
			few := append(append([]ev{}, evs[0], evs[2], evs[3], evs[8]), cmds...)
			seq("histories of four", few, 4, 4, nil)
		}
		// players that take a while to shut down, and look available until then
		linger = 700 * time.Millisecond
		longest := 4
		if c.Thorough {
			longest = 5
		}
		seq("players that are slow to shut down", []ev{cmds[0], cmds[3], cmds[4], evs[1], {name: ":new, a moment later", op: "new-score"}}, 1, longest, nil)
		linger = 0
		c.noPlayer(pool, good)
		c.racing(pool, good)
	})
}

// noPlayer: requests while there is no player, and right after one died.
func (c *Ctx) noPlayer(pool *srvPool, good [][]*Node) {
	type hc struct {
		op   string
		how  string
		next int
	}
	c.ExploreN("no player", srvWorkers, func(yield func(string, any) bool) {
		for _, how := range []string{"gone", "just died", "killed"} {
			for _, op := range []string{"eval-and-play", "replay", "load", "export", "new-score", "stop", "failing eval"} {
				for _, next := range []int{1, 2, 5} {
					if how == "gone" && !c.Thorough && next != 1 {
						continue
					}
					if !yield(fmt.Sprintf("%s while the player is %s, then input %d", op, how, next), hc{op, how, next}) {
						return
					}
				}
			}
		}
	}, func(key string, v any) *Fail {
		h := v.(hc)
		return pool.with(key, func(s *replSrv) *Fail {
			z, err := newSess(c, s)
			if err != nil {
				return failf(key, "%v", err)
			}
			defer z.conn.close()
			for _, g := range [][]*Node{good[0], good[3], good[4]} {
				if d := z.eval(g); d != "" {
					return failf(key, "%s", d)
				}
			}
			s.refill.Store(false)
			for _, p := range s.live() {
				if h.how == "killed" { // no chance to remove its state file
					p.writeState("active")
					b, _ := os.ReadFile(p.path())
					p.down()
					os.WriteFile(p.path(), b, 0644)
					defer os.Remove(p.path())
				} else {
					p.down()
				}
			}
			if h.how != "gone" {
				s.refill.Store(true)
				s.newPlayer()
			}
			if h.how == "gone" {
				time.Sleep(400 * time.Millisecond) // the server may or may not have noticed
			}
			before := append([]string{}, z.inputs...)
			m := map[string]any{"op": h.op}
			var nodes []*Node
			switch h.op {
			case "eval-and-play":
				nodes = good[1]
				m["code"] = Text(nodes)
			case "failing eval":
				m["op"], m["code"] = "eval-and-play", "violin: c d (vol 500)"
			case "load":
				nodes = good[8]
				m["code"] = Text(nodes)
			}
			r, err := z.ask(m)
			if err != nil {
				return failf(key, "%s: %v", h.op, err)
			}
			// the session is that of before the request, or the request took
			// effect; a request that reports success must have taken effect
			cands := [][]string{before}
			switch h.op {
			case "eval-and-play":
				cands = append(cands, append(before[:len(before):len(before)], Text(nodes)))
			case "load":
				cands = append(cands, []string{Text(nodes)})
			case "new-score":
				cands = append(cands, nil)
			}
			if !isErr(r) {
				if h.op == "failing eval" {
					return failf(key, "answered %v", r)
				}
				cands = cands[len(cands)-1:]
			} else if h.how == "gone" && h.op == "new-score" {
				cands = append(cands, before)
			}
			why, got := "", -1
			for i, in := range cands {
				if d := c.checkSession(s, in); d == "" {
					got = i
					break
				} else {
					why += d + "\n"
				}
			}
			if got < 0 {
				return failf(key, "the answer is %v, but the session is neither that before the request nor that after it:\n%s", r, why)
			}
			// players are back
			if h.how == "gone" {
				s.refill.Store(true)
				s.newPlayer()
			}
			if err := s.waitPlayer(); err != nil {
				return failf(key, "%v", err)
			}
			z.sent()
			z.on = nil
			z.reset()
			for _, t := range cands[got] {
				for _, g := range good {
					if Text(g) == t {
						if _, err := z.push(g); err != nil {
							return failf(key, "reference: %v", err)
						}
					}
				}
			}
			g := good[h.next]
			if !z.canEval(Text(g)) {
				g = good[0]
			}
			if d := z.eval(g); d != "" {
				return failf(key, "after a player is back: %s", d)
			}
			rr, err := z.ask(map[string]any{"op": "replay"})
			if err != nil || isErr(rr) {
				return failf(key, "replay after a player is back: %v %v", rr, err)
			}
			z.on = nil
			if d := z.played(z.whole(0, math.Inf(1), true)); d != "" {
				return failf(key, "replay after a player is back: %s", d)
			}
			if d := c.checkSession(s, z.inputs); d != "" {
				return failf(key, "after a player is back: %s", d)
			}
			c.Trace()
			return nil
		})
	})
}

// racing: the server's own look at the players, stopped half-way by a state
// file that cannot be read yet, while requests are handled.
func (c *Ctx) racing(pool *srvPool, good [][]*Node) {
	type hc struct {
		ops []string
		at  string // name of the unreadable file: read before or after the players' files
	}
	var held, tried int
	c.ExploreN("player look-up against requests", 12, func(yield func(string, any) bool) {
		ops := []string{"new-score", "replay", "load", "export", "eval", "die"}
		for _, at := range []string{"zz", "a0"} {
			for _, a := range ops {
				if !yield(fmt.Sprintf("%s during a look-up (%s)", a, at), hc{[]string{a}, at}) {
					return
				}
				for _, b := range ops {
					if !yield(fmt.Sprintf("%s, %s during a look-up (%s)", a, b, at), hc{[]string{a, b}, at}) {
						return
					}
				}
			}
		}
	}, func(key string, v any) *Fail {
		h := v.(hc)
		return pool.with(key, func(s *replSrv) *Fail {
			z, err := newSess(c, s)
			if err != nil {
				return failf(key, "%v", err)
			}
			defer z.conn.close()
			if d := z.eval(good[0]); d != "" {
				return failf(key, "%s", d)
			}
			fifo := filepath.Join(s.players, h.at+".json")
			// hold lets the server's look-up run up to the unreadable file
			hold := func() *os.File {
				if err := syscall.Mkfifo(fifo, 0644); err != nil {
					return nil
				}
				defer os.Remove(fifo)
				for i := 0; i < 400; i++ {
					fd, err := syscall.Open(fifo, syscall.O_WRONLY|syscall.O_NONBLOCK, 0)
					if err == nil {
						return os.NewFile(uintptr(fd), "fifo")
					}
					time.Sleep(time.Millisecond)
				}
				return nil
			}
			f := hold()
			c.mu.Lock()
			tried++
			if f != nil {
				held++
			}
			c.mu.Unlock()
			released := false
			release := func() {
				if f != nil && !released {
					released = true
					f.Close()
				}
			}
			defer release()
			for i, op := range h.ops {
				m := map[string]any{}
				switch op {
				case "new-score", "replay", "export":
					m["op"] = op
				case "load":
					m["op"], m["code"] = "load", Text(good[8])
				case "eval":
					m["op"], m["code"] = "eval-and-play", Text(good[1])
				case "die":
					for _, p := range s.live() {
						p.down()
					}
					s.newPlayer()
					continue
				}
				died := i > 0 && h.ops[i-1] == "die"
				// a request that needs a player waits for the look-up to end
				if i == len(h.ops)-1 || op != "new-score" {
					go func() { time.Sleep(60 * time.Millisecond); release() }()
				}
				before := append([]string{}, z.inputs...)
				r, err := z.ask(m)
				if err != nil {
					return failf(key, "%s: %v", op, err)
				}
				if isErr(r) {
					// a player that has died is not known to be dead yet
					if died {
						if d := c.checkSession(s, before); d != "" {
							// or the request took effect
							if op == "eval" {
								d = c.checkSession(s, append(before, Text(good[1])))
							}
							if op == "load" {
								d = c.checkSession(s, []string{Text(good[8])})
							}
							if d != "" {
								return failf(key, "%s", d)
							}
						}
						return nil
					}
					return failf(key, "%s fails although a player is there: %v", op, r["problems"])
				}
				switch op {
				case "new-score":
					z.reset()
				case "load":
					z.reset()
					z.push(good[8])
				case "eval":
					if z.canEval(Text(good[1])) {
						z.push(good[1])
					}
				}
			}
			release()
			time.Sleep(30 * time.Millisecond)
			if h.ops[len(h.ops)-1] == "die" {
				if err := s.waitPlayer(); err != nil {
					return failf(key, "%v", err)
				}
			}
			z.sent()
			z.on = nil
			// now every request must reach a player that is alive
			if d := z.eval(good[2]); d != "" {
				return failf(key, "after the look-up: %s", d)
			}
			if d := c.checkSession(s, z.inputs); d != "" {
				return failf(key, "after the look-up: %s", d)
			}
			c.Trace()
			return nil
		})
	})
	c.Set("lookups_interrupted", fmt.Sprintf("%d of %d", held, tried))
}

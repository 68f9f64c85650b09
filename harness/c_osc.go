package main

// P15, P16, P17: what is sent to a player.

import (
	"fmt"
	"io"
	"math"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"alda.io/client/model"
	"alda.io/client/transmitter"
)

func scoreNotes(s *model.Score) []model.NoteEvent {
	var out []model.NoteEvent
	for _, e := range s.Events {
		if n, ok := e.(model.NoteEvent); ok {
			out = append(out, n)
		}
	}
	return out
}

func fullExp(s *model.Score) playExp {
	return playExp{notes: scoreNotes(s), tracks: s.Tracks(), shift: func(model.NoteEvent) float64 { return 0 }, tempo: s.TempoItinerary(), end: math.Inf(1), play: true}
}

// checkSend evaluates text, transmits it with the given options and compares.
func (c *Ctx) checkBundle(key, text string, s *model.Score, e playExp, opts ...transmitter.TransmissionOption) *Fail {
	b, err := transmitter.OSCTransmitter{}.ScoreToOSCBundle(s, opts...)
	if err != nil {
		return failf(key, "score: %s\ntransmission fails: %v", text, err)
	}
	if d := checkTransmission(bundleMsgs(b), e); d != "" {
		var sb strings.Builder
		for i, m := range bundleMsgs(b) {
			if i < 60 {
				fmt.Fprintln(&sb, " ", m)
			}
		}
		return failf(key, "score: %s\n%s\nsent:\n%s", text, d, sb.String())
	}
	return nil
}

// oscPlayer is a player stand-in: it records every packet it receives.
type oscPlayer struct {
	l    net.Listener
	port int
	mu   sync.Mutex
	pk   [][]byte
	got  chan struct{}
}

func newOSCPlayer() (*oscPlayer, error) {
	l, err := listen()
	if err != nil {
		return nil, err
	}
	p := &oscPlayer{l: l, port: l.Addr().(*net.TCPAddr).Port, got: make(chan struct{}, 1024)}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b, _ := io.ReadAll(conn)
				conn.Close()
				if len(b) > 0 {
					p.mu.Lock()
					p.pk = append(p.pk, b)
					p.mu.Unlock()
					p.got <- struct{}{}
				}
			}()
		}
	}()
	return p, nil
}

// take waits for n packets, lets late ones arrive, and returns all of them.
func (p *oscPlayer) take(n int) [][]byte {
	deadline := time.After(10 * time.Second)
	for i := 0; i < n; i++ {
		select {
		case <-p.got:
		case <-deadline:
			i = n
		}
	}
	time.Sleep(2 * time.Millisecond)
	p.mu.Lock()
	defer p.mu.Unlock()
	out := p.pk
	p.pk = nil
	for len(p.got) > 0 {
		<-p.got
	}
	return out
}

func init() {
	register("P15", "model_checking", func(c *Ctx) {
		c.Rule("states = distinct canonical states of the reference score model on the transmitted scores; transitions = its steps; every program is evaluated and transmitted by the client and its messages are interpreted by a model of the player's channel state (patch, volume, panning per channel, tempo as a function of time)")
		opts := []struct {
			name string
			o    []transmitter.TransmissionOption
			play bool
			one  bool
		}{
			{"play", nil, true, false},
			{"one-off", []transmitter.TransmissionOption{transmitter.OneOff()}, true, true},
			{"load only", []transmitter.TransmissionOption{transmitter.LoadOnly()}, false, false},
		}
		runText := func(key, text string) *Fail {
			for i, o := range opts {
				s, err := realScore(text)
				if err != nil {
					if i == 0 {
						c.Outcome("rejected")
					}
					return nil
				}
				e := fullExp(s)
				e.play, e.oneOff = o.play, o.one
				if i == 0 && len(e.notes) > 1 {
					c.Nontrivial()
				}
				if f := c.checkBundle(key, text+" ("+o.name+")", s, e, o.o...); f != nil {
					return f
				}
				// sending a score does not change it: it can be sent again
				if f := c.checkBundle(key, text+" ("+o.name+", again)", s, e, o.o...); f != nil {
					return f
				}
			}
			return nil
		}
		seq := func(name string, head, alpha []*Node, lo, hi int) {
			c.Explore(name, func(yield func(string, any) bool) {
				seqs(alpha, lo, hi, func(p []*Node) bool {
					q := append(append([]*Node{}, head...), p...)
					return yield(Text(q), q)
				})
			}, func(key string, v any) *Fail {
				// which channels may be shared is decided by P11's check
				if name != "shared channel" {
					if f := c.compareProgram(key, v.([]*Node)); f != nil {
						return f
					}
				}
				return runText(key, key)
			})
		}
		seq("one part", []*Node{Pt("", "piano")}, []*Node{N("c8"), N("d8~"), R("r8"), Ch(N("c4"), TrackVol(20, false), N("e8")), TrackVol(30, false), TrackVol(80, false), Pan(10, false), Vol(20, false), Tempo(60, false), Tempo(200, true), At("mm"), Mk("mm"), V(1), V(2)}, 1, pick(c.Thorough, 4, 5))
		seq("several parts", nil, []*Node{Pt("", "piano"), Pt("", "violin"), Pt("", "midi-percussion"), Pt("vv", "violin"), Pt("", "piano", "violin"), N("c8"), N("d4"), TrackVol(30, false), Pan(90, true), Tempo(60, false), Tempo(90, true)}, 1, pick(c.Thorough, 5, 6))
		c.progsPhase("sizes of scores", c.sizePrograms(1), func(key string, v any) *Fail { return runText(key, Text(v.([]*Node))) })
		// two parts on one channel, chosen explicitly
		seq("shared channel", []*Node{Pt("", "piano"), Attr("(midi-channel 3)", false, AttrOp{Type: "nop"}), N("c4"), R("r4"), N("e4"), Pt("", "violin"), Attr("(midi-channel 3)", false, AttrOp{Type: "nop"})}, []*Node{N("g4"), R("r4"), TrackVol(30, false), Pan(10, false), Pt("", "piano"), Pt("", "violin"), N("a8")}, 1, pick(c.Thorough, 5, 6))
		// more parts than channels: who shares a channel with whom, and when
		names := []string{"piano", "violin", "cello", "flute", "oboe", "clarinet", "tuba", "trumpet", "viola", "harp", "bassoon", "piccolo", "ocarina", "banjo", "koto", "shamisen", "kalimba", "fiddle", "bagpipes", "xylophone", "marimba", "celesta", "sitar"}
		c.Explore("more parts than channels", func(yield func(string, any) bool) {
			pats := []string{"c8 r8 r8", "r8 c8 r8", "r8 r8 c8", "(track-vol 30) r8 c8 r8", "(panning 80) r8 r8 c8 ", "c8 r8 c8"}
			var rec func(t string, n int) bool
			rec = func(t string, n int) bool {
				if !yield(t, t) {
					return false
				}
				if n == 0 {
					return true
				}
				for _, p := range pats {
					if !rec(t+names[23-n]+": "+p+"\n", n-1) {
						return false
					}
				}
				return true
			}
			for _, base := range []string{"c8 r8 r8", "c8 r8 (track-vol 70) c8"} {
				t := ""
				for _, n := range names[:23-pick(c.Thorough, 4, 5)] {
					t += n + ": " + base + "\n"
				}
				if !rec(t, pick(c.Thorough, 4, 5)) {
					return
				}
			}
		}, func(key string, v any) *Fail { c.Trans(1); c.Trace(); return runText(key, v.(string)) })
		// numbers: every level and its rounding
		c.Explore("levels", func(yield func(string, any) bool) {
			for v := 0; v <= 200; v++ {
				for _, a := range []string{"vol", "track-vol", "panning"} {
					t := fmt.Sprintf("piano: c8 (%s %s) c8", a, num(float64(v)/2))
					if !yield(t, t) {
						return
					}
				}
			}
			for v := 1; v <= 200; v++ {
				t := fmt.Sprintf("piano: c%sms d%sms~ r%sms (quant %d) e%sms f", num(float64(v)/10), num(float64(v)/7), num(float64(v)/4), v, num(float64(v)*33.3))
				if !yield(t, t) {
					return
				}
			}
			for v := 1; v <= 300; v++ {
				t := fmt.Sprintf("piano: (tempo %s) c (tempo %d) c8. c", num(float64(v)/3), v)
				if !yield(t, t) {
					return
				}
			}
		}, func(key string, v any) *Fail { c.Trans(1); c.Trace(); return runText(key, v.(string)) })
		// consecutive levels that differ little; the last note to start is not the last to end
		c.Explore("near levels and long notes", func(yield func(string, any) bool) {
			for v := 0; v <= 400; v++ {
				for d := -3; d <= 3; d++ {
					x, y := float64(v)/4, float64(v)/4+float64(d)/10
					if y < 0 || y > 100 || d == 0 {
						continue
					}
					for _, a := range []string{"vol", "track-vol", "panning"} {
						t := fmt.Sprintf("piano: (%s %s) c8 (%s %s) c8 (%s %s) c", a, num(x), a, num(y), a, num(x))
						if !yield(t, t) {
							return
						}
					}
				}
			}
			for n := 1; n <= 60; n++ {
				for _, f := range []string{"piano: c%ds violin: c8", "piano: c8/e%ds d8", "piano: V1: c%ds V2: e8 f8", "piano: c8 (quant 4000) d%ds (quant 90) e8 e", "piano: %%mm c%ds @mm r1 e8"} {
					t := fmt.Sprintf(f, n)
					if !yield(t, t) {
						return
					}
				}
			}
		}, func(key string, v any) *Fail { c.Trans(1); c.Trace(); return runText(key, v.(string)) })
		// many notes at the same and at different times
		c.Explore("sizes", func(yield func(string, any) bool) {
			for k := 1; k <= 6; k++ {
				for n := 1; n <= pick(c.Thorough, 40, 120); n++ {
					t := ""
					for i := 0; i < k; i++ {
						t += fmt.Sprintf("%s: (track-vol %d) [c16 (panning %d) d/e]*%d\n", names[i], 10*i, 9*i, n)
					}
					if !yield(fmt.Sprintf("%d parts %d times", k, n), t) {
						return
					}
				}
			}
		}, func(key string, v any) *Fail { c.Trans(1); c.Trace(); return runText(key, v.(string)) })
		// requests, over a real connection
		pl, err := newOSCPlayer()
		if err != nil {
			c.report(failf("player stand-in", "%v", err))
			return
		}
		defer pl.l.Close()
		tr := transmitter.OSCTransmitter{Port: pl.port}
		type req struct {
			send func() error
			want []omsg
		}
		c.ExploreN("requests over a connection", 1, func(yield func(string, any) bool) {
			y := func(k string, send func() error, want ...omsg) bool { return yield(k, req{send, want}) }
			y("ping", tr.TransmitPingMessage, omsg{addr: "/ping"})
			y("play", tr.TransmitPlayMessage, omsg{addr: "/system/play"})
			y("stop", tr.TransmitStopMessage, omsg{addr: "/system/stop"})
			for _, o := range []int32{0, 1, -1, 255, 256, 10000, math.MaxInt32, math.MinInt32} {
				o := o
				y(fmt.Sprint("shutdown ", o), func() error { return tr.TransmitShutdownMessage(o) }, omsg{"/system/shutdown", []any{o}})
				y(fmt.Sprint("offset ", o), func() error { return tr.TransmitOffsetMessage(o) }, omsg{"/system/offset", []any{o}})
			}
			for _, f := range []string{"a.mid", "/tmp/a b.mid", "é.mid", "abc", "abcd", "abcde", "", "x,y.mid", "#bundle", strings.Repeat("d/", 200) + "a.mid"} {
				f := f
				y(fmt.Sprint("export ", f), func() error { return tr.TransmitMidiExportMessage(f) }, omsg{"/system/midi/export", []any{f}})
			}
			for _, n := range []int{0, 1, 2, 3, 10, 100, 1000, 5000} {
				n := n
				yield(fmt.Sprint("score of ", n), n)
			}
		}, func(key string, v any) *Fail {
			c.Trans(1)
			c.Trace()
			if n, ok := v.(int); ok {
				text := fmt.Sprintf("piano: [c64 (panning 20) d (panning 60)]*%d", n)
				s, err := realScore(text)
				if err != nil {
					return failf(key, "%v", err)
				}
				e := fullExp(s)
				if err := tr.TransmitScore(s); err != nil {
					return failf(key, "%v", err)
				}
				pk := pl.take(1)
				if len(pk) != 1 {
					return failf(key, "%d packets received", len(pk))
				}
				ms, err := decodeOSC(pk[0])
				if err != nil {
					return failf(key, "received packet: %v", err)
				}
				if d := checkTransmission(ms, e); d != "" {
					return failf(key, "received: %s", d)
				}
				return nil
			}
			r := v.(req)
			if err := r.send(); err != nil {
				return failf(key, "%v", err)
			}
			pk := pl.take(1)
			if len(pk) != 1 {
				return failf(key, "%d packets received", len(pk))
			}
			ms, err := decodeOSC(pk[0])
			if err != nil {
				return failf(key, "received packet: %v", err)
			}
			if fmt.Sprint(ms) != fmt.Sprint(r.want) {
				return failf(key, "received %v, expected %v", ms, r.want)
			}
			return nil
		})
	})

	register("P16", "model_checking", func(c *Ctx) {
		c.Rule("states = distinct (score, span) pairs; every span of every score between two points of the domain is transmitted by the client and its messages are interpreted by a model of the player's channel state; the notes are those of the reference score model")
		refs := []string{"", "0:00", "0:01", "0:02", "0:3", "00:04", "1:00", "mm", "nn", "zz", "0:99", "0:100", "001:005", "1", "0:0:1", "-0:01", "0:1s", "mm ", ":", "0:", ":1", "1:-1", "c", "99999999999999999999:00", "9999999999999:9", "0:99999999999999999999", "0.5"}
		bad := map[string]bool{"zz": true, "1": true, "0:0:1": true, "-0:01": true, "0:1s": true, "mm ": true, ":": true, "0:": true, ":1": true, "1:-1": true, "c": true, "0.5": true}
		secs := map[string]float64{"0:00": 0, "0:01": 1000, "0:02": 2000, "0:3": 3000, "00:04": 4000, "1:00": 60000, "0:99": 99000, "0:100": 100000, "001:005": 65000, "0:07": 7000, "0:11": 11000}
		huge := map[string]bool{"99999999999999999999:00": true, "9999999999999:9": true, "0:99999999999999999999": true}
		var few []string
		for _, r := range refs {
			if !bad[r] && !huge[r] {
				few = append(few, r)
			}
		}
		type span struct {
			prog     []*Node
			froms    []string
			tos      []string
			loadOnly bool
		}
		run := func(key string, v any) *Fail {
			sp := v.(span)
			if f := c.compareProgram(key, sp.prog); f != nil {
				return f
			}
			text := Text(sp.prog)
			s, err := realScore(text)
			if err != nil {
				return nil
			}
			snapshot := scoreNotes(s)
			point := func(r string, def float64) (float64, bool, bool) {
				if r == "" {
					return def, true, true
				}
				if o, ok := s.Markers[r]; ok {
					return o, true, true
				}
				if o, ok := secs[r]; ok {
					return o, true, true
				}
				return math.Inf(1), !bad[r] && huge[r], !huge[r]
			}
			for _, from := range sp.froms {
				for _, to := range sp.tos {
					a, okA, sureA := point(from, 0)
					b, okB, sureB := point(to, math.Inf(1))
					opts := []transmitter.TransmissionOption{transmitter.TransmitFrom(from), transmitter.TransmitTo(to)}
					if sp.loadOnly {
						opts = append(opts, transmitter.LoadOnly())
					}
					bd, err := transmitter.OSCTransmitter{}.ScoreToOSCBundle(s, opts...)
					desc := fmt.Sprintf("%s\nfrom %q to %q", text, from, to)
					c.State(desc)
					if !okA || !okB {
						if err == nil {
							return failf(key, "%s: accepted", desc)
						}
						continue
					}
					if err != nil {
						if !sureA || !sureB {
							continue // a time beyond every score: an error, or nothing to play
						}
						return failf(key, "%s: %v", desc, err)
					}
					e := fullExp(s)
					e.notes = nil
					for _, n := range snapshot {
						if n.Offset >= a-sameTime && n.Offset < b-sameTime {
							e.notes = append(e.notes, n)
						}
					}
					if len(e.notes) > 0 && len(e.notes) < len(snapshot) {
						c.Nontrivial()
					}
					e.shift = func(model.NoteEvent) float64 { return a }
					e.start, e.end = a, b
					e.play = !sp.loadOnly
					if math.IsInf(a, 1) {
						e.tempo = nil
					}
					if d := checkTransmission(bundleMsgs(bd), e); d != "" {
						return failf(key, "%s: %s\nsent: %v", desc, d, bundleMsgs(bd))
					}
				}
			}
			return nil
		}
		phase := func(name string, head, alpha []*Node, lo, hi int, froms, tos []string) {
			c.Explore(name, func(yield func(string, any) bool) {
				seqs(alpha, lo, hi, func(p []*Node) bool {
					q := append(append([]*Node{}, head...), p...)
					t := Text(q)
					return yield(t, span{q, froms, tos, len(p)%2 == 1})
				})
			}, run)
		}
		// one second is two beats
		phase("every pair of points", []*Node{Pt("", "piano"), Tempo(60, false)}, []*Node{N("c4"), N("d2"), R("r8"), Ch(N("c4"), N("e2")), Mk("mm"), Mk("nn")}, 1, pick(c.Thorough, 3, 4), refs, refs)
		phase("settings", []*Node{Pt("", "piano")}, []*Node{N("c2"), N("d1"), TrackVol(30, false), Pan(20, false), Tempo(60, false), Tempo(240, true), Mk("mm"), Pt("", "violin")}, 1, pick(c.Thorough, 5, 6), []string{"", "0:01", "0:02", "mm"}, []string{"", "0:02", "0:3", "mm"})
		// events close together, written in another order than they sound
		phase("close together", []*Node{Pt("", "piano"), N("c40ms")}, []*Node{N("d30ms"), N("e7ms"), R("r50ms"), Mk("mm"), Mk("nn"), At("mm"), Pt("", "violin"), Pt("", "piano")}, 1, pick(c.Thorough, 5, 6), []string{"", "mm", "nn"}, []string{"", "mm", "nn"})
		// a point that two parts get to in different ways
		var meet [][]*Node
		for _, a := range meetings() {
			for _, b := range meetings() {
				k := append(append([]*Node{Pt("", "piano")}, a...), Mk("mm"), N("d"), Pt("", "violin"))
				meet = append(meet, append(append(k, b...), N("d"), N("e")))
			}
		}
		c.Explore("meeting parts", func(yield func(string, any) bool) {
			for i, p := range meet {
				if !yield("meeting parts: "+Text(p), span{p, []string{"", "0:02", "mm"}, []string{"", "0:02", "mm"}, i%2 == 1}) {
					return
				}
			}
		}, run)
		progs := c.sizePrograms(3)
		c.Explore("sizes", func(yield func(string, any) bool) {
			for i, p := range progs {
				if !yield("sizes: "+Text(p), span{p, []string{"", "0:01", "0:02", "0:07"}, []string{"", "0:02", "0:3", "0:11"}, i%2 == 1}) {
					return
				}
			}
		}, run)
		phase("voices and jumps", []*Node{Pt("", "piano"), N("c2"), Mk("mm")}, []*Node{N("d2"), N("e1"), V(1), V(2), V(0), At("mm"), Mk("nn"), Pt("", "violin")}, 1, pick(c.Thorough, 4, 5), few, few)
	})

	register("P17", "model_checking", func(c *Ctx) {
		c.Rule("states = distinct canonical states of the reference score model; transitions = its steps; after every program the client's tempo map is compared with the reference's, as a map from times to tempos")
		run := func(key string, v any) *Fail {
			prog := v.([]*Node)
			if f := c.compareProgram(key, prog); f != nil {
				return f
			}
			r := NewRef()
			if r.Run(prog) != nil {
				return nil
			}
			s, err := realScore(Text(prog))
			if err != nil {
				return failf(key, "%v", err)
			}
			want, got := r.TempoMap(), s.TempoItinerary()
			c.Outcome(fmt.Sprint(want))
			if d := diffTempo(want, got); d != "" {
				return failf(key, "program: %s\n%s\nexpected %v\ngot      %v", Text(prog), d, want, got)
			}
			return nil
		}
		phase := func(name string, head, alpha []*Node, lo, hi int) {
			c.Explore(name, func(yield func(string, any) bool) {
				seqs(alpha, lo, hi, func(p []*Node) bool {
					q := append(append([]*Node{}, head...), p...)
					return yield(Text(q), q)
				})
			}, run)
		}
		phase("local and global changes", nil, []*Node{Pt("", "piano"), Pt("", "violin"), Pt("", "piano", "violin"), N("c2"), Tempo(60, false), Tempo(90, true), MetMod(2, 3, false), MetMod(4, 3, true), N("d1")}, 1, pick(c.Thorough, 5, 6))
		phase("voices", []*Node{Pt("", "piano"), N("c")}, []*Node{V(1), V(2), V(0), N("c2"), Tempo(60, false), Tempo(90, false), Tempo(200, true), Pt("", "violin"), Pt("", "piano")}, 1, pick(c.Thorough, 5, 6))
		phase("markers", []*Node{Pt("", "piano"), N("c2"), Mk("mm"), N("c1"), Mk("nn")}, []*Node{At("mm"), At("nn"), N("c4"), Tempo(60, false), Tempo(90, true), MetMod(4, 3, true), Pt("", "violin"), Pt("", "piano")}, 1, pick(c.Thorough, 4, 5))
		c.progsPhase("sizes", c.sizePrograms(1), run)
		phase("constructs", []*Node{Pt("", "violin"), Pt("", "piano"), Pt("", "violin")}, []*Node{Cr("1", Tempo(240, false), N("c"), N("d")), Cr("", N("c"), Tempo(30, false), Cr("2", N("c"), Tempo(77, true), N("e")), N("d")), Rp(Sq(N("c"), Tempo(60, false), N("d8"), MetMod(2, 3, false)), 3), Ch(N("c"), Tempo(66, false), N("e2")), N("c2"), VD("vv", Tempo(44, false), N("c1"), Tempo(55, true)), VR("vv"), Sq(Tempo(99, false), N("c8")), Pt("aa", "piano"), Tempo(60, false)}, 1, pick(c.Thorough, 4, 5))
	})
}

func diffTempo(want, got map[float64]float64) string {
	type e struct{ o, t float64 }
	list := func(m map[float64]float64) []e {
		var l []e
		for o, t := range m {
			l = append(l, e{o, t})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].o < l[j].o })
		return l
	}
	w, g := list(want), list(got)
	if len(w) != len(g) {
		return fmt.Sprintf("the tempo map has %d entries, expected %d", len(g), len(w))
	}
	for i := range w {
		if !close6(w[i].o, g[i].o) || !close6(w[i].t, g[i].t) {
			return fmt.Sprintf("the tempo map has %v at %v, expected %v at %v", g[i].t, g[i].o, w[i].t, w[i].o)
		}
	}
	return ""
}

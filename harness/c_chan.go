package main

// P11: MIDI channels.

import (
	"fmt"

	"alda.io/client/model"
	"alda.io/client/parser"
)

const percName = "midi-percussion"

func init() {
	register("P11", "model_checking", func(c *Ctx) {
		c.Rule("states = distinct canonical states of the reference score model; at the end of each program; transitions = its steps; on every program the client's notes equal the reference's and their channels satisfy the invariant after every note (overlap, percussion, explicit choice), and a rejection is justified by the notes already placed")
		run := func(key string, v any) *Fail {
			prog := v.([]*Node)
			text := Text(prog)
			r := NewRef()
			rerr := r.Run(prog)
			c.State(r.Canon())
			c.Trans(r.Steps)
			c.Trace()
			root, err := parser.ParseString(text)
			if err != nil {
				return failf(key, "program: %s\nrejected by the parser: %v", text, err)
			}
			ups, err := root.Updates()
			if err != nil {
				return failf(key, "program: %s\nrejected: %v", text, err)
			}
			s := model.NewScore()
			err = s.Update(ups...)
			got := realNotes(s)
			want := r.notes
			if err == nil && rerr != nil {
				return failf(key, "program: %s\nreference: error=%v\nclient:    accepted", text, rerr)
			}
			if err != nil && rerr != nil && len(got) == len(want) {
				// both reject, at the same point
				c.Outcome("rejected by both")
				return nil
			}
			if len(got) > len(want) || (err == nil && len(got) < len(want)) {
				return failf(key, "program: %s\n%s", text, diffNotes(want, got))
			}
			for i, g := range got {
				w := want[i]
				if !sameNote(w, g) {
					return failf(key, "program: %s\nnote %d: expected %v, got %v", text, i, w, g)
				}
				perc := r.parts[g.Part].stock == percName
				if g.Ch < 0 || g.Ch > 15 || perc != (g.Ch == 9) {
					return failf(key, "program: %s\nnote %d (%v) is on channel %d", text, i, g, g.Ch)
				}
				if !perc && w.Ch != -1 && g.Ch != w.Ch {
					return failf(key, "program: %s\nnote %d (%v) is on channel %d although its part chose %d", text, i, g, g.Ch, w.Ch)
				}
				if !perc {
					for k := 0; k < i; k++ {
						h := got[k]
						if h.Part != g.Part && h.Ch == g.Ch && overlap(g, h) {
							return failf(key, "program: %s\nnotes %v and %v are both on channel %d", text, h, g, g.Ch)
						}
					}
				}
			}
			if err != nil {
				if len(got) >= len(want) {
					return failf(key, "program: %s\nreference: error=%v\nclient:    error=%v", text, rerr, err)
				}
				n := want[len(got)]
				taken := map[int]bool{}
				for _, h := range got {
					if h.Part != n.Part && overlap(h, n) {
						taken[h.Ch] = true
					}
				}
				delete(taken, 9)
				perc := r.parts[n.Part].stock == percName
				switch {
				case perc:
					return failf(key, "program: %s\nthe percussion note %v is rejected: %v", text, n, err)
				case n.Ch >= 0 && !taken[n.Ch]:
					return failf(key, "program: %s\nthe note %v is rejected although its channel %d is free then: %v", text, n, n.Ch, err)
				case n.Ch < 0 && len(taken) < 15:
					return failf(key, "program: %s\nthe note %v is rejected although only the channels %v are in use then: %v", text, n, taken, err)
				}
				c.Outcome("no channel")
				return nil
			}
			shared := map[int]map[int]bool{}
			for _, g := range got {
				if shared[g.Ch] == nil {
					shared[g.Ch] = map[int]bool{}
				}
				shared[g.Ch][g.Part] = true
				if g.Ch != 9 && len(shared[g.Ch]) > 1 {
					c.Nontrivial()
				}
			}
			out := ""
			for _, g := range got {
				out += fmt.Sprint(g.Ch, " ")
			}
			c.Outcome(out)
			return nil
		}
		phase := func(name string, head, alpha []*Node, lo, hi int) {
			c.Explore(name, func(yield func(string, any) bool) {
				seqs(alpha, lo, hi, func(p []*Node) bool {
					q := append(append([]*Node{}, head...), p...)
					return yield(name+": "+Text(p), q)
				})
			}, run)
		}
		c.progsPhase("sizes", c.sizePrograms(1), run)
		chn := func(n int) *Node {
			return Attr(fmt.Sprintf("(midi-channel %d)", n), false, AttrOp{Type: "channel", Val: float64(n)})
		}
		chg := func(n int) *Node {
			return Attr(fmt.Sprintf("(midi-channel! %d)", n), true, AttrOp{Type: "channel", Val: float64(n)})
		}
		// few parts: everything automatic or explicit
		phase("few parts", nil, []*Node{Pt("", "piano"), Pt("", "violin"), Pt("", percName), Pt("", "piano", "violin"), N("c8"), N("d4~"), R("r4"), chn(0), chn(1), chn(9)}, 1, pick(c.Thorough, 5, 6))
		phase("explicit", []*Node{Pt("", "piano"), N("c4"), Pt("", "violin")}, []*Node{N("c4"), R("r4"), chn(0), chn(1), chg(0), chg(2), Pt("", "piano"), Pt("", "violin"), V(1), V(2)}, 1, pick(c.Thorough, 5, 6))
		fill := []string{"guitar", "viola", "cello", "flute", "oboe", "clarinet", "tuba", "trumpet", "harp", "bassoon", "piccolo", "ocarina", "banjo", "koto", "shamisen", "kalimba", "fiddle"}
		filler := func(n int, evs ...*Node) []*Node {
			var out []*Node
			for _, f := range fill[:n] {
				out = append(out, Pt("", f))
				out = append(out, evs...)
			}
			return out
		}
		long := []*Node{N("c1~")} // holds its channel for 2 s
		alpha := []*Node{Pt("", "piano"), Pt("", "violin"), Pt("", "sitar"), N("c4"), N("d2"), R("r4"), N("c4~")}
		phase("two free channels", filler(13, long...), alpha, 1, pick(c.Thorough, 5, 7))
		phase("one free channel", filler(14, long...), alpha, 1, pick(c.Thorough, 5, 6))
		phase("no free channel", filler(15, long...), alpha, 1, pick(c.Thorough, 5, 6))
		phase("channels freed at different times", append(append(filler(12, long...), Pt("", "banjo"), N("c4"), Pt("", "koto"), R("r4"), N("c4"), Pt("", "shamisen"), R("r2"), N("c4")), Pt("", "piano")),
			[]*Node{N("c4"), N("d2~"), R("r4"), R("r8"), Pt("", "piano"), Pt("", "violin"), Pt("", percName), chn(14), Quant(200, false)}, 1, pick(c.Thorough, 5, 6))
		phase("jumps and voices", append(append([]*Node{Pt("", "fiddle"), Mk("mm"), N("c4"), Mk("nn")}, filler(13, long...)...), Pt("", "piano")),
			[]*Node{N("c4"), N("d2~"), At("mm"), At("nn"), V(1), V(2), Pt("", "violin"), Pt("", "piano"), Ch(N("c4"), N("e4"))}, 1, pick(c.Thorough, 5, 6))
		same := func(n int, evs ...*Node) []*Node {
			var out []*Node
			for i := 0; i < n; i++ {
				out = append(append(out, Pt(fmt.Sprintf("pp%c", 'a'+i), "piano")), evs...)
			}
			return out
		}
		insts := append(append([]*Node{Pt("aa", "piano"), Pt("bb", "piano"), Pt("cc", "violin")}, filler(13, long...)...), Pt("", "aa"))
		phase("instances of one instrument", insts,
			[]*Node{N("c4"), N("d2"), R("r4"), Pt("", "aa"), Pt("", "bb"), Pt("", "cc"), Pt("", "aa", "bb"), Ch(N("c4"), N("e4"))}, 1, pick(c.Thorough, 5, 6))
		phase("only instances of one instrument", append(same(16, long...), R("r4")),
			[]*Node{N("c1"), N("d4"), R("r2."), Pt("", "ppa"), Pt("", "ppb"), Pt("", "ppa", "ppp"), Pt("zz", "piano"), V(1)}, 1, pick(c.Thorough, 4, 5))
		phase("sharing already", append(append(filler(15, N("c4")), Pt("", "piano"), R("r4"), N("d4"), Pt("", "violin"), R("r2"), N("d4")), Pt("", "sitar")),
			[]*Node{N("c4"), N("d2"), R("r4"), Pt("", "piano"), Pt("", "guitar"), Pt("", "cello"), Pt("", "sitar"), chn(1)}, 1, pick(c.Thorough, 5, 6))
	})
}

// overlap: both notes sound at some moment.
func overlap(a, b RNote) bool {
	return a.Off < b.Off+b.Aud-1e-6 && b.Off < a.Off+a.Aud-1e-6
}

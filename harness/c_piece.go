package main

import (
	"fmt"
	"strings"

	"alda.io/client/model"
)

// evalPieces evaluates successive inputs on one score, as a session does.
func evalPieces(pieces []string) (*model.Score, error) {
	s := model.NewScore()
	for i, p := range pieces {
		ups, err := parseUpdates(p)
		if err != nil {
			return s, fmt.Errorf("input %d: %v", i, err)
		}
		if err := s.Update(ups...); err != nil {
			return s, fmt.Errorf("input %d: %v", i, err)
		}
	}
	return s, nil
}

func init() {
	register("P18", "model_checking", func(c *Ctx) {
		c.Rule("one evaluation = one program with one way of cutting it into successive inputs, each input parsed separately and applied to the same score by the real client, and compared with the reference model of the uncut program; traces = cut programs")
		type cas struct {
			prog []*Node
			cuts int
		}
		run := func(key string, v any) *Fail {
			x := v.(cas)
			cuts, h := x.cuts>>8, x.cuts&255
			var pieces []string
			var cur []*Node
			for i, n := range x.prog {
				// cut points: before element h, h+1, ... (bit 0 = after the head)
				if i >= h && len(cur) > 0 && i-h < 30 && cuts&(1<<(i-h)) != 0 {
					pieces = append(pieces, Text(cur))
					cur = nil
				}
				cur = append(cur, n)
			}
			pieces = append(pieces, Text(cur))
			r := NewRef()
			r.vis = c.State
			rerr := r.Run(x.prog)
			c.Trans(len(pieces))
			c.Trace()
			s, err := evalPieces(pieces)
			if (rerr != nil) != (err != nil) {
				return failf(key, "inputs: %s\nreference: error=%v\nclient:    error=%v", strings.Join(pieces, "  ||  "), rerr, err)
			}
			if rerr != nil {
				return nil
			}
			c.Nontrivial()
			got := realNotes(s)
			c.Outcome(fmt.Sprint(got))
			if d := diffNotes(r.notes, got); d != "" {
				return failf(key, "inputs: %s\n%s", strings.Join(pieces, "  ||  "), d)
			}
			if f := c.compareState(key, strings.Join(pieces, "  ||  "), r, s); f != nil {
				return f
			}
			whole, err := musicText(Text(x.prog))
			if err != nil {
				return failf(key, "uncut: %v", err)
			}
			if m := musicOf(s); m != whole {
				return failf(key, "inputs: %s\nthe session has\n%s\nthe whole text has\n%s", strings.Join(pieces, "  ||  "), m, whole)
			}
			return nil
		}
		phase := func(name string, head, alpha, tail []*Node, lo, hi int) {
			c.Explore(name, func(yield func(string, any) bool) {
				seqs(alpha, lo, hi, func(p []*Node) bool {
					prog := pre(head, p, tail)
					for cuts := 1; cuts < 1<<(len(p)+1); cuts++ {
						if !yield(fmt.Sprintf("%s: %s cut %b", name, Text(prog), cuts), cas{prog, cuts<<8 | len(head)}) {
							return false
						}
					}
					return true
				})
			}, run)
		}
		// long programs, cut everywhere, or in one place
		progs := c.sizePrograms(2)
		c.Explore("sizes", func(yield func(string, any) bool) {
			for i, p := range progs {
				n := len(p)
				if n > 29 {
					n = 29
				}
				for _, cuts := range []int{1<<(n+1) - 1, 1 << (n / 2), 0x15555555 & (1<<(n+1) - 1), 1 << (1 + i%(n+1)) & (1<<(n+1) - 1)} {
					if !yield(fmt.Sprintf("sizes: %s cut %b", Text(p), cuts), cas{p, cuts << 8}) {
						return
					}
				}
			}
		}, run)
		phase("core", piano, []*Node{N("c"), N("d8"), Up(), Tempo(60, false), Tempo(90, true), Mk("mm"), At("mm"), Pt("", "violin"), Pt("", "piano")}, probe, 1, pick(c.Thorough, 4, 5))
		phase("voices", piano, []*Node{N("c"), N("d2"), V(1), V(2), V(0), Up(), Pt("", "violin"), Pt("", "piano")}, probe, 1, pick(c.Thorough, 4, 5))
		phase("variables and constructs", piano, []*Node{VD("va", N("c"), Up()), VD("va", VR("vb"), N("d8")), VD("vb", N("e2")), VR("va"), VR("vb"), Rp(VR("va"), 2), Cr("2", N("c"), N("d8")), Ch(N("c"), N("e2")), Sq(N("c"), Mk("mm")), Rp(Sq(N("c"), Or(N("d"), [2]int{2, 2})), 2), SetDur(2, false)}, probe, 1, 3)
		phase("declarations", nil, []*Node{Sub(Pt("", "piano"), N("c")), Pt("foo", "piano"), Pt("", "foo"), Pt("grp", "piano", "violin"), Pt("", "grp.violin"), Pt("", "violin"), N("c"), N("d2"), Vol(10, true), Vol(30, false)}, probe, 1, pick(c.Thorough, 4, 5))
		phase("two active parts", duo, []*Node{N("c"), Ch(N("c"), N("e8")), V(1), V(2), V(0), Quant(40, true), Quant(10, false), Pt("", "violin"), Mk("mm"), At("mm")}, probe, 1, pick(c.Thorough, 3, 4))
	})
}

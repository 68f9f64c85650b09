package main

// P24: code generation from score elements.

import (
	"fmt"
	"strings"

	"alda.io/client/model"
	"alda.io/client/parser"
)

// musicOfUpdates evaluates elements; an error is reduced to the fact.
func musicOfUpdates(ups []model.ScoreUpdate) string {
	s, err := evalUpdates(ups)
	if err != nil {
		return "rejected"
	}
	return musicOf(s)
}

// genCase checks elements -> source -> elements. mk builds a fresh copy of the
// elements at every call.
func (c *Ctx) genCase(key string, mk func() ([]model.ScoreUpdate, error), opts []fmtOpt, times int) *Fail {
	ups, err := mk()
	if err != nil {
		return failf(key, "the elements cannot be made: %v", err)
	}
	want := musicOfUpdates(ups)
	var first string
	for i := 0; i < times; i++ {
		ups, _ := mk()
		root, err := parser.GenerateASTFromScoreUpdates(ups)
		if err != nil {
			return failf(key, "code generation fails: %v", err)
		}
		if i == 0 {
			if g := musicOfRoot(root); g != want {
				return failf(key, "the generated syntax tree means something else\nelements:\n%s\ntree:\n%s\n%s", want, g, shapeOf(root))
			}
		}
		for j, o := range opts {
			src, err := doFormat(root, o)
			if err != nil {
				return failf(key, "the generated syntax tree can't be written: %v", err)
			}
			if j == 0 {
				if i == 0 {
					first = src
				} else if src != first {
					return failf(key, "the same elements yield different sources:\n%s\n---\n%s", first, src)
				}
			}
			if i > 0 {
				break
			}
			root2, err := parser.Parse("", src)
			if err != nil {
				return failf(key, "generated source (wrap %d) is rejected: %v\n%s", o.wrap, err, src)
			}
			if g := musicOfRoot(root2); g != want {
				return failf(key, "generated source (wrap %d):\n%s\nmusic of the elements:\n%s\nmusic of the source:\n%s", o.wrap, src, want, g)
			}
		}
	}
	c.Outcome(want)
	c.State(first)
	if strings.Count(want, "\n") > 2 {
		c.Nontrivial()
	}
	c.Trans(1)
	return nil
}

func init() {
	register("P24", "exploration", func(c *Ctx) {
		c.Rule("one evaluation = one list of score elements turned into a syntax tree and source by the client (three times), read back by the client, and compared by the music it evaluates to; the oracle is differential (elements against generated source)")
		wide := []fmtOpt{{80, "  "}, {1, ""}, {9, " "}, {25, "\t"}}
		few := []fmtOpt{{80, "  "}, {7, " "}}
		fromText := func(opts []fmtOpt) func(key string, v any) *Fail {
			return func(key string, v any) *Fail {
				return c.genCase(key, func() ([]model.ScoreUpdate, error) { return parseUpdates(v.(string)) }, opts, 2)
			}
		}
		leaves := []string{"c", "d+4", "e-_8.~", "f4~8", "g500ms~2s~", "a1|~2", "b4|~", "c2||~", "d|", "r", "r4|~8", "c/e", "c4/>e8~/(vol 20) g", "o5", ">", "|", "%mm", "@mm", "va", "(vol 50)", `(key-sig '(f (sharp)))`, `(key-sig "f+  c+ ")`, "(octave 'up)", "c*2", "va*3", "(vol 5)*2", "c0.5", "c4 |*2", "d/f|", "(pan -0)", "<", "(tempo! 90)", "(transpose -3)", "(mf)", "V0:", "e__", "b-_+"}
		combs := []string{"[%]", "[%]*2", "{%}", "{%}4", "{%}8.~16|~4*2", "[c'1 %]*2", "[[%]'1,3-4 d'2]*3", "V1: %", "V1: % V2: c d V0:", "[% e '2-3]*4"}
		small := []string{"c", "d+4~", "r8|", "c/e", ">", "(vol 50)", "va*2", "%mm", "V0:"}
		pre := "va = g8 a\npiano: c %mm "
		ok := func(t string) bool {
			return (strings.Count(t, "V1:") <= 1 || !strings.Contains(t, "V1: V")) && !(strings.Contains(t, "V1:") && strings.Contains(t, "e '2-3"))
		}
		phase := func(name, head, tail string, g *sgen, lo, hi int, opts []fmtOpt) {
			c.Explore(name, func(yield func(string, any) bool) {
				g.all(lo, hi, func(t string) bool {
					x := head + t + tail
					if !ok(x) {
						return true
					}
					if _, err := parser.Parse("", x); err != nil {
						return true
					}
					return yield(fmt.Sprintf("%q", x), x)
				})
			}, fromText(opts))
		}
		phase("all elements and constructs", pre, " e", newSgen(leaves, combs), 1, 3, wide)
		phase("three nodes", pre, " e", newSgen(append(small, "c2||~", "c4/>e8~/(vol 20) g", "{c|}2"), combs), 3, 3, few)
		phase("deeper", pre, " e", newSgen(small[:pick(c.Thorough, 3, 4)], combs[:pick(c.Thorough, 7, 9)]), 4, pick(c.Thorough, 4, 5), few)
		c.progsPhase("sizes", c.sizePrograms(1), func(key string, v any) *Fail {
			text := Text(v.([]*Node))
			if _, err := parser.Parse("", text); err != nil {
				return nil
			}
			return fromText([]fmtOpt{{80, "  "}, {20, ""}})(key, text)
		})
		c.Explore("parts", func(yield func(string, any) bool) {
			ps := []string{"piano: c", "piano:", "violin/piano \"foo\":\n c", "foo.piano: d", "violin \"bar\": V1: c\n V2: d", "midi-acoustic-guitar-nylon: [c]", "(tempo! 90)", "zz = c V1: d V2: e V0:\n", "c d", "V0: c"}
			var rec func(t string, n int) bool
			rec = func(t string, n int) bool {
				if t != "" && !yield(fmt.Sprintf("%q", t), t) {
					return false
				}
				if n == 0 {
					return true
				}
				for _, p := range ps {
					if !rec(t+p+"\n", n-1) {
						return false
					}
				}
				return true
			}
			rec("", pick(c.Thorough, 4, 5))
		}, fromText(wide[:2]))
		// elements that only other producers (the MusicXML importer) construct
		laa := func(l model.NoteLetter, a ...model.Accidental) model.LetterAndAccidentals {
			return model.LetterAndAccidentals{NoteLetter: l, Accidentals: a}
		}
		scale := func() []model.ScoreUpdate {
			var out []model.ScoreUpdate
			for _, l := range []model.NoteLetter{model.A, model.B, model.C, model.D, model.E, model.F, model.G} {
				out = append(out, model.Note{Pitch: laa(l)})
			}
			return out
		}
		attr := func(p model.PartUpdate) model.ScoreUpdate { return model.AttributeUpdate{PartUpdate: p} }
		type mk = func() ([]model.ScoreUpdate, error)
		run := func(key string, v any) *Fail { return c.genCase(key, v.(mk), wide[:2], 3) }
		withPart := func(ups ...model.ScoreUpdate) mk {
			return func() ([]model.ScoreUpdate, error) {
				out := []model.ScoreUpdate{model.PartDeclaration{Names: []string{"piano"}}}
				return append(append(out, ups...), scale()...), nil
			}
		}
		c.Explore("key signatures", func(yield func(string, any) bool) {
			accs := [][]model.Accidental{nil, {model.Sharp}, {model.Flat}}
			if c.Thorough {
				accs = append(accs, []model.Accidental{model.Natural}, []model.Accidental{model.Sharp, model.Sharp}, []model.Accidental{model.Flat, model.Flat})
			}
			var rec func(l int, ks model.KeySignature) bool
			rec = func(l int, ks model.KeySignature) bool {
				if l == 7 {
					cp := map[model.NoteLetter][]model.Accidental{}
					for k, v := range ks {
						cp[k] = v
					}
					key := ""
					for l := model.A; l <= model.G; l++ {
						key += fmt.Sprint(int(l), cp[l], " ")
					}
					return yield("key signature "+key, mk(func() ([]model.ScoreUpdate, error) {
						fresh := model.KeySignature{}
						for k, v := range cp {
							fresh[k] = v
						}
						return withPart(attr(model.KeySignatureSet{KeySignature: fresh}))()
					}))
				}
				for _, a := range accs {
					if a == nil {
						delete(ks, model.NoteLetter(l))
					} else {
						ks[model.NoteLetter(l)] = a
					}
					if !rec(l+1, ks) {
						return false
					}
				}
				delete(ks, model.NoteLetter(l))
				return true
			}
			rec(0, model.KeySignature{})
		}, run)
		c.Explore("attributes", func(yield func(string, any) bool) {
			for i := int32(-30); i <= 30; i++ {
				if !yield(fmt.Sprint("transpose ", i), withPart(attr(model.TranspositionSet{Semitones: i}))) {
					return
				}
			}
			for i := int32(0); i <= 8; i++ {
				yield(fmt.Sprint("octave ", i), withPart(attr(model.OctaveSet{OctaveNumber: i})))
			}
			for _, m := range []string{"pppppp", "ppppp", "pppp", "ppp", "pp", "p", "mp", "mf", "f", "ff", "fff", "ffff", "fffff", "ffffff"} {
				yield("dynamics "+m, withPart(attr(model.DynamicMarking{Marking: m})))
			}
		}, run)
		c.Explore("lengths", func(yield func(string, any) bool) {
			var comps []model.DurationComponent
			for _, d := range []float64{0.25, 0.5, 1, 2, 3, 4, 8, 12, 64, 1024, 4.0 / 3, 0.1, 16.5} {
				for dots := int32(0); dots < 3; dots++ {
					comps = append(comps, model.NoteLength{Denominator: d, Dots: dots})
				}
			}
			comps = append(comps, model.NoteLengthMs{Quantity: 1}, model.NoteLengthMs{Quantity: 33.25}, model.NoteLengthMs{Quantity: 1e6}, model.NoteLengthSeconds{Quantity: 2}, model.NoteLengthSeconds{Quantity: 0.125}, model.Barline{})
			for i := range comps {
				for j := -1; j < len(comps); j++ {
					d := model.Duration{Components: []model.DurationComponent{comps[i]}}
					if _, bar := comps[i].(model.Barline); bar {
						continue
					}
					if j >= 0 {
						d.Components = append(d.Components, comps[j])
					}
					for k, u := range []func() model.ScoreUpdate{
						func() model.ScoreUpdate { return model.Note{Pitch: laa(model.C, model.Sharp), Duration: d} },
						func() model.ScoreUpdate {
							return model.Note{Pitch: laa(model.C, model.Flat, model.Flat), Duration: d, Slurred: true}
						},
						func() model.ScoreUpdate { return model.Rest{Duration: d} },
						func() model.ScoreUpdate { return model.Cram{Duration: d, Events: scale()} },
						func() model.ScoreUpdate {
							return model.Chord{Events: []model.ScoreUpdate{model.Note{Pitch: laa(model.C), Duration: d}, attr(model.OctaveUp{}), model.Note{Pitch: laa(model.E), Duration: d, Slurred: true}}}
						},
					} {
						u := u
						if !yield(fmt.Sprintf("length %v in element %d", d, k), mk(func() ([]model.ScoreUpdate, error) { return withPart(u())() })) {
							return
						}
					}
				}
			}
		}, run)
	})
}

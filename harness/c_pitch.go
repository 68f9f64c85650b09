package main

import (
	"fmt"
	"strings"
)

// keyOf computes the key signature of a scale from first principles: the scale
// has one note on each letter starting at the tonic, at the mode's intervals.
func keyOf(letter byte, acc int, mode string) map[byte]int {
	major := []int{0, 2, 4, 5, 7, 9, 11}
	rot := map[string]int{"major": 0, "ionian": 0, "dorian": 1, "phrygian": 2, "lydian": 3, "mixolydian": 4, "minor": 5, "aeolian": 5, "locrian": 6}[mode]
	letters := "cdefgab"
	i0 := strings.IndexByte(letters, letter)
	out := map[byte]int{}
	for d := 0; d < 7; d++ {
		step := major[(rot+d)%7] - major[rot]
		if step < 0 {
			step += 12
		}
		l := letters[(i0+d)%7]
		nat := semis[l]
		if i0+d >= 7 {
			nat += 12
		}
		if a := semis[letter] + acc + step - nat; a != 0 {
			out[l] = a
		}
	}
	return out
}

type keyCase struct {
	text string
	key  map[byte]int
}

func keyCases(thorough bool) []keyCase {
	out := []keyCase{{"", nil}}
	accs := []struct {
		t string
		v int
	}{{"", 0}, {" flat", -1}, {" sharp", 1}, {" flat flat", -2}, {" sharp sharp", 2}, {" natural", 0}, {" sharp flat", 0}}
	for _, mode := range []string{"major", "ionian", "dorian", "phrygian", "lydian", "mixolydian", "minor", "aeolian", "locrian"} {
		for i := 0; i < 7; i++ {
			l := "cdefgab"[i]
			for _, a := range accs {
				out = append(out, keyCase{fmt.Sprintf("(key-sig '(%c%s %s))", l, a.t, mode), keyOf(l, a.v, mode)})
			}
		}
	}
	// association lists and strings: every letter with every accidental, and combinations
	vals := map[string]int{"+": 1, "-": -1, "++": 2, "--": -2, "+-": 0}
	words := map[string]string{"+": "sharp", "-": "flat", "++": "sharp sharp", "--": "flat flat", "+-": "sharp flat"}
	for _, l := range "cdefgab" {
		for _, a := range []string{"+", "-", "++", "--", "+-"} {
			out = append(out, keyCase{fmt.Sprintf("(key-signature \"%c%s\")", l, a), map[byte]int{byte(l): vals[a]}},
				keyCase{fmt.Sprintf("(key-sig '(%c (%s)))", l, words[a]), map[byte]int{byte(l): vals[a]}})
			for _, l2 := range "cdefgab" {
				if l2 == l {
					continue
				}
				for _, a2 := range []string{"+", "-"} {
					out = append(out, keyCase{fmt.Sprintf("(key-sig \"%c%s  %c%s\")", l, a, l2, a2), map[byte]int{byte(l): vals[a], byte(l2): vals[a2]}},
						keyCase{fmt.Sprintf("(key-sig '(%c (%s) %c (%s)))", l, words[a], l2, words[a2]), map[byte]int{byte(l): vals[a], byte(l2): vals[a2]}})
				}
			}
		}
	}
	return out
}

func init() {
	register("P10", "model_checking", func(c *Ctx) {
		c.Rule("one evaluation = one setting of octave, key signature and transposition, under which every note letter with every accidental string is played by the real client and its MIDI note compared with the arithmetic of the reference model; notes outside 0-127 must be errors")
		keys := keyCases(c.Thorough)
		accs := []string{"", "_", "+", "-", "++", "--", "+++", "---"}
		if c.Thorough {
			accs = append(accs, "++++", "----", "__", "+++++++", "-------")
		}
		octs := []int{-2, -1, 0, 4, 5, 8, 9, 10}
		trs := []int{0, 1, -14}
		if c.Thorough {
			octs = []int{-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
			trs = append(trs, -1, 12, -25, 60, 2, -2, 7, -7, 24, -48, 127, -128)
		}
		type cas struct{ o, t, k int }
		c.Explore("octave x key signature x transposition", func(yield func(string, any) bool) {
			for k := range keys {
				for _, o := range octs {
					for _, t := range trs {
						if !yield(fmt.Sprintf("o%d t%d %s", o, t, keys[k].text), cas{o, t, k}) {
							return
						}
					}
				}
			}
		}, func(key string, v any) *Fail {
			x := v.(cas)
			prog := []*Node{Pt("", "piano"), Octave(x.o, false), Transpose(x.t, false)}
			if x.t == 0 {
				prog = []*Node{Pt("", "piano"), Octave(x.o, false)}
			}
			if x.o >= 0 && x.t%2 == 0 {
				prog[1] = Oct(x.o)
			}
			if keys[x.k].text != "" {
				prog = append(prog, Attr(keys[x.k].text, false, AttrOp{Type: "keysig", Key: keys[x.k].key}))
			}
			st := newState()
			st.oct, st.trans, st.key = x.o, x.t, keys[x.k].key
			good := append([]*Node{}, prog...)
			for _, l := range "cdefgab" {
				for _, a := range accs {
					n := N(string(l) + a)
					if m := n.midi(st); m >= 0 && m <= 127 {
						good = append(good, n)
						continue
					}
					bad := append(append([]*Node{}, prog...), n)
					if f := c.compareProgram(key, bad); f != nil {
						return f
					}
				}
			}
			return c.compareProgram(key, good)
		})
		alpha := []*Node{N("c"), N("b+"), N("f_"), Up(), Down(), Oct(2), Oct(9), Octave(7, false), Transpose(3, false), Transpose(-14, false), KeySig("f+ b-", false), KeySig("c--", false), Attr("(octave%G 'up)", false, AttrOp{Type: "octup"}), Ch(N("e"), Up(), N("g"))}
		c.seqPhase("sequences", piano, alpha, []*Node{N("f"), N("c+"), Ch(N("b"), N("c"))}, 1, pick(c.Thorough, 4, 5))
		var progs [][]*Node
		for _, o := range []int{11, 12, 100, -100, 178956969, 178956970, 178956971, 357913939, 357913940, 357913941, 357913942, 2147483645, 2147483646, 2147483647, -2147483648, -357913942, -357913941, 715827881, 715827882, 715827883, 1431655764, 1431655765, 1431655766} {
			for _, t := range []int{0, 7, 2147483647, -2147483648, 1000, -1000} {
				for _, l := range "cdefgab" {
					progs = append(progs, []*Node{Pt("", "piano"), Octave(o, false), Transpose(t, false), N(string(l) + "+")})
					if o >= 0 {
						progs = append(progs, []*Node{Pt("", "piano"), Transpose(t, false), Oct(o), N(string(l))})
					}
				}
			}
		}
		for n := -20; n <= 150; n++ {
			for _, t := range []int{0, 1, -1, 12, -12, 128, 2147483647, -2147483648} {
				progs = append(progs, []*Node{Pt("", "piano"), Transpose(t, false), KeySig("c+ d- e+", false), Octave(7, false),
					&Node{K: KNote, Midi: n, T: fmt.Sprintf("(note (midi-note %d))", n)}})
			}
		}
		c.listPhase("extremes and explicit MIDI notes", progs)
		c.seqPhase("two active parts", duo, alpha, []*Node{N("f"), Pt("", "violin"), N("f"), N("c+")}, 1, pick(c.Thorough, 3, 4))
	})
}

package main

// P01: no text crashes or hangs the client.

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"alda.io/client/model"
)

// total runs a text as far as it goes. A panic or a hang is the failure.
func (c *Ctx) total(text string) string {
	ups, err := parseUpdates(text)
	if err != nil {
		return "parse error"
	}
	s := model.NewScore()
	if err := s.Update(ups...); err != nil {
		_ = err.Error()
		return "evaluation error"
	}
	return fmt.Sprintf("score %d", minInt(len(s.Events), 4))
}

func init() {
	register("P01", "exploration", func(c *Ctx) {
		c.Rule("one evaluation = one text parsed and evaluated by the real client, ending in a reported error or a score; non-trivial = texts that were parsed; a panic, a fatal error of the process, runaway memory or a text that runs for a minute is a violation")
		run := func(key string, v any) *Fail {
			o := c.total(v.(string))
			c.Outcome(o)
			if o != "parse error" {
				c.Nontrivial()
			}
			return nil
		}
		words := func(name string, alpha []string, sep string, wraps [][2]string, lo, hi int) {
			c.Explore(name, func(yield func(string, any) bool) {
				var parts []string
				var rec func(n int) bool
				rec = func(n int) bool {
					if n == 0 {
						t := strings.Join(parts, sep)
						for _, w := range wraps {
							x := w[0] + t + w[1]
							if !yield(strconv.Quote(x), x) {
								return false
							}
						}
						return true
					}
					for _, a := range alpha {
						parts = append(parts, a)
						ok := rec(n - 1)
						parts = parts[:len(parts)-1]
						if !ok {
							return false
						}
					}
					return true
				}
				for n := lo; n <= hi; n++ {
					if !rec(n) {
						return
					}
				}
			}, run)
		}
		chars := strings.Split("c r o V n x s m 0 1 9 + - _ . ~ / | [ ] { } ( ) ' \" : * % @ = # < > , \\ ! ? & ; ^ é", " ")
		chars = append(chars, " ", "\n", "\t", "\r", "\x00", "\xff", "\ufeff", "𝄞")
		alone := [][2]string{{"", ""}}
		part := [][2]string{{"piano: ", ""}}
		words("characters", chars, "", alone, 0, pick(c.Thorough, 3, 4))
		words("characters in a part", chars, "", part, 1, pick(c.Thorough, 3, 4))
		words("characters in a sequence", chars, "", [][2]string{{"piano: [c ", "]*2 d"}, {"piano: {c ", "}4 d"}, {"aa = c", "\npiano: aa"}, {"piano: (vol ", ") c"}, {"piano: c/", "e"}}, 1, pick(c.Thorough, 2, 3))
		lex := []string{"c", "c4", "d8.~", "e500ms", "r", "c/e", "/", "~", "|", "[", "]", "{", "}", "*2", "*0", "'1", "'2-3", "V1:", "V2:", "V0:", "o4", "o", ">", "<", "%mm", "@mm", "aa", "aa =", "\n", "piano:", "piano \"xx\":", "piano/", "\"xx\"", "xx:", "xx.piano:", "(tempo 60)", "(tempo! 60)", "(", ")", "'", ":", "(x)", "#", "0", "2s"}
		words("lexemes", lex, " ", alone, 1, pick(c.Thorough, 3, 4))
		words("lexemes in a part", lex, " ", part, 1, pick(c.Thorough, 4, 4))
		words("lexemes in two parts", lex, " ", [][2]string{{"piano/violin \"xx\": c ", " d"}, {"aa = c\npiano: ", "\nviolin: c"}}, 1, pick(c.Thorough, 3, 4))
		words("lexemes without spaces", lex, "", part, 2, 3)
		lw := []string{"(", ")", "'", "1", "-1", "0", "1.5", "\"c\"", "\"4\"", "\"\"", "c", "sharp", "vol", "tempo!", "pitch", "note", "note-length", "duration", "list", "quote", "key-sig", "octave", "set-duration", "midi-note", "metric-modulation", "slur", "rest", "ms", "barline", "nosuch"}
		words("S-expression words", lw, " ", [][2]string{{"piano: (", ") c d"}}, 0, pick(c.Thorough, 4, 4))
		words("nested S-expressions", lw, " ", [][2]string{{"piano: (note (", ")) c"}, {"piano: (key-sig '(", ")) c"}, {"piano: (set-duration (", ")) c"}, {"piano: (note (pitch '(", ")) (note-length 4)) d"}}, 0, 3)

		// extreme numbers in every numeric position (not as a repeat count)
		nums := []string{"0", "00", "1", "007", "0.0", "0.5", ".5", "5.", "5..", "-1", "-0", "127", "128", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "1.7976931348623159", "0.0000000000000000000000001", strings.Repeat("9", 400), "0." + strings.Repeat("0", 400) + "1", "1e5", "1e400", "0x10", "1_000", "٣"}
		spots := []string{"c%", "c%.", "c%ms", "c%s", "c4~%", "r%", "{c d}%", "c%/e%", "o%", "V%:", "[c d'%]*2", "[c d'1-%]*2", "[c d'%-2]*2", "%%", "@%", "(tempo %)", "(vol %)", "(quant %)", "(pan! %)", "(octave %)", "(transpose %)", "(set-duration %)", "(set-duration-ms %)", "(set-note-length %)", "(set-note-length \"%\")", "(midi-channel %)", "(reference-pitch %)", "(metric-modulation % 4)", "(metric-modulation 4 %)", "(note (midi-note %))", "(note (midi-note 60) (note-length %))", "(note (midi-note 60) (ms %))", "(duration (beats %))", "(tempo 4 %)", "(tempo % 60)", "(key-sig \"%\")", "(track-vol %)"}
		tails := []string{" c", " (tempo 60) c", " {c d}4", " %mm", " V1: c V2: d V0: c", " | c/e"}
		c.Explore("numbers", func(yield func(string, any) bool) {
			for _, sp := range spots {
				for _, n := range nums {
					for _, tl := range tails {
						for _, head := range []string{"piano: ", "piano/midi-percussion: (tempo 120) c ", ""} {
							t := head + strings.ReplaceAll(strings.Replace(sp, "%%", "%x", 1), "%", n) + tl
							if !yield(strconv.Quote(t), t) {
								return
							}
						}
					}
				}
			}
		}, run)

		// nesting
		open := [][2]string{{"[", "]"}, {"{", "}"}, {"{c ", "}4"}, {"[c ", "]*1"}, {"(", ")"}, {"(list ", ")"}, {"('", ")"}, {"(list '(", "))"}, {"V1: ", " V0:"}, {"aa = ", ""}, {"c/", "e"}, {"c/(vol 5) ", "e"}, {"[V1: c ", "]"}, {"{V1: c V2: ", "}"}, {"\"", "\""}, {"~", ""}, {"c4~", "8"}, {"|", "|"}, {"piano/", ""}, {">", "<"}, {"c'1", ""}, {"[c]'1", ""}, {"c*1 ", "*1"}, {"aa = c\naa = aa\n", ""}}
		depths := []int{1, 2, 3, 5, 8, 16, 33, 100, 300, 999, 1001}
		if c.Thorough {
			depths = append(depths, 1000, 1005, 3000, 30000)
		}
		deep := pick(c.Thorough, []int{200000}, []int{200000, 1000000})
		c.Explore("nesting", func(yield func(string, any) bool) {
			gen := func(i, j, d, bal int, pre string) bool {
				a, b := open[i], open[j]
				k := fmt.Sprintf("nesting %d %d depth %d balance %d after %q", i, j, d, bal, pre)
				return yield(k, [6]any{a, b, d, bal, pre})
			}
			for i := range open {
				for j := range open {
					for _, d := range depths {
						if i != j && d > pick(c.Thorough, 33, 300) {
							continue
						}
						for bal := 0; bal < 3; bal++ {
							for _, p := range []string{"", "piano: ", "aa = "} {
								if strings.HasPrefix(p, "aa") && d > 300 && !c.Thorough {
									continue
								}
								if !gen(i, j, d, bal, p) {
									return
								}
							}
						}
					}
				}
			}
			for i := range open {
				if i == len(open)-1 {
					break // a chain of definitions, not nested text
				}
				for _, d := range deep {
					if !gen(i, i, d, 0, "piano: ") || !gen(i, i, d, 1, "piano: ") {
						return
					}
				}
			}
		}, func(key string, v any) *Fail {
			x := v.([6]any)
			a, b, d, bal := x[0].([2]string), x[1].([2]string), x[2].(int), x[3].(int)
			var sb strings.Builder
			sb.WriteString(x[4].(string))
			for i := 0; i < d; i++ {
				sb.WriteString(a[0] + b[0])
			}
			sb.WriteString("c")
			if bal != 1 {
				for i := 0; i < d; i++ {
					sb.WriteString(b[1] + " " + a[1] + " ")
				}
			}
			if bal == 2 {
				sb.WriteString(b[1] + " c\npiano: aa")
			}
			return run(key, sb.String())
		})

		// every truncation, deletion and substitution of real scores
		files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_REPO_DIR"), "examples", "*.alda"))
		limit := pick(c.Thorough, 1600, 4000)
		c.Explore("damaged example scores", func(yield func(string, any) bool) {
			for _, f := range files {
				b, err := os.ReadFile(f)
				if err != nil || len(b) > limit {
					continue
				}
				rs := []rune(string(b))
				name := filepath.Base(f)
				for i := range rs {
					for op := 0; op < 3+len(chars); op++ {
						if op >= 3 && !c.Thorough && len(rs) > 450 {
							break
						}
						if !yield(fmt.Sprintf("%s op %d at %d", name, op, i), [3]any{rs, op, i}) {
							return
						}
					}
				}
			}
		}, func(key string, v any) *Fail {
			x := v.([3]any)
			rs, op, i := x[0].([]rune), x[1].(int), x[2].(int)
			var t string
			switch op {
			case 0: // the file ends here
				t = string(rs[:i])
			case 1: // the file begins here
				t = string(rs[i:])
			case 2: // one character missing
				t = string(rs[:i]) + string(rs[i+1:])
			default:
				t = string(rs[:i]) + chars[op-3] + string(rs[i+1:])
			}
			return run(key, t)
		})
		c.Set("example_files", len(files))
	})
}

package main

import (
	"fmt"
	"sort"
	"strings"

	"alda.io/client/model"
)

// musicOf describes everything a listener or later input can observe of a score.
func musicOf(s *model.Score) string {
	var sb strings.Builder
	ns := realNotes(s)
	sortNotes(ns)
	for _, n := range ns {
		fmt.Fprintf(&sb, "%d %d @%.4f %.4f/%.4f v%.4f t%.4f p%.4f\n", n.Part, n.Midi, n.Off, n.Aud, n.Dur, n.Vol, n.TrackVol, n.Pan)
	}
	for _, m := range sortedKeys(s.Markers) {
		fmt.Fprintf(&sb, "%%%s %.4f\n", m, s.Markers[m])
	}
	fmt.Fprintln(&sb, stockNames(s))
	for _, v := range sortedKeys(s.Variables) {
		fmt.Fprintf(&sb, "=%s\n", v)
	}
	ix := partIndex(s)
	for _, a := range sortedKeys(s.Aliases) {
		var ids []int
		for _, p := range s.Aliases[a] {
			if i, ok := ix[p]; ok {
				ids = append(ids, i)
			}
		}
		sort.Ints(ids)
		fmt.Fprintln(&sb, "alias", a, ids)
	}
	return sb.String()
}

// musicText evaluates a text and describes the result or the failure.
func musicText(text string) (string, error) {
	s, err := realScore(text)
	if err != nil {
		return "", err
	}
	return musicOf(s), nil
}

// a token with the class of the gap that follows it:
// e between events (anything), w whitespace and comments only, b like w but may
// be empty, B like e but may be empty, l one line with barlines, d declaration
// (blanks only), n end of a line (must contain a line break)
type ltok struct {
	t string
	g byte
}

var gapSeps = map[byte][]string{
	'e': {" ", "\n", "\t", "|", " | ", "\n\n", " # c\n", "#c\n", "\r\n", " \t ", "|\n|", "#[ (\" | V1: {\n", "\t|\t", "\n  # c d\n  # e\n", "# \u00e9\u266f c\r\n"},
	'w': {" ", "\n", "\t", "\n\n", " # c\n", "#c\n", "\r\n", " \t ", "\n  # c d\n  # e\n"},
	's': {" ", "\n", "\t", "\n\n", " # c\n", "\r\n", " \t ", "\n  # c d\n  # e\n"}, // after a Lisp symbol, which may contain #
	'l': {" ", "\t", "|", " | ", "  ", "\t|"},
	'd': {" ", "\t", "  "},
	'n': {"\n", "\r\n", "\n\n", " # c\n", "#c\n", " |\n", "\t\n", "\n\t"},
}

func init() {
	gapSeps['b'] = append([]string{""}, gapSeps['w']...)
	gapSeps['B'] = append([]string{""}, gapSeps['e']...)
}

func ltoks(spec string) []ltok {
	var out []ltok
	for _, f := range strings.Fields(spec) {
		g := byte('e')
		if len(f) > 1 && f[len(f)-2] == '@' {
			g = f[len(f)-1]
			f = f[:len(f)-2]
		}
		out = append(out, ltok{f, g})
	}
	return out
}

func layoutSpecs() []string {
	return []string{
		`piano:@B c4 d8. > e < f~ g4~8 r2 o5 c+ d-- e_ a500ms b2s`,
		`piano@d "foo":@B c4 violin/flute@d "grp":@B d foo:@B e grp.violin:@B g`,
		`piano:@B [@B c d8 [@B e r@B ]@w *2 f@B ]@w *2 g`,
		`piano:@B [@B c@w '1 d@w '1,3-4 e'2 > [@B f a@B ]@w '2-3@B ]@w *4 g`,
		`piano:@B {@B c d {@B e f g@B }4@B }2 a`,
		`piano:@B c4@b /@b e@b /@w >@w g8~@b /@w <@w b a/c d`,
		`piano:@B (@b vol@s 50@b ) c (@b key-sig@s '(@b f@s (@b sharp@s )@b )@b ) f (@b tempo!@s 60@b ) g`,
		`piano:@B c (@b key-sig@s "f+"@b ) f (quant@s 50) (@b octave@s 'up@s ) c`,
		`piano:@B c V1:@B d e2 V2:@B f > g V0:@B a b`,
		`piano:@B c V1:@B [c d]@w *2 V2:@B {c d e}2 violin:@B c V1:@B d`,
		`piano:@B c %aa d %bb-1 e violin:@B @aa f @bb-1 g`,
		`foo@d =@l c@l d8@l [@l e@l f@l ]@d *2@n bar@d =@l foo@l >@l g@n piano:@B foo bar foo@w *2 c`,
		`piano:@B c baz@d =@l d@d /@d e@l {@l c@l d@l }4@n baz d baz@w *2`,
		`piano:@B c1@e ~1 d1@e ~2@e ~4 e`,
		`(tempo!@s 90) (vol!@s 20) piano:@B c d violin:@B (tempo@s 45) e`,
		`piano:@B c@w *2 d4@w *3 [e f]@w *2 {c d}@w *2 r8@w *2 c/e@w *2 g`,
	}
}

func init() {
	register("P12", "exploration", func(c *Ctx) {
		c.Rule("one evaluation = one choice of separators between the elements of a score; nontrivial = it differs from single spaces and the score plays at least one note. The oracle is the same score written with single spaces")
		type cas struct{ base, text string }
		run := func(key string, v any) *Fail {
			x := v.(cas)
			want, err := musicText(x.base)
			if err != nil {
				return failf(key, "the plain layout is rejected: %q: %v", x.base, err)
			}
			got, err := musicText(x.text)
			if err != nil {
				return failf(key, "layout changes acceptance:\n%q plays\n%q is rejected: %v", x.base, x.text, err)
			}
			c.Nontrivial()
			c.Outcome(want)
			if got != want {
				return failf(key, "layout changes the music:\n%q plays\n%s\n%q plays\n%s", x.base, want, x.text, got)
			}
			return nil
		}
		render := func(ts []ltok, sep func(i int) string) string {
			var sb strings.Builder
			for i, t := range ts {
				sb.WriteString(t.t)
				if i < len(ts)-1 {
					sb.WriteString(sep(i))
				}
			}
			return sb.String()
		}
		plain := func(ts []ltok) string {
			return render(ts, func(i int) string {
				if ts[i].g == 'n' {
					return "\n"
				}
				return " "
			})
		}
		def := func(ts []ltok, i int) string {
			if ts[i].g == 'n' {
				return "\n"
			}
			return " "
		}
		c.Explore("up to two or three gaps changed", func(yield func(string, any) bool) {
			for si, spec := range layoutSpecs() {
				ts := ltoks(spec)
				base := plain(ts)
				n := len(ts) - 1
				depth := 2
				if c.Thorough {
					depth = 3
				}
				ch := map[int]string{}
				cnt := 0
				var rec func(from, left int) bool
				rec = func(from, left int) bool {
					if len(ch) > 0 {
						text := render(ts, func(i int) string {
							if s, ok := ch[i]; ok {
								return s
							}
							return def(ts, i)
						})
						cnt++
						if !yield(fmt.Sprintf("spec %d: %q", si, text), cas{base, text}) {
							return false
						}
					}
					if left == 0 {
						return true
					}
					for i := from; i < n; i++ {
						for _, s := range gapSeps[ts[i].g] {
							if s == def(ts, i) {
								continue
							}
							ch[i] = s
							if !rec(i+1, left-1) {
								return false
							}
							delete(ch, i)
						}
					}
					return true
				}
				if !rec(0, depth) {
					return
				}
				// the same separator everywhere it is allowed
				for _, s := range append([]string{""}, gapSeps['e']...) {
					text := render(ts, func(i int) string {
						for _, x := range gapSeps[ts[i].g] {
							if x == s {
								return s
							}
						}
						return def(ts, i)
					})
					if !yield(fmt.Sprintf("spec %d uniform: %q", si, text), cas{base, text}) {
						return
					}
				}
			}
		}, run)
		// every element followed by every element with every separator
		els := []string{"c", "d+", "e-4", "f8.", "g~", "a4~", "b2~8", "r", "r4", "c500ms", "d2s", "c/e", "c8/e4~", "[c d]", "[c d]*2", "{c d}", "{c d}4", "{c d}4.", "c*2", "c4*2", "r*2", ">", "<", "o4", "(vol 50)", "(f)*2", "va", "va*2", "%mm", "@zz", "V1:", "V0:", "[c'1 d'2]*2", "c_", "d2s*2", "e500ms~"}
		seps := gapSeps['e']
		c.Explore("element pairs", func(yield func(string, any) bool) {
			for _, e1 := range els {
				for _, e2 := range els {
					for _, s1 := range seps {
						for _, s2 := range seps {
							if !c.Thorough && s1 != s2 && s1 != " " && s2 != " " {
								continue
							}
							head, tail := "va = c8 > d\npiano: c %zz ", "e"
							if !yield(fmt.Sprintf("%q %q %q %q", e1, s1, e2, s2), cas{head + e1 + " " + e2 + " " + tail, head + e1 + s1 + e2 + s2 + tail}) {
								return
							}
						}
					}
				}
			}
		}, run)
		// elements that need no space between them
		glueEls := []string{"c", "d+", "e-4", "f8.", "g~", "a4~", "b2~8", "r", "r4", "c500ms", "d2s", "c/e", "c8/>e4~", "[c d]", "[c d]*2", "{c d}", "{c d}4.", "c*2", ">", "<", "o4", "(vol 50)", "V1:", "%mm", "@zz", "c_", "va"}
		glue := func(a, b string) bool {
			switch a {
			case "[c d]*2", "c*2", "o4", "va":
				return false
			case "c", "r", "d2s", "c/e":
				return b == ">" || b == "<"
			case "%mm", "@zz":
				return strings.ContainsAny(b[:1], "[{<>")
			}
			return true
		}
		c.Explore("no space between elements", func(yield func(string, any) bool) {
			for _, e1 := range glueEls {
				for _, e2 := range glueEls {
					if !glue(e1, e2) {
						continue
					}
					for _, e3 := range glueEls {
						if e1 == "V1:" && e3 == "V1:" {
							continue
						}
						g := " "
						if glue(e2, e3) {
							g = ""
						}
						for i, ctx := range []string{"va = c8 > d\npiano: c %%zz %s e", "va = c8 > d\npiano: c %%zz [%s o4]*2 e", "va = c8 > d\npiano: c %%zz {%s o4}2 e"} {
							if i > 0 && (e1 == "V1:" || e2 == "V1:" || e3 == "V1:" || e3 == "%mm" || e3 == "@zz" || e3 == "va") {
								continue
							}
							if !yield(fmt.Sprintf("%q %q %q %d", e1, e2, e3, i), cas{fmt.Sprintf(ctx, e1+" "+e2+" "+e3), fmt.Sprintf(ctx, e1+e2+g+e3)}) {
								return
							}
						}
					}
				}
			}
		}, run)
		if c.Thorough {
			c.Explore("element triples", func(yield func(string, any) bool) {
				for _, e1 := range els {
					for _, e2 := range els {
						for _, e3 := range els {
							for _, s := range seps[1:] {
								head := "va = c8 > d\npiano: c %zz "
								if !yield(fmt.Sprintf("%q %q %q %q", e1, e2, e3, s), cas{head + e1 + " " + e2 + " " + e3 + " e", head + e1 + s + e2 + s + e3 + s + "e"}) {
									return
								}
							}
						}
					}
				}
			}, run)
		}
		// nothing in a comment is interpreted
		chars := []string{"a", "[", "(", "\"", "'", "|", "#", "\\", "%", "=", "{", ":", "\t", "\u00e9", "\x01", "]", ")", "V1:", "*", "~", "}"}
		c.Explore("comment contents", func(yield func(string, any) bool) {
			var rec func(s string, n int) bool
			rec = func(s string, n int) bool {
				for i, f := range []string{"piano: c #%s\nd", "#%s\npiano: c d", "piano: c d #%s", "piano:#%s\nc d", "piano: [c d]#%s\n", "va = c d #%s\npiano: va", "piano: {c d #%s\n}2", "piano: c /#%s\ne (vol #%s\n 50) d"} {
					if !yield(fmt.Sprintf("comment %d %q", i, s), cas{strings.ReplaceAll(f, "%s", ""), strings.ReplaceAll(f, "%s", s)}) {
						return false
					}
				}
				if n == 0 {
					return true
				}
				for _, x := range chars {
					if !rec(s+x, n-1) {
						return false
					}
				}
				return true
			}
			rec("", pick(c.Thorough, 3, 4))
		}, run)
	})
}

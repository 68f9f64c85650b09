package main

// P14: the formatter. P24 shares the program generator (c_gen.go).

import (
	"bytes"
	"fmt"
	"strings"

	"alda.io/client/parser"
)

// sforest enumerates texts of elements: every list with lo..hi nodes built from
// leaves and constructs ("%" in a construct stands for its body).
type stext struct{ t string }

type sgen struct {
	leaves, combs []string
	memo          map[int][]string
	fmemo         map[[2]int][]string
}

func newSgen(leaves, combs []string) *sgen {
	return &sgen{leaves, combs, map[int][]string{}, map[[2]int][]string{}}
}

func (g *sgen) trees(n int) []string {
	if t, ok := g.memo[n]; ok {
		return t
	}
	var out []string
	if n == 1 {
		out = g.leaves
	} else {
		for _, c := range g.combs {
			for k := 1; k <= n-1; k++ {
				for _, f := range g.forestsK(n-1, k) {
					out = append(out, strings.ReplaceAll(c, "%", f))
				}
			}
		}
	}
	g.memo[n] = out
	return out
}

func (g *sgen) forestsK(n, k int) []string {
	if k == 0 {
		if n == 0 {
			return []string{""}
		}
		return nil
	}
	if n < k {
		return nil
	}
	key := [2]int{n, k}
	if f, ok := g.fmemo[key]; ok {
		return f
	}
	var out []string
	for a := 1; a <= n-k+1; a++ {
		rest := g.forestsK(n-a, k-1)
		for _, t := range g.trees(a) {
			for _, f := range rest {
				if f == "" {
					out = append(out, t)
				} else {
					out = append(out, t+" "+f)
				}
			}
		}
	}
	g.fmemo[key] = out
	return out
}

func (g *sgen) all(lo, hi int, yield func(t string) bool) bool {
	for n := lo; n <= hi; n++ {
		for k := 1; k <= n; k++ {
			for a := 1; a <= n-k+1; a++ {
				rest := g.forestsK(n-a, k-1)
				for _, t := range g.trees(a) {
					for _, f := range rest {
						x := t
						if f != "" {
							x += " " + f
						}
						if !yield(x) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// shape describes a syntax tree without positions; barlines are counted apart.
func shape(n parser.ASTNode, sb *strings.Builder, bars *int) {
	if n.Type == parser.BarlineNode {
		*bars++
		return
	}
	sb.WriteString(n.Type.String())
	if n.Literal != nil {
		fmt.Fprintf(sb, "=%v", n.Literal)
	}
	if len(n.Children) > 0 {
		sb.WriteByte('(')
		for _, k := range n.Children {
			if k.Type != parser.BarlineNode {
				sb.WriteByte(' ')
			}
			shape(k, sb, bars)
		}
		sb.WriteByte(')')
	}
}

func shapeOf(n parser.ASTNode) string {
	var sb strings.Builder
	bars := 0
	shape(n, &sb, &bars)
	return fmt.Sprintf("%d barlines %s", bars, sb.String())
}

// evalRoot evaluates a tree; errors are reduced to the fact.
func musicOfRoot(root parser.ASTNode) string {
	ups, err := root.Updates()
	if err != nil {
		return "rejected"
	}
	s, err := evalUpdates(ups)
	if err != nil {
		return "rejected"
	}
	return musicOf(s)
}

type fmtOpt struct {
	wrap   int
	indent string
}

func doFormat(root parser.ASTNode, o fmtOpt) (string, error) {
	var b bytes.Buffer
	err := parser.FormatASTToCode(root, &b, parser.ConfigureSoftWrapLen(o.wrap), parser.ConfigureIndentText(o.indent))
	return b.String(), err
}

func init() {
	register("P14", "exploration", func(c *Ctx) {
		c.Rule("one evaluation = one program formatted with every wrap length and indentation of the phase, the result parsed again, compared with the original's syntax tree (without positions) and music, and formatted again; the oracle is differential (original text against formatted text)")
		check := func(opts []fmtOpt) func(key string, v any) *Fail {
			return func(key string, v any) *Fail {
				text := v.(string)
				root, err := parser.Parse("", text)
				if err != nil {
					return failf(key, "program is rejected: %q: %v", text, err)
				}
				want, m := shapeOf(root), musicOfRoot(root)
				seen := map[string]bool{}
				for _, o := range opts {
					f1, err := doFormat(root, o)
					if err != nil {
						return failf(key, "%q: formatting (wrap %d, indent %q) fails: %v", text, o.wrap, o.indent, err)
					}
					if seen[f1] && o.wrap > 40 {
						continue
					}
					seen[f1] = true
					root2, err := parser.Parse("", f1)
					if err != nil {
						return failf(key, "%q: formatted (wrap %d, indent %q) as\n%s\nwhich is rejected: %v", text, o.wrap, o.indent, f1, err)
					}
					if g := shapeOf(root2); g != want {
						return failf(key, "%q: formatted (wrap %d, indent %q) as\n%s\nelements before: %s\nelements after:  %s", text, o.wrap, o.indent, f1, want, g)
					}
					if g := musicOfRoot(root2); g != m {
						return failf(key, "%q: formatted (wrap %d, indent %q) as\n%s\nmusic before:\n%smusic after:\n%s", text, o.wrap, o.indent, f1, m, g)
					}
					f2, err := doFormat(root2, o)
					if err != nil || f2 != f1 {
						return failf(key, "%q: formatted (wrap %d, indent %q) as\n%s\nformatting that again gives (%v)\n%s", text, o.wrap, o.indent, f1, err, f2)
					}
				}
				if len(seen) > 1 {
					c.Nontrivial()
				}
				c.Outcome(want)
				return nil
			}
		}
		wide := []fmtOpt{{80, "  "}, {1, ""}, {4, " "}, {7, "\t"}, {12, "  "}, {25, "    "}, {0, "  "}, {80, ""}}
		few := []fmtOpt{{80, "  "}, {1, ""}, {9, " "}}
		leaves := []string{"c", "d+4", "e-_8.~", "f4~8", "g500ms~2s~", "a1|~2", "b4|~", "c2||~", "d|", "r", "r4|~8", "c/e", "c4/>e8~/(vol 20) g", "o5", ">", "|", "%mm", "@mm", "va", "(vol 50)", `(key-sig '(f (sharp)))`, `(key-sig "f+  c+ ")`, "(octave 'up)", "c*2", "va*3", "(vol 5)*2", "c0.5", "c4 |*2", "d/f|", "(pan -0)"}
		combs := []string{"[%]", "[%]*2", "{%}", "{%}4", "{%}8.~16|~4*2", "[c'1 %]*2", "[[%]'1,3-4 d'2]*3", "V1: %", "V1: % V2: c d V0:", "[% e '2-3]*4"}
		small := []string{"c", "d+4~", "r8|", "c/e", ">", "(vol 50)", "va*2", "%mm"}
		pre := "va = g8 a\npiano: c %mm "
		ok := func(t string) bool {
			return (strings.Count(t, "V1:") <= 1 || !strings.Contains(t, "V1: V")) && !(strings.Contains(t, "V1:") && strings.Contains(t, "e '2-3"))
		}
		phase := func(name, head, tail string, g *sgen, lo, hi int, opts []fmtOpt) {
			c.Explore(name, func(yield func(string, any) bool) {
				g.all(lo, hi, func(t string) bool {
					x := head + t + tail
					if !ok(x) {
						return true
					}
					return yield(fmt.Sprintf("%q", x), x)
				})
			}, check(opts))
		}
		phase("all elements and constructs", pre, " e", newSgen(leaves, combs), 1, 3, wide)
		phase("three nodes", pre, " e", newSgen(append(small, "c2||~", "c4/>e8~/(vol 20) g", "{c|}2"), combs[:9]), 3, 3, few)
		phase("deeper", pre, " e", newSgen(small[:pick(c.Thorough, 3, 4)], combs[:pick(c.Thorough, 7, 9)]), 4, pick(c.Thorough, 4, 5), few)
		// variable definitions have to stay on their line
		def := []string{"c", "d+4|", "r4|~8", "c/e", ">", "(vol 50)", "va", "{c d}4", "[c d]", "[c [d e]*2]*2", "V1: c V2: d V0:", "{c [d e] f}2", "vb*2", "vc = c", "%mm", "e4 |~"}
		c.Explore("variable definitions", func(yield func(string, any) bool) {
			g := newSgen(def, []string{"[%]*2", "{%}"})
			heads := []string{"va = g8 a\nvb = r\n", "va = g8 a\nvb = r\npiano: c\n", "va = g8 a\nvb = r\npiano: [c\n", "va = c\nvb = d\npiano: {c \n"}
			tails := []string{"\npiano: zz c", "\n zz c", "\nd ]*2", "\nd }2 c"}
			g.all(1, pick(c.Thorough, 3, 4), func(t string) bool {
				if strings.Count(t, "V0:") > 0 && strings.Contains(t, "vc =") {
					return true
				}
				for i := range heads {
					x := heads[i] + "zz = " + t + tails[i]
					if _, err := parser.Parse("", x); err != nil {
						continue // e.g. the line break inside "vc = ... ]"
					}
					if !yield(fmt.Sprintf("%q", x), x) {
						return false
					}
				}
				return true
			})
		}, check(few))
		c.progsPhase("sizes", c.sizePrograms(1), func(key string, v any) *Fail {
			text := Text(v.([]*Node))
			if _, err := parser.Parse("", text); err != nil {
				return nil
			}
			return check([]fmtOpt{{80, "  "}, {20, ""}, {1, " "}})(key, text)
		})
		// every kind of number wherever a number can be
		c.Explore("numbers", func(yield func(string, any) bool) {
			nums := []string{"1", "7", "16", "33", "100", "1000", "65535", "65537", "16777217", "33554433", "123456789", "2147483647", "0.5", "1.5", "0.1", "0.25", "2.125", "33.3", "99.9", "100.01", "0.001", "0.0000001", "3.14159265358979", "123456.789", "1234567.125", "0.333333333333333", "1.0", "2.50", "007", "00.5"}
			for _, a := range nums {
				for _, b := range append([]string{""}, nums...) {
					var ts []string
					if b == "" {
						ts = []string{"c" + a, "c" + a + ".~", "c" + a + "ms", "r" + a + "s", "{c d}" + a, "{c d}" + a + "ms", "(tempo " + a + ")", "(tempo! " + a + ")", "(quant " + a + ")", "(set-duration " + a + ")", "(set-duration-ms " + a + ")", "(note (pitch '(c)) (duration (ms " + a + ") (note-length " + a + ")))"}
						if !strings.Contains(a, ".") && len(a) < 4 {
							ts = append(ts, "c*"+a, "[c]*"+a, "[c'"+a+" d]*2", "[c'"+a+"-"+a+",2 d]*2", "%a"+a, "(vol "+a+")", "(transpose "+a+")", "(transpose -"+a+")", "(midi-channel "+a+")")
							if len(a) < 2 {
								ts = append(ts, "o"+a, "V"+a+": c V0:")
							}
						}
					} else {
						ts = []string{"c" + a + "~" + b, "r" + a + "ms~" + b + "s", "c" + a + "/e" + b, "(metric-modulation " + a + " " + b + ")"}
					}
					for _, t := range ts {
						x := "piano: " + t + " d\n"
						if root, err := parser.Parse("", x); err != nil {
							continue
						} else if _, err := root.Updates(); err != nil {
							continue
						}
						if !yield(fmt.Sprintf("%q", x), x) {
							return
						}
					}
				}
			}
		}, check(few))
		// long lines: n copies of an element, in the text and in a definition
		c.Explore("long lines", func(yield func(string, any) bool) {
			for _, d := range def {
				if strings.Contains(d, "V1:") || strings.Contains(d, " = ") {
					continue
				}
				for n := 1; n <= 90; n += 1 {
					t := strings.Repeat(" "+d, n)
					for i, x := range []string{"va = g8 a\nvb = r\npiano:" + t + " e", "va = g8 a\nvb = r\nzz =" + t + " e\npiano: zz c", "va = g8 a\nvb = r\npiano: [" + t + " ]*2 e", "va = g8 a\nvb = r\nzz = {" + t + " e}2\npiano: [zz V1: zz" + t + " e"} {
						if i == 3 {
							x = "va = g8 a\nvb = r\nzz = {" + t + " e}2\npiano: [zz]*2 V1: zz" + t + " e"
						}
						if strings.Contains(d, "%mm") && i == 3 {
							continue
						}
						if !yield(fmt.Sprintf("%q", x), x) {
							return
						}
					}
				}
			}
		}, check([]fmtOpt{{80, "  "}, {33, "\t"}}))
		// declarations and the layout of several parts
		c.Explore("parts", func(yield func(string, any) bool) {
			ps := []string{"piano: c", "piano:", "violin/piano \"foo\":\n c", "foo.piano: d", "violin \"bar\": V1: c\n V2: d", "midi-acoustic-guitar-nylon: [c]", "(tempo! 90)", "zz = c d\n", "c d"}
			var rec func(t string, n int) bool
			rec = func(t string, n int) bool {
				if t != "" && !yield(fmt.Sprintf("%q", t), t) {
					return false
				}
				if n == 0 {
					return true
				}
				for _, p := range ps {
					if !rec(t+p+"\n", n-1) {
						return false
					}
				}
				return true
			}
			rec("", pick(c.Thorough, 4, 5))
		}, check(wide[:4]))
	})
}

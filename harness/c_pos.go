package main

// P13: source positions.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"alda.io/client/model"
	"alda.io/client/parser"
)

// ptext is a piece of source with the nodes the syntax tree must contain for
// it: type and rune offset within the piece, in document (pre-)order.
type ptext struct {
	text  string
	nodes []pnode
}

type pnode struct {
	ty  string
	off int
}

func runeLen(s string) int { return len([]rune(s)) }

// pt parses the notation "text Type@off Type@off".
func ptx(text string, spec string) ptext {
	var ns []pnode
	for _, f := range strings.Fields(spec) {
		i := strings.LastIndex(f, "@")
		o, err := strconv.Atoi(f[i+1:])
		if err != nil {
			panic(f)
		}
		ns = append(ns, pnode{f[:i], o})
	}
	return ptext{text, ns}
}

// pcat joins pieces with a separator.
func pcat(sep string, ps ...ptext) ptext {
	var out ptext
	for i, p := range ps {
		if i > 0 {
			out.text += sep
		}
		base := runeLen(out.text)
		for _, n := range p.nodes {
			out.nodes = append(out.nodes, pnode{n.ty, n.off + base})
		}
		out.text += p.text
	}
	return out
}

// pwrap: a construct around a body.
func pwrap(open string, nodesBefore string, body ptext, close string, nodesAfter func(bodyEnd int) []pnode) ptext {
	o := ptx(open, nodesBefore)
	base := runeLen(open)
	for _, n := range body.nodes {
		o.nodes = append(o.nodes, pnode{n.ty, n.off + base})
	}
	o.text += body.text + close
	if nodesAfter != nil {
		o.nodes = append(o.nodes, nodesAfter(base+runeLen(body.text))...)
	}
	return o
}

// lineCol converts rune offsets to positions.
func lineCols(text string) (func(off int) [2]int, int) {
	rs := []rune(text)
	pos := make([][2]int, len(rs)+1)
	l, c := 1, 1
	for i, r := range rs {
		pos[i] = [2]int{l, c}
		if r == '\n' {
			l++
			c = 1
		} else {
			c++
		}
	}
	pos[len(rs)] = [2]int{l, c}
	return func(o int) [2]int {
		if o < 0 || o >= len(pos) {
			return [2]int{-1, -1}
		}
		return pos[o]
	}, len(rs)
}

// positionless nodes carry a part of their parent, implicit ones no text of
// their own.
var posSkip = map[string]bool{
	"DenominatorNode": true, "DotsNode": true, "TimesNode": true, "FirstRepetitionNode": true,
	"LastRepetitionNode": true, "RepetitionRangeNode": true, "RootNode": true, "ImplicitPartNode": true,
}

func flattenAST(n parser.ASTNode, parent string, out *[]pnode, pos *[][2]int) {
	ty := n.Type.String()
	skip := posSkip[ty]
	if ty == "EventSequenceNode" {
		switch parent {
		case "PartNode", "ImplicitPartNode", "VoiceNode", "CramNode", "VariableDefinitionNode":
			skip = true
		}
	}
	if !skip {
		*out = append(*out, pnode{ty: strings.TrimSuffix(ty, "Node")})
		*pos = append(*pos, [2]int{n.SourceContext.Line, n.SourceContext.Column})
	}
	for _, k := range n.Children {
		flattenAST(k, ty, out, pos)
	}
}

func checkPositions(key string, p ptext, file string) *Fail {
	root, err := parser.Parse(file, p.text)
	if err != nil {
		return failf(key, "%q is rejected: %v", p.text, err)
	}
	var got []pnode
	var pos [][2]int
	flattenAST(root, "", &got, &pos)
	at, _ := lineCols(p.text)
	var g, w []string
	for i := range got {
		g = append(g, fmt.Sprintf("%s %d:%d", got[i].ty, pos[i][0], pos[i][1]))
	}
	for _, n := range p.nodes {
		q := at(n.off)
		w = append(w, fmt.Sprintf("%s %d:%d", n.ty, q[0], q[1]))
	}
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "(none)", "(none)"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return failf(key, "%q: element %d should be %s, is %s", p.text, i, a, b)
		}
	}
	return nil
}

// leaf elements with their nodes.
func posLeaves() []ptext {
	const L = "Note@0 NoteLetterAndAccidentals@0 NoteLetter@0 "
	return []ptext{
		ptx("c", L),
		ptx("d+8.~", L+"NoteAccidentals@1 Sharp@1 Duration@2 NoteLength@2 Tie@4"),
		ptx("e-_4~8", L+"NoteAccidentals@1 Flat@1 Natural@2 Duration@3 NoteLength@3 NoteLength@5"),
		ptx("f500ms~2s", L+"Duration@1 NoteLengthMs@1 NoteLengthSeconds@7"),
		ptx("r2", "Rest@0 Duration@1 NoteLength@1"),
		ptx("c/>e8", "Chord@0 "+L+"OctaveUp@2 Note@3 NoteLetterAndAccidentals@3 NoteLetter@3 Duration@4 NoteLength@4"),
		ptx("o5", "OctaveSet@0"),
		ptx("<", "OctaveDown@0"),
		ptx("|", "Barline@0"),
		ptx("%mm", "Marker@0"),
		ptx("@mm", "AtMarker@0"),
		ptx("va", "VariableReference@0"),
		ptx("(vol 50)", "LispList@0 LispSymbol@1 LispNumber@5"),
		ptx(`(key-sig '(f (up) "x"))`, `LispList@0 LispSymbol@1 LispQuotedForm@9 LispList@10 LispSymbol@11 LispList@13 LispSymbol@14 LispString@18`),
	}
}

func posSmall() []ptext {
	l := posLeaves()
	return []ptext{l[0], l[1], l[4], l[5], l[7], l[9], l[11], l[12]}
}

func noteP(t string) ptext {
	return ptx(t, "Note@0 NoteLetterAndAccidentals@0 NoteLetter@0")
}

// posCombs are constructs around a body.
func posCombs() []func(sep string, b ptext) (ptext, bool) {
	return []func(sep string, b ptext) (ptext, bool){
		func(sep string, b ptext) (ptext, bool) {
			return pwrap("["+sep, "EventSequence@0", b, sep+"]", nil), true
		},
		func(sep string, b ptext) (ptext, bool) {
			s := pwrap("["+sep, "EventSequence@0", b, sep+"]", nil)
			r := pwrap("", "", s, sep+"*3", nil)
			r.nodes = append([]pnode{{"Repeat", runeLen(s.text) + runeLen(sep)}}, r.nodes...)
			return r, true
		},
		func(sep string, b ptext) (ptext, bool) {
			return pwrap("{"+sep, "Cram@0", b, sep+"}4", func(e int) []pnode {
				return []pnode{{"Duration", e + runeLen(sep) + 1}, {"NoteLength", e + runeLen(sep) + 1}}
			}), true
		},
		func(sep string, b ptext) (ptext, bool) {
			// [c'1 <body> d'2-3]
			return pwrap("[c'1"+sep, "EventSequence@0 OnRepetitions@2 Note@1 NoteLetterAndAccidentals@1 NoteLetter@1 Repetitions@2", b, sep+"d'2-3]", func(e int) []pnode {
				o := e + runeLen(sep)
				return []pnode{{"OnRepetitions", o + 1}, {"Note", o}, {"NoteLetterAndAccidentals", o}, {"NoteLetter", o}, {"Repetitions", o + 1}}
			}), true
		},
		func(sep string, b ptext) (ptext, bool) {
			if strings.Contains(b.text, "V") {
				return ptext{}, false
			}
			return pwrap("V1:"+sep, "VoiceGroup@0 Voice@0 VoiceNumber@0", b, sep+"V0:", func(e int) []pnode {
				return []pnode{{"VoiceGroupEndMarker", e + runeLen(sep)}}
			}), true
		},
		func(sep string, b ptext) (ptext, bool) {
			if strings.Contains(b.text, "V") {
				return ptext{}, false
			}
			return pwrap("V1:"+sep, "VoiceGroup@0 Voice@0 VoiceNumber@0", b, sep+"V2: d V0:", func(e int) []pnode {
				o := e + runeLen(sep)
				return []pnode{{"Voice", o}, {"VoiceNumber", o}, {"Note", o + 4}, {"NoteLetterAndAccidentals", o + 4}, {"NoteLetter", o + 4}, {"VoiceGroupEndMarker", o + 6}}
			}), true
		},
		func(sep string, b ptext) (ptext, bool) {
			if strings.ContainsAny(sep+b.text, "\n") {
				return ptext{}, false
			}
			return pwrap("va ="+sep, "VariableDefinition@3 VariableName@0", b, "\n", nil), true
		},
		func(sep string, b ptext) (ptext, bool) {
			// a part around the body
			return pwrap("piano/violin \"foo\":"+sep, "Part@0 PartDeclaration@0 PartNames@0 PartName@0 PartName@6 PartAlias@13", b, "", nil), true
		},
	}
}

var posSeps = []string{" ", "\n", "\t", " # \u00e9\u4e16 [\n", "\r\n", "\n\n \t"}

var errPosRe = regexp.MustCompile(`^sc\.alda:(\d+):(\d+) `)

func init() {
	register("P13", "model_checking", func(c *Ctx) {
		c.Rule("one evaluation = one source text assembled from elements, constructs and layout with the position of every element computed while assembling it, compared with every node of the real syntax tree; or one text with one failing construct at a computed position, compared with the position in the reported error")
		run := func(key string, v any) *Fail {
			p := v.(ptext)
			c.Trace()
			c.Trans(len(p.nodes))
			c.State(p.text)
			c.Nontrivial()
			c.Outcome(fmt.Sprint(p.nodes))
			return checkPositions(key, p, "")
		}
		heads := []ptext{{}, ptx("# \u4e16\u00e9\n", ""), ptx("\n\t ", ""), ptx("(tempo! 90)\n", "LispList@0 LispSymbol@1 LispNumber@8"), ptx("va = c8 | d\r\n", "VariableDefinition@3 VariableName@0 Note@5 NoteLetterAndAccidentals@5 NoteLetter@5 Duration@6 NoteLength@6 Barline@8 Note@10 NoteLetterAndAccidentals@10 NoteLetter@10")}
		all := posLeaves()
		c.Explore("element sequences", func(yield func(string, any) bool) {
			n := pick(c.Thorough, 3, 4)
			var rec func(p []ptext) bool
			rec = func(p []ptext) bool {
				if len(p) > 0 {
					for _, s := range posSeps {
						for hi, h := range heads {
							if len(p) > 2 && hi > 1 && !c.Thorough {
								continue
							}
							if len(p) > 3 && hi != 1 {
								continue
							}
							x := pcat("", h, ptx("piano:", "Part@0 PartDeclaration@0 PartNames@0 PartName@0"), ptx(s, ""), pcat(s, p...))
							if !yield(fmt.Sprintf("%q", x.text), x) {
								return false
							}
						}
					}
				}
				if len(p) == n {
					return true
				}
				al := all
				if len(p) >= 2 {
					al = posSmall()
				}
				for _, e := range al {
					if !rec(append(append([]ptext{}, p...), e)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, run)
		combs := posCombs()
		c.Explore("nested constructs", func(yield func(string, any) bool) {
			depth := pick(c.Thorough, 3, 4)
			var rec func(b ptext, d int, sep string, part bool) bool
			rec = func(b ptext, d int, sep string, part bool) bool {
				x := pcat("", heads[1], b, ptx(sep, ""), ptx("e4", "Note@0 NoteLetterAndAccidentals@0 NoteLetter@0 Duration@1 NoteLength@1"))
				if !yield(fmt.Sprintf("%q", x.text), x) {
					return false
				}
				if d == 0 || part {
					return true
				}
				for i, cb := range combs {
					last := i == len(combs)-1
					if y, ok := cb(sep, b); ok {
						if !rec(y, d-1, sep, last) {
							return false
						}
						if last {
							continue
						}
						if !rec(pcat(sep, noteP("d"), y), d-1, sep, false) {
							return false
						}
						if !rec(pcat(sep, y, noteP("d")), d-1, sep, false) {
							return false
						}
					}
				}
				return true
			}
			for _, s := range posSeps {
				for _, l := range all {
					if !rec(l, depth, s, false) {
						return
					}
				}
			}
		}, run)

		// far down, far to the right, many of everything
		pianoP := ptx("piano:", "Part@0 PartDeclaration@0 PartNames@0 PartName@0")
		c.Explore("sizes", func(yield func(string, any) bool) {
			emit := func(ps ...ptext) bool {
				x := pcat("", ps...)
				return yield(fmt.Sprintf("%q", x.text), x)
			}
			rp := strings.Repeat
			for n := 1; n <= 130; n++ {
				for _, l := range all {
					for _, pad := range []string{rp("\n", n), rp(" ", n), rp("\t", n), rp("\r\n", n), rp("\n ", n), "#" + rp("\u4e16", n) + "\n", rp("# a\n", n), " " + rp("|", 0) + rp(" \n", n%7) + rp(" ", n)} {
						if !emit(ptx(pad, ""), pianoP, ptx(" ", ""), l, ptx(" ", ""), noteP("d")) || !emit(pianoP, ptx(" ", ""), noteP("d"), ptx(" "+pad, ""), l, ptx(" ", ""), noteP("d")) {
							return
						}
					}
				}
			}
			for n := 1; n <= 60; n++ {
				for _, l := range all {
					for _, sep := range []string{" ", "\n", " # \u00e9\n"} {
						var k []ptext
						for i := 0; i < n; i++ {
							k = append(k, l)
						}
						if !emit(pianoP, ptx(sep, ""), pcat(sep, k...), ptx(sep, ""), noteP("d")) {
							return
						}
					}
				}
				for i, cb := range combs {
					if i == 4 || i == 5 || i == 7 || n > 40 {
						continue // these don't nest
					}
					for _, sep := range []string{" ", "\n"} {
						x, good := noteP("c"), true
						for j := 0; j < n && good; j++ {
							if i == 6 && j > 0 {
								break
							}
							var y ptext
							if y, good = cb(sep, x); good {
								x = y
							}
						}
						if good && !emit(pianoP, ptx(sep, ""), x, ptx(sep, ""), noteP("d")) {
							return
						}
					}
				}
			}
		}, run)

		// ---- errors ----
		type bad struct {
			text     string
			from, to int // the reported position must lie in the construct
			ctx      string
		}
		errs := []bad{
			{"zz", 0, 0, "any"}, {"@zz", 0, 0, "run"}, {"o20 c", 4, 4, "run"}, {"c0", 0, 0, "run"}, {"r0", 0, 0, "run"},
			{"(vol 500)", 0, 8, "any"}, {"(zz 1)", 0, 5, "any"}, {"(vol)", 0, 4, "any"}, {"(quant \"x\")", 0, 10, "any"}, {"(vol 10 (zz))", 0, 12, "any"}, {"(key-sig '(f))", 0, 13, "any"}, {"()", 0, 1, "any"},
			{"$", 0, 0, "parse"}, {"=", 0, 0, "parse"}, {"~", 0, 0, "parse"}, {"\u4e16", 0, 0, "parse"}, {"\"zz\"", 0, 0, "parse"}, {"/", 0, 0, "parse"}, {"+", 0, 0, "parse"}, {"\x07", 0, 0, "parse"},
			{"ch", 0, 0, "any"}, {"cz", 0, 0, "any"}, {"c;", 1, 1, "parse"}, {"c'x", 2, 2, "parse"}, {"c*x", 2, 2, "parse"}, {"o4c", 2, 2, "parse"}, {"V1", 2, 2, "parsend"}, {"%;", 1, 1, "parse"}, {"4", 0, 0, "parse"}, {"8.", 0, 0, "parse"}, {")", 0, 0, "parse"}, {"{}", 0, 0, "parse"}, {"c'1-x", 4, 4, "parse"}, {"c'1,x", 4, 4, "parse"}, {"c'1-2,;", 6, 6, "parse"}, {"c'2,4-;", 6, 6, "parse"}, {"c'2,31-;", 7, 7, "parse"}, {"d8'-", 3, 3, "parse"}, {"d8',", 3, 3, "parse"}, {"c*2x", 3, 3, "parse"}, {"c*21;", 4, 4, "parse"}, {"c*;", 2, 2, "parse"}, {"c * x", 4, 4, "parse"}, {"o44;", 3, 3, "parse"}, {"V12;", 3, 3, "parsend"}, {"@;", 1, 1, "parse"}, {"(vol \u4e16)", 5, 5, "parse"}, {"(vol 5 (\u00e9))", 8, 8, "parse"}, {"(vol [)", 5, 5, "parse"}, {"piano \"f;\"", 8, 8, "parsend"}, {"c/;", 2, 2, "parse"}, {"c/ |", 3, 3, "parse"},
		}
		type ctxt struct{ open, close string }
		ctxs := []ctxt{{"[", "]"}, {"[", "]*2"}, {"{", "}"}, {"{", "}2"}, {"V1: ", " V0:"}, {"[[c d]*2 ", "]*2"}, {"[c'1 ", "]*2"}, {"{c {d e}8 | ", " f}1"}, {"[", " '1-2]*2"}}
		c.Explore("errors", func(yield func(string, any) bool) {
			type ecase struct {
				text     string
				from, to int
				syntax   bool
			}
			_ = ecase{}
			emit := func(head, b4, after, sep string, e bad) bool {
				t := head + b4
				o := runeLen(t)
				x := bad{t + e.text + after, o + e.from, o + e.to, e.ctx}
				return yield(fmt.Sprintf("error %q in %q", e.text, x.text), x)
			}
			depth := pick(c.Thorough, 2, 3)
			for _, head := range []string{"piano: ", "# \u4e16\npiano: c d |\n  ", "va = c d\r\n\tpiano:\n", "piano/violin: c | "} {
				for _, sep := range []string{" ", "\n", "\t", " # \u00e9\n"} {
					for _, e := range errs {
						var rec func(b4, after string, d int) bool
						rec = func(b4, after string, d int) bool {
							af := after
							// a syntax error before a closing ' must not change the token
							if !emit(head, b4, af, sep, e) {
								return false
							}
							if d == 0 {
								return true
							}
							for _, cx := range ctxs {
								if strings.HasPrefix(cx.open, "V") && strings.Contains(after, "V") {
									continue
								}
								if !rec(b4+cx.open+sep, sep2(cx.close, sep)+cx.close+after, d-1) {
									return false
								}
								if !rec(b4+"c"+sep+cx.open+"d"+sep+"|"+sep, sep2(cx.close, sep)+cx.close+sep+"e"+after, d-1) {
									return false
								}
							}
							return true
						}
						if !rec("", sep, depth) {
							return
						}
					}
				}
			}
			for n := 1; n <= 90; n++ { // far away
				for _, e := range errs {
					for _, pad := range []string{strings.Repeat("\n", n), strings.Repeat(" ", n), strings.Repeat("c | %mm ", n), strings.Repeat("# \u00e9\n", n), strings.Repeat("\u0020\r\n", n), strings.Repeat("(vol 10)\n", n)} {
						if !emit("piano: ", pad, " d", " ", e) {
							return
						}
					}
					if n <= 30 && e.ctx != "parsend" {
						for _, cx := range ctxs[:4] {
							if !emit("piano: ", strings.Repeat(cx.open+" c %mm ", n), " "+strings.Repeat(cx.close+" ", n), " ", e) {
								return
							}
							if n > 8 && strings.Contains(cx.close, "*") {
								break
							}
						}
					}
				}
			}
			// inside a variable used later; inside a chord
			for _, e := range errs {
				for _, sep := range []string{" ", "\n"} {
					for _, w := range []string{"", "[", "{"} {
						cl := map[string]string{"": "", "[": " ]*2", "{": " }2"}[w]
						if !emit("", "# x\nva = c | "+w, cl+"\npiano: va"+sep+"d", sep, e) {
							return
						}
						if e.ctx == "run" || e.ctx == "any" && e.text != "zz" && e.text[0] != 'c' {
							if !emit("", "va = c | "+w, cl+"\npiano:\n d va"+sep+"d", sep, e) {
								return
							}
						}
					}
				}
				if e.text == "c0" || e.text == "r0" {
					if !emit("piano: ", "c/", " d", " ", e) || !emit("piano: ", "c/e/", "/f d", " ", e) || !emit("piano: ", "[c/>", "/d]*2", " ", e) {
						return
					}
				}
			}
			// at the end of the text
			for _, x := range []struct {
				t   string
				off int
			}{{"piano: [c d", 11}, {"piano: {c d\n", 12}, {"piano: (vol 50", 14}, {"piano: c \"foo", 13}, {"piano: (vol \"foo\nbar", 20}, {"piano \"foo", 10}, {"piano: c/", 9}, {"piano: [c [d e] {f}", 19}, {"va =", 0}, {"c d\nva = \nc", 4}, {"piano \"foo\" c", 12}, {"piano/: c", 6}, {"piano/violin c", 0}, {"piano/violin/ # \u00e9\n c", 19}} {
				if x.off == 0 && x.t != "va =" {
					continue
				}
				if !yield(fmt.Sprintf("error at %q", x.t), bad{x.t, x.off, x.off, "eof"}) {
					return
				}
			}
			// part declarations
			for _, pr := range []string{"piano: c d\n", "# \u00e9\n", "va = c\n\n", "piano \"foo\": c {d\ne}\n"} {
				for _, d := range []string{"zzzz: c", "piano/zzzz: c", "piano/piano: c", "violin/foo: c", "foo.zz: d"} {
					if d == "violin/foo: c" && !strings.Contains(pr, "foo") || d == "piano/piano: c" && strings.Contains(pr, "foo") {
						continue
					}
					if !yield(fmt.Sprintf("declaration %q %q", pr, d), bad{pr + d, runeLen(pr), runeLen(pr), "decl"}) {
						return
					}
				}
			}
		}, func(key string, v any) *Fail {
			x := v.(bad)
			c.Trace()
			c.State(x.text)
			c.Trans(1)
			err := func() error {
				root, err := parser.Parse("sc.alda", x.text)
				if err != nil {
					return err
				}
				ups, err := root.Updates()
				if err != nil {
					return err
				}
				return model.NewScore().Update(ups...)
			}()
			if err == nil {
				return failf(key, "%q: no error was reported", x.text)
			}
			c.Outcome(err.Error())
			m := errPosRe.FindStringSubmatch(err.Error())
			if m == nil {
				return failf(key, "%q: the error carries no position: %v", x.text, err)
			}
			l, _ := strconv.Atoi(m[1])
			col, _ := strconv.Atoi(m[2])
			at, _ := lineCols(x.text)
			for o := x.from; o <= x.to; o++ {
				if q := at(o); q[0] == l && q[1] == col {
					c.Nontrivial()
					return nil
				}
			}
			q := at(x.from)
			return failf(key, "%q: the failing construct is at %d:%d, the error says %v", x.text, q[0], q[1], err)
		})
	})
}

// sep2: the separator before a closing text.
func sep2(close, sep string) string {
	if strings.HasPrefix(close, "'") || strings.HasPrefix(close, " ") {
		return ""
	}
	return sep
}

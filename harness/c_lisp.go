package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// P26: every built-in with every argument list over a typed domain.

type larg struct {
	text string
	kind byte // 'n' number, 's' string, 'y' symbol, 'l' list, 'x' evaluation error, 'p' pitch, 'd' duration, 'u' score update
	num  float64
	str  string
	key  map[byte]int // lists: the key signature it denotes, if any
	ok   bool         // lists: denotes a key signature
	dur  *Dur
	node *Node
}

func lnum(v float64) larg { return larg{text: num(v), kind: 'n', num: v} }
func lstr(s string) larg  { return larg{text: strconv.Quote(s), kind: 's', str: s} }

// lispDur is the documented syntax of a note length string: N, N.N, dots, ties.
func lispDur(s string, tied bool) *Dur {
	parts := strings.Split(s, "~")
	if !tied && len(parts) != 1 {
		return nil
	}
	for _, p := range parts {
		t := strings.TrimRight(p, ".")
		if t == "" || strings.Trim(t, "0123456789.") != "" || strings.Count(t, ".") > 1 || strings.HasPrefix(t, ".") {
			return nil
		}
		if v, err := strconv.ParseFloat(t, 64); err != nil || v <= 0 {
			return nil
		}
	}
	return D(s)
}

func lispKeyString(s string) (map[byte]int, bool) {
	k := map[byte]int{}
	for _, f := range strings.Fields(s) {
		if len(f) < 2 || f[0] < 'a' || f[0] > 'g' || strings.Trim(f[1:], "+-") != "" {
			return nil, false
		}
		k[f[0]] = strings.Count(f, "+") - strings.Count(f, "-")
	}
	return k, true
}

func beats(d *Dur) float64 { return d.ms(60000) } // one beat per ms

// attrOf is the specification of the attribute functions: nil = must fail.
func attrOf(name string, a []larg) *AttrOp {
	n1 := len(a) == 1 && a[0].kind == 'n'
	s1 := len(a) == 1 && a[0].kind == 's'
	v := 0.0
	if n1 {
		v = a[0].num
	}
	isInt := n1 && v == math.Trunc(v) && math.Abs(v) <= 2147483647
	pct := func(t string) *AttrOp {
		if n1 && v >= 0 && v <= 100 {
			return &AttrOp{Type: t, Val: v / 100}
		}
		return nil
	}
	// length in beats of a number or string argument
	length := func(x larg) (float64, bool) {
		if x.kind == 'n' && x.num > 0 {
			return 4 / x.num, true
		}
		if x.kind == 's' {
			if d := lispDur(x.str, true); d != nil {
				return beats(d), true
			}
		}
		return 0, false
	}
	switch name {
	case "octave":
		if isInt {
			return &AttrOp{Type: "octave", Val: v}
		}
		if len(a) == 1 && a[0].kind == 'y' && a[0].str == "up" {
			return &AttrOp{Type: "octup"}
		}
		if len(a) == 1 && a[0].kind == 'y' && a[0].str == "down" {
			return &AttrOp{Type: "octdown"}
		}
	case "tempo":
		if n1 && v > 0 {
			return &AttrOp{Type: "tempo", Val: v}
		}
		if len(a) == 2 && a[1].kind == 'n' && a[1].num > 0 {
			if b, ok := length(a[0]); ok {
				return &AttrOp{Type: "tempo", Val: b * a[1].num}
			}
		}
	case "metric-modulation":
		if len(a) == 2 {
			x, ok1 := length(a[0])
			y, ok2 := length(a[1])
			if ok1 && ok2 {
				return &AttrOp{Type: "metmod", Val: y / x}
			}
		}
	case "quantization", "quantize", "quant":
		if n1 && v >= 0 {
			return &AttrOp{Type: "quant", Val: v / 100}
		}
	case "volume", "vol":
		return pct("volume")
	case "track-volume", "track-vol":
		return pct("trackvol")
	case "panning", "pan":
		return pct("panning")
	case "set-duration":
		if n1 && v > 0 {
			return &AttrOp{Type: "setdur", Dur: D(num(v) + "beats")}
		}
	case "set-duration-ms":
		if n1 && v > 0 {
			return &AttrOp{Type: "setdur", Dur: D(num(v) + "ms")}
		}
	case "set-note-length":
		if n1 && v > 0 {
			return &AttrOp{Type: "setdur", Dur: D(num(v))}
		}
		if s1 {
			if d := lispDur(a[0].str, true); d != nil {
				return &AttrOp{Type: "setdur", Dur: d}
			}
		}
	case "key-signature", "key-sig":
		if s1 {
			if k, ok := lispKeyString(a[0].str); ok {
				return &AttrOp{Type: "keysig", Key: k}
			}
		}
		if len(a) == 1 && a[0].kind == 'l' && a[0].ok {
			return &AttrOp{Type: "keysig", Key: a[0].key}
		}
	case "transposition", "transpose":
		if isInt {
			return &AttrOp{Type: "transpose", Val: v}
		}
	case "reference-pitch", "tuning-constant":
		if n1 && v > 0 {
			return &AttrOp{Type: "refpitch", Val: v}
		}
	case "midi-channel":
		if isInt && v >= 0 && v <= 15 {
			return &AttrOp{Type: "channel", Val: v}
		}
	default:
		for _, d := range dynLevels {
			if d.name == name && len(a) == 0 {
				return &AttrOp{Type: "dyn", Val: d.vol}
			}
		}
	}
	return nil
}

var attrNames = []string{"octave", "tempo", "metric-modulation", "quantization", "quantize", "quant", "volume", "vol", "track-volume", "track-vol",
	"panning", "pan", "set-duration", "set-duration-ms", "set-note-length", "key-signature", "key-sig", "transposition", "transpose",
	"reference-pitch", "tuning-constant", "midi-channel", "pppppp", "ppppp", "pppp", "ppp", "pp", "p", "mp", "mf", "f", "ff", "fff", "ffff", "fffff", "ffffff", "bogus", "Tempo", "vol!!", "dynamic"}

func ymap(kv ...interface{}) map[byte]int {
	m := map[byte]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)[0]] = kv[i+1].(int)
	}
	return m
}

func lispArgs(thorough bool) []larg {
	out := []larg{}
	nums := []float64{0, 1, 4, 50, 100, 101, -1, 0.5, 2.5, 9, 60}
	if thorough {
		nums = append(nums, 15, 16, -0.5, 99.9, 100.1, 3, 127, 0.001, 12, 200, 8)
	}
	for _, v := range nums {
		out = append(out, lnum(v))
	}
	strs := []string{"4", "2.", "4~8", "f+ c-", "", "x", "4x", "0", "4~"}
	if thorough {
		strs = append(strs, "8..", "0.5", "2.5.", "4~8~16.", "f+ h-", "f+c-", "f", "ff+", " b-  e-- ", "4..x", "~4", "4~~8", "4 ", "-4", "1ms", "f_", "0~4", ".", "4.5.5")
	}
	for _, s := range strs {
		out = append(out, lstr(s))
	}
	list := func(t string, key map[byte]int) larg { return larg{text: t, kind: 'l', key: key, ok: key != nil} }
	sym := func(s string) larg { return larg{text: "'" + s, kind: 'y', str: s} }
	out = append(out, sym("up"), sym("down"), sym("major"),
		list("'(g minor)", keyOf('g', 0, "minor")), list("'(f (sharp) c (sharp sharp))", ymap("f", 1, "c", 2)), list("'(c)", nil), list("'(bb (flat))", nil),
		larg{text: "()", kind: 'x'}, larg{text: "up", kind: 'x'}, larg{text: "(vol 200)", kind: 'x'}, larg{text: "(vol 20)", kind: 'u'})
	if thorough {
		out = append(out, sym("left"), sym("f"), list("'(e flat lydian)", keyOf('e', -1, "lydian")), list("'(e major flat)", nil), list("'(f (sharp) c)", nil), list("'(f (bogus))", nil),
			list("'(h (flat))", nil), list("'(h major)", nil), list("'(e bogus)", nil), list("'(1 major)", nil), list("'(e flat)", nil), list("(list 'a 'major)", keyOf('a', 0, "major")), list("(quote (b flat minor))", keyOf('b', -1, "minor")),
			list("'(b (flat) e (flat) b ())", ymap("b", 0, "e", -1)), list("'(eb major)", nil), larg{text: "(quote)", kind: 'x'}, larg{text: "(1 2)", kind: 'x'}, larg{text: "(quote 1 2)", kind: 'x'},
			larg{text: "(quote 50)", kind: 'n', num: 50}, larg{text: "'50", kind: 'n', num: 50}, larg{text: "'\"4\"", kind: 's', str: "4"}, larg{text: "(note-length 4)", kind: 'd'}, larg{text: "(pitch '(c))", kind: 'p'})
	}
	return out
}

func argTexts(name string, bang string, a []larg) string {
	t := "(" + name + bang
	for _, x := range a {
		t += " " + x.text
	}
	return t + ")"
}

func init() {
	register("P26", "model_checking", func(c *Ctx) {
		c.Rule("one evaluation = one S-expression (function, name, arguments) evaluated by the real client in a score with two parts and compared with its specified effect on all later notes of both parts, or required to fail without an effect")
		args := lispArgs(c.Thorough)
		type cas struct {
			name, bang string
			a          []larg
		}
		run := func(key string, v any) *Fail {
			x := v.(cas)
			op := attrOf(x.name, x.a)
			for _, y := range x.a {
				if y.kind == 'x' {
					op = nil
				}
			}
			text := argTexts(x.name, x.bang, x.a)
			if op != nil && op.Type == "refpitch" {
				return c.checkRefPitch(key, text, op)
			}
			if op == nil {
				op = &AttrOp{Bad: true}
			}
			at := Attr(text, x.bang == "!", *op)
			if op.Bad {
				// in place, in a variable, in a sequence, in a cram: always an error,
				// and the notes before it stand
				for i, prog := range [][]*Node{
					{Pt("", "piano"), N("c"), at, N("d")},
					{Pt("", "piano"), N("c"), VD("vv", N("d"), at)},
					{Pt("", "piano"), N("c"), Sq(N("d"), at)},
					{Pt("", "piano"), N("c"), Cr("2", N("d"), at)},
				} {
					if f := c.compareProgram(key, prog); f != nil {
						return f
					}
					if i == 0 {
						s, _ := realScore(Text(prog))
						if s != nil && len(s.Events) != 1 {
							return failf(key, "%s: the failing expression had an effect: %d notes", text, len(s.Events))
						}
					}
				}
				return nil
			}
			tail := []*Node{N("f"), N("g8"), Ch(N("c"), N("e"))}
			if op.Type == "channel" && op.Val == 9 {
				tail = nil
			}
			prog := append([]*Node{Pt("", "violin"), N("f"), N("c"), Pt("", "piano"), R("r1~1"), N("f4"), at, N("f+"), N("c")}, tail...)
			prog = append(prog, Pt("", "violin"), N("f"), N("c"))
			if f := c.compareProgram(key, prog); f != nil || op.Type != "channel" || op.Val == 9 {
				return f
			}
			s, err := realScore(Text(prog))
			if err != nil {
				return failf(key, "%v", err)
			}
			for _, n := range realNotes(s) {
				if n.Part == 1 && n.Off > 4600 && n.Ch != int(op.Val) {
					return failf(key, "%s: note at %v is on channel %d", text, n.Off, n.Ch)
				}
			}
			return nil
		}
		for n := 0; n <= 2; n++ {
			c.Explore(fmt.Sprintf("%d arguments", n), func(yield func(string, any) bool) {
				for _, name := range attrNames {
					for _, bang := range []string{"", "!"} {
						var rec func(a []larg) bool
						rec = func(a []larg) bool {
							if len(a) == n {
								return yield(argTexts(name, bang, a), cas{name, bang, append([]larg{}, a...)})
							}
							for _, x := range args {
								if !rec(append(a, x)) {
									return false
								}
							}
							return true
						}
						if !rec(nil) {
							return
						}
					}
				}
			}, run)
		}
		// one argument: every number of a range, every short string
		c.Explore("every number", func(yield func(string, any) bool) {
			for _, name := range attrNames {
				for _, bang := range []string{"", "!"} {
					for i := -130; i <= 260; i++ {
						for _, v := range []float64{float64(i), float64(i) + 0.5, float64(i) / 100, float64(i) * 37} {
							x := []larg{lnum(v)}
							if !yield(argTexts(name, bang, x), cas{name, bang, x}) {
								return
							}
						}
					}
				}
			}
		}, run)
		words := func(alpha string, n int, f func(s string) bool) {
			var rec func(s string, n int) bool
			rec = func(s string, n int) bool {
				if !f(s) {
					return false
				}
				if n == 0 {
					return true
				}
				for _, r := range alpha {
					if !rec(s+string(r), n-1) {
						return false
					}
				}
				return true
			}
			rec("", n)
		}
		c.Explore("every length", func(yield func(string, any) bool) {
			words("421.~0x", pick(c.Thorough, 4, 5), func(s string) bool {
				for _, y := range []cas{{"set-note-length", "", []larg{lstr(s)}}, {"tempo", "", []larg{lstr(s), lnum(50)}}, {"metric-modulation", "!", []larg{lstr(s), lnum(4)}}, {"metric-modulation", "", []larg{lnum(2), lstr(s)}}} {
					if !yield(argTexts(y.name, y.bang, y.a), y) {
						return false
					}
				}
				return true
			})
		}, run)
		c.Explore("every key", func(yield func(string, any) bool) {
			words("fbg+- _h", pick(c.Thorough, 4, 5), func(s string) bool {
				y := cas{"key-sig", "", []larg{lstr(s)}}
				return yield(argTexts(y.name, y.bang, y.a), y)
			})
			// every subset of the letters with every accidental
			var rec func(str, list string, k map[byte]int, l int) bool
			rec = func(str, list string, k map[byte]int, l int) bool {
				if l == 7 {
					y := cas{"key-signature", "", []larg{lstr(str)}}
					z := cas{"key-sig", "!", []larg{{text: "'(" + list + ")", kind: 'l', key: k, ok: true}}}
					return yield(argTexts(y.name, y.bang, y.a), y) && (list == "" || yield(argTexts(z.name, z.bang, z.a), z))
				}
				x := "gdaebfc"[l]
				for _, a := range []struct {
					s, w string
					v    int
				}{{}, {"+", "sharp", 1}, {"-", "flat", -1}} {
					k2 := map[byte]int{}
					for i, v := range k {
						k2[i] = v
					}
					s2, l2 := str, list
					if a.v != 0 {
						k2[x] = a.v
						s2 = strings.TrimSpace(str + " " + string(x) + a.s)
						l2 = strings.TrimSpace(list + " " + string(x) + " (" + a.w + ")")
					}
					if !rec(s2, l2, k2, l+1) {
						return false
					}
				}
				return true
			}
			rec("", "", map[byte]int{}, 0)
		}, run)
		// every key by its tonic and scale: letter, accidentals, one scale
		c.Explore("every scale", func(yield func(string, any) bool) {
			syms := []string{"flat", "sharp", "natural", "bogus", "major", "ionian", "dorian", "phrygian", "lydian", "mixolydian", "minor", "aeolian", "locrian"}
			for _, l := range "abcdefgh" {
				var rec func(list []string) bool
				rec = func(list []string) bool {
					if len(list) > 0 {
						acc, ok := 0, l != 'h'
						for i, w := range list {
							last := i == len(list)-1
							switch w {
							case "flat":
								acc--
							case "sharp":
								acc++
							}
							ok = ok && last == (w != "flat" && w != "sharp" && w != "natural")
							ok = ok && w != "bogus"
						}
						a := larg{text: fmt.Sprintf("'(%c %s)", l, strings.Join(list, " ")), kind: 'l', ok: ok}
						if ok {
							a.key = keyOf(byte(l), acc, list[len(list)-1])
						}
						if !yield(argTexts("key-sig", "", []larg{a}), cas{"key-sig", "", []larg{a}}) {
							return false
						}
					}
					if len(list) == pick(c.Thorough, 3, 4) {
						return true
					}
					for _, w := range syms {
						if !rec(append(append([]string{}, list...), w)) {
							return false
						}
					}
					return true
				}
				if !rec(nil) {
					return
				}
			}
		}, run)
		few := []larg{lnum(4), lnum(60), lstr("4"), lstr("f+"), {text: "'up", kind: 'y', str: "up"}}
		c.Explore("3 arguments", func(yield func(string, any) bool) {
			for _, name := range attrNames {
				for _, a := range few {
					for _, b := range few {
						for _, d := range few {
							x := []larg{a, b, d}
							if !yield(argTexts(name, "", x), cas{name, "", x}) {
								return
							}
						}
					}
				}
			}
		}, run)
		c.lispNotes()
	})
}

func (c *Ctx) checkRefPitch(key, text string, op *AttrOp) *Fail {
	s, err := realScore("piano: c " + text + " d")
	if err != nil {
		return failf(key, "%s: %v", text, err)
	}
	if !close6(s.Parts[0].ReferencePitch, op.Val) {
		return failf(key, "%s: reference pitch %v", text, s.Parts[0].ReferencePitch)
	}
	c.Trace()
	return nil
}

// lispNotes: notes and rests built with S-expressions against written ones.
func (c *Ctx) lispNotes() {
	type pv struct {
		text string
		node *Node // nil: an error
	}
	var pitches []pv
	words := map[string]string{"": "", "+": " sharp", "-": " flat", "_": " natural", "++": " sharp sharp", "--": " flat flat"}
	for _, l := range "cdefgab" {
		for _, a := range sortedKeys(words) {
			pitches = append(pitches, pv{fmt.Sprintf("(pitch '(%c%s))", l, words[a]), &Node{K: KNote, Letter: byte(l), Acc: a}})
		}
	}
	for _, m := range []int{-1, 0, 60, 61, 127, 128} {
		pitches = append(pitches, pv{fmt.Sprintf("(midi-note %d)", m), &Node{K: KNote, Midi: m}})
	}
	for _, bad := range []string{"(pitch '())", "(pitch '(h))", "(pitch '(cc))", "(pitch '(c up))", "(pitch 'c)", "(pitch \"c\")", "(pitch)", "(midi-note 60.5)", "(midi-note)", "(midi-note \"60\")", "60", "'c", "(pitch '(c) '(d))", "(pitch '(1))", "(pitch '(c 1))", "(midi-note 60 61)"} {
		pitches = append(pitches, pv{bad, nil})
	}
	type dv struct {
		text string
		d    *Dur
		ok   bool
	}
	durs := []dv{{"", nil, true}}
	comp := []dv{{"(note-length 4)", D("4"), true}, {"(note-length 0.5)", D("0.5"), true}, {"(note-length \"8.\")", D("8."), true}, {"(note-length \"1.5\")", D("1.5"), true}, {"(ms 300)", D("300ms"), true}, {"(ms 0.5)", D("0.5ms"), true}}
	bads := []string{"(note-length 0)", "(note-length -4)", "(note-length \"x\")", "(note-length \"4~\")", "(note-length \"4~4\")", "(note-length \"0\")", "(ms 0)", "(ms -1)", "(ms \"4\")", "(duration)", "(duration 4)", "4", "\"4\"", "(note-length)", "(ms)", "(note-length 4 4)", "(duration (note-length 4) 4)", "'up"}
	durs = append(durs, comp...)
	for _, a := range comp {
		durs = append(durs, dv{"(duration " + a.text + ")", a.d, true})
		for _, b := range comp {
			durs = append(durs, dv{"(duration " + a.text + " " + b.text + ")", D(a.d.Text + "~" + b.d.Text), true})
		}
	}
	for _, b := range bads {
		durs = append(durs, dv{b, nil, false})
	}
	type cas struct {
		p    pv
		d    dv
		slur bool
	}
	c.Explore("notes", func(yield func(string, any) bool) {
		for _, p := range pitches {
			for _, d := range durs {
				for _, s := range []bool{false, true} {
					if !yield(fmt.Sprintf("note %s %s slur=%v", p.text, d.text, s), cas{p, d, s}) {
						return
					}
				}
			}
		}
	}, func(key string, v any) *Fail {
		x := v.(cas)
		text := strings.TrimRight("(note "+x.p.text+" "+x.d.text, " ") + ")"
		if x.slur {
			text = "(slur " + text + ")"
		}
		op := AttrOp{Bad: true}
		if x.p.node != nil && x.d.ok {
			n := *x.p.node
			n.D = x.d.d
			n.Slur = x.slur
			op = AttrOp{Note: &n}
		}
		at := Attr(text, false, op)
		head := []*Node{Pt("", "piano"), KeySig("f+ c-", false), N("c8")}
		for _, mid := range [][]*Node{{at}, {Ch(N("e"), at)}, {Cr("2", at, N("e"))}, {VD("vv", at), VR("vv")}} {
			if mid[0].K == KChord {
				continue // chords of S-expressions are not part of the grammar
			}
			if f := c.compareProgram(key, pre(head, mid, probe)); f != nil {
				return f
			}
		}
		return nil
	})
	c.Explore("rests and other forms", func(yield func(string, any) bool) {
		for _, d := range durs {
			if !yield("pause "+d.text, d) {
				return
			}
		}
		for _, t := range []string{"(slur (pause))", "(slur)", "(slur 1)", "(slur (vol 20))", "(note)", "(pause 4)", "(pause (ms 1) (ms 2))", "(slur (note (pitch '(c))) (note (pitch '(c))))", "()", "(quote)", "(quote 1 2)", "(1)", "(\"x\" 2)", "(nosuch)", "(('vol) 3)", "((quote vol) 50)", "('vol 50)", "(up)", "(bogus (vol 20))", "(note (pitch (c)))", "(vol vol)", "(list nosuch)"} {
			if !yield("bad form "+t, t) {
				return
			}
		}
	}, func(key string, v any) *Fail {
		if t, bad := v.(string); bad {
			return c.compareProgram(key, []*Node{Pt("", "piano"), N("c"), Attr(t, false, AttrOp{Bad: true})})
		}
		d := v.(dv)
		op := AttrOp{Bad: true}
		if d.ok {
			op = AttrOp{Note: &Node{K: KRest, D: d.d}}
		}
		return c.compareProgram(key, pre([]*Node{Pt("", "piano"), N("c8")}, []*Node{Attr(strings.TrimRight("(pause "+d.text, " ")+")", false, op)}, probe))
	})
}

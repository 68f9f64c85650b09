package main

import "strings"

// Checks of the score-building semantics against the reference model.

func workerMain(args []string) {}

// probe exposes the state left behind by a program.
var probe = []*Node{N("c"), N("d4")}

func pre(head []*Node, p []*Node, tail []*Node) []*Node {
	out := make([]*Node, 0, len(head)+len(p)+len(tail))
	out = append(out, head...)
	out = append(out, p...)
	return append(out, tail...)
}

func (c *Ctx) seqPhase(name string, head, alpha, tail []*Node, lo, hi int) {
	c.Explore(name, func(yield func(string, any) bool) {
		seqs(alpha, lo, hi, func(p []*Node) bool {
			prog := pre(head, p, tail)
			return yield(name+": "+Text(prog), prog)
		})
	}, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
}

func (c *Ctx) treePhase(name string, head []*Node, g *treeGen, tail []*Node, lo, hi int) {
	c.Explore(name, func(yield func(string, any) bool) {
		g.forests(lo, hi, func(p []*Node) bool {
			prog := pre(head, p, tail)
			return yield(name+": "+Text(prog), prog)
		})
	}, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
}

func (c *Ctx) listPhase(name string, progs [][]*Node) {
	c.progsPhase(name, progs, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
}

func pick[T any](thorough bool, q, t T) T {
	if thorough {
		return t
	}
	return q
}

var piano = []*Node{Pt("", "piano")}
var duo = []*Node{Pt("", "piano", "violin")}

const ruleProgram = "one evaluation = one Alda program rendered to text, run through the real parser and score builder and compared note by note (part, offset, pitch, length, audible length, volume, panning), plus markers and parts, with the reference model"

// trio: sequences in groups of three parts that are made, named and taken up in
// several ways; what is specific to the property comes on top of the common
// alphabet.
func (c *Ctx) trio(depth int, special ...*Node) {
	heads := map[string][]*Node{
		"":              {Pt("tri", "piano", "violin", "flute"), N("g8")},
		", named parts": {Pt("fa", "piano"), N("c8"), Pt("fb", "violin"), N("e"), Pt("fc", "flute"), N("g4"), Pt("tri", "fa", "fb", "fc")},
		", not named":   {Pt("", "piano", "violin", "flute"), N("g8")},
	}
	for _, name := range sortedKeys(heads) {
		names := []string{"tri", "tri.flute", "tri.violin"}
		switch name {
		case ", named parts":
			names = []string{"tri", "fc", "tri.fb"}
		case ", not named":
			names = []string{"piano/violin/flute", "flute", "violin"}
		}
		alpha := []*Node{N("c"), N("d2")}
		for _, n := range names {
			alpha = append(alpha, Pt("", strings.Split(n, "/")...))
		}
		tail := []*Node{N("c"), Ch(N("e"), N("g"))}
		for _, n := range names {
			tail = append(tail, Pt("", strings.Split(n, "/")...), N("f"), N("a"))
		}
		c.seqPhase("three parts"+name, heads[name], append(alpha, special...), tail, 1, pick(c.Thorough, depth, depth+1))
	}
}

// allChords: chords of up to n members.
func allChords(n int, yield func(ch *Node)) {
	members := []*Node{N("c"), N("d1"), N("e8~"), N("f500ms"), R("r"), R("r1"), R("r8"), Up(), Tempo(240, false), SetDur(0.5, false)}
	timed := func(m *Node) bool { return m.K == KNote || m.K == KRest }
	var rec func(k []*Node)
	rec = func(k []*Node) {
		if len(k) > 1 && timed(k[0]) && timed(k[len(k)-1]) {
			yield(Sub(Ch(k...)))
		}
		if len(k) < n {
			for _, m := range members {
				rec(append(k[:len(k):len(k)], m))
			}
		}
	}
	rec(nil)
}

// chordAttrs: attributes of all kinds between the notes of a chord.
func chordAttrs() (progs [][]*Node) {
	attrs := []*Node{Up(), Down(), Oct(2)}
	for _, g := range []bool{false, true} {
		attrs = append(attrs, Tempo(77, g), Vol(33, g), TrackVol(44, g), Pan(55, g), Quant(30, g), Quant(0, g), Octave(6, g), Transpose(5, g), SetDur(3, g), SetDurMs(250, g), KeySig("c+ e- g+", g), MetMod(4, 2, g), Dyn("pp", g))
	}
	c, e, r := N("c"), N("e2"), R("r8")
	for _, head := range [][]*Node{{Pt("", "piano")}, {Pt("", "violin", "piano")}, {Pt("", "piano"), V(1), N("a"), V(2)}} {
		for _, a := range attrs {
			var chs []*Node
			chs = append(chs, Ch(c, a, e), Ch(e, a, c, a, N("g")), Ch(c, a, r), Ch(r, a, e), Ch(N("c8~"), a, N("g500ms")))
			for _, b := range attrs {
				chs = append(chs, Ch(c, a, b, e), Ch(c, a, N("g1"), b, e))
			}
			for _, ch := range chs {
				progs = append(progs, append(append(append([]*Node{}, head...), N("b8"), Sub(ch)), N("c"), Sub(ch), N("g"), R("r4"), N("e2"), Pt("", "violin"), N("c"), N("d"), N("e1"), N("f1")))
			}
		}
	}
	return progs
}

func init() {
	register("P02", "model_checking", func(c *Ctx) {
		c.Rule(ruleProgram)
		// every single written duration
		var durs []string
		comps := []string{"1", "2", "4", "8", "16", "3", "0.5", "1.5", "4.", "2..", "8...", "1....", "500ms", "2s", "1.5s", "0.25s", "12", "6.", "32", "64", "128", "5", "7.", "100", "333ms", "1ms", "0.75.", "4.....", "2.5.."}
		for _, a := range comps {
			durs = append(durs, a)
			for _, b := range comps {
				durs = append(durs, a+"~"+b)
				if c.Thorough {
					for _, d := range comps {
						durs = append(durs, a+"~"+b+"~"+d)
					}
				} else {
					durs = append(durs, a+"~"+b+"~8.")
				}
			}
		}
		var progs [][]*Node
		for _, d := range durs {
			progs = append(progs, []*Node{piano[0], N("c" + d), N("d"), N("e4")},
				[]*Node{piano[0], Tempo(90, false), R("r" + d), N("d"), N("e" + d + "~"), N("f")},
				[]*Node{piano[0], Ch(N("c"+d), N("e4")), N("d"), Ch(N("c2"), N("e"), N("g"+d)), N("d")})
		}
		c.listPhase("durations", progs)
		alpha := []*Node{N("c"), N("d8"), N("e2."), N("f~"), N("g4~"), R("r"), R("r16"), Ch(N("c"), N("e")), Ch(N("c1"), N("e2"), N("g")), Ch(N("c8~"), R("r2"), N("g16")),
			Tempo(60, false), Quant(50, false), SetDur(2, false), N("a500ms"), N("b4~8")}
		c.listPhase("sizes", sizes02())
		c.seqPhase("sequences", piano, alpha, probe, 1, pick(c.Thorough, 5, 6))
		ext := append(append([]*Node{}, alpha...), Quant(0, false), Quant(150, false), SetDurMs(333, false), MetMod(4, 8, false), Bar(), Sub(Ch(N("c"), Up(), N("e"), Down(), N("g1"))),
			Ch(N("c1"), Tempo(240, false), N("e1")), Ch(N("c2"), SetDur(0.5+0.5, false), N("e4")), N("c1~2."), N("d2s"), Sub(N("c1"), Bar()), Tempo(200.5, false), R("r4.~16"))
		c.seqPhase("extended", piano, ext, probe, 1, 3)
		// chords of all members
		var chords [][]*Node
		allChords(pick(c.Thorough, 4, 5), func(ch *Node) {
			for _, b := range []*Node{SetDur(2, false), N("g16"), Quant(50, false), Tempo(60, false)} {
				chords = append(chords, append([]*Node{piano[0], b, ch}, probe...))
			}
		})
		c.listPhase("chords", chords)
		c.listPhase("attributes in chords", chordAttrs())
		c.seqPhase("two parts at once", duo, alpha, probe, 1, 3)
		sw := []*Node{N("c8"), N("d"), R("r2."), Ch(N("c"), N("e2")), Tempo(60, false), Quant(20, false), Pt("", "piano"), Pt("", "violin"), Pt("", "piano", "violin")}
		c.seqPhase("part switching", piano, sw, append([]*Node{Pt("", "piano", "violin")}, probe...), 1, pick(c.Thorough, 6, 7))
		c.trio(4, R("r2"), Tempo(60, false), Quant(20, false))
		c.mixed()
	})

	register("P03", "model_checking", func(c *Ctx) {
		c.Rule(ruleProgram)
		leaves := []*Node{N("c"), N("d8"), N("e2."), R("r"), R("r16"), Ch(N("c"), N("e2")), Tempo(60, false), SetDur(2, false)}
		combs := []Comb{
			{-1, func(k []*Node) *Node { return Cr("", k...) }},
			{-1, func(k []*Node) *Node { return Cr("2", k...) }},
			{-1, func(k []*Node) *Node { return Cr("4~8", k...) }},
			{1, func(k []*Node) *Node { return repeatOf(k, 2) }},
		}
		// a program must have positive length inside each cram
		ok := func(n *Node) bool { return cramOK(n) }
		var chords [][]*Node
		allChords(pick(c.Thorough, 3, 4), func(ch *Node) {
			for _, d := range []string{"", "2"} {
				chords = append(chords, append([]*Node{piano[0], Cr(d, N("g8"), ch, N("a"))}, probe...),
					append([]*Node{piano[0], SetDur(2, false), Cr(d, ch), N("a")}, probe...),
					append([]*Node{piano[0], Cr(d, N("b2"), Cr("4", ch, ch), N("a"))}, probe...))
			}
		})
		c.listPhase("chords in crams", chords)
		run := func(name string, head []*Node, leaves []*Node, combs []Comb, lo, hi int) {
			g := newTreeGen(leaves, combs)
			c.Explore(name, func(yield func(string, any) bool) {
				g.forests(lo, hi, func(p []*Node) bool {
					has := false
					for _, n := range p {
						if !ok(n) {
							return true
						}
						has = has || hasKind(n, KCram)
					}
					if !has {
						return true
					}
					prog := pre(head, p, probe)
					return yield(name+": "+Text(prog), prog)
				})
			}, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
		}
		run("trees", piano, leaves, combs, 2, pick(c.Thorough, 5, 6))
		c.listPhase("sizes", sizes03())
		run("small alphabet, deep", piano, []*Node{N("c"), N("d8")}, combs[:3], 2, pick(c.Thorough, 7, 8))
		l2 := []*Node{N("c"), N("d8."), N("e500ms"), Quant(50, false), Up(), Oct(3), MetMod(4, 8, false), SetDurMs(300, false), Ch(N("c2"), Up(), N("e")), Bar(), Mk("m"), Vol(30, false), Sub(Sq(N("c16"), N("d")))}
		c2 := []Comb{combs[0], combs[1], {-1, func(k []*Node) *Node { return Cr("1.", k...) }}, {-1, func(k []*Node) *Node { return Cr("700ms", k...) }}, {-1, func(k []*Node) *Node { return Rp(Sq(k...), 3) }}, {-1, func(k []*Node) *Node { return Rp(Sq(append([]*Node{N("a")}, Or(Sq(k...), [2]int{1, 1}))...), 2) }}}
		run("wide alphabet", piano, l2, c2, 2, pick(c.Thorough, 5, 6))
		run("two parts, different tempos", []*Node{Pt("", "piano"), Tempo(90, false), N("c8"), Pt("", "violin"), SetDur(3, false), N("d"), Pt("", "piano", "violin")}, leaves[:6], combs, 2, 4)
		run("inside voices", []*Node{Pt("", "piano"), N("c8"), V(1), N("e2"), V(2)}, leaves[:6], combs, 2, 4)
		run("variables in crams", []*Node{VD("vv", N("c8"), N("d")), VD("ww", Cr("2", N("e"), VR("vv"))), Pt("", "piano")}, []*Node{N("c"), VR("vv"), VR("ww"), Rp(VR("vv"), 2)}, combs, 2, pick(c.Thorough, 6, 7))
		c.trio(4, Cr("2", N("c"), N("d2"), N("e")), Cr("", N("e"), Tempo(60, false), N("c")), Tempo(60, true))
		c.mixed()
	})

	register("P04", "model_checking", func(c *Ctx) {
		c.Rule(ruleProgram)
		rep := func(n int) Comb { return Comb{-1, func(k []*Node) *Node { return repeatOf(k, n) }} }
		on := func(rg ...[2]int) Comb { return Comb{-1, func(k []*Node) *Node { return onRepsOf(k, rg...) }} }
		seq := Comb{-1, func(k []*Node) *Node { return Sq(k...) }}
		run := func(name string, head, leaves []*Node, combs []Comb, tail []*Node, lo, hi int) {
			g := newTreeGen(leaves, combs)
			c.Explore(name, func(yield func(string, any) bool) {
				g.forests(lo, hi, func(p []*Node) bool {
					for _, n := range p {
						if !repOK(n, false) || !cramOK(n) {
							return true
						}
					}
					prog := pre(head, p, tail)
					return yield(name+": "+Text(prog), prog)
				})
			}, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
		}
		run("trees", piano, []*Node{N("c"), N("d8"), Up()}, []Comb{rep(2), rep(3), on([2]int{1, 1}), on([2]int{2, 2}), seq}, probe, 1, pick(c.Thorough, 6, 7))
		c.listPhase("sizes", sizes04())
		run("ranges", piano, []*Node{N("c"), N("e2")}, []Comb{rep(5), on([2]int{1, 3}, [2]int{5, 5}), on([2]int{2, 4}), on([2]int{4, 9})}, probe, 1, pick(c.Thorough, 7, 8))
		run("two active parts", duo, []*Node{N("c"), N("d8")}, []Comb{rep(2), rep(3), on([2]int{1, 1}), on([2]int{2, 3})}, probe, 1, pick(c.Thorough, 6, 7))
		run("other elements", piano, []*Node{N("c"), R("r8"), Ch(N("c"), N("e")), Tempo(90, false), Cr("2", N("c"), N("d")), Down(), Oct(3), Bar()}, []Comb{rep(2), rep(1), on([2]int{2, 2}), seq}, probe, 1, 4)
		run("through variables", []*Node{VD("va", Sq(Or(N("c"), [2]int{1, 1}), Or(N("d"), [2]int{2, 2}))), VD("vb", Rp(Sq(N("e"), VR("va")), 2)), Pt("", "piano")},
			[]*Node{N("g"), VR("va"), VR("vb")}, []Comb{rep(2), rep(3), on([2]int{2, 2})}, probe, 1, pick(c.Thorough, 6, 7))
		run("in voices", []*Node{Pt("", "piano"), V(1), N("c"), V(2)}, []*Node{N("c"), N("d8")}, []Comb{rep(2), rep(3), on([2]int{1, 1}), on([2]int{2, 3})}, append([]*Node{V(0)}, probe...), 1, pick(c.Thorough, 6, 7))
		run("inside crams", piano, []*Node{N("c"), N("d8")}, []Comb{rep(2), on([2]int{1, 1}), on([2]int{2, 2}), {-1, func(k []*Node) *Node { return Cr("2", k...) }}}, probe, 1, pick(c.Thorough, 6, 7))
		c.trio(4, Rp(Sq(N("c"), Up()), 2), Rp(Sq(Or(N("e8"), [2]int{1, 1}), Tempo(90, false), N("c")), 2))
		c.mixed()
	})

	register("P05", "model_checking", func(c *Ctx) {
		c.Rule(ruleProgram)
		alpha := []*Node{N("c"), N("d2"), Up(), Tempo(60, false), V(1), V(2), V(0)}
		c.seqPhase("one part", piano, alpha, probe, 1, pick(c.Thorough, 7, 8))
		a2 := []*Node{N("c"), N("d8"), Ch(N("e"), N("g2")), R("r2"), Vol(20, false), Quant(40, false), Transpose(2, false), V(1), V(2), V(3), V(0), Pt("", "violin"), Pt("", "piano"), Cr("4", N("c"), N("d"))}
		c.listPhase("sizes", sizes05())
		c.seqPhase("wide", piano, a2, probe, 1, pick(c.Thorough, 5, 6))
		a3 := []*Node{N("c"), N("d2"), Oct(6), V(1), V(2), V(0), Pt("", "piano"), Pt("", "violin")}
		c.seqPhase("two active parts", duo, a3, append([]*Node{}, probe...), 1, pick(c.Thorough, 6, 7))
		// after the group ends in every way
		c.seqPhase("ended by a declaration", []*Node{Pt("", "piano"), N("c8"), V(1), N("e")}, []*Node{N("c"), N("d2"), Tempo(60, false), Up(), V(1), V(2)}, append([]*Node{Pt("", "violin"), N("c"), Pt("", "piano")}, probe...), 1, pick(c.Thorough, 6, 7))
		a5 := []*Node{N("c"), N("d2"), V(1), V(2), V(0), Pt("", "foo"), Pt("", "bar"), Pt("", "grp"), Pt("", "grp.foo")}
		c.seqPhase("aliases and groups", []*Node{Pt("foo", "piano"), N("c8"), Pt("bar", "violin"), N("e"), Pt("grp", "foo", "bar")}, a5, append([]*Node{Pt("", "foo"), N("e"), Pt("", "bar")}, probe...), 1, pick(c.Thorough, 5, 6))
		a6 := []*Node{N("c"), N("d2"), V(1), V(2), V(0), Tempo(60, true), Vol(10, true), Mk("m"), At("m")}
		c.seqPhase("globals and markers in voices", []*Node{Pt("", "piano"), N("c"), Mk("m")}, a6, append([]*Node{Pt("", "violin"), N("c"), N("d"), Pt("", "piano")}, probe...), 1, pick(c.Thorough, 5, 6))
		c.trio(4, V(1), V(2), V(0), Up())
		c.mixed()
	})

	register("P06", "model_checking", func(c *Ctx) {
		c.Rule(ruleProgram)
		alpha := []*Node{N("c"), N("d2"), Mk("m1"), Mk("m2"), At("m1"), At("m2"), Pt("", "piano"), Pt("", "violin"), Pt("", "piano", "violin")}
		c.seqPhase("markers", piano, alpha, probe, 1, pick(c.Thorough, 6, 7))
		c.listPhase("sizes", sizes06())
		c.seqPhase("no part", nil, alpha, nil, 1, 3)
		a2 := []*Node{N("c"), Ch(N("c"), N("e8")), R("r2"), Cr("2", N("c"), Mk("m1"), N("e")), V(1), V(2), V(0), Mk("m1"), At("m1"), At("m2"), Tempo(60, false), Tempo(60, true), Rp(Sq(N("c8"), Mk("m2")), 2)}
		c.seqPhase("wide", piano, a2, probe, 1, pick(c.Thorough, 5, 6))
		c.seqPhase("variables", []*Node{VD("vv", N("c8"), Mk("m1"), N("d")), Pt("", "piano")}, []*Node{VR("vv"), At("m1"), N("c"), Pt("", "violin"), Rp(VR("vv"), 2)}, probe, 1, 5)
		c.trio(4, Mk("m1"), At("m1"), R("r2"))
		c.mixed()
	})

	register("P07", "model_checking", func(c *Ctx) {
		c.Rule(ruleProgram)
		alpha := []*Node{
			VD("va", N("c")), VD("va", N("d8"), N("e")), VD("va", VR("vb")), VD("va", VR("va"), N("f")),
			VD("vb", N("g2")), VD("vb", VR("va")), VD("vb", Sq(VR("va"), N("a"))),
			VR("va"), VR("vb"), N("b"),
		}
		c.seqPhase("definitions and references", piano, alpha, nil, 1, pick(c.Thorough, 6, 7))
		a2 := []*Node{
			VD("va", N("c"), N("d8")), VD("va", Ch(N("c"), N("e2"))), VD("va", Tempo(60, false), Up()), VD("va", Cr("4", N("c"), VR("vb"))), VD("va", Rp(VR("vb"), 2)),
			VD("va", Sq(Or(N("c"), [2]int{1, 1}), N("d"))), VD("vb", N("e8")), VD("vb", Up(), VR("va")), VD("va", Mk("mm"), R("r4"), VR("vb")),
			VR("va"), VR("vb"), Rp(VR("va"), 2), Sq(VR("va"), VR("vb")), Cr("2", VR("va"), N("c")), Tempo(90, false), VD("vb", Tempo(60, true), N("c")),
		}
		c.listPhase("sizes", sizes07())
		c.seqPhase("in every construct", piano, a2, probe, 1, pick(c.Thorough, 5, 6))
		c.seqPhase("before and between parts", nil, append([]*Node{Pt("", "piano"), Pt("", "violin")}, alpha...), nil, 1, pick(c.Thorough, 5, 6))
		c.seqPhase("two active parts", duo, a2[:14], probe, 1, 3)
		a3 := []*Node{VD("va", V(1), N("c"), V(2), N("e2"), V(0)), VD("va", V(1), Up(), N("c"), V(2), VR("vb"), V(0)), VD("vb", N("d2"), Up()), VR("va"), VR("vb"), N("c"), Sq(VR("vb"), N("d8")), Rp(VR("vb"), 2), V(0)}
		c.seqPhase("voices in variables", piano, a3, probe, 1, pick(c.Thorough, 6, 7))
		// a reference inside constructs inside constructs, captured when the
		// variable is defined
		wraps := []func(x ...*Node) []*Node{
			func(x ...*Node) []*Node { return []*Node{Sq(x...)} },
			func(x ...*Node) []*Node { return append(append([]*Node{N("c8")}, x...), N("a8")) },
			func(x ...*Node) []*Node { return []*Node{Rp(Sq(x...), 2)} },
			func(x ...*Node) []*Node { return []*Node{Cr("2", append(x, N("f"))...)} },
			func(x ...*Node) []*Node { return []*Node{Rp(Cr("", x...), 2)} },
			func(x ...*Node) []*Node { return []*Node{Rp(Sq(Or(Sq(x...), [2]int{1, 1}), N("b16")), 2)} },
			func(x ...*Node) []*Node { return []*Node{Rp(Sq(N("b16"), Or(Cr("4", x...), [2]int{2, 3})), 3)} },
			func(x ...*Node) []*Node { return append(append([]*Node{V(1)}, x...), V(2), N("e4"), V(0)) },
			func(x ...*Node) []*Node { return []*Node{Tempo(200, false), Sq(append(x, Up())...)} },
		}
		defs := [][]*Node{{N("d8"), N("e")}, {VR("vc")}, {Sq(VR("vc"), N("d4"))}, {Or(VR("vc"), [2]int{1, 1})}}
		c.Explore("nested captures", func(yield func(string, any) bool) {
			var rec func(x []*Node, depth int, voice bool) bool
			emit := func(x []*Node) bool {
				for i, d := range defs {
					if i == 3 {
						d = []*Node{Rp(Sq(d...), 2)}
					}
					for _, n := range []int{0, 1, 2} {
						q := []*Node{Pt("", "piano"), VD("vc", N("f8")), VD("vb", d...), VD("va", x...)}
						switch n {
						case 0:
							q = append(q, VD("vb", N("g2")), VD("vc", N("g1")), VR("va"), VR("vb"))
						case 1:
							q = append(q, VD("vd", Sq(VR("va")), VR("vb")), VD("va", N("g1")), VD("vb", N("g2")), VR("vd"), VR("va"))
						case 2:
							q = append(q, VD("vc", N("g1")), Rp(VR("va"), 2), Pt("", "violin"), VD("vb", VR("va"), VR("vb")), VR("vb"))
						}
						if !yield("nested captures: "+Text(q), append(q, probe...)) {
							return false
						}
					}
				}
				return true
			}
			rec = func(x []*Node, depth int, voice bool) bool {
				if !emit(x) {
					return false
				}
				if depth == 0 {
					return true
				}
				for i, w := range wraps {
					if voice && (i != 1) || i == 7 && depth > 1 {
						continue // voices don't nest in anything that isn't a sequence of events
					}
					if !rec(w(append([]*Node{}, x...)...), depth-1, voice || i == 7) {
						return false
					}
				}
				return true
			}
			rec([]*Node{VR("vb")}, pick(c.Thorough, 3, 4), false)
		}, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
		c.trio(4, VD("va", N("c8"), Up()), VR("va"), VD("va", VR("va"), N("d")))
		c.mixed()
	})

	register("P08", "model_checking", func(c *Ctx) {
		c.Rule(ruleProgram)
		n := N("c")
		decl := func(alias string, names ...string) *Node { return Sub(Pt(alias, names...), n) }
		alpha := []*Node{
			decl("", "piano"), decl("foo", "piano"), decl("bar", "piano"), decl("foo", "violin"), decl("", "violin"), decl("", "foo"), decl("", "bar"),
			decl("", "piano", "violin"), decl("grp", "piano", "violin"), decl("grp", "foo", "bar"), decl("", "foo", "bar"), decl("", "grp"), decl("", "grp.piano"), decl("", "grp.foo"),
			decl("", "piano", "foo"), decl("", "midi-acoustic-grand-piano"), decl("", "nosuch"), decl("", "piano", "piano"), decl("gg", "grp", "foo"), decl("", "foo.piano"), decl("baz", "bar"),
			decl("", "grp", "bar"), decl("", "gg.grp.foo"), decl("foo", "piano", "piano"), decl("grp", "guitar", "piano"), decl("", "gg"),
		}
		c.seqPhase("declarations", nil, alpha, nil, 1, pick(c.Thorough, 4, 5))
		small := []*Node{alpha[0], alpha[1], alpha[2], alpha[4], alpha[5], alpha[7], alpha[8], alpha[9], alpha[11], alpha[12], alpha[13]}
		c.listPhase("sizes", sizes08())
		c.seqPhase("longer histories", nil, small, nil, 4, pick(c.Thorough, 5, 6))
		defs := []*Node{decl("", "piano"), decl("foo", "piano"), decl("bar", "violin"), decl("grp", "piano", "violin"), decl("grp", "foo", "bar"), decl("gg", "grp", "foo"), decl("hh", "foo"), decl("gg", "bar", "violin"), decl("foo", "violin")}
		names := []string{"piano", "violin", "foo", "bar", "grp", "gg", "hh"}
		refs := append([]string{}, names...)
		for _, a := range names {
			for _, b := range names {
				refs = append(refs, a+"."+b)
			}
		}
		refs = append(refs, "gg.grp.foo", "gg.grp.piano", "gg.grp.gg", "gg.foo.piano", "grp.foo.foo")
		c.Explore("every reference", func(yield func(string, any) bool) {
			seqs(defs, 1, pick(c.Thorough, 3, 4), func(p []*Node) bool {
				for _, r := range refs {
					for _, last := range []*Node{decl("", r), decl("zz", r), decl("", r, "foo"), decl("zz", "violin", r)} {
						prog := pre(nil, p, []*Node{last})
						if !yield("every reference: "+Text(prog), prog) {
							return false
						}
					}
				}
				return true
			})
		}, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
		c.Explore("groups of names", func(yield func(string, any) bool) {
			var tuples [][]string
			var rec func(cur []string)
			rec = func(cur []string) {
				if len(cur) > 1 {
					tuples = append(tuples, append([]string{}, cur...))
				}
				if len(cur) < pick(c.Thorough, 4, 5) {
					for _, s := range []string{"piano", "violin", "foo", "bar", "grp", "grp.foo", "guitar"} {
						rec(append(cur, s))
					}
				}
			}
			rec(nil)
			for _, ds := range [][]*Node{nil, {decl("", "piano")}, {decl("foo", "piano")}, {decl("foo", "piano"), decl("bar", "violin")}, {decl("foo", "piano"), decl("bar", "violin"), decl("grp", "bar", "foo")}, {decl("grp", "piano", "violin")}, {decl("grp", "violin", "guitar", "piano")}} {
				for _, names := range tuples {
					for _, alias := range []string{"", "zz"} {
						prog := pre(nil, ds, []*Node{decl(alias, names...), decl("", "foo"), decl("", "zz.violin")})
						prog = prog[:pick(alias == "", len(prog)-1, len(prog))]
						if !yield("groups of names: "+Text(prog), prog) {
							return
						}
					}
				}
			}
		}, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
		c.stockInstruments()
		c.mixed()
	})

	register("P09", "model_checking", func(c *Ctx) {
		c.Rule(ruleProgram)
		alpha := []*Node{N("c"), N("d2"), Tempo(60, false), Tempo(240, true), Vol(20, false), Vol(90, true), Pt("", "piano"), Pt("", "violin")}
		tail := []*Node{Pt("", "violin"), N("c"), N("d"), N("e"), Pt("", "piano"), N("c"), N("d"), N("e")}
		c.seqPhase("two attributes, two parts", piano, alpha, tail, 1, pick(c.Thorough, 6, 7))
		a2 := []*Node{N("c"), Ch(N("c"), N("e")), R("r2"), Quant(50, false), Quant(20, true), KeySig("c+", true), KeySig("c-", false), Transpose(1, true), Transpose(3, false), Octave(2, true), Pt("", "violin"), Pt("", "piano", "violin"), Cr("4", N("c"), N("d")), MetMod(4, 8, true)}
		c.listPhase("sizes", sizes09())
		c.seqPhase("other attributes", piano, a2, tail, 1, pick(c.Thorough, 5, 6))
		a3 := []*Node{N("c"), V(1), V(2), V(0), Tempo(60, true), Tempo(90, false), Pan(10, true), Pan(90, false), Pt("", "violin"), Pt("", "piano")}
		c.seqPhase("in voices", piano, a3, tail, 1, pick(c.Thorough, 5, 6))
		a4 := []*Node{N("c"), N("d2"), Mk("mm"), At("mm"), Tempo(60, true), Vol(20, true), Pt("", "violin"), Pt("", "piano")}
		c.seqPhase("with markers", piano, a4, tail, 1, pick(c.Thorough, 6, 7))
		c.seqPhase("before any part", nil, []*Node{Tempo(60, true), Vol(10, true), Dyn("ff", true), Vol(30, false), N("c"), Pt("", "piano"), TrackVol(20, true), SetDur(2, true)}, tail, 1, pick(c.Thorough, 5, 6))
		// every attribute, local and global, singly and against each other
		mk := []func(bool) *Node{
			func(g bool) *Node { return Tempo(77, g) }, func(g bool) *Node { return Vol(33, g) }, func(g bool) *Node { return TrackVol(44, g) },
			func(g bool) *Node { return Pan(55, g) }, func(g bool) *Node { return Quant(66, g) }, func(g bool) *Node { return Octave(3, g) },
			func(g bool) *Node { return Transpose(5, g) }, func(g bool) *Node { return SetDur(3, g) }, func(g bool) *Node { return SetDurMs(250, g) },
			func(g bool) *Node { return KeySig("c+ d- e--", g) }, func(g bool) *Node { return MetMod(4, 2, g) }, func(g bool) *Node { return Dyn("pp", g) },
			func(g bool) *Node { return Dyn("ffff", g) },
			func(g bool) *Node { return Attr("(octave%G 'up)", g, AttrOp{Type: "octup"}) }, func(g bool) *Node { return Attr("(octave%G 'down)", g, AttrOp{Type: "octdown"}) },
		}
		var progs [][]*Node
		var all []*Node
		for _, m := range mk {
			all = append(all, m(false), m(true))
		}
		// only one change of a kind that can be made in several ways
		group := func(n *Node) string {
			switch n.A.Type {
			case "octup", "octdown":
				return "octave"
			case "metmod":
				return "tempo"
			case "dyn":
				return "volume"
			}
			return n.A.Type
		}
		for _, a := range all {
			for _, b := range all {
				if a.Global != b.Global && group(a) == group(b) && a.A.Type != b.A.Type {
					continue // precedence between different forms of one attribute is not specified
				}
				progs = append(progs,
					[]*Node{Pt("", "piano"), N("c"), a, b, N("d"), N("e"), Pt("", "violin"), N("c"), N("d"), N("e"), N("f1")},
					[]*Node{Pt("", "piano"), a, N("c"), b, N("d"), N("e"), Pt("", "violin"), N("c"), N("d"), N("e"), N("f1")},
					[]*Node{Pt("", "piano"), a, N("c"), Pt("", "violin"), b, N("d"), N("e"), Pt("", "piano"), N("c"), N("d"), N("e"), N("f1")},
					[]*Node{Pt("", "piano", "violin"), a, Ch(N("c"), N("g")), Pt("", "violin"), b, Ch(N("d"), N("f2")), N("e"), Pt("", "piano"), N("c"), N("d")},
				)
			}
		}
		c.listPhase("attribute pairs", progs)
		c.trio(4, Tempo(60, true), Vol(20, true), Tempo(90, false))
		c.mixed()
	})
}

// mixed: everything with everything else, up to a smaller bound. The checks of
// the score's meaning share these phases.
func (c *Ctx) mixed() {
	vv := VD("vv", N("c8"), Ch(N("d"), N("f2")), Cr("4", N("e"), N("g")))
	head := []*Node{vv, Pt("", "piano"), N("g8"), Mk("m0"), N("a")}
	tail := []*Node{N("c"), N("d4"), Pt("", "violin"), N("c"), N("e2"), N("g")}
	inner := []*Node{N("c"), N("d8"), N("e2.~"), N("f+4"), R("r16"), Ch(N("c"), N("e2")), Ch(N("c8"), Up(), N("g1")), Tempo(60, false), Tempo(200, true), Vol(30, false), Quant(40, false), Up(), Oct(3),
		SetDur(2, false), Transpose(3, false), KeySig("c+ e-", false), VR("vv"), MetMod(4, 8, false), Pan(10, true), N("b500ms"), SetDurMs(300, false), Bar()}
	combs := []func(k ...*Node) *Node{
		func(k ...*Node) *Node { return Cr("", k...) },
		func(k ...*Node) *Node { return Cr("1", k...) },
		func(k ...*Node) *Node { return Cr("900ms", k...) },
		func(k ...*Node) *Node { return Sq(k...) },
		func(k ...*Node) *Node { return repeatOf(k, 2) },
		func(k ...*Node) *Node { return Rp(Sq(N("b16"), Or(Sq(k...), [2]int{2, 2})), 3) },
		func(k ...*Node) *Node { return Rp(Sq(Or(Cr("8", k...), [2]int{1, 1}, [2]int{3, 9}), N("a8")), 3) },
	}
	top := []func(k ...*Node) []*Node{
		func(k ...*Node) []*Node { return k },
		func(k ...*Node) []*Node {
			return append(append([]*Node{V(1), N("e2")}, k...), V(2), N("c"), V(0))
		},
		func(k ...*Node) []*Node { return append([]*Node{Pt("", "piano", "violin")}, k...) },
		func(k ...*Node) []*Node {
			return []*Node{VD("ww", k...), N("d"), VR("ww"), Tempo(150, false), VR("ww")}
		},
	}
	c.Explore("mixed nesting", func(yield func(string, any) bool) {
		emit := func(i int, n *Node) bool {
			if !cramOK(n) {
				return true
			}
			prog := pre(head, top[i](n), tail)
			return yield("mixed nesting: "+Text(prog), prog)
		}
		for i := range top {
			for _, a := range combs {
				for _, b := range combs {
					for xi, x := range inner {
						for yi, y := range inner {
							if i > 0 && !c.Thorough && xi%4 != yi%4 {
								continue
							}
							if !emit(i, a(x, b(y, N("c")))) || !emit(i, a(b(x, y), N("d8"))) {
								return
							}
						}
						for _, d := range combs {
							if i > 0 && !c.Thorough {
								break
							}
							if !emit(i, a(b(d(x, N("c")), N("e8")))) {
								return
							}
						}
					}
				}
			}
		}
	}, func(key string, v any) *Fail { return c.compareProgram(key, v.([]*Node)) })
	wide := append(append([]*Node{}, inner...), At("m0"), Mk("m1"), V(1), V(2), V(0), Pt("", "piano"), Pt("", "violin"), Pt("", "piano", "violin"), Pt("pp", "piano"), Cr("2", N("c"), N("d8")), Cr("1", N("c16"), Ch(N("e"), N("g2"))), Rp(Sq(N("c8"), Up()), 2),
		Rp(VR("vv"), 2), VD("vv", N("a2"), N("b")), Vol(90, true), Octave(2, true), Transpose(5, true), Sq(N("c"), Tempo(90, false), Ch(N("c"), N("e8"))), Rp(Sq(Or(N("c"), [2]int{1, 1}), N("d8"), Or(Ch(N("e"), N("g2")), [2]int{2, 3})), 3))
	c.seqPhase("mixed sequences", head, wide, tail, 1, pick(c.Thorough, 3, 4))
}

func hasKind(n *Node, k Kind) bool {
	if n.K == k {
		return true
	}
	for _, x := range n.Kids {
		if hasKind(x, k) {
			return true
		}
	}
	return false
}

// cramOK: every cram contains something of positive length.
func cramOK(n *Node) bool {
	if n.K == KCram {
		some := false
		for _, k := range n.Kids {
			if hasSound(k) {
				some = true
			}
		}
		if !some {
			return false
		}
	}
	for _, k := range n.Kids {
		if !cramOK(k) {
			return false
		}
	}
	return true
}

// hasSound: certainly contributes length (ignoring anything conditional).
func hasSound(n *Node) bool {
	switch n.K {
	case KNote, KRest, KVarRef:
		return true
	case KOnRep:
		return false
	case KRepeat:
		return n.Num > 0 && hasSound(n.Kids[0])
	}
	for _, k := range n.Kids {
		if hasSound(k) {
			return true
		}
	}
	return false
}

// repeatOf builds a syntactically valid repeat of the elements.
func repeatOf(k []*Node, n int) *Node {
	if len(k) == 1 {
		switch k[0].K {
		case KNote, KRest, KChord, KSeq, KCram, KVarRef, KAttr:
			return Rp(k[0], n)
		}
	}
	return Rp(Sq(k...), n)
}

// onRepsOf builds a syntactically valid repetition-numbered element.
func onRepsOf(k []*Node, rg ...[2]int) *Node {
	if len(k) == 1 && k[0].K != KOnRep && k[0].K != KVoice && k[0].K != KVarDef && k[0].K != KBar {
		return Or(k[0], rg...)
	}
	return Or(Sq(k...), rg...)
}

// repOK: repetition numbers occur only directly inside a bracketed sequence
// (the grammar) and only inside some repeat (where they mean something).
func repOK(n *Node, inRep bool) bool { return repOK2(n, inRep, false) }

func repOK2(n *Node, inRep, inSeq bool) bool {
	if n.K == KOnRep && !(inRep && inSeq) {
		return false
	}
	if n.K == KRepeat {
		inRep = true
	}
	for _, k := range n.Kids {
		if !repOK2(k, inRep, n.K == KSeq) {
			return false
		}
	}
	return true
}

package main

import "fmt"

// Every dimension of a program that is a number (how many, how deep, how long)
// is scanned on its own, far beyond the sizes that the exhaustive compositions
// reach.

func manyNotes(n int) []*Node {
	var k []*Node
	for i := 0; i < n; i++ {
		k = append(k, N(string("cdefgab"[i%7])))
	}
	return k
}

// perms calls f with every permutation of 0..n-1.
func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(int)
	rec = func(k int) {
		if k == n {
			f(append([]int{}, p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

var sizeDurs = []string{"", "1", "2", "4.", "8", "3", "16", "500ms", "2s", "1~2", "0.5", "6..", "32", "5"}

func sizes02() [][]*Node {
	var progs [][]*Node
	add := func(k ...*Node) { progs = append(progs, pre(piano, k, probe)) }
	for n := 1; n <= 12; n++ {
		for shift := 0; shift < len(sizeDurs); shift++ {
			// a chord of n members whose lengths differ, slurred or not
			var ch, ch2 []*Node
			for i := 0; i < n; i++ {
				d := sizeDurs[(i+shift)%len(sizeDurs)]
				ch = append(ch, N(string("cdefgab"[i%7])+d))
				if i%3 == 2 {
					ch2 = append(ch2, R("r"+d))
				} else {
					ch2 = append(ch2, N(string("cdefgab"[i%7])+d+[]string{"", "~"}[(i+shift)%2]))
				}
			}
			add(Ch(ch...))
			add(N("c8"), Ch(ch2...), R("r"), Ch(ch...))
			// n tied lengths
			t := ""
			for i := 0; i < n; i++ {
				d := sizeDurs[(i+shift)%len(sizeDurs)]
				if d == "" {
					d = "7"
				}
				if i > 0 {
					t += "~"
				}
				t += d
			}
			add(N("c"+t), N("d"), R("r"+t), N("e"+t+"~"))
		}
		dots := ""
		for i := 0; i < n; i++ {
			dots += "."
		}
		add(N("c4"+dots), N("d"), N("e1"+dots+"~8"+dots), R("r2"+dots))
	}
	// n changes between the notes of a chord, before or after the slash
	chg := []*Node{Up(), Vol(30, false), Down(), Oct(6), Quant(40, false), Pan(20, false), Up(), Vol(70, true), Oct(2), Tempo(90, false)}
	for n := 0; n <= 10; n++ {
		for at := 0; at < len(chg); at++ {
			var k []*Node
			for i := 0; i < n; i++ {
				k = append(k, chg[(at+i)%len(chg)])
			}
			for _, f := range []func(...*Node) *Node{Ch, ChB} {
				add(N("g8"), f(append(append([]*Node{N("c")}, k...), N("e2"), N("g"))...), N("a"))
				add(f(append(append([]*Node{N("c2"), N("e4~")}, k...), N("g"))...), N("a"))
				add(f(append(append(append([]*Node{N("c")}, k...), R("r8")), append(append([]*Node{}, k...), N("b"))...)...), N("a"))
			}
		}
	}
	for n := 1; n <= 60; n++ { // a default length lasts
		add(append([]*Node{N("c8.")}, manyNotes(n)...)...)
		add(append([]*Node{R("r16")}, append(manyNotes(n), Ch(manyNotes(1+n%9)...))...)...)
		add(append([]*Node{SetDur(float64(n), false), Quant(float64(n*3), false)}, manyNotes(3)...)...)
	}
	for q := 0; q <= 220; q += 5 {
		add(Quant(float64(q), false), N("c"), N("d~"), N("e1~2"), R("r"), Ch(N("c"), N("e2~")))
		add(Tempo(float64(q)+0.5, false), N("c"), N("d~"), N("e350ms"), R("r2"), N("f1.5s"), Ch(N("c"), N("e2~")))
	}
	for d := 1; d <= 130; d++ {
		add(N(fmt.Sprintf("c%d", d)), N("d"), N(fmt.Sprintf("e%d.~", d)), R("r"))
		add(N(fmt.Sprintf("c%dms", d*13)), N("d"), R(fmt.Sprintf("r%d.%02ds", d%4, d%100+1)), N("e"))
	}
	return progs
}

func sizes03() [][]*Node {
	var progs [][]*Node
	add := func(k ...*Node) { progs = append(progs, pre(piano, k, probe)) }
	for _, d := range []string{"", "1", "2", "4.", "8", "3", "700ms", "1.5s", "1~2", "0.5", "4~8~16", "2.."} {
		for n := 1; n <= 20; n++ {
			add(Cr(d, manyNotes(n)...))
			add(Cr(d, append([]*Node{N("c8"), Ch(N("e2"), N("g"))}, manyNotes(n)...)...))
			x := Cr(d, N("c"), N("d8"))
			for i := 1; i < n && i < 9; i++ {
				x = Cr([]string{"", "8", d, "2."}[i%4], N("e"), x, N("f4"))
			}
			add(N("g8"), x)
			var ch []*Node
			for i := 0; i < n && i < 10; i++ {
				ch = append(ch, N(string("cdefgab"[i%7])+sizeDurs[i]))
			}
			add(Cr(d, N("a"), Ch(ch...), N("b2")))
		}
		for n := 0; n <= 12; n++ {
			for _, body := range []*Node{N("c"), N("d8"), R("r"), Ch(N("c"), N("e8")), Sq(N("c"), N("d8")), Sq(N("c"), N("d8"), N("e")), Cr("", N("c"), N("d8")), Cr("8", N("c"), N("d")), Sq(SetDur(float64(n+1), false), N("c")), Sq(N("c"), Tempo(60+float64(n), false))} {
				add(Cr(d, N("g"), Rp(body, n), N("a")))
				add(Cr(d, N("g16"), Sq(Rp(body, n), N("f2")), N("a")))
			}
			for _, rg := range [][][2]int{{{1, 1}}, {{2, 2}}, {{1, 1}, {3, 3}}, {{3, 3}, {1, 1}}, {{2, 4}}, {{5, 5}, {2, 3}}, {{1, 9}}} {
				add(Cr(d, N("g"), Rp(Sq(N("c"), Or(N("d8"), rg...), N("e")), n)))
				add(Cr(d, N("g"), Rp(Sq(Or(Cr("2", N("c"), N("d8")), rg...), Or(Sq(N("f8"), R("r")), [2]int{2, 3}), N("e")), n), N("a")))
			}
		}
	}
	for t := 5; t <= 400; t += 35 { // fitting at any tempo, with changes inside
		add(Tempo(float64(t), false), N("c"), Cr("2", N("c"), Tempo(120, false), N("d"), Cr("", N("e"), Tempo(float64(400-t)+1, false), N("f"))))
	}
	// only programs whose crams are not empty in time
	var ok [][]*Node
	for _, p := range progs {
		good := true
		for _, n := range p {
			good = good && cramOK(n)
		}
		if good {
			ok = append(ok, p)
		}
	}
	return ok
}

func sizes04() [][]*Node {
	var progs [][]*Node
	add := func(k ...*Node) { progs = append(progs, pre(piano, k, probe)) }
	bodies := []func() *Node{
		func() *Node { return N("c") }, func() *Node { return N("d8.~") }, func() *Node { return R("r16") }, func() *Node { return Ch(N("c"), N("e2")) },
		func() *Node { return Sq(N("c"), Up(), N("d8")) }, func() *Node { return Cr("2", N("c"), N("d8")) }, func() *Node { return Transpose(1, false) },
		func() *Node { return Sq() }, func() *Node { return Sq(Sq(N("c")), Sq(N("d"))) },
	}
	for _, b := range bodies {
		for n := 0; n <= 40; n++ {
			add(N("g2"), Rp(b(), n))
			add(Rp(Sq(b(), Rp(b(), n)), 2), N("a"))
		}
		x := b()
		for i := 0; i < 7; i++ { // nesting
			x = Rp(Sq(x, N("g16")), 2)
			add(x)
			add(Rp(Sq(Or(x, [2]int{2, 2}), N("a")), 3))
		}
	}
	// every one or two ranges, however they are written, on every repetition
	var rgs [][2]int
	for a := 0; a <= 5; a++ {
		for b := 0; b <= 5; b++ {
			rgs = append(rgs, [2]int{a, b})
		}
	}
	var lists [][][2]int
	for _, r := range rgs {
		lists = append(lists, [][2]int{r})
		for _, s := range rgs {
			lists = append(lists, [][2]int{r, s})
		}
	}
	for _, x := range [][2]int{{3, 3}, {1, 1}, {2, 4}} {
		for _, y := range [][2]int{{1, 1}, {4, 4}, {2, 3}} {
			for _, z := range [][2]int{{2, 2}, {5, 5}, {1, 2}} {
				lists = append(lists, [][2]int{x, y, z}, [][2]int{z, y, x, {7, 7}})
			}
		}
	}
	for _, l := range lists {
		add(Rp(Sq(Or(N("c"), l...), N("d8")), 5))
		add(Rp(Sq(Or(Rp(Sq(N("e"), Or(N("f"), [2]int{2, 2})), 3), l...), N("d8")), 5))
		add(Rp(Sq(N("a8"), Or(Cr("2", N("c"), N("d")), l...), Or(Ch(N("c"), N("g")), [2]int{2, 9})), 6))
	}
	for n := 6; n <= 30; n++ { // far repetitions
		add(Rp(Sq(N("a16"), Or(N("c"), [2]int{n, n}), Or(N("d"), [2]int{n - 2, n + 5}), Or(Up(), [2]int{4, 4}, [2]int{11, 11})), n+2))
	}
	return progs
}

func sizes05() [][]*Node {
	var progs [][]*Node
	lens := []string{"1", "8", "2.", "4", "16", "2", "3", "1~1", "6", "8."}
	add := func(k ...*Node) {
		progs = append(progs, pre(piano, k, probe), pre(piano, append([]*Node{N("g8"), Oct(5)}, k...), probe),
			pre(piano, k, append([]*Node{Pt("", "violin"), N("c"), Pt("", "piano")}, probe...)))
	}
	for n := 1; n <= 10; n++ {
		for shift := 0; shift < len(lens); shift++ {
			var ks []*Node
			for i := 0; i < n; i++ {
				ks = append(ks, V(i+1), N(string("cdefgab"[i%7])+lens[(i+shift)%len(lens)]), Up())
			}
			add(append(append([]*Node{}, ks...), V(0))...)
			add(ks...)
			// descending and large numbers; coming back to each
			var kd []*Node
			for i := n; i >= 1; i-- {
				kd = append(kd, V(i*7), N(string("cdefgab"[i%7])+lens[(i+shift)%len(lens)]), Transpose(i, false))
			}
			for i := 1; i <= n; i++ {
				kd = append(kd, V(i*7), N("e"))
			}
			add(append(append([]*Node{}, kd...), V(0), N("a"), V(7), N("b"), V(0))...)
		}
	}
	// who finishes last, in every order, with the attributes of the last
	perms(4, func(p []int) {
		var ks []*Node
		for i, x := range p {
			ks = append(ks, V(i+1), Oct(i+2), Vol(float64(10*i+10), false), N("c"+lens[[]int{0, 1, 2, 3}[x]]), Quant(float64(20*i+20), false))
		}
		add(append(append([]*Node{}, ks...), V(0))...)
		for i, x := range p { // and continued
			ks = append(ks, V(p[i]+1), N("d"+lens[4+x]))
		}
		add(append(append([]*Node{}, ks...), V(0))...)
	})
	for n := 1; n <= 6; n++ { // several groups in a row, in several parts
		var ks []*Node
		for i := 0; i < n; i++ {
			ks = append(ks, V(1), N("c"+lens[i]), Up(), V(2), N("e"+lens[i+1]), V(3), N("g"+lens[9-i]), V(0), N("f16"))
			if i%2 == 1 {
				ks = append(ks, Pt("", "violin"))
			}
		}
		add(ks...)
	}
	return progs
}

// meetings are ways to get to (or just not to) the end of the first measure;
// their lengths added up in floating point differ by rounding.
func meetings() [][]*Node {
	return [][]*Node{{N("c1")}, {N("c2"), N("d")}, {N("c4"), N("d"), N("e"), N("f")}, {N("c8."), N("d16"), R("r2.")}, {Cr("1", N("c"), N("d"), N("e"))}, {N("c3"), N("c"), N("c")}, {Rp(N("c16"), 16)}, {Rp(N("c12"), 12)},
		{Tempo(60, false), N("c2")}, {N("c2000ms")}, {N("c1999ms")}, {Rp(N("c12"), 11), N("c12.")}, {N("c1.999s")}, {N("c7"), Rp(N("c"), 6)}}
}

func sizes06() [][]*Node {
	var progs [][]*Node
	add := func(k ...*Node) { progs = append(progs, pre(piano, k, probe)) }
	names := []string{"aa", "verse-1", "a1", "m'", "x.y", "long_name", "plus+", "Zz9", "a(b)"}
	for n := 1; n <= 9; n++ {
		var ks []*Node
		for i := 0; i < n; i++ {
			ks = append(ks, N(string("cdefgab"[i%7])+sizeDurs[1+i%7]), Mk(names[i]))
		}
		for j := 0; j < n; j++ {
			add(append(append([]*Node{}, ks...), At(names[j]), N("e2"), At(names[(j*3)%n]), R("r8"), N("f"))...)
			add(append(append([]*Node{}, ks...), Pt("", "violin"), At(names[j]), N("e2"), Tempo(77, false), Mk(names[(j+1)%n]), Pt("", "harp"), At(names[(j+1)%n]))...)
		}
	}
	// the same name placed again and again
	for n := 2; n <= 8; n++ {
		var ks []*Node
		for i := 0; i < n; i++ {
			ks = append(ks, N("c"+sizeDurs[1+i%7]), Mk("mm"), Pt("", []string{"violin", "harp", "piano"}[i%3]), At("mm"))
		}
		add(ks...)
	}
	meet := meetings()
	for i, a := range meet {
		for _, b := range meet {
			k := append(append(append([]*Node{}, a...), Pt("", "violin")), b...)
			add(append(k, Pt("", "piano", "violin"), Mk("mm"), N("c"), Pt("", "harp"), At("mm"))...)
			if i < 4 {
				k3 := append(append(append([]*Node{}, k...), Pt("", "harp")), meet[i]...)
				add(append(k3, Pt("", "piano", "violin", "harp"), Mk("mm"), N("c"))...)
				add(append(k3, Pt("", "harp", "violin", "piano"), Mk("mm"), At("mm"), N("c"))...)
			}
		}
	}
	return progs
}

func sizes07() [][]*Node {
	var progs [][]*Node
	add := func(k ...*Node) {
		progs = append(progs, pre(piano, k, probe))
	}
	vn := func(i int) string {
		return []string{"aa", "bb", "cc2", "dd-x", "ee_y", "ff+", "gg'", "hh9", "ii", "jj", "kk", "ll"}[i]
	}
	elems := []func() *Node{
		func() *Node { return N("c8~") }, func() *Node { return N("d") }, func() *Node { return R("r2") }, func() *Node { return Ch(N("c"), Up(), N("e8")) },
		func() *Node { return Cr("2", N("c"), N("d8")) }, func() *Node { return Cr("", N("c"), Cr("", N("d8"), N("e"))) }, func() *Node { return Rp(N("c16"), 3) },
		func() *Node {
			return Rp(Sq(N("c"), Or(N("d"), [2]int{1, 1}), Or(N("e8"), [2]int{2, 2}, [2]int{3, 3})), 3)
		}, func() *Node { return Sq(N("c"), Sq(N("d"), R("r"))) },
		func() *Node { return Oct(2) }, func() *Node { return Up() }, func() *Node { return Down() }, func() *Node { return Bar() }, func() *Node { return Mk("mk") },
		func() *Node { return Tempo(90, false) }, func() *Node { return Tempo(70, true) }, func() *Node { return Vol(20, false) }, func() *Node { return KeySig("c+ d-", false) },
		func() *Node { return SetDur(0.5, false) }, func() *Node { return Transpose(2, false) }, func() *Node { return Sub(V(1), N("c"), V(2), N("e2"), V(0)) },
	}
	for i, a := range elems {
		for _, b := range elems {
			add(VD("aa", a(), b(), N("g")), N("f"), VR("aa"), N("e"), VR("aa"))
			add(VD("aa", a(), N("g")), VD("bb", VR("aa"), b()), VD("aa", N("c")), VR("bb"), VR("aa"))
			add(VD("aa", N("d")), VD("bb", a(), VR("aa"), b()), VD("aa", N("c2")), Rp(Sq(VR("bb"), VR("aa")), 2))
		}
		if i != 20 {
			add(VD("aa", N("d")), VD("bb", Cr("2", a(), VR("aa"), N("e"))), VD("aa", N("c2")), VR("bb"))
			add(VD("aa", N("d")), VD("bb", Sq(Sq(a(), VR("aa")))), VD("cc", Rp(VR("bb"), 2)), VD("aa", N("c2")), VD("bb", N("e")), VR("cc"), Sq(VR("cc"), VR("bb")))
			add(VD("aa", N("d")), VD("bb", Rp(Sq(Or(VR("aa"), [2]int{2, 2}), Or(a(), [2]int{1, 1})), 3)), VD("aa", N("c2")), VR("bb"))
		}
	}
	for n := 1; n <= 12; n++ { // chains of definitions, then one link replaced
		for r := -1; r < n; r++ {
			var ks []*Node
			for i := 0; i < n; i++ {
				if i == 0 {
					ks = append(ks, VD(vn(0), N("c8")))
				} else {
					ks = append(ks, VD(vn(i), VR(vn(i-1)), N(string("cdefgab"[i%7]))))
				}
			}
			if r >= 0 {
				ks = append(ks, VD(vn(r), N("b2")))
			}
			for i := 0; i < n; i++ {
				ks = append(ks, VR(vn(i)))
			}
			add(ks...)
		}
		var ks []*Node // defined in terms of itself again and again
		ks = append(ks, VD("aa", N("c16")))
		for i := 0; i < n; i++ {
			ks = append(ks, VD("aa", VR("aa"), N("d")))
		}
		add(append(ks, VR("aa"))...)
		add(VD("aa", manyNotes(n)...), VR("aa"), VD("bb", Rp(VR("aa"), n)), VR("bb"), VD("aa", manyNotes(3)...), Rp(VR("bb"), 2))
	}
	return progs
}

func sizes08() [][]*Node {
	var progs [][]*Node
	inst := []string{"piano", "violin", "guitar", "harp", "flute", "oboe", "cello", "tuba", "organ", "banjo", "sitar", "kalimba"}
	al := []string{"aa", "bb", "cc", "dd", "ee", "ff", "gg", "hh", "ii", "jj", "kk", "ll"}
	n := N("c")
	decl := func(a string, names ...string) *Node { return Sub(Pt(a, names...), n) }
	for k := 1; k <= 12; k++ {
		progs = append(progs, []*Node{decl("", inst[:k]...), decl("", inst[k-1]), decl("", inst[0]), decl("", inst[:k]...)})
		progs = append(progs, []*Node{decl("grp", inst[:k]...), decl("", "grp"), decl("", inst[k-1]), decl("", "grp."+inst[k-1]), decl("xx", "grp."+inst[0]), decl("", "xx")})
		var ks, one []*Node
		for i := 0; i < k; i++ {
			ks = append(ks, decl(al[i], inst[i%3]))
			one = append(one, decl(al[i], "piano"))
		}
		progs = append(progs, append(append([]*Node{}, ks...), decl("grp", al[:k]...), decl("", "grp"), decl("", "grp."+al[k-1]), decl("", al[0])))
		progs = append(progs, append(append([]*Node{}, ks...), decl("", al[:k]...), decl("", "piano"), decl("", al[k-1])))
		progs = append(progs, append(append([]*Node{}, one...), decl("grp", al[:k]...), decl("", "grp."+al[0]), decl("", "piano"), decl("mm", "piano")))
		// groups of groups
		ks = append([]*Node{}, decl("aa", "piano"), decl("bb", "violin"))
		prev := []string{"aa", "bb"}
		for i := 2; i < k; i++ {
			ks = append(ks, decl(al[i], prev...))
			prev = []string{al[i], []string{"aa", "bb"}[i%2]}
		}
		if k > 2 && k <= 7 {
			ks = append(ks, decl("", al[k-1]), decl("", al[k-1]+".aa"), decl("", al[k-1]+".bb"), decl("", prev...))
		}
		progs = append(progs, ks)
		// the same instruments named in other orders and repeatedly
		var rev []string
		for i := k - 1; i >= 0; i-- {
			rev = append(rev, inst[i])
		}
		if k > 7 { // two instances of each: no more than 15 channels
			continue
		}
		progs = append(progs, []*Node{decl("", inst[:k]...), decl("", rev...), decl("grp", rev...), decl("", "grp")})
		progs = append(progs, []*Node{decl("aa", inst[:k]...), decl("bb", rev...), decl("cc", "aa", "bb"), decl("", "cc"), decl("", "bb", "aa"), decl("", "cc."+inst[0]), decl("", "bb."+inst[k-1])})
	}
	perms(4, func(p []int) {
		progs = append(progs, []*Node{decl("aa", "piano"), decl("bb", "violin"), decl("cc", "piano"), decl("dd", "harp"), decl("", al[p[0]], al[p[1]], al[p[2]], al[p[3]]), decl("gg", al[p[0]], al[p[1]]), decl("hh", al[p[2]], "gg", al[p[3]]), decl("", "hh"), decl("", "gg", "hh", al[p[0]]), decl("", "hh."+al[p[1]])})
	})
	return progs
}

func sizes09() [][]*Node {
	var progs [][]*Node
	ch := []func(i int) *Node{
		func(i int) *Node { return Tempo(float64(60+10*i), true) }, func(i int) *Node { return Vol(float64(10+10*i), true) }, func(i int) *Node { return Transpose(i+1, true) },
		func(i int) *Node { return Octave(i+1, true) }, func(i int) *Node { return Quant(float64(20+9*i), true) }, func(i int) *Node { return Pan(float64(20+9*i), true) },
		func(i int) *Node { return TrackVol(float64(20+9*i), true) }, func(i int) *Node { return SetDurMs(float64(200+100*i), true) },
	}
	tail := func() []*Node {
		k := []*Node{Pt("", "violin")}
		k = append(k, manyNotes(9)...)
		return append(append(k, Pt("", "piano")), manyNotes(3)...)
	}
	// changes recorded at several offsets, in every order of entering them
	perms(5, func(p []int) {
		for _, f := range ch[:3] {
			k := []*Node{N("c"), Mk("m0"), N("d"), Mk("m1"), N("e"), Mk("m2"), N("f"), Mk("m3"), N("g"), Mk("m4")}
			for i, x := range p {
				k = append(k, At(fmt.Sprint("m", x)), f(i))
			}
			progs = append(progs, pre(piano, k, tail()))
		}
	})
	// many changes at one offset; the last one written wins
	for n := 1; n <= 9; n++ {
		for _, f := range ch {
			var k, k2 []*Node
			for i := 0; i < n; i++ {
				k = append(k, f(i))
				k2 = append(k2, f((i*5)%9), ch[(i+1)%3](i))
			}
			progs = append(progs, pre(piano, append(append([]*Node{N("c")}, k...), N("d"), N("e")), tail()))
			progs = append(progs, pre(piano, append(append([]*Node{N("c"), Pt("", "violin"), N("e"), Pt("", "piano", "violin")}, k2...), N("d"), N("e")), tail()))
			// at n different offsets, the other part has longer notes
			var k3 []*Node
			for i := 0; i < n; i++ {
				k3 = append(k3, f(i), N("c"))
			}
			progs = append(progs, pre(piano, append(k3, Pt("", "violin"), N("c2."), N("d"), N("e"), N("f2"), N("g"), N("a8"), N("b")), tail()))
		}
	}
	// parts that get to the point of a change in different ways
	for _, a := range meetings() {
		for _, b := range meetings() {
			for _, f := range ch {
				k := append(append([]*Node{Pt("", "piano")}, a...), f(1), N("d"), Pt("", "violin"))
				k = append(append(k, b...), N("d"), N("e"))
				progs = append(progs, k)
				k = append(append([]*Node{Pt("", "piano")}, a...), f(1), Pt("", "violin"))
				k = append(append(k, b...), f(2), N("d"), N("e"), Pt("", "piano"), N("d"), N("e"), Pt("", "piano", "violin"), f(3), N("f"))
				progs = append(progs, k)
			}
		}
	}
	// changes between three parts in turn
	for i, f := range ch {
		for j, g := range ch {
			progs = append(progs, []*Node{Pt("", "piano"), N("c"), f(1), N("d"), N("e"), Pt("", "violin"), N("c2"), g(2), N("d"), Pt("", "harp"), N("c8"), f(3), N("d"), N("e2"), g(4), N("f"), Pt("", "violin"), N("f"), N("g"), Pt("", "piano"), N("f"), N("g"), N("a"), Pt("", "harp"), N("g"), N("a1"), N("b")})
			_, _ = i, j
		}
	}
	return progs
}

// sizePrograms: all of them, for the checks that judge something else of the
// same scores (what is sent, exported, formatted, entered piecewise ...). Every
// n-th one is kept, n = 1 in thorough runs.
func (c *Ctx) sizePrograms(n int) [][]*Node {
	var out [][]*Node
	if c.Thorough {
		n = 1
	}
	for _, l := range [][][]*Node{sizes02(), sizes03(), sizes04(), sizes05(), sizes06(), sizes07(), sizes08(), sizes09()} {
		for i := range l {
			if i%n == 0 {
				out = append(out, l[i])
			}
		}
	}
	return out
}

// progsPhase runs an arbitrary check on each of a list of programs.
func (c *Ctx) progsPhase(name string, progs [][]*Node, run func(key string, v any) *Fail) {
	c.Explore(name, func(yield func(string, any) bool) {
		seen := map[string]bool{}
		for _, prog := range progs {
			k := name + ": " + Text(prog)
			if seen[k] {
				continue
			}
			seen[k] = true
			if !yield(k, prog) {
				return
			}
		}
	}, run)
}

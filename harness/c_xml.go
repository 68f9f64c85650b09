package main

// P23: MusicXML import.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/beevik/etree"
)

// importedParts imports a document and plays the text.
func importedParts(xml string) (text string, parts []string, byPart map[string][]heard, err error) {
	text, err = imported(xml)
	if err != nil {
		return "", nil, nil, err
	}
	s, err := realScore(text)
	if err != nil {
		return text, nil, nil, fmt.Errorf("the imported text is rejected: %v", err)
	}
	byPart = map[string][]heard{}
	for i, p := range s.Parts {
		parts = append(parts, fmt.Sprintf("%s#%d", p.StockInstrument.Name(), i))
	}
	for _, n := range realNotes(s) {
		if n.Part < 0 || n.Part >= len(parts) {
			return text, nil, nil, fmt.Errorf("a note has no part")
		}
		k := parts[n.Part]
		byPart[k] = append(byPart[k], heard{n.Midi, n.Off, n.Aud, n.Vol})
	}
	for _, h := range byPart {
		sortHeard(h)
	}
	return text, parts, byPart, nil
}

func (c *Ctx) xmlCase(key string, parts []xpart) *Fail {
	type line struct {
		instr string
		notes []heard
	}
	var want []line
	for _, p := range parts {
		ss, ok := p.meaning()
		if !ok {
			return nil
		}
		instr, first := "midi-acoustic-grand-piano", ""
		if p.unp != nil {
			instr = "midi-percussion"
		} else if p.prog != "" {
			seen := map[int]bool{}
			for _, g := range strings.Split(p.prog, ",") {
				i := 1
				fmt.Sscan(g, &i)
				if instr = gmTable[i-1][0]; !seen[i] && len(seen) > 0 {
					want = append(want, line{instr, heardOf(ss)})
				}
				if len(seen) == 0 {
					first = instr
				}
				seen[i] = true
			}
			instr = first
		}
		want = append(want, line{instr, heardOf(ss)})
	}
	xml := xmlOf(parts)
	show := ""
	for _, w := range want {
		show += "\n  " + w.instr + ":" + showHeard(w.notes)
	}
	text, names, got, err := importedParts(xml)
	if err != nil {
		return failf(key, "%s\n%v\n%s", xml, err, text)
	}
	if text2, _ := imported(xml); text2 != text {
		return failf(key, "%s\nthe same document yields different texts:\n%s\n---\n%s", xml, text, text2)
	}
	shown := ""
	for _, n := range names {
		shown += "\n  " + n + ":" + showHeard(got[n])
	}
	// parts of the same instrument may come in any order; a part without a
	// note need not be there
	left := append([]string{}, names...)
	sort.SliceStable(want, func(i, j int) bool { return len(want[i].notes) > len(want[j].notes) })
	for _, w := range want {
		found := -1
		for i, n := range left {
			if n[:strings.Index(n, "#")] == w.instr && sameHeard(w.notes, got[n]) {
				found = i
				break
			}
		}
		if found < 0 && len(w.notes) > 0 {
			return failf(key, "%s\ndescribes:%s\nthe imported text plays:%s\n%s", xml, show, shown, text)
		}
		if found >= 0 {
			left = append(left[:found], left[found+1:]...)
		}
	}
	for _, n := range left {
		if len(got[n]) > 0 {
			return failf(key, "%s\ndescribes:%s\nthe imported text plays:%s\n%s", xml, show, shown, text)
		}
	}
	c.State(text)
	c.Outcome(shown)
	c.Trans(len(want))
	c.Trace()
	if len(want[0].notes) > 1 {
		c.Nontrivial()
	}
	return nil
}

func init() {
	register("P23", "exploration", func(c *Ctx) {
		c.Rule("one evaluation = one MusicXML document imported by the client, its text evaluated by the client, and its notes compared with an independent interpretation of the document; distinct_nontrivial = documents with at least two notes; distinct_states = distinct imported texts")
		one := func(key string, v any) *Fail {
			return c.xmlCase(key, []xpart{{id: "P1", name: "M", prog: "1", body: v.(string)}})
		}
		bodies := func(yield func(string, any) bool) func(b string) bool {
			return func(b string) bool { return yield(b, b) }
		}
		// all sequences of tokens
		tokens := func(head string, alpha []string, lo, hi int, tail string, yield func(b string) bool) bool {
			var rec func(b string, n int) bool
			rec = func(b string, n int) bool {
				if n >= lo && !yield(head+" "+b+tail) {
					return false
				}
				if n == hi {
					return true
				}
				for _, a := range alpha {
					if !rec(b+a+" ", n+1) {
						return false
					}
				}
				return true
			}
			return rec("", 0)
		}
		c.Explore("pitches", func(yield func(string, any) bool) {
			y := bodies(yield)
			alters := []string{"", "=", "+", "-", "++", "--", "+++", "---"}
			for k := -7; k <= 7; k++ {
				for _, l := range "cdefgab" {
					for o := 0; o <= 9; o++ {
						for _, a := range alters {
							for _, t := range []string{"", "t-2", "t0,-1", "t-9,-1", "t12"} {
								if t != "" && !(c.Thorough || (k+o+len(a))%5 == 0) {
									continue
								}
								n := fmt.Sprintf("%c%s%d:1", l, a, o)
								if !y(fmt.Sprintf("d1 k%d %s %s c4:1 %s | %s", k, t, n, n, n)) {
									return
								}
							}
						}
					}
				}
			}
		}, one)
		c.Explore("accidentals", func(yield func(string, any) bool) {
			y := bodies(yield)
			for k := -7; k <= 7; k++ {
				for _, l := range "fcbe" {
					accs := []string{":1", ":1n", "=:1", "=:1n", "+:1", "-:1", "++:1"}
					var toks []string
					for _, a := range accs {
						i := strings.Index(a, ":")
						toks = append(toks, fmt.Sprintf("%c%s4%s", l, a[:i], a[i:]))
					}
					toks = append(toks, "|", "k0", "k2", "k-3")
					if !tokens(fmt.Sprintf("d1 k%d", k), toks, 2, pick(c.Thorough, 3, 4), "", y) {
						return
					}
				}
			}
		}, one)
		c.Explore("lengths", func(yield func(string, any) bool) {
			y := bodies(yield)
			for _, d := range []int{1, 2, 3, 4, 6, 8, 10, 12, 16, 24, 32, 48, 96, 120, 127, 128, 255, 256, 480, 960, 1024, 10080} {
				for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 20, 24, 32, 64} {
					for _, q := range []int{1, 2, 3, 4, 6, 8, 16} {
						u := n * d
						if u%q != 0 {
							continue
						}
						u /= q
						for _, dots := range []string{"", ".", "..", "..."} {
							if !y(fmt.Sprintf("d%d c4:%d%s e4:%d g5:%d%s | r:%d%s c4:%d", d, u, dots, d, u, dots, u, dots, d)) {
								return
							}
						}
					}
				}
			}
		}, one)
		c.Explore("cursor", func(yield func(string, any) bool) {
			tokens("d2", []string{"c4:2", "e5:1", "&g3:2", "&a4:1", "r:2", "b2", "b3", "f1", "v2", "v1", "|"}, 1, pick(c.Thorough, 5, 6), "c4:1", bodies(yield))
		}, one)
		c.Explore("cursor in other divisions", func(yield func(string, any) bool) {
			for _, d := range []string{"d3", "d8", "d5"} {
				if !tokens(d, []string{"c4:2", "e5:1", "&g3:2", "r:1", "b2", "b1", "f1", "f3", "v2", "v1", "|"}, 1, pick(c.Thorough, 4, 5), "c4:1", bodies(yield)) {
					return
				}
			}
		}, one)
		c.Explore("cursor without voices", func(yield func(string, any) bool) {
			tokens("d2 v0", []string{"c4:2", "e5:1", "&g3:2", "&a4:1", "r:2", "f1", "f2", "|", "d5:1q", "g4:1g"}, 1, pick(c.Thorough, 5, 6), "c4:1", bodies(yield))
		}, one)
		c.Explore("attributes between measures", func(yield func(string, any) bool) {
			tokens("d2", []string{"c4:2", "f5:1", "v2 b2 e3:2 v1", "| k1", "| t2", "| d4", "|", "!ff", "r:2", "| !p r:2"}, 1, pick(c.Thorough, 5, 6), "c4:1", bodies(yield))
		}, func(key string, v any) *Fail {
			// dynamics concern the whole part; the import handles them in the current voice
			if b := v.(string); strings.Contains(b, "!") && strings.Contains(b, "v2") {
				return nil
			}
			return one(key, v)
		})
		c.Explore("ties and chords", func(yield func(string, any) bool) {
			tokens("d1", []string{"c4:1~", "c4:1^", "c4:1^~", "&c4:1~", "&c4:1^", "&c4:1^~", "e5:1", "&e5:1", "e5:1^", "&e5:1~", "|", "r:1", "c4:2^"}, 2, pick(c.Thorough, 5, 6), "g4:1", bodies(yield))
		}, one)
		c.Explore("slurs", func(yield func(string, any) bool) {
			tokens("d1", []string{"c4:1(", "e4:1)", "g4:1", "c4:1)(", "a4:1~(", "a4:1^", "a4:1^)", "a4:1~)", "|", "&b4:1", "r:1"}, 2, pick(c.Thorough, 5, 6), "c5:1", bodies(yield))
		}, one)
		c.Explore("octaves", func(yield func(string, any) bool) {
			tokens("d1", []string{"c4:1", "c2:1", "&c6:1", "c7:1", "r:1", "| k1", "v2 b1 g5:1 v1", "[", "] |"}, 2, pick(c.Thorough, 5, 6), "c4:1", bodies(yield))
		}, one)
		contents := []string{"c4:2", "e6:1 d2:1", "f3:1 &a4:1 r:1", "c4:2 v2 b2 g5:1 a3:1 v1", "r:1 v2 b1 e3:2 v1"}
		c.Explore("repeats", func(yield func(string, any) bool) {
			y := bodies(yield)
			skeletons := []string{
				"M ]", "M | M ]", "[ M ]", "M | [ M ]", "M ] | M", "[ M ] | M", "[ M ] | [ M ]", "M ] | M ]", "[ M ]3 | M", "M ]4", "[ M | M ]3 | M ] | M",
				"M | [ M | M ]", "[ M | M", "M | [ M", "[ M | [ M ] | M", "M | [ M | [ M ]", "[ M ]1 | M",
				"M | e1[ M e1]] | e2[ M e2] | M", "[ M | e1[ M e1]] | e2[ M e2] | M", "M | [ M | e1[ M e1]] | e2[ M e2]",
				"[ M | e1[ M | M e1]] | e2[ M | M e2] | M", "[ M | e1[ M e1]] | e2[ M e2]] | e3[ M e3] | M",
				"[ M | e1,2[ M e1,2]] | e3[ M e3] | M", "M | e1,3[ M e1,3]] | e2,4[ M e2,4] | M", "[ M | e1[ M e1]] | e2,3[ M e2,3] | M",
				"[ e1[ M e1]] | e2[ M e2] | M", "M ] | M | e1[ M e1]] | e2[ M e2] | M", "[ M ] | M | e1[ M e1]] | e2[ M e2] | M ]",
				"[ M | e1[ M e1]] | e2[ M e2] | M ]", "[ M | e1[ M e1]] | e2[ M e2] | [ M ] | [ M | e1[ M e1]] | e2[ M e2]",
				"M | k1 M | [ M ] | k2 M", "k3 M | [ M | e1[ M e1]] | e2[ M e2] | k0 M ]", "k1 M ] | k2 M ]",
			}
			for _, s := range skeletons {
				n := strings.Count(s, "M")
				cs := contents
				if n > 4 && !c.Thorough {
					cs = contents[1:4]
				}
				var rec func(s string) bool
				rec = func(s string) bool {
					i := strings.Index(s, "M")
					if i < 0 {
						return y("d1 " + s)
					}
					for _, m := range cs {
						if !rec(s[:i] + m + s[i+1:]) {
							return false
						}
					}
					return true
				}
				if !rec(s) {
					return
				}
			}
		}, one)
		// parts
		multi := func(key string, v any) *Fail { return c.xmlCase(key, v.([]xpart)) }
		showParts := func(ps []xpart) string {
			s := ""
			for _, p := range ps {
				s += fmt.Sprintf("%s %q prog=%s unpitched=%q: %s\n", p.id, p.name, p.prog, p.unp, p.body)
			}
			return s
		}
		c.Explore("instruments", func(yield func(string, any) bool) {
			for i := 1; i <= 128; i++ {
				ps := []xpart{{id: "P1", name: "M", prog: fmt.Sprint(i), body: "c4:1"}}
				if !yield(showParts(ps), ps) {
					return
				}
			}
			for _, a := range []string{"1", "41", "74", ""} {
				for _, b := range []string{",1", ",41", ",128", ",1,1", ",41,1", ",", ",,2"} {
					for _, o := range []string{"", "41", "1,2"} {
						ps := []xpart{{id: "P1", name: "M", prog: a + b, body: "c4:1 &e4:1 | d4:2 v2 b1 a3:1"}}
						if o != "" {
							ps = append(ps, xpart{id: "P2", name: "N", prog: o, body: "g4:3"})
						}
						if !yield(showParts(ps), ps) {
							return
						}
					}
				}
			}
			for i := 1; i <= 128; i++ {
				for _, k := range []string{"", "k0 ", "k2 ", "k-5 "} {
					ps := []xpart{{id: "P1", name: "Drums", unp: []string{fmt.Sprint(i), "39"}, body: k + "u1:1 u2:1 | u1:1 &u2:1"}}
					if !yield(showParts(ps), ps) {
						return
					}
				}
			}
		}, multi)
		c.Explore("parts", func(yield func(string, any) bool) {
			ids := []string{"P1", "P2", "P10", "P3"}
			kinds := []xpart{{name: "A", prog: "1", body: "c4:1"}, {name: "A", prog: "41", body: "t-2 e4:1"}, {name: "B"}, {name: "Snare Drum", unp: []string{"39"}}, {name: "Snare Drum", unp: []string{"41", "42"}}, {name: ""}, {name: "Toms (4) & 1st", unp: []string{"50"}}, {name: "7", unp: []string{"60"}}}
			var rec func(ps []xpart) bool
			rec = func(ps []xpart) bool {
				if len(ps) > 0 && !yield(showParts(ps), append([]xpart{}, ps...)) {
					return false
				}
				if len(ps) == pick(c.Thorough, 3, 4) {
					return true
				}
				for _, k := range kinds {
					k.id = ids[len(ps)]
					k.name = strings.ReplaceAll(k.name, "&", "&amp;")
					note := "%s%s:%d"
					if k.unp != nil {
						k.body = fmt.Sprintf("u1:%d u1:1", len(ps)+1)
					} else {
						k.body = k.body + fmt.Sprintf(" "+note, "d", "5", len(ps)+1)
					}
					if !rec(append(ps, k)) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
			// other identifiers
			for _, id := range []string{"1", "a", "Part_1", "P-1", "P.1", "violin", "ÄÖ", "P1x", "x1", "id1.2", "p 1"} {
				for _, n := range []int{1, 2, 3} {
					var ps []xpart
					for i := 0; i < n; i++ {
						ps = append(ps, xpart{id: fmt.Sprint(id, strings.Repeat("'", i)), name: "M", prog: "1", body: fmt.Sprintf("c4:%d", i+1)})
					}
					if !yield(showParts(ps), ps) {
						return
					}
				}
			}
		}, multi)
		// malformed documents
		robust := func(key string, v any) *Fail {
			xml := v.(string)
			text, err := imported(xml)
			text2, err2 := imported(xml)
			if (err == nil) != (err2 == nil) || text != text2 || err != nil && err.Error() != err2.Error() {
				return failf(key, "%s\nthe same document yields different results:\n%s %v\n---\n%s %v", xml, text, err, text2, err2)
			}
			c.Trans(1)
			if err != nil {
				c.Outcome(err.Error())
				return nil
			}
			if _, err := parseUpdates(text); err != nil {
				return failf(key, "%s\nthe imported text is rejected: %v\n%s", xml, err, text)
			}
			c.Trace()
			c.State(text)
			return nil
		}
		full := []xpart{
			{id: "P1", name: "M", prog: "41", body: "d2 k1 t-2,1 f4:2 =&a5:1 | c4:2~ &e4:2( | c4:2^ b2 v2 f1 g5:1."},
			{id: "P2", name: "Drums", unp: []string{"39", "50"}, body: "[ !f u1:2 &u2:2 | e1[ u2:1 e1]] | e2[ r:1q u1:1g e2] | k0 u1:2"},
			{id: "P3", name: "N", body: "c+4:1n d0:1 ]3 | r:2 ]"},
		}
		full[0].body = strings.ReplaceAll(full[0].body, "=&a5:1", "&a=5:2")
		full[1].body = strings.ReplaceAll(full[1].body, "r:1q", "c4:1q")
		texts := []string{"", " ", "0", "-1", "1", "2", "3", "x", "1.5", "1e3", "1e18", "-99999999999", "NaN", "Inf", "128", "129", "1000", "&amp;", "\"", "ü", "start", "stop", "forward", "backward", "natural"}
		base := xmlOf(full)
		mutants := func(doc string, full bool, yield func(what, doc string) bool) bool {
			d := etree.NewDocument()
			if d.ReadFromString(doc) != nil {
				return true
			}
			n := 0
			var count func(e *etree.Element)
			count = func(e *etree.Element) {
				n++
				for _, ch := range e.ChildElements() {
					count(ch)
				}
			}
			count(d.Root())
			at := func(i int) (*etree.Document, *etree.Element) {
				d := d.Copy()
				var found *etree.Element
				var walk func(e *etree.Element)
				walk = func(e *etree.Element) {
					if i == 0 {
						found = e
					}
					i--
					for _, ch := range e.ChildElements() {
						walk(ch)
					}
				}
				walk(d.Root())
				return d, found
			}
			for i := 0; i < n; i++ {
				_, e := at(i)
				where := fmt.Sprintf("%d (%s)", i, e.GetPath())
				emit := func(what string, change func(e *etree.Element)) bool {
					d, e := at(i)
					change(e)
					out, _ := d.WriteToString()
					return yield(what+" "+where, out)
				}
				if e.Parent() != nil && e.Parent().Tag != "" {
					if !emit("without element", func(e *etree.Element) { e.Parent().RemoveChild(e) }) ||
						!emit("double element", func(e *etree.Element) { e.Parent().AddChild(e.Copy()) }) ||
						!emit("first element", func(e *etree.Element) { p := e.Parent(); p.RemoveChild(e); p.InsertChildAt(0, e) }) ||
						!emit("last element", func(e *etree.Element) { p := e.Parent(); p.RemoveChild(e); p.AddChild(e) }) ||
						!emit("element in itself", func(e *etree.Element) { e.AddChild(e.Copy()) }) ||
						!emit("element one level up", func(e *etree.Element) {
							if p := e.Parent(); p.Parent() != nil && p.Parent().Tag != "" {
								p.RemoveChild(e)
								p.Parent().AddChild(e)
							}
						}) {
						return false
					}
				}
				if !emit("without content", func(e *etree.Element) { e.Child = nil }) {
					return false
				}
				if !full {
					continue
				}
				for _, tag := range []string{"x", "note", "measure", "part", "score-part", "voice", "chord", "rest", "cue", "grace", "barline", "repeat", "ending", "duration"} {
					if !emit("<"+tag+">", func(e *etree.Element) { e.Tag = tag }) {
						return false
					}
				}
				if len(e.ChildElements()) == 0 {
					for _, t := range texts {
						if !emit(fmt.Sprintf("text %q", t), func(e *etree.Element) { e.SetText(t) }) {
							return false
						}
					}
				}
				for _, a := range e.Attr {
					k := a.Key
					if !emit("without attribute "+k, func(e *etree.Element) { e.RemoveAttr(k) }) {
						return false
					}
					for _, t := range texts {
						if !emit(fmt.Sprintf("attribute %s=%q", k, t), func(e *etree.Element) { e.CreateAttr(k, t) }) {
							return false
						}
					}
				}
			}
			return true
		}
		c.Explore("malformed elements", func(yield func(string, any) bool) {
			mutants(base, true, func(what, doc string) bool { return yield(what, doc) })
		}, robust)
		// documents outside of what the phases above cover: the importer gets
		// these wrong (known_findings.jsonl)
		c.Explore("known limits", func(yield func(string, any) bool) {
			for _, p := range [][2]string{
				{"d1 c4:1~ &e4:1 c4:1^ d4:1", "d1 c4:2 d4:1 v2 b3 e4:1 f2"},
				{"d1 c4:1~ d4:1 c4:1^ e4:1", "d1 c4:1 d4:1 c4:1 e4:1"},
				{"d1 c4:1 | k1 d4:1 ] | e4:1", "d1 c4:1 | d4:1 | c4:1 | d4:1 | e4:1"},
			} {
				if !yield(p[0], p) {
					return
				}
			}
		}, func(key string, v any) *Fail {
			p := v.([2]string)
			xml := xmlOf([]xpart{{id: "P1", name: "M", prog: "1", body: p[0]}})
			ss, ok := xpart{prog: "1", body: p[1]}.meaning()
			if !ok {
				return failf(key, "no meaning: %s", p[1])
			}
			text, names, got, err := importedParts(xml)
			if err != nil || len(names) != 1 || !sameHeard(heardOf(ss), got[names[0]]) {
				return failf(key, "%s\nshould play %s\nplays %v %v\n%s", xml, showHeard(heardOf(ss)), got, err, text)
			}
			return nil
		})
		c.Explore("two malformed elements", func(yield func(string, any) bool) {
			small := xmlOf([]xpart{{id: "P1", name: "M", unp: []string{"39"}, body: "c4:2~ ] | e1[ u1:2 e1]]"}})
			if c.Thorough {
				small = xmlOf([]xpart{{id: "P1", name: "M", prog: "39", body: "d2 k1 t1 c4:2~ &e=4:2 | e1[ c4:2^ e1]] | [ f2 b2 u1:1 ]2"}})
			}
			mutants(small, true, func(what, doc string) bool {
				return mutants(doc, c.Thorough, func(what2, doc string) bool { return yield(what+"; "+what2, doc) })
			})
		}, robust)
		c.Explore("malformed text", func(yield func(string, any) bool) {
			for i := 0; i <= len(base); i++ {
				if !yield(fmt.Sprintf("the first %d bytes", i), base[:i]) {
					return
				}
				if i == len(base) {
					break
				}
				for _, r := range []string{"", "<", ">", "/", "&", "\"", "\x00", "\xff", "0", "-", " ", "</note>", "<note>", "<!--", "]]>"} {
					if !yield(fmt.Sprintf("%q at %d", r, i), base[:i]+r+base[i+1:]) || !yield(fmt.Sprintf("%q before %d", r, i), base[:i]+r+base[i:]) {
						return
					}
				}
			}
		}, robust)
	})
}

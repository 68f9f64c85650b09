package main

// P29: the exported score data.

import (
	stdjson "encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"alda.io/client/json"
	"alda.io/client/model"
	"alda.io/client/parser"
)

type jmap = map[string]any

// jdec decodes what a consumer of the exported data would read.
func jdec(text string) (v any, err error) {
	d := stdjson.NewDecoder(strings.NewReader(text))
	if err = d.Decode(&v); err != nil {
		return nil, err
	}
	if v == nil {
		return nil, fmt.Errorf("the exported JSON is null")
	}
	return v, nil
}

// jp reads required values out of decoded JSON, remembering the first problem.
type jp struct{ err string }

func (p *jp) bad(f string, a ...any) {
	if p.err == "" {
		p.err = fmt.Sprintf(f, a...)
	}
}

func (p *jp) obj(v any, what string) jmap {
	m, ok := v.(jmap)
	if !ok {
		p.bad("%s is not an object: %v", what, v)
		return jmap{}
	}
	return m
}

func (p *jp) get(m jmap, k string) any {
	v, ok := m[k]
	if !ok {
		p.bad("%q is missing in %v", k, m)
	}
	return v
}

func (p *jp) num(m jmap, k string) float64 {
	f, ok := p.get(m, k).(float64)
	if !ok {
		p.bad("%q is not a number in %v", k, m)
	}
	return f
}

func (p *jp) str(m jmap, k string) string {
	s, ok := p.get(m, k).(string)
	if !ok {
		p.bad("%q is not a string in %v", k, m)
	}
	return s
}

func (p *jp) arr(v any, what string) []any {
	a, ok := v.([]any)
	if !ok {
		p.bad("%s is not an array: %v", what, v)
	}
	return a
}

func (p *jp) dur(m jmap) *Dur {
	d := &Dur{}
	for _, c := range p.arr(p.get(m, "components"), "components") {
		o := p.obj(c, "duration component")
		switch {
		case o["denominator"] != nil:
			d.C = append(d.C, DC{Kind: 'n', Val: p.num(o, "denominator"), Dots: int(p.num(o, "dots"))})
		case o["beats"] != nil:
			d.C = append(d.C, DC{Kind: 'b', Val: p.num(o, "beats")})
		case o["ms"] != nil:
			d.C = append(d.C, DC{Kind: 'm', Val: p.num(o, "ms")})
		case o["s"] != nil:
			d.C = append(d.C, DC{Kind: 's', Val: p.num(o, "s")})
		case o["type"] == "barline":
		default:
			p.bad("unknown duration component %v", o)
		}
	}
	return d
}

func (p *jp) optDur(m jmap) *Dur {
	if m["duration"] == nil {
		return nil
	}
	return p.dur(p.obj(m["duration"], "duration"))
}

var accSign = map[string]string{"sharp": "+", "flat": "-", "natural": "_"}

func (p *jp) key(v any) map[byte]int {
	k := map[byte]int{}
	for l, as := range p.obj(v, "key signature") {
		if len(l) != 1 {
			p.bad("bad letter %q", l)
			continue
		}
		for _, a := range p.arr(as, "accidentals") {
			switch a {
			case "sharp":
				k[l[0]|32]++
			case "flat":
				k[l[0]|32]--
			case "natural":
			default:
				p.bad("unknown accidental %v", a)
			}
		}
	}
	return k
}

var jAttr = map[string]string{"tempo": "tempo", "volume": "volume", "track-volume": "trackvol", "panning": "panning",
	"quantization": "quant", "octave": "octave", "transposition": "transpose", "reference-pitch": "refpitch", "midi-channel": "channel"}

// op decodes an attribute change.
func (p *jp) op(m jmap) *AttrOp {
	a := p.str(m, "attribute")
	switch a {
	case "duration":
		return &AttrOp{Type: "setdur", Dur: p.dur(m)}
	case "key-signature":
		return &AttrOp{Type: "keysig", Key: p.key(p.get(m, "value"))}
	case "dynamic-marking":
		mk := p.str(m, "value")
		for _, d := range dynLevels {
			if d.name == mk {
				return &AttrOp{Type: "dyn", Val: d.vol}
			}
		}
		p.bad("unknown dynamic marking %v", m)
		return &AttrOp{Type: "nop"}
	}
	ty, ok := jAttr[a]
	if !ok {
		p.bad("unknown attribute %q", a)
		return &AttrOp{Type: "nop"}
	}
	if a == "tempo" {
		if r, ok := m["value"].(jmap); ok {
			return &AttrOp{Type: "metmod", Val: p.num(r, "ratio")}
		}
	}
	if a == "octave" {
		switch m["value"] {
		case "up":
			return &AttrOp{Type: "octup"}
		case "down":
			return &AttrOp{Type: "octdown"}
		}
	}
	return &AttrOp{Type: ty, Val: p.num(m, "value")}
}

// node decodes a score element into an element of the reference model.
func (p *jp) node(v any) *Node {
	m := p.obj(v, "element")
	ty := p.str(m, "type")
	val := func() jmap { return p.obj(p.get(m, "value"), ty) }
	kids := func() []*Node { return p.nodes(p.get(val(), "events")) }
	switch ty {
	case "note":
		o := val()
		n := &Node{K: KNote, D: p.optDur(o), Slur: o["slurred?"] == true}
		pt := p.obj(p.get(o, "pitch"), "pitch")
		if pt["midi-note"] != nil {
			n.Midi = int(p.num(pt, "midi-note"))
			return n
		}
		l := p.str(pt, "letter")
		if len(l) != 1 {
			p.bad("bad letter %q", l)
			return n
		}
		n.Letter = l[0] | 32
		for _, a := range p.arr(p.get(pt, "accidentals"), "accidentals") {
			s, ok := a.(string)
			if !ok || accSign[s] == "" {
				p.bad("unknown accidental %v", a)
			}
			n.Acc += accSign[s]
		}
		return n
	case "rest":
		return &Node{K: KRest, D: p.optDur(val())}
	case "chord":
		return &Node{K: KChord, Kids: kids()}
	case "cram":
		return &Node{K: KCram, Kids: kids(), D: p.optDur(val())}
	case "event-sequence":
		return &Node{K: KSeq, Kids: kids()}
	case "repeat":
		return &Node{K: KRepeat, Kids: []*Node{p.node(p.get(val(), "event"))}, Num: int(p.num(val(), "times"))}
	case "on-repetitions":
		n := &Node{K: KOnRep, Kids: []*Node{p.node(p.get(val(), "event"))}}
		for _, r := range p.arr(p.get(val(), "repetitions"), "repetitions") {
			o := p.obj(r, "repetition")
			n.Ranges = append(n.Ranges, [2]int{int(p.num(o, "first")), int(p.num(o, "last"))})
		}
		return n
	case "barline":
		return Bar()
	case "voice-marker":
		return V(int(p.num(val(), "number")))
	case "voice-group-end-marker":
		return V(0)
	case "marker":
		return Mk(p.str(val(), "name"))
	case "at-marker":
		return At(p.str(val(), "name"))
	case "variable-reference":
		return VR(p.str(val(), "name"))
	case "variable-definition":
		return VD(p.str(val(), "name"), kids()...)
	case "attribute-update":
		return &Node{K: KAttr, A: p.op(m)}
	case "global-attribute-update":
		return &Node{K: KAttr, A: p.op(m), Global: true}
	}
	p.bad("unknown element type %q", ty)
	return Bar()
}

func (p *jp) nodes(v any) []*Node {
	out := []*Node{}
	for _, e := range p.arr(v, "events") {
		out = append(out, p.node(e))
	}
	return out
}

func durStr(d *Dur) string {
	if d == nil {
		return ""
	}
	return fmt.Sprintf("%.9g/%.9g", d.ms(60), d.ms(120))
}

func opStr(o *AttrOp) string {
	return fmt.Sprintf("%s %.9g %v %s", o.Type, o.Val, keyStr(o.Key), durStr(o.Dur))
}

func keyStr(k map[byte]int) string {
	s := ""
	for _, l := range []byte("abcdefg") {
		if k[l] != 0 {
			s += fmt.Sprintf("%c%+d", l, k[l])
		}
	}
	return s
}

// scoreJSON compares the exported data of a score with the reference model.
func (c *Ctx) scoreJSON(key, text string, r *Ref, s *model.Score) *Fail {
	fail := func(f string, a ...any) *Fail { return failf(key, "program: %s\n"+f, append([]any{text}, a...)...) }
	dec, err := jdec(s.JSON().String())
	if err != nil {
		return fail("%v", err)
	}
	p := &jp{}
	root := p.obj(dec, "score")
	parts := p.obj(p.get(root, "parts"), "parts")
	index := map[string]int{}
	for i, pt := range s.Parts {
		index[pt.ID()] = i
	}
	if len(parts) != len(r.parts) || len(index) != len(r.parts) {
		return fail("expected %d parts, the data lists %d", len(r.parts), len(parts))
	}
	ref := func(v any) int {
		id, _ := v.(string)
		if _, ok := parts[id]; !ok {
			p.bad("identifier %v refers to no listed part", v)
			return -1
		}
		i, ok := index[id]
		if !ok {
			return -1
		}
		return i
	}
	var notes []RNote
	for _, e := range p.arr(p.get(root, "events"), "events") {
		o := p.obj(e, "event")
		notes = append(notes, RNote{Part: ref(o["part"]), Ch: int(p.num(o, "midi-channel")), Midi: int(p.num(o, "midi-note")), Off: p.num(o, "offset"), Dur: p.num(o, "duration"),
			Aud: p.num(o, "audible-duration"), Vol: p.num(o, "volume"), TrackVol: p.num(o, "track-volume"), Pan: p.num(o, "panning")})
	}
	if p.err != "" {
		return fail("%s", p.err)
	}
	if d := diffNotes(r.notes, notes); d != "" {
		return fail("%s", d)
	}
	real := realNotes(s)
	sortCh := func(ns []RNote) map[string]int {
		m := map[string]int{}
		for _, n := range ns {
			m[fmt.Sprintf("%d %d %.3f %d", n.Part, n.Midi, n.Off, n.Ch)]++
		}
		return m
	}
	if a, b := sortCh(real), sortCh(notes); !reflect.DeepEqual(a, b) {
		return fail("channels: expected %v, got %v", a, b)
	}
	list := func(v any) string {
		var ix []int
		for _, e := range p.arr(v, "part list") {
			ix = append(ix, ref(e))
		}
		return fmt.Sprint(ix)
	}
	if g := list(p.get(root, "current-parts")); g != fmt.Sprint(r.cur) {
		return fail("current parts: expected %v, got %s", r.cur, g)
	}
	al := p.obj(p.get(root, "aliases"), "aliases")
	if len(al) != len(r.aliases) {
		return fail("aliases: expected %v, got %v", r.aliases, al)
	}
	for a, ps := range r.aliases {
		if g := list(p.get(al, a)); g != fmt.Sprint(ps) {
			return fail("alias %s: expected %v, got %s", a, ps, g)
		}
	}
	mk := p.obj(p.get(root, "markers"), "markers")
	if len(mk) != len(r.markers) {
		return fail("markers: expected %v, got %v", r.markers, mk)
	}
	for m, o := range r.markers {
		if !close6(p.num(mk, m), o) {
			return fail("markers: expected %v, got %v", r.markers, mk)
		}
	}
	// parts
	for id, v := range parts {
		pt := p.obj(v, "part")
		i := index[id]
		rp := r.parts[i]
		st := rp.st
		eq := func(k string, w float64) {
			if g := p.num(pt, k); !close6(g, w) {
				p.bad("part %d: %s: expected %v, got %v", i, k, w, g)
			}
		}
		if rp.voices == nil { // the state of a part with an open voice group is that of its voices
			eq("tempo", st.tempo)
			eq("transposition", float64(st.trans))
			eq("reference-pitch", st.refp)
			eq("current-offset", st.off)
			eq("octave", float64(st.oct))
			eq("volume", st.vol)
			eq("track-volume", st.tv)
			eq("panning", st.pan)
			eq("quantization", st.quant)
			if g := durStr(p.dur(p.obj(p.get(pt, "duration"), "duration"))); g != durStr(st.dur) {
				p.bad("part %d: duration: expected %s, got %s", i, durStr(st.dur), g)
			}
			if g := keyStr(p.key(p.get(pt, "key-signature"))); g != keyStr(st.key) {
				p.bad("part %d: key signature: expected %s, got %s", i, keyStr(st.key), g)
			}
		}
		if g := p.str(pt, "name"); g != rp.name {
			p.bad("part %d: name: expected %s, got %s", i, rp.name, g)
		}
		if g := p.str(pt, "stock-instrument"); g != rp.stock {
			p.bad("part %d: stock instrument: expected %s, got %s", i, rp.stock, g)
		}
		if role := p.str(pt, "tempo-role"); (role == "master") != (i == 0) {
			p.bad("part %d: tempo role %q", i, role)
		}
		want := map[float64]float64{}
		for _, t := range rp.tempos {
			want[t.off] = t.tempo
		}
		tv := p.obj(p.get(pt, "tempo-values"), "tempo-values")
		if msg := sameOffsets(want, tv, func(w float64, g any) bool { f, ok := g.(float64); return ok && close6(w, f) }); msg != "" {
			p.bad("part %d: tempo values: %s", i, msg)
		}
	}
	// global attributes
	ga := p.obj(p.get(root, "global-attributes"), "global-attributes")
	want := map[float64]string{}
	for _, g := range r.globals {
		for _, o := range g.ops {
			want[g.off] += opStr(o) + "; "
		}
	}
	if msg := sameOffsets(want, ga, func(w string, g any) bool {
		s := ""
		for _, o := range p.arr(g, "changes") {
			s += opStr(p.op(p.obj(o, "change"))) + "; "
		}
		return s == w
	}); msg != "" {
		p.bad("global attributes: %s", msg)
	}
	// variables: the exported definition plays what the variable plays
	vs := p.obj(p.get(root, "variables"), "variables")
	if len(vs) != len(r.vars) {
		p.bad("variables: expected %d, got %v", len(r.vars), vs)
	}
	for _, name := range sortedKeys(r.vars) {
		play := func(body []*Node) (string, error) {
			x := NewRef()
			x.markers["mm"], x.markers["nn"] = 1000, 250
			err := x.Run(pre([]*Node{Pt("", "piano"), KeySig("f+", false)}, body, append([]*Node{V(0)}, probe...)))
			sortNotes(x.notes)
			return fmt.Sprintf("%v %v %s %v", x.notes, x.markers, x.Canon(), globalsStr(x)), err
		}
		body := p.nodes(p.get(vs, name))
		if p.err != "" {
			break
		}
		w, werr := play(r.vars[name])
		g, gerr := play(body)
		c.Trans(2)
		if (werr != nil) != (gerr != nil) || w != g {
			return fail("variable %s: the exported definition %v\nplays %s %v\nthe variable plays %s %v", name, vs[name], g, gerr, w, werr)
		}
	}
	if p.err != "" {
		return fail("%s", p.err)
	}
	if s := r.Canon(); true {
		c.State(s)
	}
	c.Trace()
	if len(r.notes) > 0 {
		c.Nontrivial()
	}
	return nil
}

func globalsStr(r *Ref) string {
	s := ""
	for _, g := range r.globals {
		s += fmt.Sprintf("@%.6f ", g.off)
		for _, o := range g.ops {
			s += opStr(o) + "; "
		}
	}
	return s
}

// sameOffsets compares a map keyed by offsets with an object keyed by decimal
// numbers. Offsets that the reference reached by slightly different
// arithmetic are paired with the nearest key.
func sameOffsets[V any](want map[float64]V, got jmap, same func(V, any) bool) string {
	if len(want) != len(got) {
		return fmt.Sprintf("expected %v, got %v", want, got)
	}
	for k, g := range got {
		f, err := strconv.ParseFloat(k, 64)
		if err != nil {
			return fmt.Sprintf("bad offset %q", k)
		}
		best, found := 0.0, false
		for w := range want {
			if !found || math.Abs(w-f) < math.Abs(best-f) {
				best, found = w, true
			}
		}
		if !close6(best, f) || !same(want[best], g) {
			return fmt.Sprintf("expected %v, got %v", want, got)
		}
	}
	return ""
}

// sameLiteral: the literal of a tree node as exported.
func sameLiteral(n parser.ASTNode, v any) bool {
	switch l := n.Literal.(type) {
	case nil:
		return v == nil
	case string:
		return v == l
	case bool:
		return v == l
	case rune:
		if n.Type == parser.NoteLetterNode {
			return v == string(l)
		}
		return v == float64(l)
	case int:
		return v == float64(l)
	case int64:
		return v == float64(l)
	case float64:
		return v == l
	}
	return reflect.DeepEqual(n.Literal, v)
}

// astJSON compares a syntax tree with its exported data and its listing.
func (c *Ctx) astJSON(key, text string) *Fail {
	root, err := parser.ParseString(text)
	if err != nil {
		c.Outcome("rejected")
		return failf(key, "text %q is not accepted: %v", text, err)
	}
	dec, err := jdec(root.JSON().String())
	if err != nil {
		return failf(key, "text %q: %v", text, err)
	}
	box, err := json.ParseJSON([]byte(root.JSON().String()))
	if err != nil {
		return failf(key, "text %q: %v", text, err)
	}
	lines := strings.Split(parser.HumanReadableAST(box), "\n")
	li := 0
	var walk func(n parser.ASTNode, v any, depth int) string
	walk = func(n parser.ASTNode, v any, depth int) string {
		c.State(n.Type.String() + fmt.Sprintf("%v %T %v", len(n.Children), n.Literal, n.SourceContext.Line > 0))
		c.Trans(1)
		m, ok := v.(jmap)
		if !ok {
			return fmt.Sprintf("%v at %v is exported as %v", n.Type, n.SourceContext, v)
		}
		if m["type"] != n.Type.String() || strings.Contains(n.Type.String(), "implemented") {
			return fmt.Sprintf("%v is exported as %v", n.Type, m["type"])
		}
		if !sameLiteral(n, m["literal"]) {
			return fmt.Sprintf("the %v %#v is exported as %#v", n.Type, n.Literal, m["literal"])
		}
		pos := ""
		if n.SourceContext.Line > 0 {
			sc, _ := m["source-context"].(jmap)
			if sc["line"] != float64(n.SourceContext.Line) || sc["column"] != float64(n.SourceContext.Column) {
				return fmt.Sprintf("%v at %d:%d is exported with position %v", n.Type, n.SourceContext.Line, n.SourceContext.Column, sc)
			}
			pos = fmt.Sprintf("[%d:%d]", n.SourceContext.Line, n.SourceContext.Column)
		}
		if li >= len(lines) {
			return "the listing is too short"
		}
		l := lines[li]
		li++
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		if depth == 0 && ind != 0 || !strings.Contains(l, n.Type.String()) || !strings.Contains(l, pos) {
			return fmt.Sprintf("%v %s is listed as %q", n.Type, pos, l)
		}
		switch lit := n.Literal.(type) {
		case string:
			if !strings.Contains(l, strconv.Quote(lit)) && !strings.Contains(l, fmt.Sprintf("%#v", lit)) {
				return fmt.Sprintf("%v %q is listed as %q", n.Type, lit, l)
			}
		case float64:
			if !strings.Contains(l, fmt.Sprintf("%#v", lit)) && !strings.Contains(l, num(lit)) {
				return fmt.Sprintf("%v %v is listed as %q", n.Type, lit, l)
			}
		}
		kids, _ := m["children"].([]any)
		if len(kids) != len(n.Children) {
			return fmt.Sprintf("%v has %d children, exported with %d", n.Type, len(n.Children), len(kids))
		}
		for i, k := range n.Children {
			at := li
			if msg := walk(k, kids[i], depth+1); msg != "" {
				return msg
			}
			kl := lines[at]
			if kind := len(kl) - len(strings.TrimLeft(kl, " \t")); kind <= ind {
				return fmt.Sprintf("child %q is not indented below %q", kl, l)
			}
		}
		return ""
	}
	if msg := walk(root, dec, 0); msg != "" {
		return failf(key, "text %q: %s", text, msg)
	}
	if li != len(lines) {
		return failf(key, "text %q: the listing has %d lines for %d elements", text, len(lines), li)
	}
	c.Trace()
	return nil
}

func init() {
	register("P29", "model_checking", func(c *Ctx) {
		c.Rule("one evaluation = one program evaluated by the real client whose exported JSON is decoded by an independent reader and compared with the reference model (notes, parts and their attributes, aliases, active parts, markers, global attributes; every exported variable definition is rebuilt from the JSON and must play what the variable plays), or one text whose exported syntax tree and listing are compared node by node with the tree; states = canonical reference states and tree node shapes")
		run := func(key string, v any) *Fail {
			prog := v.([]*Node)
			r := NewRef()
			rerr := r.Run(prog)
			c.Trans(r.Steps)
			s, err := realScore(Text(prog))
			if rerr != nil || err != nil {
				if (rerr != nil) != (err != nil) {
					return failf(key, "program: %s\nexpected error %v, got %v", Text(prog), rerr, err)
				}
				c.Outcome("error")
				return nil
			}
			c.Outcome("ok")
			return c.scoreJSON(key, Text(prog), r, s)
		}
		phase := func(name string, head, alpha, tail []*Node, lo, hi int) {
			c.Explore(name, func(yield func(string, any) bool) {
				seqs(alpha, lo, hi, func(p []*Node) bool {
					prog := pre(head, p, tail)
					return yield(name+": "+Text(prog), prog)
				})
			}, run)
		}
		c.progsPhase("sizes", c.sizePrograms(1), run)
		piano := Pt("", "piano")
		phase("attributes", []*Node{piano}, []*Node{N("c"), N("d8"), Tempo(60, false), Tempo(200, true), Vol(30, false), Vol(70, true), Pan(20, true), TrackVol(10, false), Quant(50, false), Octave(6, false), Up(), Transpose(-3, true), SetDur(3, false), SetDurMs(250, true), KeySig("f+ b-", false), KeySig("c+", true), MetMod(4, 8, true), MetMod(4, 2, false), Dyn("ff", false), Dyn("pp", true)}, nil, 1, pick(c.Thorough, 3, 4))
		phase("parts", nil, []*Node{N("c"), piano, Pt("", "violin"), Pt("foo", "piano"), Pt("bar", "violin", "viola"), Pt("baz", "foo", "bar"), Pt("", "foo"), Pt("", "bar.violin"), V(1), V(2), Up(), Tempo(90, false)}, nil, 1, pick(c.Thorough, 5, 6))
		phase("voices", []*Node{Pt("foo", "piano"), N("c")}, []*Node{N("c"), N("d2"), V(1), V(2), V(0), Tempo(90, false), Tempo(60, true), Up(), Mk("mm"), Pt("bar", "violin"), Pt("", "foo"), Pt("grp", "foo", "bar"), Pt("", "grp")}, nil, 1, pick(c.Thorough, 5, 6))
		third := Cr("2", N("c"), N("d"), N("e"))
		phase("near offsets", nil, []*Node{piano, Pt("", "violin"), third, N("c"), Cr("", N("c"), N("d"), N("e")), R("r"), Cr("2", R("r8"), N("d"), Tempo(100, true), R("r")), Tempo(100, true), Vol(30, true), Tempo(77, false)}, nil, 1, pick(c.Thorough, 5, 6))
		phase("markers", []*Node{piano}, []*Node{N("c"), Mk("mm"), Mk("nn"), Mk("mm-2'"), At("mm"), At("nn"), Pt("", "violin"), Pt("", "piano", "violin"), Cr("", N("c"), Mk("mm"))}, nil, 1, pick(c.Thorough, 5, 6))
		body := []*Node{N("c"), N("c+4.~8~"), N("d_"), N("e--500ms"), N("f2s~"), N("f"), R("r"), R("r2."), Ch(N("c"), N("e8"), Up(), N("g")), Sq(N("c"), N("d")), Sq(), Cr("", N("c"), N("d")), Cr("2.", N("c"), R("r"), N("e8")), Rp(N("c8"), 3), Rp(Sq(N("c"), Or(N("d"), [2]int{1, 1}, [2]int{3, 4}), Or(Ch(N("e"), N("g")), [2]int{2, 2})), 3),
			Up(), Down(), Oct(6), Bar(), Mk("mm"), At("mm"), VR("aa"), Tempo(90, false), Tempo(90, true), Vol(20, false), TrackVol(33, true), Pan(10, false), Quant(40, true), Octave(3, true), Transpose(2, false), SetDur(1.5, false), SetDurMs(123, true), KeySig("f+ b-", false), MetMod(4, 8, false), Dyn("mp", false), Dyn("fff", true)}
		c.Explore("variables", func(yield func(string, any) bool) {
			seqs(body, 1, pick(c.Thorough, 2, 3), func(p []*Node) bool {
				prog := []*Node{VD("aa", N("g2"), Quant(30, false)), VD("bb", p...), VD("cc", VR("bb"), Sq(VR("aa"), N("a8"))), piano, N("c"), Mk("mm")}
				return yield("variables: "+Text(prog), prog)
			})
			// voices and definitions inside definitions
			inner := []*Node{N("c"), N("d2"), V(1), V(2), Up(), R("r")}
			seqs(inner, 1, pick(c.Thorough, 4, 5), func(p []*Node) bool {
				prog := []*Node{VD("bb", pre(nil, p, []*Node{V(0)})...), piano, N("c")}
				return yield("variables: "+Text(prog), prog)
			})
		}, func(key string, v any) *Fail {
			prog := v.([]*Node)
			r := NewRef()
			rerr := r.Run(prog)
			c.Trans(r.Steps)
			s, err := realScore(Text(prog))
			if (rerr != nil) != (err != nil) {
				return failf(key, "program: %s\nexpected error %v, got %v", Text(prog), rerr, err)
			}
			if err != nil {
				return nil
			}
			return c.scoreJSON(key, Text(prog), r, s)
		})
		// elements of a definition inside a repeated variable definition etc. are
		// exported through the update list as well: every element on its own
		c.Explore("elements", func(yield func(string, any) bool) {
			all := append(append([]*Node{}, body...), VD("dd", N("c"), N("e")), VD("eex", N("c")), Pt("", "piano"), Pt("foo", "piano", "violin"), V(1), V(0), VR("zz"))
			for i, a := range all {
				if !yield(fmt.Sprintf("elements: %d", i), a) {
					return
				}
			}
		}, func(key string, v any) *Fail {
			n := v.(*Node)
			ups, err := parseUpdates(Text([]*Node{n}))
			if err != nil {
				return failf(key, "%s: %v", Text([]*Node{n}), err)
			}
			for _, u := range ups {
				j, err := jdec(u.JSON().String())
				if err != nil {
					return failf(key, "%s: %v", Text([]*Node{n}), err)
				}
				p := &jp{}
				m := p.obj(j, "element")
				switch {
				case n.K == KPart:
					o := p.obj(p.get(m, "value"), "value")
					names := fmt.Sprint(p.get(o, "names"))
					alias, _ := o["alias"].(string)
					if m["type"] != "part-declaration" || names != fmt.Sprint(n.Names) || alias != n.Alias {
						return failf(key, "%s is exported as %v", Text([]*Node{n}), j)
					}
				case n.K == KAttr && m["type"] == "list":
				default:
					g := p.node(j)
					if p.err != "" {
						return failf(key, "%s is exported as %v: %s", Text([]*Node{n}), j, p.err)
					}
					if g.K == KVarDef && (n.K != KVarDef || g.Name != n.Name || len(g.Kids) != len(n.Kids)) ||
						g.K == KVarRef && (n.K != KVarRef || g.Name != n.Name) || g.K != n.K {
						if n.K == KOctSet || n.K == KOctUp || n.K == KOctDown || n.K == KVoice || n.K == KOnRep || n.K == KRepeat {
							continue
						}
						return failf(key, "%s is exported as %v", Text([]*Node{n}), j)
					}
				}
			}
			c.Trace()
			return nil
		})
		// syntax trees
		items := []string{"c", "c+4.~8~", "d__", "e--500ms", "f1.5s", "r", "r2..", "c/e8/g", "c/>e/<g", "[c d]", "[]", "{c d}", "{c {d e}4 f}2.~8", "c*3", "[c d'1,3-4 e'2]*4", "> <", "o6", "|", "c4|~2", "%mm", "@mm", "foo", "(tempo! 90)", "(key-sig '(f (sharp) b (flat)))", "(vol -1.5)", "(x \"a \\b é ♭ <&> \\n\")", "('(1 2) (3 'x))", "V1: c V2: d V0:", "foo = c d", "foo = [c d]*2", "piano:", "piano/violin \"ab\":", "ab.violin:", "\n", "# note\n", "c4\n~8", "c|", "r4~500ms"}
		c.Explore("syntax trees", func(yield func(string, any) bool) {
			idx := make([]int, 0, 4)
			var rec func(k int) bool
			rec = func(k int) bool {
				if k == 0 {
					var sb strings.Builder
					for _, i := range idx {
						it := items[i]
						if strings.Contains(it, "=") {
							sb.WriteString("\n" + it + "\n")
						} else {
							sb.WriteString(it + " ")
						}
					}
					t := sb.String()
					return yield("ast: "+strconv.Quote(t), t)
				}
				for i := range items {
					idx = append(idx, i)
					ok := rec(k - 1)
					idx = idx[:len(idx)-1]
					if !ok {
						return false
					}
				}
				return true
			}
			for k := 1; k <= pick(c.Thorough, 3, 4); k++ {
				if !rec(k) {
					return
				}
			}
		}, func(key string, v any) *Fail { return c.astJSON(key, v.(string)) })
	})
}

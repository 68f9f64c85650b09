package main

// The reference model: a small, deliberately boring interpreter of Alda's
// semantics over its own syntax tree. It shares no code with the client.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type Kind int

const (
	KNote Kind = iota
	KRest
	KChord
	KSeq
	KCram
	KRepeat
	KOnRep
	KOctUp
	KOctDown
	KOctSet
	KBar
	KAttr
	KMarker
	KAt
	KVarDef
	KVarRef
	KVoice // Num 0 = end of voice group
	KPart
	KSub // splices kids without brackets (an element group in an alphabet)
)

// DC is one component of a written duration.
type DC struct {
	Kind byte // 'n' note length, 'm' milliseconds, 's' seconds, 'b' beats (no syntax)
	Val  float64
	Dots int
	Text string
}

// Dur is a written duration; nil = omitted.
type Dur struct {
	C    []DC
	Text string
}

func (d *Dur) ms(tempo float64) float64 {
	t := 0.0
	for _, c := range d.C {
		switch c.Kind {
		case 'n':
			beats := 4 / c.Val
			add := beats
			for i := 0; i < c.Dots; i++ {
				add /= 2
				beats += add
			}
			t += beats * 60000 / tempo
		case 'b':
			t += c.Val * 60000 / tempo
		case 'm':
			t += c.Val
		case 's':
			t += c.Val * 1000
		}
	}
	return t
}

func (d *Dur) valid() bool {
	for _, c := range d.C {
		if c.Val <= 0 {
			return false
		}
	}
	return true
}

// D parses a written duration such as "4.~8~250ms".
func D(s string) *Dur {
	if s == "" {
		return nil
	}
	d := &Dur{Text: s}
	for _, p := range strings.Split(s, "~") {
		p = strings.TrimSpace(strings.ReplaceAll(p, "|", " "))
		c := DC{Kind: 'n', Text: p}
		num := p
		switch {
		case strings.HasSuffix(p, "ms"):
			c.Kind, num = 'm', p[:len(p)-2]
		case strings.HasSuffix(p, "beats"):
			c.Kind, num = 'b', p[:len(p)-5]
		case strings.HasSuffix(p, "s"):
			c.Kind, num = 's', p[:len(p)-1]
		default:
			for strings.HasSuffix(num, ".") {
				num = num[:len(num)-1]
				c.Dots++
			}
		}
		v, err := strconv.ParseFloat(num, 64)
		if err != nil {
			panic("bad reference duration " + s)
		}
		c.Val = v
		d.C = append(d.C, c)
	}
	return d
}

// AttrOp is an attribute change in the reference model.
type AttrOp struct {
	Type string // attribute identity used for the local-over-global rule
	Val  float64
	Str  string
	Key  map[byte]int // key signature: semitones per letter
	Dur  *Dur
	Bad  bool // the expression is an error
	Note *Node
}

type Node struct {
	K      Kind
	Letter byte
	Acc    string // explicit accidentals
	Midi   int    // >=0 with Letter==0: explicit midi note (lisp)
	D      *Dur
	Slur   bool
	Num    int
	Name   string
	Names  []string
	Alias  string
	Kids   []*Node
	Ranges [][2]int
	A      *AttrOp
	Global bool
	T      string // verbatim text (attributes, overrides)
}

func N(text string) *Node { // note like "c+4.~"
	n := &Node{K: KNote, Letter: text[0], T: ""}
	i := 1
	for i < len(text) && strings.IndexByte("+-_", text[i]) >= 0 {
		i++
	}
	n.Acc = text[1:i]
	rest := text[i:]
	if strings.HasSuffix(rest, "~") {
		n.Slur = true
		rest = rest[:len(rest)-1]
	}
	n.D = D(rest)
	n.T = text
	return n
}
func R(text string) *Node           { return &Node{K: KRest, D: D(text[1:]), T: text} }
func Ch(k ...*Node) *Node           { return &Node{K: KChord, Kids: k} }
func ChB(k ...*Node) *Node          { return &Node{K: KChord, Kids: k, Num: 1} }
func Sq(k ...*Node) *Node           { return &Node{K: KSeq, Kids: k} }
func Cr(d string, k ...*Node) *Node { return &Node{K: KCram, Kids: k, D: D(d)} }
func Rp(k *Node, n int) *Node       { return &Node{K: KRepeat, Kids: []*Node{k}, Num: n} }
func Or(k *Node, r ...[2]int) *Node { return &Node{K: KOnRep, Kids: []*Node{k}, Ranges: r} }
func Oct(n int) *Node               { return &Node{K: KOctSet, Num: n} }
func Up() *Node                     { return &Node{K: KOctUp} }
func Down() *Node                   { return &Node{K: KOctDown} }
func Mk(s string) *Node             { return &Node{K: KMarker, Name: s} }
func At(s string) *Node             { return &Node{K: KAt, Name: s} }
func VD(s string, k ...*Node) *Node { return &Node{K: KVarDef, Name: s, Kids: k} }
func VR(s string) *Node             { return &Node{K: KVarRef, Name: s} }
func V(n int) *Node                 { return &Node{K: KVoice, Num: n} }
func Bar() *Node                    { return &Node{K: KBar} }
func Sub(k ...*Node) *Node          { return &Node{K: KSub, Kids: k} }
func Pt(alias string, n ...string) *Node {
	return &Node{K: KPart, Names: n, Alias: alias}
}

// Attr builds an attribute change; text is without the "!" and with %G where
// it goes, e.g. "(tempo%G 60)".
func Attr(text string, global bool, op AttrOp) *Node {
	g := ""
	if global {
		g = "!"
	}
	return &Node{K: KAttr, T: strings.Replace(text, "%G", g, 1), A: &op, Global: global}
}
func num(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }
func Tempo(v float64, g bool) *Node {
	return Attr("(tempo%G "+num(v)+")", g, AttrOp{Type: "tempo", Val: v})
}
func Vol(v float64, g bool) *Node {
	return Attr("(vol%G "+num(v)+")", g, AttrOp{Type: "volume", Val: v / 100})
}
func TrackVol(v float64, g bool) *Node {
	return Attr("(track-vol%G "+num(v)+")", g, AttrOp{Type: "trackvol", Val: v / 100})
}
func Pan(v float64, g bool) *Node {
	return Attr("(pan%G "+num(v)+")", g, AttrOp{Type: "panning", Val: v / 100})
}
func Quant(v float64, g bool) *Node {
	return Attr("(quant%G "+num(v)+")", g, AttrOp{Type: "quant", Val: v / 100})
}
func Octave(v int, g bool) *Node {
	return Attr("(octave%G "+strconv.Itoa(v)+")", g, AttrOp{Type: "octave", Val: float64(v)})
}
func Transpose(v int, g bool) *Node {
	return Attr("(transpose%G "+strconv.Itoa(v)+")", g, AttrOp{Type: "transpose", Val: float64(v)})
}
func SetDur(beats float64, g bool) *Node {
	return Attr("(set-duration%G "+num(beats)+")", g, AttrOp{Type: "setdur", Dur: D(num(beats) + "beats")})
}
func SetDurMs(ms float64, g bool) *Node {
	return Attr("(set-duration-ms%G "+num(ms)+")", g, AttrOp{Type: "setdur", Dur: D(num(ms) + "ms")})
}
func KeySig(s string, g bool) *Node {
	k := map[byte]int{}
	for _, f := range strings.Fields(s) {
		for _, a := range f[1:] {
			if a == '+' {
				k[f[0]]++
			} else {
				k[f[0]]--
			}
		}
	}
	return Attr("(key-sig%G \""+s+"\")", g, AttrOp{Type: "keysig", Key: k})
}
func MetMod(old, nw float64, g bool) *Node {
	return Attr("(metric-modulation%G "+num(old)+" "+num(nw)+")", g, AttrOp{Type: "metmod", Val: old / nw})
}

var dynLevels = []struct {
	name string
	vol  float64
}{
	{"pppppp", .00787}, {"ppppp", .08419}, {"pppp", .16051}, {"ppp", .23683}, {"pp", .31314}, {"p", .38946}, {"mp", .46578},
	{"mf", .54210}, {"f", .61841}, {"ff", .69473}, {"fff", .77105}, {"ffff", .84737}, {"fffff", .92368}, {"ffffff", 1},
}

func Dyn(m string, g bool) *Node {
	for _, d := range dynLevels {
		if d.name == m {
			return Attr("("+m+"%G)", g, AttrOp{Type: "dyn", Val: d.vol})
		}
	}
	panic(m)
}

// ---- rendering ----

func text1(n *Node, sb *strings.Builder, inDef bool) {
	kids := func(open, close string) {
		sb.WriteString(open)
		for i, k := range n.Kids {
			if i > 0 {
				sb.WriteByte(' ')
			}
			text1(k, sb, inDef)
		}
		sb.WriteString(close)
	}
	switch n.K {
	case KNote, KRest, KAttr:
		sb.WriteString(n.T)
	case KChord:
		for i, k := range n.Kids {
			if n.Num > 0 { // changes before the slash
				note := k.K == KNote || k.K == KRest
				if i > 0 {
					sb.WriteByte(' ')
				}
				if i > 0 && (note) {
					sb.WriteString("/ ")
				}
				text1(k, sb, inDef)
				continue
			}
			if i > 0 {
				p := n.Kids[i-1].K
				if p == KOctSet {
					sb.WriteByte(' ')
				}
				if p == KNote || p == KRest {
					sb.WriteByte('/')
				}
			}
			text1(k, sb, inDef)
		}
	case KSeq:
		kids("[", "]")
	case KSub:
		kids("", "")
	case KCram:
		kids("{", "}")
		if n.D != nil {
			sb.WriteString(n.D.Text)
		}
	case KRepeat:
		text1(n.Kids[0], sb, inDef)
		if n.Kids[0].K == KVarRef || n.Kids[0].K == KAt || n.Kids[0].K == KMarker || n.Kids[0].K == KRepeat {
			sb.WriteByte(' ')
		}
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(n.Num))
	case KOnRep:
		text1(n.Kids[0], sb, inDef)
		switch n.Kids[0].K {
		case KRepeat, KVarRef, KAt, KMarker, KOctSet, KOctUp, KOctDown, KAttr:
			sb.WriteByte(' ')
		}
		sb.WriteByte('\'')
		for i, r := range n.Ranges {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Itoa(r[0]))
			if r[1] != r[0] {
				sb.WriteByte('-')
				sb.WriteString(strconv.Itoa(r[1]))
			}
		}
	case KOctUp:
		sb.WriteByte('>')
	case KOctDown:
		sb.WriteByte('<')
	case KOctSet:
		sb.WriteByte('o')
		sb.WriteString(strconv.Itoa(n.Num))
	case KBar:
		sb.WriteByte('|')
	case KMarker:
		sb.WriteByte('%')
		sb.WriteString(n.Name)
	case KAt:
		sb.WriteByte('@')
		sb.WriteString(n.Name)
	case KVarDef:
		sb.WriteByte('\n')
		sb.WriteString(n.Name)
		sb.WriteString(" =")
		for _, k := range n.Kids {
			sb.WriteByte(' ')
			text1(k, sb, true)
		}
		sb.WriteByte('\n')
	case KVarRef:
		sb.WriteString(n.Name)
	case KVoice:
		sb.WriteByte('V')
		sb.WriteString(strconv.Itoa(n.Num))
		sb.WriteByte(':')
	case KPart:
		sb.WriteString(strings.Join(n.Names, "/"))
		if n.Alias != "" {
			sb.WriteString(" \"" + n.Alias + "\"")
		}
		sb.WriteByte(':')
	}
}

// Text renders a program.
func Text(ns []*Node) string {
	var sb strings.Builder
	for i, n := range ns {
		if i > 0 {
			sb.WriteByte(' ')
		}
		text1(n, &sb, false)
	}
	return sb.String()
}

// ---- state ----

type RNote struct {
	Part               int
	Ch                 int
	Midi               int
	Off, Dur, Aud      float64
	Vol, TrackVol, Pan float64
}

type rstate struct { // the musical state of a part (or of one voice of it)
	oct, trans   int
	key          map[byte]int
	tempo        float64
	vol, tv, pan float64
	quant        float64
	dur          *Dur
	off, last    float64
	scale        float64
	over         map[string]bool // local changes since the last event
	ch           int             // explicit channel or -1
	refp         float64
}

type tempoPt struct{ off, tempo float64 }

func (s *rstate) clone() *rstate {
	c := *s
	if s.over != nil {
		c.over = map[string]bool{}
		for k := range s.over {
			c.over[k] = true
		}
	}
	return &c
}

type rpart struct {
	stock  string
	name   string
	st     *rstate
	tmpl   *rstate         // voice template (nil = not in a voice group)
	voices map[int]*rstate // voices of the open group
	order  []int
	cur    int       // current voice number
	tempos []tempoPt // local tempo changes, in every voice
}

type globalAt struct {
	off float64
	ops []*AttrOp
}

type Ref struct {
	parts   []*rpart
	cur     []int
	aliases map[string][]int
	markers map[string]float64
	vars    map[string][]*Node
	globals []globalAt
	notes   []RNote
	chord   bool
	Steps   int
	dry     bool // measuring a cram: record no notes/markers/globals
	vis     func(string)
}

type refErr struct{ msg string }

func (e refErr) Error() string { return e.msg }

func NewRef() *Ref {
	return &Ref{aliases: map[string][]int{}, markers: map[string]float64{}, vars: map[string][]*Node{}}
}

func (r *Ref) s(p int) *rstate {
	pt := r.parts[p]
	if pt.voices != nil {
		return pt.voices[pt.cur]
	}
	return pt.st
}

func newState() *rstate {
	return &rstate{oct: 4, tempo: 120, vol: .54210, tv: 100.0 / 127, pan: .5, quant: .9, dur: D("4"), last: -1, scale: 1, ch: -1, refp: 440}
}

// Canon is a canonical description of the whole model state.
func (r *Ref) Canon() string {
	var sb strings.Builder
	one := func(s *rstate) {
		fmt.Fprintf(&sb, "{%d %d %v %.6g %.6g %.6g %.6g %.6g %v %.6g %.6g %.6g %d %v}", s.oct, s.trans, s.key, s.tempo, s.vol, s.tv, s.pan, s.quant, s.dur, s.off, s.last, s.scale, s.ch, s.over)
	}
	for _, p := range r.parts {
		sb.WriteString(p.stock)
		one(p.st)
		for _, v := range p.order {
			fmt.Fprintf(&sb, "V%d", v)
			one(p.voices[v])
		}
	}
	fmt.Fprintf(&sb, "%v%v%v%v%v", r.cur, r.aliases, r.markers, len(r.globals), len(r.vars))
	return sb.String()
}

func (o *AttrOp) apply(r *Ref, p *rpart, s *rstate, global bool) error {
	switch o.Type {
	case "tempo", "metmod":
		if o.Type == "tempo" {
			s.tempo = o.Val
		} else {
			s.tempo *= o.Val
		}
		if !global {
			p.tempos = append(p.tempos, tempoPt{s.off, s.tempo})
		}
	case "volume", "dyn":
		s.vol = o.Val
	case "trackvol":
		s.tv = o.Val
	case "panning":
		s.pan = o.Val
	case "quant":
		s.quant = o.Val
	case "octave":
		s.oct = int(o.Val)
	case "octup":
		s.oct++
	case "octdown":
		s.oct--
	case "transpose":
		s.trans = int(o.Val)
	case "setdur":
		s.dur = o.Dur
	case "keysig":
		s.key = o.Key
	case "refpitch":
		s.refp = o.Val
	case "channel":
		if int(o.Val) == 9 && p.stock != "midi-percussion" {
			return refErr{"channel 9"}
		}
		s.ch = int(o.Val)
	case "nop":
	default:
		panic("unknown attr " + o.Type)
	}
	return nil
}

// applyGlobals: called when the active parts are about to play or jump.
func (r *Ref) applyGlobals() error {
	for _, pi := range r.cur {
		s := r.s(pi)
		for _, g := range r.globals {
			if g.off > s.last+sameTime && g.off <= s.off+sameTime {
				for _, o := range g.ops {
					if s.over[o.Type] {
						continue
					}
					if err := o.apply(r, r.parts[pi], s, true); err != nil {
						return err
					}
				}
			}
		}
		s.over = nil
	}
	return nil
}

var semis = map[byte]int{'c': 0, 'd': 2, 'e': 4, 'f': 5, 'g': 7, 'a': 9, 'b': 11}

func (n *Node) midi(s *rstate) int {
	if n.Letter == 0 {
		return n.Midi + s.trans
	}
	m := (s.oct+1)*12 + semis[n.Letter]
	if n.Acc != "" {
		for _, a := range n.Acc {
			switch a {
			case '+':
				m++
			case '-':
				m--
			}
		}
	} else {
		m += s.key[n.Letter]
	}
	return m + s.trans
}

// play one note/rest; returns nothing but advances unless in a chord.
func (r *Ref) play(n *Node) error {
	if !r.chord {
		if err := r.applyGlobals(); err != nil {
			return err
		}
	}
	if n.D != nil && !n.D.valid() {
		return refErr{"bad duration"}
	}
	for _, pi := range r.cur {
		s := r.s(pi)
		if n.D != nil {
			s.dur = n.D
		}
		ms := s.dur.ms(s.tempo) * s.scale
		if n.K == KNote {
			aud := ms
			if !n.Slur {
				aud *= s.quant
			}
			if aud > 0 {
				m := n.midi(s)
				if m < 0 || m > 127 {
					return refErr{"midi range"}
				}
				if !r.dry {
					r.notes = append(r.notes, RNote{Part: pi, Ch: s.ch, Midi: m, Off: s.off, Dur: ms, Aud: aud, Vol: s.vol, TrackVol: s.tv, Pan: s.pan})
				}
			}
		}
		if !r.chord {
			s.last = s.off
			s.off += ms
		}
	}
	return nil
}

// measure: how long the events last for part pi at scale 1, from the part's
// current state (on a copy).
func (r *Ref) measure(kids []*Node, pi int, rep int) (float64, error) {
	s := r.s(pi).clone()
	s.scale = 1
	start := s.off
	cp := &Ref{parts: make([]*rpart, len(r.parts)), cur: []int{pi}, aliases: r.aliases, markers: r.markers, vars: r.vars, dry: true}
	cp.parts[pi] = &rpart{stock: r.parts[pi].stock, st: s}
	for _, k := range kids {
		if err := cp.exec(k, rep); err != nil {
			return 0, err
		}
	}
	return s.off - start, nil
}

func cloneNodes(ns []*Node) []*Node { return append([]*Node{}, ns...) }

// capture replaces variable references by the current definitions.
func (r *Ref) capture(n *Node) (*Node, error) {
	if n.K == KAttr && n.A.Bad {
		return nil, refErr{"bad s-expression"}
	}
	if n.K == KPart {
		return nil, refErr{"part declaration in variable"}
	}
	if n.K == KVarRef {
		b, ok := r.vars[n.Name]
		if !ok {
			return nil, refErr{"undefined " + n.Name}
		}
		return Sub(b...), nil
	}
	if len(n.Kids) == 0 {
		return n, nil
	}
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		e, err := r.capture(k)
		if err != nil {
			return nil, err
		}
		c.Kids = append(c.Kids, e)
	}
	return &c, nil
}

// sameTime: offsets this close (ms) are the same point in time; sums of
// durations that are musically equal differ by rounding.
const sameTime = 1e-3

func (r *Ref) sameOffset() (float64, bool) {
	if len(r.cur) == 0 {
		return 0, true
	}
	o := r.s(r.cur[0]).off
	for _, pi := range r.cur[1:] {
		if math.Abs(r.s(pi).off-o) > sameTime {
			return 0, false
		}
	}
	return o, true
}

func (r *Ref) endVoices() {
	for _, pi := range r.cur {
		p := r.parts[pi]
		if p.voices == nil {
			continue
		}
		best := p.order[len(p.order)-1]
		for _, v := range p.order {
			if p.voices[v].off > p.voices[best].off {
				best = v
			}
		}
		p.st = p.voices[best]
		p.voices, p.order, p.tmpl = nil, nil, nil
	}
}

// Exec runs one top-level event. rep = number of the innermost repetition.
func (r *Ref) exec(n *Node, rep int) error {
	if !r.dry {
		r.Steps++
		if r.vis != nil {
			defer func() { r.vis(r.Canon()) }()
		}
	}
	switch n.K {
	case KNote, KRest:
		return r.play(n)
	case KBar:
		return nil
	case KSeq, KSub:
		for _, k := range n.Kids {
			if err := r.exec(k, rep); err != nil {
				return err
			}
		}
	case KRepeat:
		for i := 1; i <= n.Num; i++ {
			if err := r.exec(n.Kids[0], i); err != nil {
				return err
			}
		}
	case KOnRep:
		for _, g := range n.Ranges {
			if g[0] <= rep && rep <= g[1] {
				return r.exec(n.Kids[0], rep)
			}
		}
	case KChord:
		if err := r.applyGlobals(); err != nil {
			return err
		}
		short := map[int]float64{}
		r.chord = true
		defer func() { r.chord = false }()
		for _, k := range n.Kids {
			if err := r.exec(k, rep); err != nil {
				return err
			}
			if k.K == KNote || k.K == KRest {
				for _, pi := range r.cur {
					s := r.s(pi)
					ms := s.dur.ms(s.tempo) * s.scale
					if old, ok := short[pi]; !ok || ms < old {
						short[pi] = ms
					}
				}
			}
		}
		for _, pi := range r.cur {
			s := r.s(pi)
			s.last = s.off
			s.off += short[pi]
		}
	case KCram:
		type saved struct {
			d  *Dur
			sc float64
		}
		old := map[int]saved{}
		for _, pi := range r.cur {
			s := r.s(pi)
			inner, err := r.measure(n.Kids, pi, rep)
			if err != nil {
				return err
			}
			d := n.D
			if d == nil {
				d = s.dur
			}
			old[pi] = saved{s.dur, s.scale}
			s.scale = s.scale * d.ms(s.tempo) / inner
		}
		for _, k := range n.Kids {
			if err := r.exec(k, rep); err != nil {
				return err
			}
		}
		for _, pi := range r.cur {
			s := r.s(pi)
			s.scale = old[pi].sc
			s.dur = old[pi].d
			if n.D != nil {
				s.dur = n.D
			}
		}
	case KOctUp:
		return r.local(&AttrOp{Type: "octup"})
	case KOctDown:
		return r.local(&AttrOp{Type: "octdown"})
	case KOctSet:
		return r.local(&AttrOp{Type: "octave", Val: float64(n.Num)})
	case KAttr:
		if n.A.Bad {
			return refErr{"bad s-expression"}
		}
		if n.A.Note != nil {
			return r.play(n.A.Note)
		}
		if n.A.Type == "nop" {
			return nil
		}
		if !n.Global {
			return r.local(n.A)
		}
		if r.dry {
			return nil
		}
		off, ok := r.sameOffset()
		if !ok {
			return refErr{"global attribute offset unclear"}
		}
		for i := range r.globals {
			if math.Abs(r.globals[i].off-off) <= sameTime {
				r.globals[i].ops = append(append([]*AttrOp{}, r.globals[i].ops...), n.A)
				return nil
			}
		}
		r.globals = append(r.globals, globalAt{off, []*AttrOp{n.A}})
		sort.SliceStable(r.globals, func(i, j int) bool { return r.globals[i].off < r.globals[j].off })
	case KMarker:
		if r.dry {
			return nil
		}
		if len(r.cur) == 0 {
			return refErr{"marker outside part"}
		}
		off, ok := r.sameOffset()
		if !ok {
			return refErr{"marker unclear"}
		}
		r.markers[n.Name] = off
	case KAt:
		if err := r.applyGlobals(); err != nil {
			return err
		}
		off, ok := r.markers[n.Name]
		if !ok {
			return refErr{"marker undefined"}
		}
		for _, pi := range r.cur {
			s := r.s(pi)
			s.last, s.off = s.off, off
		}
	case KVarDef:
		if r.dry {
			return nil
		}
		var body []*Node
		for _, k := range n.Kids {
			e, err := r.capture(k)
			if err != nil {
				return err
			}
			body = append(body, e)
		}
		r.vars[n.Name] = body
	case KVarRef:
		b, ok := r.vars[n.Name]
		if !ok {
			return refErr{"undefined " + n.Name}
		}
		for _, k := range b {
			if err := r.exec(k, rep); err != nil {
				return err
			}
		}
	case KVoice:
		if n.Num == 0 {
			r.endVoices()
			return nil
		}
		for _, pi := range r.cur {
			p := r.parts[pi]
			if p.voices == nil {
				p.tmpl = p.st.clone()
				p.voices = map[int]*rstate{}
			}
			if p.voices[n.Num] == nil {
				p.voices[n.Num] = p.tmpl.clone()
				p.order = append(p.order, n.Num)
			}
			p.cur = n.Num
		}
	case KPart:
		return r.declare(n)
	}
	return nil
}

func (r *Ref) local(o *AttrOp) error {
	for _, pi := range r.cur {
		s := r.s(pi)
		if err := o.apply(r, r.parts[pi], s, false); err != nil {
			return err
		}
		if s.over == nil {
			s.over = map[string]bool{}
		}
		s.over[o.Type] = true
	}
	return nil
}

// Run executes a whole program.
func (r *Ref) Run(prog []*Node) error {
	for _, n := range prog {
		if err := r.exec(n, 0); err != nil {
			return err
		}
	}
	return nil
}

// stock names used by the alphabets
var refStock = map[string]string{
	"piano": "midi-acoustic-grand-piano", "midi-acoustic-grand-piano": "midi-acoustic-grand-piano",
	"violin": "midi-violin", "midi-violin": "midi-violin",
	"guitar": "midi-acoustic-guitar-nylon", "cello": "midi-cello", "midi-cello": "midi-cello",
	"percussion": "midi-percussion", "midi-percussion": "midi-percussion", "trumpet": "midi-trumpet",
	"flute": "midi-flute", "clarinet": "midi-clarinet",
}

func (r *Ref) newPart(name string) (int, error) {
	st, ok := refStock[name]
	if !ok {
		return 0, refErr{"unknown instrument " + name}
	}
	r.parts = append(r.parts, &rpart{stock: st, name: name, st: newState()})
	return len(r.parts) - 1, nil
}

func (r *Ref) single(pi int) []string { // aliases naming exactly this part
	var out []string
	for a, ps := range r.aliases {
		if len(ps) == 1 && ps[0] == pi {
			out = append(out, a)
		}
	}
	sort.Strings(out)
	return out
}

func (r *Ref) unnamed(name string) []int {
	st, ok := refStock[name]
	if !ok {
		return nil
	}
	var out []int
	for pi, p := range r.parts {
		named := false
		for _, ps := range r.aliases {
			for _, x := range ps {
				named = named || x == pi
			}
		}
		if !named && p.stock == st {
			out = append(out, pi)
		}
	}
	return out
}

func (r *Ref) declare(n *Node) error {
	r.endVoices()
	nparts := len(r.parts)
	parts, err := r.resolve(n)
	if err != nil {
		r.parts = r.parts[:nparts]
		return err
	}
	if n.Alias != "" {
		old := map[int][]string{}
		for _, p := range parts {
			old[p] = r.single(p)
		}
		r.aliases[n.Alias] = parts
		for _, p := range parts {
			r.aliases[n.Alias+"."+r.parts[p].name] = []int{p}
			for _, a := range old[p] {
				r.aliases[n.Alias+"."+a] = []int{p}
			}
		}
	}
	r.cur = parts
	return nil
}

func (r *Ref) resolve(n *Node) ([]int, error) {
	if len(n.Names) == 1 {
		name := n.Names[0]
		named := r.aliases[name]
		un := r.unnamed(name)
		if n.Alias != "" {
			if len(named) > 0 {
				return nil, refErr{"alias for existing instance"}
			}
			if len(r.aliases[n.Alias]) > 0 {
				return nil, refErr{"alias taken"}
			}
			if len(un) > 0 {
				return nil, refErr{"ambiguous"}
			}
			p, err := r.newPart(name)
			if err != nil {
				return nil, err
			}
			return []int{p}, nil
		}
		if len(named) > 0 && strings.Contains(name, ".") {
			return named, nil
		}
		if st, ok := refStock[name]; ok && !strings.Contains(name, ".") {
			for _, ps := range r.aliases {
				if len(ps) == 1 && r.parts[ps[0]].stock == st {
					return nil, refErr{"ambiguous"}
				}
			}
		}
		if len(named) > 0 {
			return named, nil
		}
		if len(un) > 0 {
			return un, nil
		}
		p, err := r.newPart(name)
		if err != nil {
			return nil, err
		}
		return []int{p}, nil
	}
	seen := map[string]bool{}
	for _, nm := range n.Names {
		if seen[nm] {
			return nil, refErr{"duplicate name"}
		}
		seen[nm] = true
	}
	type item struct {
		id   int // -1: a new instance of name
		name string
	}
	var named []int
	var stock []item
	for _, nm := range n.Names {
		if a := r.aliases[nm]; len(a) > 0 {
			named = append(named, a...)
		} else if u := r.unnamed(nm); len(u) > 0 {
			for _, x := range u {
				stock = append(stock, item{x, nm})
			}
		} else if _, ok := refStock[nm]; ok {
			stock = append(stock, item{-1, nm})
		} else {
			return nil, refErr{"unknown instrument"}
		}
	}
	if len(named) > 0 && len(stock) > 0 {
		return nil, refErr{"mixed group"}
	}
	var out []int
	add := func(p int) {
		for _, x := range out {
			if x == p {
				return
			}
		}
		out = append(out, p)
	}
	if n.Alias != "" && len(stock) > 0 {
		for _, nm := range n.Names {
			p, err := r.newPart(nm)
			if err != nil {
				return nil, err
			}
			add(p)
		}
		return out, nil
	}
	for _, p := range named {
		add(p)
	}
	for _, it := range stock {
		if it.id == -1 {
			p, err := r.newPart(it.name)
			if err != nil {
				return nil, err
			}
			it.id = p
		}
		add(it.id)
	}
	return out, nil
}

// TempoMap is the reference tempo itinerary.
func (r *Ref) TempoMap() map[float64]float64 {
	m := map[float64]float64{0: 120}
	if len(r.parts) > 0 {
		for _, t := range r.parts[0].tempos {
			m[t.off] = t.tempo
		}
	}
	last := 120.0
	for _, g := range r.globals {
		for _, o := range g.ops {
			switch o.Type {
			case "tempo":
				last = o.Val
				m[g.off] = o.Val
			case "metmod":
				last *= o.Val
				m[g.off] = last
			}
		}
	}
	return m
}

// ---- comparison ----

func close6(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	d := math.Abs(a - b)
	return d <= 1e-6 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func (a RNote) String() string {
	return fmt.Sprintf("part%d midi=%d off=%.6f dur=%.6f aud=%.6f vol=%.5f tv=%.5f pan=%.5f", a.Part, a.Midi, a.Off, a.Dur, a.Aud, a.Vol, a.TrackVol, a.Pan)
}

func sameNote(a, b RNote) bool {
	return a.Part == b.Part && a.Midi == b.Midi && close6(a.Off, b.Off) && close6(a.Dur, b.Dur) && close6(a.Aud, b.Aud) &&
		close6(a.Vol, b.Vol) && close6(a.TrackVol, b.TrackVol) && close6(a.Pan, b.Pan)
}

func sortNotes(ns []RNote) {
	q := func(f float64) float64 { return math.Round(f*1e4) / 1e4 }
	sort.SliceStable(ns, func(i, j int) bool {
		a, b := ns[i], ns[j]
		if a.Part != b.Part {
			return a.Part < b.Part
		}
		if q(a.Off) != q(b.Off) {
			return a.Off < b.Off
		}
		if a.Midi != b.Midi {
			return a.Midi < b.Midi
		}
		if q(a.Dur) != q(b.Dur) {
			return a.Dur < b.Dur
		}
		if q(a.Aud) != q(b.Aud) {
			return a.Aud < b.Aud
		}
		return a.Vol < b.Vol
	})
}

// diffNotes compares two note multisets; "" when equal.
func diffNotes(want, got []RNote) string {
	w := append([]RNote{}, want...)
	g := append([]RNote{}, got...)
	sortNotes(w)
	sortNotes(g)
	for i := 0; i < len(w) || i < len(g); i++ {
		switch {
		case i >= len(w):
			return fmt.Sprintf("unexpected note %v (%d expected, %d produced)", g[i], len(w), len(g))
		case i >= len(g):
			return fmt.Sprintf("missing note %v (%d expected, %d produced)", w[i], len(w), len(g))
		case !sameNote(w[i], g[i]):
			return fmt.Sprintf("note %d: expected %v, got %v", i, w[i], g[i])
		}
	}
	return ""
}

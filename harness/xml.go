package main

// MusicXML documents written as sketches, and what they mean.
//
// A sketch is a list of parts; the body of a part is a list of tokens:
//
//	|            end of the measure
//	c4:2 f+5:1   a note: letter, alteration (+ ++ - -- or = for <alter>0), octave, duration
//	r:2 c4:2q c4:1g a rest, a cue note, a grace note
//	u2:1         an unpitched note of instrument 2
//	flags after the duration: . dots  ~ tie start  ^ tie stop  ( slur start  ) slur stop
//	                          n <accidental>natural  & (prefix) member of the chord before
//	b2 f2        backup, forward        v2  voice of the notes that follow (v0: none given)
//	d4 k-3 t-2,1 divisions, key, transposition (chromatic,octave-change)
//	[ ] ]3       forward repeat, backward repeat (times)
//	e1,2[ e1]] e1]  ending start, ending stop with backward repeat, ending stop
//	!p           dynamics

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type xpart struct {
	id, name string
	prog     string   // texts of midi-program (a,b: two instruments; "a,": the second one has none); "" for no midi-instrument
	unp      []string // texts of midi-unpitched
	body     string
}

func xmlOf(parts []xpart) string {
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n" + `<score-partwise version="3.1"><part-list>`)
	for _, p := range parts {
		fmt.Fprintf(&b, `<score-part id="%s"><part-name>%s</part-name>`, p.id, p.name)
		switch {
		case p.unp != nil:
			for i := range p.unp {
				fmt.Fprintf(&b, `<score-instrument id="%s-I%d"><instrument-name>x</instrument-name></score-instrument>`, p.id, i+1)
			}
			for i, u := range p.unp {
				fmt.Fprintf(&b, `<midi-instrument id="%s-I%d"><midi-channel>10</midi-channel><midi-program>1</midi-program><midi-unpitched>%s</midi-unpitched></midi-instrument>`, p.id, i+1, u)
			}
		case p.prog != "":
			for i, g := range strings.Split(p.prog, ",") {
				if g != "" {
					g = "<midi-program>" + g + "</midi-program>"
				}
				fmt.Fprintf(&b, `<midi-instrument id="%s-I%d"><midi-channel>%d</midi-channel>%s</midi-instrument>`, p.id, i+1, i+1, g)
			}
		}
		b.WriteString(`</score-part>`)
	}
	b.WriteString("</part-list>\n")
	for _, p := range parts {
		fmt.Fprintf(&b, `<part id="%s">`, p.id)
		voice := "1"
		for i, m := range strings.Split(p.body, "|") {
			fmt.Fprintf(&b, "\n"+`<measure number="%d">`, i+1)
			for _, t := range strings.Fields(m) {
				b.WriteString(xmlToken(p, t, &voice))
			}
			b.WriteString(`</measure>`)
		}
		b.WriteString("\n</part>")
	}
	b.WriteString("</score-partwise>\n")
	return b.String()
}

func xmlToken(p xpart, t string, voice *string) string {
	if strings.Contains(t, ":") {
		n := parseXnote(t)
		s := "<note>"
		if n.kind == 'g' {
			s += "<grace/>"
		}
		if n.kind == 'q' {
			s += "<cue/>"
		}
		if n.chord {
			s += "<chord/>"
		}
		switch n.kind {
		case 'r':
			s += "<rest/>"
		case 'u':
			s += "<unpitched><display-step>C</display-step><display-octave>5</display-octave></unpitched>"
		default:
			s += "<pitch><step>" + strings.ToUpper(n.step) + "</step>"
			if n.alterText != "" {
				s += "<alter>" + n.alterText + "</alter>"
			}
			s += "<octave>" + n.octave + "</octave></pitch>"
		}
		if n.kind != 'g' {
			s += "<duration>" + n.dur + "</duration>"
		}
		if n.kind == 'u' {
			s += fmt.Sprintf(`<instrument id="%s-I%s"/>`, p.id, n.step)
		}
		if n.tieStop {
			s += `<tie type="stop"/>`
		}
		if n.tieStart {
			s += `<tie type="start"/>`
		}
		if *voice != "0" {
			s += "<voice>" + *voice + "</voice>"
		}
		s += strings.Repeat("<dot/>", n.dots)
		if n.natural {
			s += "<accidental>natural</accidental>"
		}
		if n.slurs != "" {
			s += "<notations>"
			for _, c := range n.slurs {
				if c == '(' {
					s += `<slur type="start"/>`
				} else {
					s += `<slur type="stop"/>`
				}
			}
			s += "</notations>"
		}
		return s + "</note>"
	}
	arg := t[1:]
	switch t[0] {
	case 'v':
		*voice = arg
		return ""
	case 'b':
		return "<backup><duration>" + arg + "</duration></backup>"
	case 'f':
		return "<forward><duration>" + arg + "</duration></forward>"
	case 'd':
		return "<attributes><divisions>" + arg + "</divisions></attributes>"
	case 'k':
		return "<attributes><key><fifths>" + arg + "</fifths></key></attributes>"
	case 't':
		a := strings.Split(arg, ",")
		s := "<attributes><transpose><chromatic>" + a[0] + "</chromatic>"
		if len(a) > 1 {
			s += "<octave-change>" + a[1] + "</octave-change>"
		}
		return s + "</transpose></attributes>"
	case '!':
		return "<direction><direction-type><dynamics><" + arg + "/></dynamics></direction-type></direction>"
	case '[':
		return `<barline location="left"><repeat direction="forward"/></barline>`
	case ']':
		if arg != "" {
			arg = fmt.Sprintf(` times="%s"`, arg)
		}
		return `<barline location="right"><repeat direction="backward"` + arg + `/></barline>`
	case 'e':
		switch {
		case strings.HasSuffix(arg, "["):
			return fmt.Sprintf(`<barline location="left"><ending number="%s" type="start"/></barline>`, arg[:len(arg)-1])
		case strings.HasSuffix(arg, "]]"):
			return fmt.Sprintf(`<barline location="right"><ending number="%s" type="stop"/><repeat direction="backward"/></barline>`, arg[:len(arg)-2])
		case strings.HasSuffix(arg, "]"):
			return fmt.Sprintf(`<barline location="right"><ending number="%s" type="discontinue"/></barline>`, arg[:len(arg)-1])
		}
	}
	panic("bad token " + t)
}

type xnote struct {
	kind                    byte // n r q g u
	step, alterText, octave string
	dur                     string
	midi, dots              int
	chord, natural          bool
	tieStart, tieStop       bool
	slurs                   string
}

func parseXnote(t string) (n xnote) {
	n.kind = 'n'
	if t[0] == '&' {
		n.chord, t = true, t[1:]
	}
	head, tail, _ := strings.Cut(t, ":")
	i := 0
	for i < len(tail) && (tail[i] >= '0' && tail[i] <= '9') {
		i++
	}
	n.dur = tail[:i]
	for _, f := range tail[i:] {
		switch f {
		case '.':
			n.dots++
		case '~':
			n.tieStart = true
		case '^':
			n.tieStop = true
		case '(', ')':
			n.slurs += string(f)
		case 'n':
			n.natural = true
		case 'g':
			n.kind = 'g'
		case 'q':
			n.kind = 'q'
		default:
			panic("bad flag in " + t)
		}
	}
	switch {
	case head == "r":
		n.kind = 'r'
	case head[0] == 'u':
		n.kind, n.step = 'u', head[1:]
	default:
		n.step = head[:1]
		n.octave = strings.TrimLeft(head[1:], "+-=")
		acc := head[1 : len(head)-len(n.octave)]
		alter := strings.Count(acc, "+") - strings.Count(acc, "-")
		if acc != "" {
			n.alterText = strconv.Itoa(alter)
		}
		o, _ := strconv.Atoi(n.octave)
		n.midi = 12*(o+1) + map[string]int{"c": 0, "d": 2, "e": 4, "f": 5, "g": 7, "a": 9, "b": 11}[n.step] + alter
	}
	return n
}

// ---- meaning ----

type xsound struct {
	start, dur float64 // quarters, from the beginning of the measure; later from the beginning of the piece
	voice      int
	midi       int
	slurred    bool
	tieStart   bool
	tieStop    bool
	vol        float64
}

type xmeasure struct {
	length  float64
	sounds  []xsound
	forward bool
	back    int // 0: none, else times
	endFrom map[int]bool
	endTo   bool
	attrs   bool // a change of key or transposition
}

// meaning interprets the body of a part. ok is false if the sketch is outside
// of what MusicXML allows or the import claims to support.
func (p xpart) meaning() (out []xsound, ok bool) {
	div, shift := 1.0, 0
	slurs := map[int]int{}
	vol := map[int]float64{}
	var ms []*xmeasure
	voice := 1
	type group struct {
		end   float64
		midis map[int]bool // members -> tied on
	}
	piece := 0.0
	vend := map[int]float64{} // end of what is written in each voice, absolute
	last := map[int]*group{}
	for _, mt := range strings.Split(p.body, "|") {
		m := &xmeasure{}
		cur := 0.0
		gstart, gdur := -1.0, 0.0
		var g, prev *group
		written := false
		extended := 0
		closeGroup := func() bool {
			// what ties are supported: see the property
			if g == nil {
				return true
			}
			fresh := len(g.midis) - extended
			if extended > 0 && fresh == 0 && extended != len(prev.midis) {
				return false
			}
			return true
		}
		closed := false
		for _, t := range strings.Fields(mt) {
			if closed || (t[0] == '[' || t[0] == 'e' && t[len(t)-1] == '[') && (written || cur != 0) {
				return nil, false // barlines are between measures
			}
			closed = t[0] == ']' || strings.HasSuffix(t, "]")
			if strings.Contains(t, ":") {
				n := parseXnote(t)
				if n.kind == 'g' {
					continue
				}
				d, _ := strconv.ParseFloat(n.dur, 64)
				d /= div
				if d <= 0 {
					return nil, false
				}
				if n.chord {
					if g == nil || math.Abs(d-gdur) > 1e-9 || n.kind == 'r' || n.kind == 'q' || n.slurs != "" {
						return nil, false
					}
				} else {
					if !closeGroup() {
						return nil, false
					}
					gstart, gdur = cur, d
					if vend[voice] > piece+cur+1e-9 {
						return nil, false // two notes of a voice overlap
					}
					vend[voice] = piece + cur + d
					cur += d
					prev = last[voice]
					g = &group{end: piece + cur, midis: map[int]bool{}}
					extended = 0
					last[voice] = g
					for _, s := range n.slurs {
						if s == '(' {
							slurs[voice]++
						} else {
							slurs[voice]--
						}
					}
					if slurs[voice] < 0 {
						return nil, false
					}
				}
				written = true
				m.length = math.Max(m.length, cur)
				switch n.kind {
				case 'q', 'r':
					if n.slurs != "" || n.tieStart || n.tieStop {
						return nil, false
					}
					g = nil
					continue
				}
				midi := n.midi + shift
				if n.kind == 'u' {
					i, _ := strconv.Atoi(n.step)
					if i < 1 || i > len(p.unp) {
						continue
					}
					midi, _ = strconv.Atoi(p.unp[i-1])
					midi--
				}
				if midi < 0 || midi > 127 {
					return nil, false
				}
				if _, dup := g.midis[midi]; dup {
					return nil, false
				}
				if n.tieStop {
					if prev == nil || math.Abs(prev.end-(piece+gstart)) > 1e-9 || !prev.midis[midi] {
						return nil, false
					}
					extended++
				}
				g.midis[midi] = n.tieStart
				v, has := vol[voice]
				if !has {
					v = -1
				}
				m.sounds = append(m.sounds, xsound{start: gstart, dur: d, voice: voice, midi: midi, slurred: slurs[voice] > 0, tieStart: n.tieStart, tieStop: n.tieStop, vol: v})
				continue
			}
			if !closeGroup() {
				return nil, false
			}
			g, extended = nil, 0
			switch t[0] {
			case 'v':
				voice, _ = strconv.Atoi(t[1:])
				if voice == 0 {
					voice = 1
				}
			case 'b', 'f':
				d, _ := strconv.ParseFloat(t[1:], 64)
				d /= div
				if t[0] == 'b' {
					d = -d
				}
				cur += d
				if cur < -1e-9 {
					return nil, false
				}
				m.length = math.Max(m.length, cur)
			case 'd':
				div, _ = strconv.ParseFloat(t[1:], 64)
			case 'k', 't':
				if written || cur != 0 {
					return nil, false
				}
				if t[0] == 't' {
					a := strings.Split(t[1:], ",")
					shift, _ = strconv.Atoi(a[0])
					if len(a) > 1 {
						o, _ := strconv.Atoi(a[1])
						shift += 12 * o
					}
				}
				last = map[int]*group{} // a tie across this is not supported
				m.attrs = true
			case '!':
				for v := 1; v < 10; v++ {
					vol[v] = dynVolume(t[1:])
				}
			case '[':
				m.forward = true
				last = map[int]*group{}
			case ']':
				m.back = 2
				if len(t) > 1 {
					m.back, _ = strconv.Atoi(t[1:])
				}
			case 'e':
				if strings.HasSuffix(t, "[") {
					m.endFrom = map[int]bool{}
					for _, x := range strings.Split(t[1:len(t)-1], ",") {
						i, _ := strconv.Atoi(x)
						m.endFrom[i] = true
					}
					last = map[int]*group{}
				} else {
					m.endTo = true
					if strings.HasSuffix(t, "]]") {
						m.back = 2
					}
				}
			}
		}
		if !closeGroup() {
			return nil, false
		}
		if m.back > 0 || m.endTo {
			last = map[int]*group{}
		}
		ms = append(ms, m)
		piece += m.length
	}
	if len(slurs) > 0 {
		for _, n := range slurs {
			if n != 0 {
				return nil, false
			}
		}
	}
	// the order in which the measures are played
	at := 0.0
	open := map[[2]int]int{}
	play := func(i int) {
		m := ms[i]
		for _, s := range m.sounds {
			s.start += at
			k := [2]int{s.voice, s.midi}
			if j, is := open[k]; is && s.tieStop && math.Abs(out[j].start+out[j].dur-s.start) < 1e-9 {
				out[j].dur += s.dur
				out[j].slurred = s.slurred
				if !s.tieStart {
					delete(open, k)
				}
				continue
			}
			out = append(out, s)
			delete(open, k)
			if s.tieStart {
				open[k] = len(out) - 1
			}
		}
		at += m.length
	}
	for start := 0; start < len(ms); {
		// the section that begins here
		first := start
		end, times := -1, 0
		var endings [][3]int // from, to, index
		for j := start; j < len(ms); j++ {
			if ms[j].forward && j > first {
				if len(endings) > 0 {
					return nil, false
				}
				// everything before is played once
				for ; first < j; first++ {
					play(first)
				}
			}
			if ms[j].endFrom != nil {
				to := j
				for to < len(ms) && !ms[to].endTo {
					to++
				}
				if to == len(ms) {
					return nil, false
				}
				endings = append(endings, [3]int{j, to})
				if ms[to].back == 0 {
					end = to
					break
				}
				j = to
				if j+1 >= len(ms) || ms[j+1].endFrom == nil {
					return nil, false
				}
				continue
			}
			if ms[j].back > 0 {
				end, times = j, ms[j].back
				break
			}
		}
		if end < 0 {
			if len(endings) > 0 {
				return nil, false
			}
			for ; first < len(ms); first++ {
				play(first)
			}
			break
		}
		for j := first + 1; j <= end; j++ {
			if ms[j].attrs {
				return nil, false // see the known findings
			}
		}
		if len(endings) == 0 {
			for k := 0; k < times; k++ {
				for j := first; j <= end; j++ {
					play(j)
				}
			}
		} else {
			n := 0
			seen := map[int]int{}
			for _, e := range endings {
				for k := range ms[e[0]].endFrom {
					n = maxI(n, k)
					seen[k]++
				}
			}
			for k := 1; k <= n; k++ {
				if seen[k] != 1 || k == n && !ms[endings[len(endings)-1][0]].endFrom[k] {
					return nil, false
				}
				for j := first; j <= end; j++ {
					skip := false
					for _, e := range endings {
						if j >= e[0] && j <= e[1] && !ms[e[0]].endFrom[k] {
							skip = true
						}
					}
					if !skip {
						play(j)
					}
				}
			}
		}
		start = end + 1
	}
	return out, true
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func dynVolume(m string) float64 {
	for i, n := range []string{"pppppp", "ppppp", "pppp", "ppp", "pp", "p", "mp", "mf", "f", "ff", "fff", "ffff", "fffff", "ffffff"} {
		if n == m {
			return (1 + float64(i)*126/13) / 127
		}
	}
	return -1
}

// heard is a note as it sounds.
type heard struct {
	midi          int
	off, dur, vol float64
}

func sortHeard(h []heard) []heard {
	sort.Slice(h, func(i, j int) bool {
		if h[i].midi != h[j].midi {
			return h[i].midi < h[j].midi
		}
		if math.Abs(h[i].off-h[j].off) > 0.5 {
			return h[i].off < h[j].off
		}
		return h[i].dur < h[j].dur
	})
	return h
}

func heardOf(ss []xsound) []heard {
	out := []heard{}
	for _, s := range ss {
		h := heard{s.midi, s.start * 500, s.dur * 500, s.vol}
		if !s.slurred {
			h.dur *= 0.9
		}
		if h.vol < 0 {
			h.vol = dynVolume("mf")
		}
		out = append(out, h)
	}
	return sortHeard(out)
}

func sameHeard(a, b []heard) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.midi != y.midi || math.Abs(x.off-y.off) > 0.5 || math.Abs(x.dur-y.dur) > 0.5 || math.Abs(x.vol-y.vol) > 0.001 {
			return false
		}
	}
	return true
}

func showHeard(h []heard) string {
	s := ""
	for i, x := range h {
		if i == 40 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %d@%.1f+%.1f", x.midi, x.off, x.dur)
		if math.Abs(x.vol-dynVolume("mf")) > 0.001 {
			s += fmt.Sprintf("v%.2f", x.vol)
		}
	}
	return s
}

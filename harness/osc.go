package main

// Interpreting what the client sends to a player: an independent OSC decoder
// and a model of the player's channel state.

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"alda.io/client/model"
	"github.com/daveyarwood/go-osc/osc"
)

// omsg is one decoded message.
type omsg struct {
	addr string
	args []any // int32, float32, string
}

func (m omsg) String() string { return fmt.Sprintf("%s %v", m.addr, m.args) }

func pad4(n int) int { return (n + 4) &^ 3 }

func oscString(b []byte) (string, []byte, error) {
	for i, c := range b {
		if c == 0 {
			n := pad4(i)
			if n > len(b) {
				return "", nil, fmt.Errorf("truncated string")
			}
			return string(b[:i]), b[n:], nil
		}
	}
	return "", nil, fmt.Errorf("unterminated string")
}

// decodeOSC decodes one packet (a message or a bundle) into messages.
func decodeOSC(b []byte) ([]omsg, error) {
	if len(b) >= 16 && string(b[:8]) == "#bundle\x00" {
		b = b[16:]
		var out []omsg
		for len(b) > 0 {
			if len(b) < 4 {
				return nil, fmt.Errorf("truncated bundle")
			}
			n := int(binary.BigEndian.Uint32(b))
			b = b[4:]
			if n < 0 || n > len(b) {
				return nil, fmt.Errorf("truncated bundle element")
			}
			ms, err := decodeOSC(b[:n])
			if err != nil {
				return nil, err
			}
			out = append(out, ms...)
			b = b[n:]
		}
		return out, nil
	}
	addr, rest, err := oscString(b)
	if err != nil {
		return nil, err
	}
	m := omsg{addr: addr}
	if len(rest) == 0 {
		return []omsg{m}, nil
	}
	tags, rest, err := oscString(rest)
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(tags, ",") {
		return nil, fmt.Errorf("bad type tags %q", tags)
	}
	for _, t := range tags[1:] {
		switch t {
		case 'i', 'f':
			if len(rest) < 4 {
				return nil, fmt.Errorf("truncated argument")
			}
			u := binary.BigEndian.Uint32(rest)
			rest = rest[4:]
			if t == 'i' {
				m.args = append(m.args, int32(u))
			} else {
				m.args = append(m.args, math.Float32frombits(u))
			}
		case 's':
			var s string
			if s, rest, err = oscString(rest); err != nil {
				return nil, err
			}
			m.args = append(m.args, s)
		default:
			return nil, fmt.Errorf("unexpected type tag %q", t)
		}
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("trailing bytes in %s", addr)
	}
	return []omsg{m}, nil
}

// bundleMsgs flattens a bundle built by the client.
func bundleMsgs(b *osc.Bundle) []omsg {
	var out []omsg
	for _, m := range b.Messages {
		out = append(out, omsg{m.Address, m.Arguments})
	}
	for _, x := range b.Bundles {
		out = append(out, bundleMsgs(x)...)
	}
	return out
}

// playExp describes what a transmission has to contain.
type playExp struct {
	notes      []model.NoteEvent // the notes to be sent
	tracks     map[*model.Part]int32
	shift      func(n model.NoteEvent) float64 // subtracted from a note's offset
	tempo      map[float64]float64             // nil: tempo messages are not checked
	start, end float64
	play       bool
	oneOff     bool
}

type chanState struct {
	patch, vol, pan       int32
	hasP, hasV, hasPan    bool
	patchOff, volOff, pOf int32
}

func near(v int32, f float64) bool { return math.Abs(float64(v)-f) <= 0.5+1e-6 }

func args(m omsg, kinds string) error {
	if len(m.args) != len(kinds) {
		return fmt.Errorf("%v: expected %d arguments", m, len(kinds))
	}
	for i, k := range kinds {
		ok := false
		switch m.args[i].(type) {
		case int32:
			ok = k == 'i'
		case float32:
			ok = k == 'f'
		case string:
			ok = k == 's'
		}
		if !ok {
			return fmt.Errorf("%v: argument %d has the wrong type", m, i)
		}
	}
	return nil
}

// checkTransmission compares messages with the expectation; "" when right.
func checkTransmission(ms []omsg, e playExp) string {
	type noteMsg struct {
		track, ch, off, midi, dur, aud, vel int32
		st                                  chanState
		i                                   int
	}
	type ctl struct {
		kind            string
		track, ch, off  int32
		val             int32
		i               int
		tracksOfChannel bool
	}
	var notes []noteMsg
	var ctls []ctl
	type tp struct {
		off int32
		t   float32
	}
	var tempos []tp
	plays, shutdowns := 0, 0
	var shutdownAt int32
	state := map[int32]*chanState{}
	st := func(ch int32) *chanState {
		if state[ch] == nil {
			state[ch] = &chanState{}
		}
		return state[ch]
	}
	lastEnd := 0.0
	for i, m := range ms {
		switch {
		case m.addr == "/system/tempo":
			if err := args(m, "if"); err != nil {
				return err.Error()
			}
			tempos = append(tempos, tp{m.args[0].(int32), m.args[1].(float32)})
		case m.addr == "/system/play":
			if len(m.args) != 0 {
				return fmt.Sprintf("%v: unexpected arguments", m)
			}
			plays++
		case m.addr == "/system/shutdown":
			if err := args(m, "i"); err != nil {
				return err.Error()
			}
			shutdowns++
			shutdownAt = m.args[0].(int32)
		case strings.HasPrefix(m.addr, "/track/"):
			var track int32
			var kind string
			f := strings.Split(m.addr, "/")
			if len(f) != 5 || f[3] != "midi" {
				return fmt.Sprintf("unexpected address %v", m)
			}
			if _, err := fmt.Sscanf(f[2], "%d", &track); err != nil {
				return fmt.Sprintf("unexpected address %v", m)
			}
			kind = f[4]
			switch kind {
			case "note":
				if err := args(m, "iiiiiii"[:6]); err != nil {
					return err.Error()
				}
				a := func(k int) int32 { return m.args[k].(int32) }
				n := noteMsg{track: track, ch: a(0), off: a(1), midi: a(2), dur: a(3), aud: a(4), vel: a(5), st: *st(a(0)), i: i}
				notes = append(notes, n)
				if end := float64(n.off) + float64(n.aud); end > lastEnd {
					lastEnd = end
				}
			case "patch", "volume", "panning":
				if err := args(m, "iii"); err != nil {
					return err.Error()
				}
				c := ctl{kind: kind, track: track, ch: m.args[0].(int32), off: m.args[1].(int32), val: m.args[2].(int32), i: i}
				ctls = append(ctls, c)
				s := st(c.ch)
				switch kind {
				case "patch":
					s.patch, s.hasP, s.patchOff = c.val, true, c.off
				case "volume":
					s.vol, s.hasV, s.volOff = c.val, true, c.off
				case "panning":
					s.pan, s.hasPan, s.pOf = c.val, true, c.off
				}
				if c.val < 0 || c.val > 127 {
					return fmt.Sprintf("%v: value out of range", m)
				}
			default:
				return fmt.Sprintf("unexpected message %v", m)
			}
		default:
			return fmt.Sprintf("unexpected message %v", m)
		}
	}
	// the notes: a perfect matching between messages and expected notes
	if len(notes) != len(e.notes) {
		return fmt.Sprintf("%d note messages for %d notes", len(notes), len(e.notes))
	}
	used := make([]bool, len(e.notes))
	byOff := make([]int, len(e.notes))
	for i := range byOff {
		byOff[i] = i
	}
	sort.SliceStable(byOff, func(a, b int) bool {
		x, y := e.notes[byOff[a]], e.notes[byOff[b]]
		return x.Offset-e.shift(x) < y.Offset-e.shift(y)
	})
	offs := make([]float64, len(byOff))
	for i, k := range byOff {
		offs[i] = e.notes[k].Offset - e.shift(e.notes[k])
	}
	for _, n := range notes {
		found, why := false, ""
		lo := sort.SearchFloat64s(offs, float64(n.off)-0.51)
		for _, k := range byOff[lo:] {
			w := e.notes[k]
			off := w.Offset - e.shift(w)
			if off > float64(n.off)+0.51 {
				break
			}
			if used[k] || e.tracks[w.Part] != n.track || w.MidiChannel != n.ch || w.MidiNote != n.midi || !near(n.off, off) || !near(n.dur, w.Duration) || !near(n.aud, w.AudibleDuration) || !near(n.vel, w.Volume*127) {
				continue
			}
			s := n.st
			if n.ch != 9 {
				patch := w.Part.StockInstrument.(model.MidiInstrument).PatchNumber
				if !s.hasP || s.patch != patch {
					why = fmt.Sprintf("note %v is sent while its channel's instrument is %d (set: %v), not %d", ms[n.i], s.patch, s.hasP, patch)
					continue
				}
			}
			if !s.hasV || !near(s.vol, w.TrackVolume*127) {
				why = fmt.Sprintf("note %v is sent while its channel's volume is %d (set: %v), not %g", ms[n.i], s.vol, s.hasV, w.TrackVolume*127)
				continue
			}
			if !s.hasPan || !near(s.pan, w.Panning*127) {
				why = fmt.Sprintf("note %v is sent while its channel's panning is %d (set: %v), not %g", ms[n.i], s.pan, s.hasPan, w.Panning*127)
				continue
			}
			if (s.hasP && s.patchOff > n.off) || s.volOff > n.off || s.pOf > n.off {
				why = fmt.Sprintf("note %v: a setting it needs is scheduled after it", ms[n.i])
				continue
			}
			used[k], found = true, true
			break
		}
		if !found {
			if why == "" {
				why = "corresponds to no note of the score"
			}
			return fmt.Sprintf("%v: %s", ms[n.i], why)
		}
	}
	// settings must not be scheduled before an earlier note of that channel that
	// was sent before them
	for _, c := range ctls {
		for _, n := range notes {
			if n.ch == c.ch && n.i < c.i && n.off > c.off {
				return fmt.Sprintf("%v is scheduled before %v, which was sent earlier and needs the earlier setting", ms[c.i], ms[n.i])
			}
		}
	}
	if e.play != (plays == 1) || plays > 1 {
		return fmt.Sprintf("%d play messages, expected %v", plays, e.play)
	}
	if e.oneOff != (shutdowns == 1) || shutdowns > 1 {
		return fmt.Sprintf("%d shutdown messages, expected %v", shutdowns, e.oneOff)
	}
	if e.oneOff && float64(shutdownAt) < lastEnd {
		return fmt.Sprintf("shutdown at %d, before the last note ends (%g)", shutdownAt, lastEnd)
	}
	if e.tempo != nil {
		// compare as functions of time
		at := func(t float64) float64 { // the score's tempo at time t of the score
			best, v := -1.0, 0.0
			for o, x := range e.tempo {
				if o <= t+1e-9 && o > best {
					best, v = o, x
				}
			}
			return v
		}
		sent := func(t int32) float32 {
			best, v := int32(-1), float32(math.NaN())
			for _, x := range tempos {
				if x.off <= t && x.off >= best {
					best, v = x.off, x.t
				}
			}
			return v
		}
		type bp struct {
			t int32
			s float64
		}
		bps := []bp{{0, e.start}}
		for o := range e.tempo {
			if o >= e.start && o < e.end {
				bps = append(bps, bp{int32(math.Round(o - e.start)), o})
			}
		}
		for _, b := range bps {
			// several changes that round to the same millisecond: the last counts
			s := b.s
			for _, o := range bps {
				if o.t == b.t && o.s > s {
					s = o.s
				}
			}
			if w, g := float32(at(s)), sent(b.t); w != g && e.end > e.start {
				return fmt.Sprintf("tempo at %d ms is sent as %v, expected %v (tempo messages %v, tempo map %v)", b.t, g, w, tempos, e.tempo)
			}
		}
		for _, x := range tempos {
			ok := false
			for _, b := range bps {
				if b.t == x.off {
					ok = true
				}
			}
			if !ok && float64(x.off) != 0 {
				return fmt.Sprintf("tempo message at %d ms corresponds to no tempo change (tempo map %v)", x.off, e.tempo)
			}
		}
	}
	return ""
}

package main

import (
	"fmt"

	"alda.io/client/model"
)

// stockInstruments: every documented instrument name, and every pair of names.
func (c *Ctx) stockInstruments() {
	type nm struct {
		name, canon string
		patch       int
	}
	var all []nm
	for i, row := range gmTable {
		for _, n := range row {
			all = append(all, nm{n, row[0], i})
		}
	}
	all = append(all, nm{"midi-percussion", "midi-percussion", -1}, nm{"percussion", "midi-percussion", -1})
	check := func(key string, p *model.Part, w nm) *Fail {
		mi, ok := p.StockInstrument.(model.MidiInstrument)
		if !ok || mi.Name() != w.canon || mi.IsPercussion != (w.patch < 0) || (w.patch >= 0 && int(mi.PatchNumber) != w.patch) {
			return failf(key, "%s should be %s (General MIDI program %d), got %#v", w.name, w.canon, w.patch, p.StockInstrument)
		}
		return nil
	}
	c.Explore("every instrument name", func(yield func(string, any) bool) {
		for _, n := range all {
			if !yield("instrument "+n.name, n) {
				return
			}
		}
	}, func(key string, v any) *Fail {
		n := v.(nm)
		s, err := realScore(n.name + ": c")
		if err != nil {
			return failf(key, "%v", err)
		}
		c.Trace()
		c.State(fmt.Sprint("stock ", n.canon))
		return check(key, s.Parts[0], n)
	})
	c.Explore("pairs of instrument names", func(yield func(string, any) bool) {
		for i, a := range all {
			for j, b := range all {
				if !c.Thorough && (j-i > 12 || i-j > 12) {
					continue
				}
				if !yield("instruments "+a.name+" "+b.name, [2]nm{a, b}) {
					return
				}
			}
		}
	}, func(key string, v any) *Fail {
		p := v.([2]nm)
		s, err := realScore(p[0].name + ": c\n" + p[1].name + ": d")
		if err != nil {
			return failf(key, "%v", err)
		}
		c.Trace()
		want := 2
		if p[0].canon == p[1].canon {
			want = 1
		}
		if len(s.Parts) != want {
			return failf(key, "expected %d parts, got %d", want, len(s.Parts))
		}
		if f := check(key, s.Parts[0], p[0]); f != nil {
			return f
		}
		return check(key, s.Parts[want-1], p[1])
	})
}

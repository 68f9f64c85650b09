package main

// Driving the real client: text -> AST -> score updates -> score.

import (
	"fmt"
	"sort"

	"alda.io/client/model"
	"alda.io/client/parser"
)

// parseUpdates parses text and converts the AST to score updates.
func parseUpdates(text string) ([]model.ScoreUpdate, error) {
	root, err := parser.ParseString(text)
	if err != nil {
		return nil, err
	}
	return root.Updates()
}

// realScore evaluates text with the real client.
func realScore(text string) (*model.Score, error) {
	ups, err := parseUpdates(text)
	if err != nil {
		return nil, err
	}
	s := model.NewScore()
	if err := s.Update(ups...); err != nil {
		return s, err
	}
	return s, nil
}

// partIndex maps part identities to 0-based creation order.
func partIndex(s *model.Score) map[*model.Part]int {
	m := map[*model.Part]int{}
	for p, t := range s.Tracks() {
		m[p] = int(t) - 1
	}
	return m
}

// realNotes converts the score's events for comparison.
func realNotes(s *model.Score) []RNote {
	ix := partIndex(s)
	var out []RNote
	for _, e := range s.Events {
		n, ok := e.(model.NoteEvent)
		if !ok {
			continue
		}
		p, ok := ix[n.Part]
		if !ok {
			p = -1
		}
		out = append(out, RNote{Part: p, Ch: int(n.MidiChannel), Midi: int(n.MidiNote), Off: n.Offset, Dur: n.Duration, Aud: n.AudibleDuration, Vol: n.Volume, TrackVol: n.TrackVolume, Pan: n.Panning})
	}
	return out
}

func stockNames(s *model.Score) []string {
	out := make([]string, len(s.Parts))
	for i, p := range s.Parts {
		out[i] = p.StockInstrument.Name()
	}
	return out
}

// compareProgram is the conformance step: run the program in the reference
// model and in the client and compare everything observable.
func (c *Ctx) compareProgram(key string, prog []*Node) *Fail {
	return c.compareText(key, Text(prog), prog)
}

func (c *Ctx) compareText(key, text string, prog []*Node) *Fail {
	r := NewRef()
	r.vis = c.State
	rerr := r.Run(prog)
	c.Trans(r.Steps)
	c.Trace()
	s, err := realScore(text)
	if (rerr != nil) != (err != nil) {
		return failf(key, "program: %s\nreference: error=%v\nclient:    error=%v", text, rerr, err)
	}
	if rerr != nil {
		c.Outcome("error " + rerr.Error())
		return nil
	}
	got := realNotes(s)
	c.Outcome(fmt.Sprint(len(got), got))
	if len(got) > 1 {
		c.Nontrivial()
	}
	if d := diffNotes(r.notes, got); d != "" {
		return failf(key, "program: %s\n%s", text, d)
	}
	return c.compareState(key, text, r, s)
}

func (c *Ctx) compareState(key, text string, r *Ref, s *model.Score) *Fail {
	if len(s.Markers) != len(r.markers) {
		return failf(key, "program: %s\nmarkers: expected %v, got %v", text, r.markers, s.Markers)
	}
	for m, o := range r.markers {
		if g, ok := s.Markers[m]; !ok || !close6(g, o) {
			return failf(key, "program: %s\nmarkers: expected %v, got %v", text, r.markers, s.Markers)
		}
	}
	if len(s.Parts) != len(r.parts) {
		return failf(key, "program: %s\nexpected %d parts, got %d", text, len(r.parts), len(s.Parts))
	}
	for i, p := range s.Parts {
		if p.StockInstrument.Name() != r.parts[i].stock {
			return failf(key, "program: %s\npart %d: expected %s, got %s", text, i, r.parts[i].stock, p.StockInstrument.Name())
		}
	}
	return nil
}

// ---- enumeration ----

// seqs yields every sequence over the alphabet of length lo..hi.
func seqs(alpha []*Node, lo, hi int, yield func(p []*Node) bool) bool {
	var rec func(p []*Node, n int) bool
	rec = func(p []*Node, n int) bool {
		if n == 0 {
			return yield(append([]*Node{}, p...))
		}
		for _, a := range alpha {
			if !rec(append(p, a), n-1) {
				return false
			}
		}
		return true
	}
	for l := lo; l <= hi; l++ {
		if !rec(make([]*Node, 0, l), l) {
			return false
		}
	}
	return true
}

// Comb is a way of building an element from children.
type Comb struct {
	Arity int // number of consecutive children; -1 = any number >= 1
	Make  func(k []*Node) *Node
}

// forests(n) yields every list of elements with exactly n nodes in total,
// where a leaf or a combinator counts one. minK/maxK bound the list length.
type treeGen struct {
	leaves []*Node
	combs  []Comb
	memo   map[int][]*Node
	fmemo  map[[2]int][][]*Node
}

func newTreeGen(leaves []*Node, combs []Comb) *treeGen {
	return &treeGen{leaves: leaves, combs: combs, memo: map[int][]*Node{}, fmemo: map[[2]int][][]*Node{}}
}

// trees returns all elements of exactly n nodes.
func (g *treeGen) trees(n int) []*Node {
	if t, ok := g.memo[n]; ok {
		return t
	}
	var out []*Node
	if n == 1 {
		out = append(out, g.leaves...)
	} else {
		for _, cb := range g.combs {
			if cb.Arity > 0 {
				for _, f := range g.forestsK(n-1, cb.Arity) {
					if t := cb.Make(f); t != nil {
						out = append(out, t)
					}
				}
				continue
			}
			for k := 1; k <= n-1; k++ {
				for _, f := range g.forestsK(n-1, k) {
					if t := cb.Make(f); t != nil {
						out = append(out, t)
					}
				}
			}
		}
	}
	g.memo[n] = out
	return out
}

// forestsK returns all lists of exactly k elements with n nodes in total.
func (g *treeGen) forestsK(n, k int) [][]*Node {
	if k == 0 {
		if n == 0 {
			return [][]*Node{{}}
		}
		return nil
	}
	if n < k {
		return nil
	}
	key := [2]int{n, k}
	if f, ok := g.fmemo[key]; ok {
		return f
	}
	var out [][]*Node
	for a := 1; a <= n-k+1; a++ {
		rest := g.forestsK(n-a, k-1)
		for _, t := range g.trees(a) {
			for _, f := range rest {
				out = append(out, append([]*Node{t}, f...))
			}
		}
	}
	g.fmemo[key] = out
	return out
}

// forests yields every list with lo..hi nodes.
func (g *treeGen) forests(lo, hi int, yield func(p []*Node) bool) bool {
	for n := lo; n <= hi; n++ {
		for k := 1; k <= n; k++ {
			if k == 1 {
				for _, t := range g.trees(n) {
					if !yield([]*Node{t}) {
						return false
					}
				}
				continue
			}
			// stream the outermost level to keep memory small
			for a := 1; a <= n-k+1; a++ {
				rest := g.forestsK(n-a, k-1)
				for _, t := range g.trees(a) {
					for _, f := range rest {
						if !yield(append([]*Node{t}, f...)) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func evalUpdates(ups []model.ScoreUpdate) (*model.Score, error) {
	s := model.NewScore()
	if err := s.Update(ups...); err != nil {
		return nil, err
	}
	return s, nil
}

package main

// Comparison of grammars in normal form.

import (
	"fmt"
)

type pegDiff struct {
	Where  string // position in the first grammar
	Text   string
	Layout bool
}

// pegCmp compares grammar A with grammar B. Actions met at the same place are
// paired; so are labels.
type pegCmp struct {
	a, b    *pegGrammar
	seen    map[pegKey]bool
	diffs   []pegDiff
	actions []pegPair
	labels  bool // labels must have the same names
	built   map[*peg]*peg
	flats   map[*peg]*peg
	n       int
}

type pegPair struct{ a, b *peg }

type pegKey struct {
	a, b *peg
	used bool
}

func newPegCmp(a, b *pegGrammar) *pegCmp {
	return &pegCmp{a: a, b: b, seen: map[pegKey]bool{}, built: map[*peg]*peg{}, flats: map[*peg]*peg{}}
}

// nf is the node in normal form: references expanded, choices flattened,
// single characters as classes.
func (c *pegCmp) nf(g *pegGrammar, n *peg) *peg {
	if m := c.built[n]; m != nil {
		return m
	}
	m := c.nf1(g, n, map[string]bool{})
	c.built[n] = m
	return m
}

func (c *pegCmp) nf1(g *pegGrammar, n *peg, on map[string]bool) *peg {
	switch n.Kind {
	case "ref":
		r := g.rule(n.Str)
		if r == nil || on[n.Str] {
			return n
		}
		o := map[string]bool{n.Str: true}
		for k := range on {
			o[k] = true
		}
		m := c.nf1(g, r.Body, o)
		if n.Lay && !m.Lay {
			q := *m
			q.Lay = true
			m = &q
		}
		return m
	case "any":
		return &peg{Kind: "class", Set: runeSet{{0, maxRune}}, Pos: n.Pos, Obj: n.Obj}
	case "lit":
		if r := []rune(n.Str); len(r) == 1 && !n.Fold {
			return &peg{Kind: "class", Set: runeSet{{r[0], r[0]}}, Pos: n.Pos, Obj: n.Obj}
		}
	case "label":
		if n.Str == "" {
			return c.nf1(g, n.Sub[0], on)
		}
	case "choice":
		var alts []*peg
		var push func(s *peg, on map[string]bool)
		push = func(s *peg, on map[string]bool) {
			m := c.nf1(g, s, on)
			if m.Kind == "choice" {
				alts = append(alts, m.Sub...)
				return
			}
			if k := len(alts); m.Kind == "class" && !m.Fold && k > 0 && alts[k-1].Kind == "class" && !alts[k-1].Fold {
				alts[k-1] = &peg{Kind: "class", Set: append(append(runeSet{}, alts[k-1].Set...), m.Set...).norm(), Pos: alts[k-1].Pos}
				return
			}
			alts = append(alts, m)
		}
		for _, s := range n.Sub {
			push(s, on)
		}
		if len(alts) == 1 {
			return alts[0]
		}
		return &peg{Kind: "choice", Sub: alts, Pos: n.Pos, Lay: n.Lay}
	}
	return n
}

func (c *pegCmp) diff(where string, layout bool, f string, a ...interface{}) {
	c.diffs = append(c.diffs, pegDiff{where, fmt.Sprintf(f, a...), layout})
}

// layoutOnly: everything n can match is blanks and comments.
func (c *pegCmp) layoutOnly(g *pegGrammar, n *peg, depth int) bool {
	if depth > 12 {
		return false
	}
	m := c.nf(g, n)
	if m.Lay {
		return true
	}
	switch m.Kind {
	case "class":
		for _, r := range m.Set.norm() {
			for x := r[0]; x <= r[1]; x++ {
				if x != ' ' && x != '\t' && x != '\n' && x != '\r' {
					return false
				}
			}
		}
		return true
	case "lit":
		for _, x := range m.Str {
			if x != ' ' && x != '\t' && x != '\n' && x != '\r' {
				return false
			}
		}
		return true
	case "seq":
		// a comment, or a sequence of layout
		if f := c.nf(g, m.Sub[0]); f.Kind == "lit" && (f.Str == "//" || f.Str == "/*") {
			return true
		}
		for _, s := range m.Sub {
			if !c.layoutOnly(g, s, depth+1) {
				return false
			}
		}
		return true
	case "choice":
		for _, s := range m.Sub {
			if !c.layoutOnly(g, s, depth+1) {
				return false
			}
		}
		return true
	case "star", "plus", "opt":
		return c.layoutOnly(g, m.Sub[0], depth+1)
	}
	return false
}

// cmp compares a with b; used: the value matched is looked at.
func (c *pegCmp) cmp(an, bn *peg, layout, used bool) {
	a, b := c.nf(c.a, an), c.nf(c.b, bn)
	layout = layout || b.Lay
	if !used && (a.Kind == "seq" || b.Kind == "seq") {
		a, b = c.flat(c.a, a), c.flat(c.b, b)
	}
	k := pegKey{a, b, used}
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.n++
	if a.Kind != b.Kind {
		if c.layoutOnly(c.a, a, 0) && c.layoutOnly(c.b, b, 0) {
			layout = true
		}
		c.diff(pos2(an, a), layout, "the parser has %s where the notation has %s", clip(a.String(), 120), clip(b.String(), 120))
		return
	}
	switch a.Kind {
	case "seq":
		c.cmpSeq(a, b, layout, used)
		return
	case "choice":
		if len(a.Sub) != len(b.Sub) {
			c.diff(pos2(an, a), layout || c.layoutOnly(c.a, a, 0) && c.layoutOnly(c.b, b, 0), "the parser chooses between %d alternatives (%s) where the notation has %d (%s)", len(a.Sub), clip(a.String(), 160), len(b.Sub), clip(b.String(), 160))
			return
		}
	case "lit":
		if a.Str != b.Str || a.Fold != b.Fold {
			c.diff(pos2(an, a), layout, "the parser expects %s where the notation has %s", a, b)
		}
		return
	case "class":
		if !a.Set.equal(b.Set) || a.Fold != b.Fold {
			c.diff(pos2(an, a), layout || c.layoutOnly(c.a, a, 0) && c.layoutOnly(c.b, b, 0), "the parser matches characters %s where the notation has %s", a, b)
		}
		return
	case "label":
		if c.labels && a.Str != b.Str {
			c.diff(pos2(an, a), layout, "the parser names a part %s where the notation names it %s", a.Str, b.Str)
		}
	case "action":
		c.actions = append(c.actions, pegPair{a, b})
	case "ref":
		if a.Str != b.Str {
			c.diff(pos2(an, a), layout, "the parser refers to %s where the notation refers to %s", a.Str, b.Str)
		}
		return
	}
	switch a.Kind {
	case "action", "not", "and":
		used = false
	case "label":
		used = true
	}
	for i := range a.Sub {
		c.cmp(a.Sub[i], b.Sub[i], layout, used)
	}
}

// flat is a sequence whose value is not looked at, with sequences in it
// spliced in.
func (c *pegCmp) flat(g *pegGrammar, n *peg) *peg {
	if n.Kind != "seq" {
		return n
	}
	if m := c.flats[n]; m != nil {
		return m
	}
	m := &peg{Kind: "seq", Pos: n.Pos, Obj: n.Obj, Lay: n.Lay}
	c.flats[n] = m
	for _, s := range n.Sub {
		if f := c.nf(g, s); f.Kind == "seq" && !f.Lay {
			m.Sub = append(m.Sub, c.flat(g, f).Sub...)
		} else {
			m.Sub = append(m.Sub, s)
		}
	}
	return m
}

func pos2(a, b *peg) string {
	if b.Pos != "" {
		return b.Pos
	}
	return a.Pos
}

// similar: the same construct, as far as its kind and literal text go.
func (c *pegCmp) similar(an, bn *peg, depth int) bool {
	a, b := c.nf(c.a, an), c.nf(c.b, bn)
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case "lit":
		return a.Str == b.Str
	case "class":
		return a.Set.equal(b.Set)
	}
	if depth > 3 {
		return true
	}
	if len(a.Sub) != len(b.Sub) && a.Kind != "seq" && a.Kind != "choice" {
		return false
	}
	if a.Kind == "label" || a.Kind == "opt" || a.Kind == "star" || a.Kind == "plus" || a.Kind == "not" || a.Kind == "action" {
		return c.similar(a.Sub[0], b.Sub[0], depth+1)
	}
	return true
}

func (c *pegCmp) cmpSeq(a, b *peg, layout, used bool) {
	if len(a.Sub) == len(b.Sub) {
		same := true
		for i := range a.Sub {
			la, lb := c.layoutOnly(c.a, a.Sub[i], 0), c.layoutOnly(c.b, b.Sub[i], 0)
			if la != lb {
				same = false
			}
		}
		if same {
			for i := range a.Sub {
				c.cmp(a.Sub[i], b.Sub[i], layout || c.layoutOnly(c.b, b.Sub[i], 0), used)
			}
			return
		}
	}
	// compare what is not layout, then say where layout differs
	strip := func(g *pegGrammar, l []*peg) (parts []*peg, lay []*peg) {
		lay = append(lay, nil)
		for _, n := range l {
			if c.layoutOnly(g, n, 0) {
				lay[len(lay)-1] = n
				continue
			}
			parts = append(parts, n)
			lay = append(lay, nil)
		}
		return
	}
	pa, la := strip(c.a, a.Sub)
	pb, lb := strip(c.b, b.Sub)
	if len(pa) != len(pb) {
		c.diff(a.Pos, layout, "the parser matches the parts %s where the notation has %s", clip(a.String(), 200), clip(b.String(), 200))
		return
	}
	for i := range pa {
		c.cmp(pa[i], pb[i], layout, used)
	}
	for i := range la {
		what := "at the end"
		if i < len(pb) {
			what = "before " + clip(pb[i].String(), 60)
		}
		switch {
		case la[i] == nil && lb[i] != nil:
			c.diff(a.Pos, true, "no layout is allowed %s, where the notation allows %s", what, clip(lb[i].String(), 60))
		case la[i] != nil && lb[i] == nil:
			c.diff(a.Pos, true, "layout %s is allowed %s, where the notation has none", clip(la[i].String(), 60), what)
		case la[i] != nil:
			c.cmp(la[i], lb[i], true, used)
		}
	}
}

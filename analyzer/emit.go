package main

// Comparing what a function writes with a template. A template is a tree of
// items; the written text is the content term computed by the interpreter.
// Both are aligned under the facts of the path, splitting on a template
// condition the path has not decided. Lists are compared for the lengths 0 to
// 3: loop summaries depend on the position only through comparisons with the
// first and last, so longer lists add no new case.

import (
	"fmt"
	"go/types"
	"strings"
)

type item struct {
	kind   string // str, ws, ows, gows, term, node, cond, loop, err
	s      string
	t      *Term
	static types.Type
	cond   *Term
	a, b   []item
	body   func(elem, k, n *Term) []item
}

func iStr(s string) item                { return item{kind: "str", s: s} }
func iTerm(t *Term) item                { return item{kind: "term", t: t} }
func iNode(t *Term, st types.Type) item { return item{kind: "node", t: t, static: st} }
func iIf(c *Term, a, b []item) item     { return item{kind: "cond", cond: c, a: a, b: b} }
func iLoop(list *Term, body func(elem, k, n *Term) []item) item {
	return item{kind: "loop", t: list, body: body}
}

var ws = item{kind: "ws"}
var ows = item{kind: "ows"}
var gows = item{kind: "gows"}

// matcher holds how nodes are expanded.
type matcher struct {
	ignore func(f *Facts, t *Term) bool                           // output that does not count
	expand func(f *Facts, x *Term, dyn types.Type) ([]item, bool) // one level of a node
	nilOK  bool
	steps  int
}

type mfail struct {
	msg string
	f   *Facts
}

func (m *mfail) String() string {
	return m.msg
}

func describeItems(it []item) string {
	var out []string
	for _, i := range it {
		switch i.kind {
		case "str":
			out = append(out, fmt.Sprintf("%q", i.s))
		case "term":
			out = append(out, i.t.String())
		case "node":
			out = append(out, "print("+i.t.String()+")")
		case "cond":
			out = append(out, "if "+condString(i.cond, true)+" {"+describeItems(i.a)+"} else {"+describeItems(i.b)+"}")
		case "loop":
			out = append(out, "each of "+i.t.String())
		case "ws":
			out = append(out, "blank")
		}
		if len(out) > 6 {
			out = append(out, "...")
			break
		}
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, " ")
}

func describeParts(a []*Term) string {
	var out []string
	for _, t := range a {
		out = append(out, clip(t.String(), 120))
		if len(out) > 6 {
			out = append(out, "...")
			break
		}
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, " ")
}

// match aligns spec with act under f; nil means they agree on every split.
func (m *matcher) match(f *Facts, spec []item, act []*Term) *mfail {
	m.steps++
	if m.steps > 200000 {
		return &mfail{"too many cases", f}
	}
	for {
		// normalise the head of act
		for len(act) > 0 {
			h := act[0]
			if h.isStr() && h.S == "" || m.ignore != nil && m.ignore(f, h) {
				act = act[1:]
				continue
			}
			if !h.isStr() {
				if sf, ok := f.strs[h.Key()]; ok && sf.eq != nil {
					act = append(append([]*Term{}, tStr(*sf.eq)), act[1:]...)
					continue
				}
			}
			if h.Op == "cat" {
				act = append(append([]*Term{}, h.A...), act[1:]...)
				continue
			}
			if h.Op == "join" {
				if exp, split, why := m.expandJoin(f, h); why != "" {
					return &mfail{why, f}
				} else if split != nil {
					return m.splitLen(f, split, spec, act)
				} else {
					act = append(exp, act[1:]...)
					continue
				}
			}
			if h.Op == "each" {
				alts, split, why := m.expandEach(f, h)
				if why != "" {
					return &mfail{why, f}
				}
				if split != nil {
					return m.splitLen(f, split, spec, act)
				}
				if len(alts) == 1 {
					f = alts[0].f
					act = append(append([]*Term{}, alts[0].parts...), act[1:]...)
					continue
				}
				for _, alt := range alts {
					if r := m.match(alt.f, spec, append(append([]*Term{}, alt.parts...), act[1:]...)); r != nil {
						return r
					}
				}
				return nil
			}
			break
		}
		if len(spec) == 0 {
			if len(act) == 0 {
				return nil
			}
			return &mfail{"writes " + describeParts(act) + " where nothing more is expected", f}
		}
		s := spec[0]
		switch s.kind {
		case "any":
			return nil
		case "cond":
			switch f.eval(s.cond) {
			case yes:
				spec = append(append([]item{}, s.a...), spec[1:]...)
				continue
			case no:
				spec = append(append([]item{}, s.b...), spec[1:]...)
				continue
			}
			g := f.clone()
			if g.assume(s.cond, true) {
				if r := m.match(g, append(append([]item{}, s.a...), spec[1:]...), act); r != nil {
					return r
				}
			}
			g = f.clone()
			if g.assume(s.cond, false) {
				if r := m.match(g, append(append([]item{}, s.b...), spec[1:]...), act); r != nil {
					return r
				}
			}
			return nil
		case "loop":
			n, split := m.fixedLen(f, lenOf(s.t))
			if split != nil {
				return m.splitLen(f, split, spec, act)
			}
			var items []item
			for k := int64(0); k < n; k++ {
				items = append(items, s.body(idx(s.t, tInt(k)), tInt(k), tInt(n))...)
			}
			spec = append(items, spec[1:]...)
			continue
		case "ws", "ows", "gows":
			n := 0
			blanks := " \t\n\r"
			if s.kind == "gows" {
				blanks = " \t" // a line break may end an expression
			}
			for len(act) > 0 && act[0].isStr() {
				t := strings.TrimLeft(act[0].S, blanks)
				n += len(act[0].S) - len(t)
				if t == "" {
					act = act[1:]
					continue
				}
				act = append([]*Term{tStr(t)}, act[1:]...)
				break
			}
			if s.kind == "ws" && n == 0 {
				if len(act) > 0 && (act[0].Op == "each" || act[0].Op == "join" || act[0].Op == "cat") {
					// whitespace may come from the expansion
					act2 := m.forceHead(f, act)
					if act2 != nil {
						act = act2
						continue
					}
				}
				return &mfail{"no blank before " + describeParts(act) + ", expected blank then " + describeItems(spec[1:]), f}
			}
			spec = spec[1:]
			continue
		case "str":
			want := strings.TrimSpace(s.s)
			if want != s.s {
				// normalise blanks in literals
				var its []item
				if strings.TrimLeft(s.s, " \n\t") != s.s {
					its = append(its, ws)
				}
				if want != "" {
					its = append(its, iStr(want))
					if strings.TrimRight(s.s, " \n\t") != s.s {
						its = append(its, ws)
					}
				}
				spec = append(its, spec[1:]...)
				continue
			}
			if s.s == "" {
				spec = spec[1:]
				continue
			}
			if len(act) > 0 && act[0].isStr() {
				h := act[0].S
				if strings.HasPrefix(h, s.s) {
					act = append([]*Term{tStr(h[len(s.s):])}, act[1:]...)
					spec = spec[1:]
					continue
				}
				if strings.HasPrefix(s.s, h) {
					act = act[1:]
					spec = append([]item{iStr(s.s[len(h):])}, spec[1:]...)
					continue
				}
			}
			return &mfail{fmt.Sprintf("writes %s, expected %s", describeParts(act), describeItems(spec)), f}
		case "term":
			t := s.t
			if sf, ok := f.strs[t.Key()]; ok && sf.eq != nil {
				spec = append([]item{iStr(*sf.eq)}, spec[1:]...)
				continue
			}
			if len(act) > 0 && same(act[0], t) {
				act, spec = act[1:], spec[1:]
				continue
			}
			if len(act) > 0 && act[0].Op == "node" && same(act[0].A[0], t) {
				act, spec = act[1:], spec[1:]
				continue
			}
			return &mfail{fmt.Sprintf("writes %s, expected %s", describeParts(act), describeItems(spec)), f}
		case "node":
			if len(act) > 0 && act[0].Op == "node" && same(act[0].A[0], s.t) {
				act, spec = act[1:], spec[1:]
				continue
			}
			ts := f.dynTypes(s.t, s.static)
			if ts == nil {
				return &mfail{fmt.Sprintf("writes %s, expected %s", describeParts(act), describeItems(spec)), f}
			}
			if len(ts) == 1 {
				its, ok := m.expand(f, s.t, ts[0])
				if !ok {
					return &mfail{fmt.Sprintf("writes %s, expected %s", describeParts(act), describeItems(spec)), f}
				}
				spec = append(append([]item{}, its...), spec[1:]...)
				continue
			}
			if len(act) > 0 && act[0].Op == "node" && !mentionsTerm(act[0].A[0], s.t) {
				return &mfail{fmt.Sprintf("writes %s, expected %s", describeParts(act), describeItems(spec)), f}
			}
			some := false
			for _, t := range ts {
				g := f.clone()
				if !g.assume(isTerm(s.t, t, s.static), true) {
					continue
				}
				some = true
				its, ok := m.expand(g, s.t, t)
				if !ok {
					return &mfail{fmt.Sprintf("writes %s for %s, a %s, which has no printed form", describeParts(act), s.t, shortType(t)), g}
				}
				if r := m.match(g, append(append([]item{}, its...), spec[1:]...), act); r != nil {
					return r
				}
			}
			if !some {
				return &mfail{fmt.Sprintf("writes %s for %s, which can only be nil here", describeParts(act), s.t), f}
			}
			return nil
		default:
			return &mfail{"template item " + s.kind, f}
		}
	}
}

func (m *matcher) forceHead(f *Facts, act []*Term) []*Term { return nil }

func mentionsTerm(t, x *Term) bool { return mentions(t, map[string]bool{x.Key(): true}) }

func isTerm(x *Term, t, static types.Type) *Term {
	return &Term{Op: "is", S: tkey(t), A: []*Term{x, {Op: "static", S: fmt.Sprint(static), T: static}}, T: t}
}

func strParts(a []*Term) []string {
	var out []string
	for _, t := range a {
		if t.isStr() {
			out = append(out, t.S)
		}
	}
	return out
}
func allStr(a []*Term) bool {
	for _, t := range a {
		if !t.isStr() {
			return false
		}
	}
	return true
}

// fixedLen is the value of a length term, or the atom to split on.
func (m *matcher) fixedLen(f *Facts, n *Term) (int64, *Term) {
	if n.isInt() {
		return n.N, nil
	}
	core, sign, c := linSplit(n)
	r := f.rng(core)
	if r.lo == r.hi {
		return sign*r.lo + c, nil
	}
	// split on an atom
	if core.Op == "lin" {
		for _, a := range core.A {
			r := f.rng(a)
			if r.lo != r.hi {
				return 0, a
			}
		}
	}
	return 0, core
}

// splitLen tries the lengths of a list. Loops treat all elements alike except
// for the first few and the last few that their conditions single out, so three
// more than the largest number a condition mentions reach every case.
func (m *matcher) splitLen(f *Facts, atom *Term, spec []item, act []*Term) *mfail {
	r := f.rng(atom)
	lo := r.lo
	if lo < 0 {
		lo = 0
	}
	c := int64(0)
	for _, t := range act {
		walkTerm(t, func(t *Term) bool {
			if t.L != nil {
				if x := loopConst(t.L); x > c {
					c = x
				}
			}
			return true
		})
	}
	if c > 8 {
		return &mfail{fmt.Sprintf("what is done for an element depends on whether it comes before or after number %d", c), f}
	}
	max := lo + 3
	if c > 1 && c+3 > max {
		max = c + 3
	}
	n := 0
	for v := lo; v <= max; v++ {
		g := f.clone()
		if !g.assume(cmpTerm("==", atom, tInt(v)), true) {
			continue
		}
		n++
		if r := m.match(g, spec, act); r != nil {
			return r
		}
	}
	if n == 0 {
		return &mfail{"no length of " + atom.String() + " up to the bound is possible", f}
	}
	return nil
}

// loopConst is the largest number an iteration's position is compared with.
func loopConst(l *Loop) int64 {
	max := int64(0)
	about := map[string]bool{l.K.Key(): true}
	if l.Count != nil {
		atoms := map[string]*Term{}
		atomsOf(l.Count, atoms)
		for k := range atoms {
			about[k] = true
		}
	}
	num := func(n int64) {
		if n < 0 {
			n = -n
		}
		if n > max {
			max = n
		}
	}
	for _, p := range l.Paths {
		for _, d := range p.Facts.conds {
			c := d.c
			for c.Op == "not" {
				c = c.A[0]
			}
			if (c.Op != "lt0" && c.Op != "eq0") || !mentions(c.A[0], about) {
				continue
			}
			walkTerm(c.A[0], func(t *Term) bool {
				switch t.Op {
				case "int":
					num(t.N)
				case "lin":
					co, _, n := linParts(t)
					num(n)
					for _, k := range co {
						num(k)
					}
				}
				return true
			})
		}
	}
	return max
}

type alt struct {
	f     *Facts
	parts []*Term
}

// instantiate gives the segments a loop contributes for iteration k of n.
func (m *matcher) instantiate(f *Facts, l *Loop, slot string, k, n int64) ([]alt, string) {
	sub := map[string]*Term{l.K.Key(): tInt(k)}
	var alts []alt
	for _, p := range l.Paths {
		g := f.clone()
		ok := true
		for _, d := range p.Facts.conds {
			c := substCond(d.c, sub)
			if !g.assume(c, d.pol) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		var parts []*Term
		for _, s := range p.Segs[slot] {
			if s.Op == "one" {
				s = mk("one", "", subst(s.A[0], sub))
			} else {
				s = subst(s, sub)
			}
			parts = append(parts, s)
		}
		alts = append(alts, alt{g, parts})
	}
	if len(alts) == 0 {
		return nil, fmt.Sprintf("no iteration path of %s for element %d of %d", l.ID, k, n)
	}
	return alts, ""
}

func substCond(c *Term, sub map[string]*Term) *Term {
	switch c.Op {
	case "lt0", "eq0":
		v := subst(c.A[0], sub)
		if c.Op == "eq0" {
			return eq0(v)
		}
		return mk("lt0", "", v)
	case "not":
		return notTerm(substCond(c.A[0], sub))
	case "streq":
		return strEq(subst(c.A[0], sub), c.A[1])
	case "is":
		return &Term{Op: "is", S: c.S, T: c.T, A: []*Term{subst(c.A[0], sub), c.A[1]}}
	}
	return subst(c, sub)
}

func (m *matcher) expandEach(f *Facts, e *Term) ([]alt, *Term, string) {
	l := e.L
	if l == nil || l.Count == nil {
		return nil, nil, "a loop writes an unknown number of times: " + clip(e.String(), 300)
	}
	n, split := m.fixedLen(f, l.Count)
	if split != nil {
		return nil, split, ""
	}
	cur := []alt{{f, nil}}
	for k := int64(0); k < n; k++ {
		var next []alt
		for _, c := range cur {
			as, why := m.instantiate(c.f, l, e.S, k, n)
			if why != "" {
				return nil, nil, why
			}
			for _, a := range as {
				next = append(next, alt{a.f, append(append([]*Term{}, c.parts...), a.parts...)})
			}
		}
		cur = next
		if len(cur) > 4096 {
			return nil, nil, "too many iteration cases"
		}
	}
	return cur, nil, ""
}

// expandJoin gives the pieces of strings.Join.
func (m *matcher) expandJoin(f *Facts, j *Term) ([]*Term, *Term, string) {
	elems, split, why := m.elems(f, j.A[0])
	if why != "" || split != nil {
		return nil, split, why
	}
	var out []*Term
	for i, e := range elems {
		if i > 0 {
			out = append(out, j.A[1])
		}
		out = append(out, e)
	}
	return out, nil, ""
}

// elems lists the elements of a list term of decided length.
func (m *matcher) elems(f *Facts, l *Term) ([]*Term, *Term, string) {
	var out []*Term
	for _, s := range asSegs(l) {
		switch s.Op {
		case "one":
			out = append(out, s.A[0])
		case "all":
			n, split := m.fixedLen(f, lenOf(s.A[0]))
			if split != nil {
				return nil, split, ""
			}
			for k := int64(0); k < n; k++ {
				out = append(out, idx(s.A[0], tInt(k)))
			}
		case "each":
			alts, split, why := m.expandEach(f, s)
			if why != "" || split != nil {
				return nil, split, why
			}
			if len(alts) != 1 {
				return nil, nil, "list elements depend on undecided conditions: " + clip(s.String(), 300)
			}
			for _, p := range alts[0].parts {
				if p.Op != "one" {
					return nil, nil, "list with nested lists"
				}
				out = append(out, p.A[0])
			}
		default:
			return nil, nil, "unknown list " + clip(s.String(), 200)
		}
	}
	return out, nil, ""
}

package main

// How the work of the parser grows. A parsing expression grammar without memo
// takes exponential time when something that contains itself is tried again
// over text on which it was tried in depth before: ( A B / A C ) with A
// recursive doubles the work at each level. For every place where the grammar
// may go on after a failure, the texts on which the failed part gets in depth
// and the texts on which what comes instead gets in depth must be disjoint.

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An attempt is deep if a recursive rule is entered so many times in it, one
// inside or after the other. Any number is sound: what is tried again without
// getting that far is a constant factor at each place.
var deepEntries = []int{2, 3, 4, 5}

// growFrame is a stack of places to go on at; frame 0 is not known.
type growFrame struct{ below, ret, depth int }

const maxFrames = 12

type growEdge struct {
	set    runeSet // nil: no input
	to     int
	entry  bool    // enters a cut rule
	forbid runeSet // the next character is none of these
	ret    int     // where it goes on when the rule that is entered ends, or -1
}

type growPoint struct {
	where   string
	pos     string
	a, stop int // the part that is tried, and its end
	k       int // what comes when it fails
}

type growth struct {
	g       *pegGrammar
	edges   [][]growEdge
	start   map[string]int
	end     map[string]int
	cut     map[string]bool
	rec     map[string]bool
	points  []growPoint
	rets    map[int][]int // end of a rule: where it may go on
	stacks  []growFrame
	stackBy map[growFrame]int
	deep    int
	scc     []string
	sets    map[string]int // sets of characters that do not come next
	setOf   []runeSet
	big     bool
}

func (w *growth) state() int {
	w.edges = append(w.edges, nil)
	if len(w.edges) > 20000 {
		w.big = true
	}
	return len(w.edges) - 1
}

func (w *growth) eps(a, b int) { w.edges[a] = append(w.edges[a], growEdge{to: b, ret: -1}) }

// build adds the paths of n from state a and returns where they end.
func (w *growth) build(rule string, n *peg, a int, depth int) int {
	if depth > 200 {
		w.big = true
	}
	if w.big {
		return a
	}
	point := func(what string, b *peg, from, stop, k int) {
		if w.reaches(b) {
			w.points = append(w.points, growPoint{fmt.Sprintf("%s in %s", what, rule), b.Pos, from, stop, k})
		}
	}
	switch n.Kind {
	case "seq":
		for _, s := range n.Sub {
			a = w.build(rule, s, a, depth+1)
		}
		return a
	case "choice":
		end := w.state()
		var starts, stops []int
		for _, s := range n.Sub {
			st := w.state()
			w.eps(a, st)
			e := w.build(rule, s, st, depth+1)
			w.eps(e, end)
			starts, stops = append(starts, st), append(stops, e)
		}
		for i := range n.Sub {
			if i+1 < len(n.Sub) {
				k := w.state()
				for _, s := range starts[i+1:] {
					w.eps(k, s)
				}
				point(fmt.Sprintf("alternative %d", i+1), n.Sub[i], starts[i], stops[i], k)
			}
		}
		return end
	case "star", "plus", "opt":
		loop, in, out := w.state(), w.state(), w.state()
		w.eps(a, loop)
		w.eps(loop, in)
		e := w.build(rule, n.Sub[0], in, depth+1)
		if n.Kind == "opt" {
			w.eps(e, out)
		} else {
			w.eps(e, loop)
		}
		// it goes on as long as it can: what comes next is not one more
		end := growEdge{to: out, ret: -1, forbid: w.single(n.Sub[0], 0)}
		if n.Kind != "plus" {
			w.edges[loop] = append(w.edges[loop], end)
		} else {
			w.edges[e] = append(w.edges[e], end)
		}
		what := map[string]string{"star": "repetition", "plus": "repetition", "opt": "option"}[n.Kind]
		point(what, n.Sub[0], in, e, out)
		return out
	case "not", "and":
		in, out := w.state(), w.state()
		w.eps(a, in)
		e := w.build(rule, n.Sub[0], in, depth+1)
		x := growEdge{to: out, ret: -1}
		if n.Kind == "not" {
			x.forbid = w.single(n.Sub[0], 0)
		}
		w.edges[a] = append(w.edges[a], x)
		point("look-ahead", n.Sub[0], in, e, out)
		return out
	case "lit":
		for _, r := range n.Str {
			b := w.state()
			w.edges[a] = append(w.edges[a], growEdge{set: folded(runeSet{{r, r}}, n.Fold), to: b})
			a = b
		}
		return a
	case "class":
		b := w.state()
		w.edges[a] = append(w.edges[a], growEdge{set: folded(n.Set, n.Fold), to: b})
		return b
	case "any":
		b := w.state()
		w.edges[a] = append(w.edges[a], growEdge{set: runeSet{{0, maxRune}}, to: b})
		return b
	case "ref":
		r := w.g.rule(n.Str)
		if r == nil {
			return a
		}
		if !w.rec[n.Str] {
			return w.build(rule, r.Body, a, depth+1)
		}
		b := w.state()
		w.edges[a] = append(w.edges[a], growEdge{to: w.start[n.Str], ret: b, entry: w.cut[n.Str]})
		w.rets[w.end[n.Str]] = append(w.rets[w.end[n.Str]], b)
		return b
	}
	for _, s := range n.Sub {
		a = w.build(rule, s, a, depth+1)
	}
	return a
}

// single is a set of characters on each of which n matches, whatever follows.
func (w *growth) single(n *peg, depth int) runeSet {
	if depth > 20 {
		return nil
	}
	switch n.Kind {
	case "lit":
		if rs := []rune(n.Str); len(rs) == 1 {
			return folded(runeSet{{rs[0], rs[0]}}, n.Fold)
		}
	case "class":
		return folded(n.Set, n.Fold)
	case "any":
		return runeSet{{0, maxRune}}
	case "choice":
		var out runeSet
		for _, s := range n.Sub {
			out = append(out, w.single(s, depth+1)...)
		}
		return out.norm()
	case "ref":
		if r := w.g.rule(n.Str); r != nil {
			return w.single(r.Body, depth+1)
		}
	case "action", "label", "plus":
		if n.Kind == "action" {
			return nil // it may fail
		}
		return w.single(n.Sub[0], depth+1)
	}
	return nil
}

func folded(s runeSet, fold bool) runeSet {
	if !fold {
		return s
	}
	out := append(runeSet{}, s...)
	for _, r := range s {
		for c := r[0]; c <= r[1] && c < 128; c++ {
			if c >= 'a' && c <= 'z' {
				out = append(out, [2]rune{c - 32, c - 32})
			}
			if c >= 'A' && c <= 'Z' {
				out = append(out, [2]rune{c + 32, c + 32})
			}
		}
	}
	return out.norm()
}

// reaches: a recursive rule is tried in n.
func (w *growth) reaches(n *peg) bool {
	seen := map[string]bool{}
	var walk func(n *peg) bool
	walk = func(n *peg) bool {
		if n.Kind == "ref" {
			if w.rec[n.Str] {
				return true
			}
			if r := w.g.rule(n.Str); r != nil && !seen[n.Str] {
				seen[n.Str] = true
				return walk(r.Body)
			}
			return false
		}
		for _, s := range n.Sub {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(n)
}

// refsOf are the rules a rule refers to.
func refsOf(n *peg, out map[string]bool) {
	if n.Kind == "ref" {
		out[n.Str] = true
	}
	for _, s := range n.Sub {
		refsOf(s, out)
	}
}

// growthOf decides every place of the grammar for one group of rules that
// contain each other.
func growthOf(g *pegGrammar) [][]*growth {
	refs := map[string]map[string]bool{}
	for _, r := range g.Rules {
		if g.rule(r.Name) == r {
			refs[r.Name] = map[string]bool{}
			refsOf(r.Body, refs[r.Name])
		}
	}
	names := sortedKeys(refs)
	reach := func(without map[string]bool) map[string]map[string]bool {
		t := map[string]map[string]bool{}
		for _, a := range names {
			t[a] = map[string]bool{}
			if without[a] {
				continue
			}
			work := []string{a}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				for b := range refs[x] {
					if !without[b] && !t[a][b] && refs[b] != nil {
						t[a][b] = true
						work = append(work, b)
					}
				}
			}
		}
		return t
	}
	all := reach(nil)
	rec := map[string]bool{}
	for _, a := range names {
		rec[a] = all[a][a]
	}
	done := map[string]bool{}
	var out [][]*growth
	for _, a := range names {
		if !rec[a] || done[a] {
			continue
		}
		var scc []string
		for _, b := range names {
			if b == a || all[a][b] && all[b][a] {
				scc = append(scc, b)
				done[b] = true
			}
		}
		// rules without which the group has no cycle, as few as possible
		var cuts []map[string]bool
		acyclic := func(cut map[string]bool) bool {
			t := reach(cut)
			for _, b := range scc {
				if t[b][b] {
					return false
				}
			}
			return true
		}
		for _, b := range scc {
			if c := map[string]bool{b: true}; acyclic(c) {
				cuts = append(cuts, c)
			}
		}
		if len(cuts) == 0 {
			cut := map[string]bool{}
			for _, b := range scc {
				cut[b] = true
			}
			for _, b := range scc {
				delete(cut, b)
				if !acyclic(cut) {
					cut[b] = true
				}
			}
			cuts = append(cuts, cut)
		}
		var ws []*growth
		for _, cut := range cuts {
			for _, deep := range deepEntries {
				ws = append(ws, growthFor(g, names, rec, cut, scc, deep))
			}
		}
		out = append(out, ws)
	}
	return out
}

func growthFor(g *pegGrammar, names []string, rec, cut map[string]bool, scc []string, deep int) *growth {
	w := &growth{g: g, start: map[string]int{}, end: map[string]int{}, cut: cut, rec: rec, deep: deep, scc: scc, sets: map[string]int{"": 0}, setOf: []runeSet{nil}, rets: map[int][]int{}, stacks: []growFrame{{}}, stackBy: map[growFrame]int{}}
	for _, b := range names {
		if rec[b] {
			w.start[b], w.end[b] = w.state(), w.state()
		}
	}
	for _, b := range names {
		// the first rule, and the recursive ones
		if rec[b] {
			e := w.build(b, g.rule(b).Body, w.start[b], 0)
			w.eps(e, w.end[b])
		} else if len(g.Rules) > 0 && b == g.Rules[0].Name {
			w.build(b, g.rule(b).Body, w.state(), 0)
		}
	}
	return w
}

// growConf: a state, entries so far, characters that do not come next, stack.
type growConf struct{ s, n, f, k int }

func (w *growth) pushed(k, ret int) int {
	if w.stacks[k].depth >= maxFrames {
		// forget the bottom
		var rs []int
		for q := k; w.stacks[q].depth > 1; q = w.stacks[q].below {
			rs = append(rs, w.stacks[q].ret)
		}
		k = 0
		for i := len(rs) - 1; i >= 0; i-- {
			k = w.pushed(k, rs[i])
		}
	}
	fr := growFrame{k, ret, w.stacks[k].depth + 1}
	if i, ok := w.stackBy[fr]; ok {
		return i
	}
	w.stackBy[fr] = len(w.stacks)
	w.stacks = append(w.stacks, fr)
	return w.stackBy[fr]
}

func (w *growth) also(f int, s runeSet) int {
	if len(s) == 0 {
		return f
	}
	u := append(append(runeSet{}, w.setOf[f]...), s...).norm()
	k := u.String()
	if i, ok := w.sets[k]; ok {
		return i
	}
	w.sets[k] = len(w.setOf)
	w.setOf = append(w.setOf, u)
	return w.sets[k]
}

func without(s, f runeSet) runeSet {
	if len(f) == 0 {
		return s
	}
	var out runeSet
	for _, a := range s {
		for _, b := range f.norm().invert() {
			lo, hi := a[0], a[1]
			if b[0] > lo {
				lo = b[0]
			}
			if b[1] < hi {
				hi = b[1]
			}
			if lo <= hi {
				out = append(out, [2]rune{lo, hi})
			}
		}
	}
	return out
}

// close adds what is reached without input; entries are counted.
func (w *growth) close(from []growConf, stop int) []growConf {
	seen := map[growConf]bool{}
	var out []growConf
	var visit func(c growConf)
	visit = func(c growConf) {
		if seen[c] {
			return
		}
		seen[c] = true
		out = append(out, c)
		if c.n >= w.deep || c.s == stop {
			return
		}
		for _, e := range w.edges[c.s] {
			if e.set == nil {
				n := c.n
				if e.entry {
					n++
				}
				k := c.k
				if e.ret >= 0 {
					k = w.pushed(k, e.ret)
				}
				visit(growConf{e.to, n, w.also(c.f, e.forbid), k})
			}
		}
		if rs, ok := w.rets[c.s]; ok {
			if c.k == 0 {
				for _, r := range rs {
					visit(growConf{r, c.n, c.f, 0})
				}
			} else {
				visit(growConf{w.stacks[c.k].ret, c.n, c.f, w.stacks[c.k].below})
			}
		}
	}
	for _, c := range from {
		visit(c)
	}
	return out
}

func meet(a, b runeSet) (rune, bool) {
	for _, x := range a {
		for _, y := range b {
			lo, hi := x[0], x[1]
			if y[0] > lo {
				lo = y[0]
			}
			if y[1] < hi {
				hi = y[1]
			}
			if lo <= hi {
				return lo, true
			}
		}
	}
	return 0, false
}

// conflict finds a text on which both the part and what comes instead get in
// depth.
func (w *growth) conflict(p growPoint) (string, bool) {
	type pair struct{ a, k growConf }
	type from struct {
		p pair
		c rune
	}
	prev := map[pair]from{}
	var work []pair
	full := runeSet{{0, maxRune}}
	// configurations that can read, or are done
	leaves := func(c growConf, stop int) []growConf {
		var out []growConf
		for _, q := range w.close([]growConf{c}, stop) {
			if q.n >= w.deep {
				return []growConf{{-1, w.deep, 0, 0}}
			}
			out = append(out, q)
		}
		return out
	}
	push := func(q pair, f from) {
		if _, ok := prev[q]; !ok {
			prev[q] = f
			work = append(work, q)
		}
	}
	root := pair{growConf{-2, 0, 0, 0}, growConf{-2, 0, 0, 0}}
	for _, a := range leaves(growConf{p.a, 0, 0, 0}, p.stop) {
		for _, k := range leaves(growConf{p.k, 0, 0, 0}, -9) {
			push(pair{a, k}, from{root, -1})
		}
	}
	text := func(q pair) string {
		var rs []rune
		for q != root {
			f := prev[q]
			if f.c >= 0 {
				rs = append(rs, f.c)
			}
			q = f.p
		}
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
		return string(rs)
	}
	step := func(c growConf, stop int) []growEdge {
		if c.s == -1 {
			return []growEdge{{set: full, to: -1}}
		}
		if c.s == stop {
			return nil
		}
		var out []growEdge
		for _, e := range w.edges[c.s] {
			if e.set != nil {
				e.set = without(e.set, w.setOf[c.f])
				out = append(out, e)
			}
		}
		return out
	}
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		if q.a.s == -1 && q.k.s == -1 {
			return text(q), true
		}
		if len(prev) > 3000000 {
			w.big = true
			return "", false
		}
		for _, ea := range step(q.a, p.stop) {
			for _, ek := range step(q.k, -9) {
				c, ok := meet(ea.set, ek.set)
				if !ok {
					continue
				}
				as := []growConf{{-1, w.deep, 0, 0}}
				if ea.to >= 0 {
					as = leaves(growConf{ea.to, q.a.n, 0, q.a.k}, p.stop)
				}
				ks := []growConf{{-1, w.deep, 0, 0}}
				if ek.to >= 0 {
					ks = leaves(growConf{ek.to, q.k.n, 0, q.k.k}, -9)
				}
				for _, a := range as {
					for _, k := range ks {
						push(pair{a, k}, from{q, c})
					}
				}
			}
		}
	}
	return "", false
}

func init() {
	checks["C25"] = func(c *Check) {
		c.rule = "The built grammar, as an automaton over its constructs: wherever matching may go on after a failure (each alternative, repetition, option, look-ahead that contains a recursive rule), the texts on which the failed part gets in depth (a recursive rule entered twice) and those on which what comes instead does are disjoint (emptiness of the intersection of regular languages). The engine tries every operand as often as the construct says (abstract matching of every node), goes over its input in loops that end (as for C02), and no action runs the engine again (call graph)."
		c.assumptions = append([]string{"go/parser and the library functions take polynomial time", "stack depth is not bounded"}, parserAssumptions...)
		a := c.parser()
		if a == nil {
			return
		}
		a.termination(c)
		gs := growthOf(a.g)
		c.check(len(gs) > 0, "recursive", "", "%d groups of recursive rules", len(gs))
		for _, ws := range gs {
			useGrowth(c, ws)
		}
		e := a.engine()
		e.checkNodes()
		a.useEngine(c, e, propIs("C07", "C02"))
		e.loops(c)
		e.actionsStayOut(c)
	}
}

// useGrowth reports on one group of rules; any of the ways to look at it will do.
func useGrowth(c *Check, ws []*growth) {
	group := strings.Join(ws[0].scc, ", ")
	var first *growth
	var texts map[int]string
	for _, w := range ws {
		sort.SliceStable(w.points, func(i, j int) bool { return w.points[i].where < w.points[j].where })
		bad := map[int]string{}
		for i, p := range w.points {
			if t, ok := w.conflict(p); ok {
				bad[i] = t
			}
		}
		if w.big {
			continue
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			for i, t := range bad {
				fmt.Printf("%v %d: %s %q\n", sortedKeys(w.cut), w.deep, w.points[i].where, t)
			}
		}
		if first == nil || len(bad) < len(texts) {
			first, texts = w, bad
		}
	}
	if first == nil {
		c.fail("size:"+group, "", "the grammar is too large to be analysed")
		return
	}
	for i, p := range first.points {
		t, bad := texts[i]
		key := fmt.Sprintf("again:%s:%s#%d", group, p.where, i)
		c.check(!bad, key, p.pos, "%s is not given up for something that tries %s again over the same text%s", p.where, group, example(t, bad))
	}
	c.counts["places"] += len(first.points)
	c.counts["states"] += len(first.edges)
}

func example(t string, bad bool) string {
	if !bad {
		return ""
	}
	return fmt.Sprintf(": both get in depth on a text that starts with %q", t)
}

// actionsStayOut: no action runs the engine.
func (e *engineCheck) actionsStayOut(c *Check) {
	from := func(f *ssa.Function) string {
		seen := map[*ssa.Function]bool{f: true}
		work := []*ssa.Function{f}
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == e.disp {
				return g.Name()
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && !seen[h] && e.p.inRepo(h) {
							seen[h] = true
							work = append(work, h)
						}
					}
				}
			}
			for _, h := range g.AnonFuncs {
				if !seen[h] {
					seen[h] = true
					work = append(work, h)
				}
			}
		}
		return ""
	}
	n := 0
	done := map[*ssa.Function]bool{}
	for _, q := range e.nodes() {
		if q.Run == nil || done[q.Run] {
			continue
		}
		done[q.Run] = true
		n++
		g := from(q.Run)
		c.check(g == "", "action:"+q.Run.Name(), e.p.pos(q.Run.Pos()), "%s does not run the engine", q.Run.Name())
	}
	c.counts["actions"] = n
}

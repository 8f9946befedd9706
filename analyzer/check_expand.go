package main

// C14, C15 and the expander's part of C16: expansion of alternations.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type expandCheck struct {
	c                                 *Check
	p                                 *Program
	pkg                               *ssa.Package
	valueT, opT, partT                types.Type
	sexprT, partsT, ruleT, altT, opcT types.Type
	fileT                             types.Type
	cands                             map[*ssa.Function]bool
	fails                             map[*ssa.Function][]efail
	deleg                             map[*ssa.Function]map[*ssa.Function]bool
	stats                             map[string]int
	prop                              string
}

type efail struct {
	prop, pos, text string
}

func newExpandCheck(c *Check) *expandCheck {
	ec := &expandCheck{c: c, p: c.p, pkg: c.p.pkg("pass"), cands: map[*ssa.Function]bool{},
		fails: map[*ssa.Function][]efail{}, deleg: map[*ssa.Function]map[*ssa.Function]bool{}, stats: map[string]int{}}
	ec.valueT, ec.opT, ec.partT = c.p.namedType(astPkg, "Value"), c.p.namedType(astPkg, "Op"), c.p.namedType(astPkg, "OpPart")
	ec.sexprT, ec.ruleT, ec.fileT = c.p.typ(astPkg, "SExpr", true), c.p.typ(astPkg, "Rule", true), c.p.typ(astPkg, "File", true)
	ec.partsT, ec.altT, ec.opcT = c.p.namedType(astPkg, "OpcodeParts"), c.p.namedType(astPkg, "OpcodeAlt"), c.p.namedType(astPkg, "Opcode")
	for _, t := range []types.Type{ec.valueT, ec.opT, ec.partT, ec.sexprT, ec.ruleT, ec.fileT, ec.partsT, ec.altT, ec.opcT} {
		if t == nil {
			c.fail("anchor", "", "types of package ast not found")
			return nil
		}
	}
	if ec.pkg == nil {
		c.fail("anchor", "", "package pass not found")
		return nil
	}
	return ec
}

func (ec *expandCheck) kindOf(t types.Type) string {
	switch {
	case types.Identical(t, ec.valueT):
		return "value"
	case types.Identical(t, ec.opT):
		return "op"
	case types.Identical(t, ec.sexprT):
		return "sexpr"
	case types.Identical(t, ec.partsT):
		return "parts"
	case types.Identical(t, ec.ruleT):
		return "rule"
	}
	return ""
}

func (ec *expandCheck) candidates() {
	for _, fn := range ec.p.funcs {
		if fn.Pkg != ec.pkg || len(fn.Blocks) == 0 || fn.Synthetic != "" || len(fn.Params) != 1 || len(fn.FreeVars) > 0 {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() != 2 || !types.Identical(rs.At(1).Type(), types.Universe.Lookup("error").Type()) || ec.kindOf(fn.Params[0].Type()) == "" {
			continue
		}
		if _, ok := rs.At(0).Type().Underlying().(*types.Slice); ok {
			ec.cands[fn] = true
		}
	}
}

var debugOn = os.Getenv("VERIF_DEBUG") != ""

func tFails(n *Term) *Term { return mk("fails", "", unbox(n)) }
func tExp(n *Term) *Term   { return mk("exp", "", unbox(n)) }

// source is one thing that may have alternatives.
type source struct {
	node *Term
	kind string // leaf, alt, exp, bad, mixed
	cnt  *Term
}

func (ec *expandCheck) source(f *Facts, n *Term, static types.Type) source {
	n = unbox(n)
	ts := f.dynTypes(n, static)
	if len(ts) == 0 && types.IsInterface(static) {
		return source{n, "bad", tInt(1)}
	}
	kind := ""
	for _, t := range ts {
		k := "mixed"
		switch astName(t) {
		case "ast.Opcode", "ast.Variable", "ast.Expr":
			k = "leaf"
		case "ast.OpcodeAlt":
			k = "alt"
		case "ast.SExpr", "ast.OpcodeParts", "ast.Rule":
			k = "exp"
		}
		if kind != "" && kind != k {
			if types.Identical(static, ec.partT) {
				k = "mixed"
			} else {
				k = "exp"
			}
		}
		kind = k
	}
	switch kind {
	case "leaf":
		return source{n, kind, tInt(1)}
	case "alt":
		return source{n, kind, lenOf(n)}
	case "exp":
		return source{n, kind, lenOf(tExp(n))}
	}
	return source{n, "mixed", tInt(1)}
}

// spec is what the expansion of a node draws on.
type espec struct {
	x      *Term
	kind   string
	fixed  []espart
	list   *Term // its elements are further sources
	static types.Type
}

type espart struct {
	node   *Term
	static types.Type
}

func (ec *expandCheck) spec(x *Term, kind string) *espec {
	switch kind {
	case "sexpr":
		return &espec{x: x, kind: kind, fixed: []espart{{fld("Op", x), ec.opT}}, list: fld("Args", x), static: ec.valueT}
	case "parts":
		return &espec{x: x, kind: kind, list: x, static: ec.partT}
	case "rule":
		return &espec{x: x, kind: kind, fixed: []espart{{fld("Match", x), ec.valueT}, {fld("Result", x), ec.valueT}}}
	}
	return nil
}

func compat(a, b int64) bool { return a <= 1 || b <= 1 || a == b }

func max64(a ...int64) int64 {
	m := a[0]
	for _, x := range a {
		if x > m {
			m = x
		}
	}
	return m
}

func listCount(list *Term) *Term       { return mk("joined", "", list) }
func prefixCount(l *Loop, n int) *Term { return mk("joinedsofar", fmt.Sprintf("%s.%d", l.ID, n)) }

// world is the context of an outcome: what the loops passed so far established.
type world struct {
	ec      *expandCheck
	sp      *espec
	conds   []decision
	cs      []constraint
	sources []*Term // counts that are known to take part
	whole   bool    // every element of the list was expanded successfully
	joined  bool    // and its count joined
	partial []source
	why     []string
}

// world reads the loops of an outcome. f holds the facts at its end.
func (ec *expandCheck) world(sp *espec, f *Facts, events []Event) *world {
	w := &world{ec: ec, sp: sp, conds: f.conds}
	for _, s := range sp.fixed {
		src := ec.source(f, s.node, s.static)
		if src.kind == "exp" {
			w.atLeast(src.cnt, 1)
		}
		w.sources = append(w.sources, src.cnt)
	}
	if sp.list == nil {
		w.whole, w.joined = true, true
		return w
	}
	if f.eval(eq0(lenOf(sp.list))) == yes {
		w.whole, w.joined = true, true
	}
	E := listCount(sp.list)
	for _, e := range events {
		if e.Kind != "loop" || e.L.Over != nil && !w.sameList(e.L) || e.L.Over == nil && !w.sameLen(e.L) {
			continue
		}
		l := e.L
		// which element does an iteration look at
		el := idx(sp.list, l.K)
		clean := true
		for _, p := range l.Paths {
			src := ec.source(p.Facts, el, sp.static)
			switch src.kind {
			case "leaf":
			case "alt":
			case "exp":
				if p.Facts.eval(tFails(el)) != no && !e2(w.whole) {
					clean = false
				}
			default:
				clean = false
				w.why = append(w.why, fmt.Sprintf("an element of kind %s is passed over", src.kind))
			}
		}
		for n, c := range l.Carried {
			good := true
			for _, p := range l.Paths {
				src := ec.source(p.Facts, el, sp.static)
				if src.kind == "bad" || src.kind == "mixed" {
					good = false
					break
				}
				back, ok := p.Back[c.Slot]
				if !ok {
					good = false
					break
				}
				cs := []constraint{{[]*Term{c.Sym}, func(ev func(*Term) int64) bool { return ev(c.Sym) >= 1 }}}
				if src.kind == "exp" {
					cs = append(cs, constraint{[]*Term{src.cnt}, func(ev func(*Term) int64) bool { return ev(src.cnt) >= 1 }})
				}
				ok, cex := implied(p.Facts.conds, cs, []*Term{c.Sym, src.cnt, back}, func(ev func(*Term) int64) bool {
					a, b := ev(c.Sym), ev(src.cnt)
					return b >= 1 && compat(a, b) && ev(back) == max64(a, b)
				})
				if !ok {
					good = false
					if isIntLike(c) {
						w.why = append(w.why, fmt.Sprintf("the running count is not the common count: %s when %s", back, cex))
					}
					break
				}
			}
			if !good || len(l.Paths) == 0 {
				continue
			}
			init := c.Init
			if e.Full {
				post := c.Post
				w.cs = append(w.cs, constraint{[]*Term{post, init, E}, func(ev func(*Term) int64) bool {
					return ev(E) >= 1 && compat(ev(init), ev(E)) && ev(post) == max64(ev(init), ev(E))
				}})
				w.joined = true
			} else {
				pc := prefixCount(l, n)
				sym := c.Sym
				w.cs = append(w.cs, constraint{[]*Term{sym, init, pc}, func(ev func(*Term) int64) bool {
					return ev(pc) >= 1 && compat(ev(init), ev(pc)) && ev(sym) == max64(ev(init), ev(pc))
				}})
				w.sources = append(w.sources, pc)
			}
		}
		if e.Full && clean {
			w.whole = true
		}
		if !e.Full {
			src := ec.source(f, el, sp.static)
			if src.kind == "exp" {
				w.atLeast(src.cnt, 1)
			}
			w.partial = append(w.partial, src)
			w.sources = append(w.sources, src.cnt)
		}
	}
	if w.joined {
		w.sources = append(w.sources, E)
	}
	return w
}

func e2(b bool) bool { return b }

func isIntLike(c Carried) bool {
	return c.Init != nil && (c.Init.isInt() || c.Init.Op == "len" || c.Init.Op == "lin" || c.Init.Op == "post")
}

func (w *world) sameList(l *Loop) bool {
	return same(unbox(l.Over), unbox(w.sp.list)) || w.sameLen(l)
}

func (w *world) sameLen(l *Loop) bool { return l.Count != nil && same(l.Count, lenOf(w.sp.list)) }

func (w *world) atLeast(t *Term, n int64) {
	w.cs = append(w.cs, constraint{[]*Term{t}, func(ev func(*Term) int64) bool { return ev(t) >= n }})
}

// member adds what is known of the count of any element of the list.
func (w *world) members(conds []decision, more ...*Term) []constraint {
	cs := w.cs
	if w.sp.list == nil {
		return cs
	}
	E := listCount(w.sp.list)
	seen := map[string]bool{}
	add := func(t *Term) {
		walkTerm(t, func(t *Term) bool {
			if t.Op == "len" && !seen[t.Key()] {
				n := t.A[0]
				exp := n.Op == "exp"
				if exp {
					n = n.A[0]
				}
				if n.Op == "idx" && same(unbox(n.A[0]), unbox(w.sp.list)) {
					seen[t.Key()] = true
					if w.joined {
						cs = append(cs, constraint{[]*Term{t, E}, func(ev func(*Term) int64) bool { return ev(t) == 1 || ev(t) == ev(E) }})
					} else if exp {
						cs = append(cs, constraint{[]*Term{t}, func(ev func(*Term) int64) bool { return ev(t) >= 1 }})
					}
				} else if exp {
					seen[t.Key()] = true
					cs = append(cs, constraint{[]*Term{t}, func(ev func(*Term) int64) bool { return ev(t) >= 1 }})
				}
			}
			return true
		})
	}
	for _, d := range conds {
		add(d.c)
	}
	for _, t := range more {
		add(t)
	}
	return cs
}

func (w *world) implied(conds []decision, terms []*Term, goal func(ev func(*Term) int64) bool) (bool, string) {
	return implied(conds, w.members(conds, terms...), terms, goal)
}

// feasible is false if no counts at all lead to the outcome.
func (w *world) feasible() bool {
	atoms := map[string]*Term{}
	for _, d := range w.conds {
		c := d.c
		for c.Op == "not" {
			c = c.A[0]
		}
		if c.Op == "lt0" || c.Op == "eq0" {
			atomsOf(c.A[0], atoms)
		}
	}
	// the counts in the last decisions are what matters
	for n := 1; n <= 3 && n <= len(w.conds); n++ {
		var ts []*Term
		for _, d := range w.conds[len(w.conds)-n:] {
			c := d.c
			for c.Op == "not" {
				c = c.A[0]
			}
			if c.Op == "lt0" || c.Op == "eq0" {
				ts = append(ts, c.A[0])
			}
		}
		if len(ts) == 0 {
			continue
		}
		if no, _ := w.implied(w.conds, ts, func(func(*Term) int64) bool { return false }); no {
			return false
		}
	}
	return true
}

type elemAt struct {
	conds []decision
	f     *Facts
	t     *Term
	k     *Term
}

// pointwise is element k of a list for an arbitrary k.
func pointwise(list *Term, f *Facts) (elems []elemAt, n *Term, bad string) {
	list = unbox(list)
	switch list.Op {
	case "nil":
		return nil, tInt(0), ""
	case "app":
		if len(list.A) == 1 && list.A[0].Op == "each" {
			return pointwise(list.A[0], f)
		}
		if len(list.A) == 1 && list.A[0].Op == "all" {
			return pointwise(list.A[0].A[0], f)
		}
		for i, s := range list.A {
			if s.Op != "one" {
				return nil, nil, "list of several parts: " + clip(list.String(), 200)
			}
			elems = append(elems, elemAt{f.conds, f, s.A[0], tInt(int64(i))})
		}
		return elems, tInt(int64(len(list.A))), ""
	case "each":
		l := list.L
		if l.Count == nil {
			return nil, nil, "a loop of unknown length"
		}
		for _, p := range l.Paths {
			segs := p.Segs[list.S]
			if len(segs) != 1 || segs[0].Op != "one" {
				return nil, nil, fmt.Sprintf("an iteration adds %d elements", len(segs))
			}
			elems = append(elems, elemAt{p.Facts.conds, p.Facts, segs[0].A[0], l.K})
		}
		return elems, l.Count, ""
	}
	k := mk("iter", "any")
	return []elemAt{{f.conds, f, idx(list, k), k}}, lenOf(list), ""
}

// picks reports whether t is choice i of src, of n altogether.
func (w *world) picks(e elemAt, t *Term, node *Term, static types.Type, i, n *Term) string {
	src := w.ec.source(e.f, node, static)
	t = unbox(t)
	inRange := []decision{{cmpTerm("<", i, n), true}}
	conds := append(append([]decision{}, e.conds...), inRange...)
	var list *Term
	switch src.kind {
	case "leaf":
		if same(t, src.node) {
			return ""
		}
		return fmt.Sprintf("is %s instead of %s", t, src.node)
	case "alt":
		list = src.node
	case "exp":
		list = tExp(src.node)
		if same(t, src.node) {
			if ok, _ := w.implied(conds, []*Term{src.cnt, i, n}, func(ev func(*Term) int64) bool { return ev(src.cnt) == 1 }); ok {
				return ""
			}
			return fmt.Sprintf("is %s although it may have alternatives", t)
		}
	default:
		return fmt.Sprintf("draws on %s, whose type is not known", src.node)
	}
	if t.Op != "idx" || !same(unbox(t.A[0]), list) {
		return fmt.Sprintf("is %s, not a choice of %s", t, list)
	}
	j := t.A[1]
	ok, cex := w.implied(conds, []*Term{src.cnt, i, n, j}, func(ev func(*Term) int64) bool {
		if ev(src.cnt) == 1 {
			return ev(j) == 0
		}
		return ev(j) == ev(i)
	})
	if !ok {
		return fmt.Sprintf("takes choice %s of %s when %s", j, list, cex)
	}
	return ""
}

// success checks a list of expansions of the node.
func (ec *expandCheck) success(sp *espec, f *Facts, events []Event, list *Term, pos string) (out []efail) {
	bad := func(prop, format string, a ...interface{}) {
		out = append(out, efail{prop, pos, fmt.Sprintf("%s %s: ", sp.kind, sp.x) + fmt.Sprintf(format, a...)})
	}
	if l := unbox(list); l.Op == "exp" && same(l.A[0], unbox(sp.x)) || l.Op == "app" && len(l.A) == 1 && l.A[0].Op == "all" && same(unbox(l.A[0].A[0]), tExp(sp.x)) {
		if f.eval(tFails(sp.x)) != no {
			bad("C15", "the error of expanding it is ignored")
		}
		return
	}
	w := ec.world(sp, f, events)
	if !w.feasible() {
		return nil
	}
	ec.stats["success"]++
	// expanded by a function that is verified on its own
	known := f.eval(tFails(sp.x)) == no
	for _, s := range sp.fixed {
		if known {
			break
		}
		src := ec.source(f, s.node, s.static)
		switch src.kind {
		case "exp":
			if f.eval(tFails(src.node)) != no {
				bad("C15", "success although %s may fail to expand", src.node)
			}
		case "bad", "mixed":
			bad("C15", "success with %s of unknown type", src.node)
		}
	}
	if !w.whole && !known {
		bad("C15", "success without having expanded every element of %s%s", sp.list, joinWhy(w.why))
	}
	if !w.joined && !known {
		bad("C15", "success without having compared the counts of all elements of %s%s", sp.list, joinWhy(w.why))
	}
	// Where counts that do not fit are let through, the result is still judged
	// for those that do.
	if !w.joined && sp.list != nil {
		E := listCount(sp.list)
		w.atLeast(E, 1)
		w.sources = append(w.sources, E)
		w.joined = true
	}
	fit := func(ev func(*Term) int64) bool {
		for i, a := range w.sources {
			for _, b := range w.sources[i+1:] {
				if !compat(ev(a), ev(b)) {
					return false
				}
			}
		}
		return true
	}
	if known {
		w.cs = append(w.cs, constraint{w.sources, fit})
	} else if ok, cex := w.implied(f.conds, w.sources, fit); !ok {
		bad("C15", "success with different counts: %s", cex)
		w.cs = append(w.cs, constraint{w.sources, fit})
	}
	elems, n, why := pointwise(list, f)
	if why != "" {
		bad("C14", "result not understood: %s", why)
		return
	}
	if ok, cex := w.implied(f.conds, append([]*Term{n}, w.sources...), func(ev func(*Term) int64) bool {
		m := int64(1)
		for _, a := range w.sources {
			m = max64(m, ev(a))
		}
		return ev(n) == m
	}); !ok {
		bad("C14", "the result has %s elements when %s", n, cex)
		return
	}
	for _, e := range elems {
		t := unbox(e.t)
		if same(t, unbox(sp.x)) && sp.kind != "parts" {
			if ok, cex := w.implied(e.conds, append([]*Term{n}, w.sources...), func(ev func(*Term) int64) bool { return ev(n) <= 1 }); !ok {
				bad("C14", "choice %s is the node itself although it has alternatives: %s", e.k, cex)
			}
			continue // every count is 1
		}
		ec.stats["element"]++
		switch sp.kind {
		case "parts":
			if r := w.joinsParts(e, t, n); r != "" {
				bad("C14", "choice %s %s", e.k, r)
			}
		case "sexpr", "rule":
			pt := ec.sexprT
			if sp.kind == "rule" {
				pt = ec.ruleT
			}
			st := structOf(pt.(*types.Pointer).Elem())
			for i := 0; i < st.NumFields(); i++ {
				fd := st.Field(i)
				v := unbox(fld(fd.Name(), t))
				orig := fld(fd.Name(), sp.x)
				var r string
				switch {
				case sp.kind == "sexpr" && fd.Name() == "Op", sp.kind == "rule" && (fd.Name() == "Match" || fd.Name() == "Result"):
					r = w.picks(e, v, orig, fd.Type(), e.k, n)
				case sp.kind == "sexpr" && fd.Name() == "Args":
					if same(v, unbox(orig)) && f.eval(eq0(lenOf(orig))) == yes {
						break
					}
					inner, m, why := pointwise(v, e.f)
					if why != "" {
						r = "not understood: " + why
						break
					}
					if !same(m, lenOf(orig)) {
						r = fmt.Sprintf("has %s elements", m)
						break
					}
					for _, a := range inner {
						if q := w.picks(a, a.t, idx(orig, a.k), sp.static, e.k, n); q != "" {
							r = fmt.Sprintf("element %s %s", a.k, q)
						}
					}
				default:
					if !same(v, unbox(orig)) {
						r = fmt.Sprintf("is %s", v)
					}
				}
				if r != "" {
					bad("C14", "%s of element %s %s", fd.Name(), e.k, r)
				}
			}
		}
	}
	return
}

func joinWhy(w []string) string {
	if len(w) == 0 {
		return ""
	}
	return " (" + strings.Join(w, "; ") + ")"
}

// joinsParts: the text of one choice of a multi-part opcode.
func (w *world) joinsParts(e elemAt, t *Term, n *Term) string {
	ps := catParts(t)
	if t.Op == "app" {
		ps = t.A
	}
	if len(ps) != 1 || ps[0].Op != "each" {
		return "is " + clip(t.String(), 300) + ", not the parts joined in order"
	}
	l := ps[0].L
	if l.Count == nil || !same(l.Count, lenOf(w.sp.list)) {
		return "does not join every part"
	}
	for _, p := range l.Paths {
		segs := p.Segs[ps[0].S]
		if len(segs) != 1 {
			return fmt.Sprintf("adds %d texts for a part", len(segs))
		}
		s := segs[0]
		if s.Op == "one" || s.Op == "all" {
			s = s.A[0]
		}
		if r := w.picks(elemAt{p.Facts.conds, p.Facts, s, l.K}, s, idx(w.sp.list, l.K), w.sp.static, e.k, n); r != "" {
			return fmt.Sprintf("part %s %s", l.K, r)
		}
	}
	return ""
}

// failure checks that an error is justified.
func (ec *expandCheck) failure(sp *espec, f *Facts, events []Event, pos string) (out []efail) {
	if f.eval(tFails(sp.x)) == yes {
		return nil
	}
	w := ec.world(sp, f, events)
	if !w.feasible() {
		return nil
	}
	ec.stats["error"]++
	var all []source
	for _, s := range sp.fixed {
		all = append(all, ec.source(f, s.node, s.static))
	}
	all = append(all, w.partial...)
	for _, s := range all {
		if s.kind == "bad" || s.kind == "exp" && f.eval(tFails(s.node)) == yes {
			return nil
		}
	}
	terms := append([]*Term{}, w.sources...)
	var n *Term
	if sp.kind == "parts" {
		n = lenOf(sp.list)
		terms = append(terms, n)
		// an element that is neither a text nor alternatives
		for _, e := range events {
			if e.Kind == "loop" && !e.Full {
				el := idx(sp.list, e.L.K)
				if len(f.dynTypes(el, sp.static)) == 0 {
					return nil
				}
			}
		}
		for k, tf := range f.types {
			if t := f.terms[k]; t != nil && t.Op == "idx" && same(unbox(t.A[0]), unbox(sp.list)) && tf.incl != nil && len(tf.incl) == 0 {
				return nil
			}
		}
	}
	ok, cex := w.implied(f.conds, terms, func(ev func(*Term) int64) bool {
		for i, a := range w.sources {
			for _, b := range w.sources[i+1:] {
				if !compat(ev(a), ev(b)) {
					return true
				}
			}
		}
		for _, s := range w.partial {
			if s.kind == "alt" && ev(s.cnt) < 1 {
				return true
			}
		}
		if sp.kind == "parts" {
			if ev(n) == 0 {
				return true
			}
			if w.joined && ev(listCount(sp.list)) <= 1 {
				return true
			}
		}
		return false
	})
	if !ok {
		out = append(out, efail{"C15", pos, fmt.Sprintf("%s %s is refused without mismatched counts or a bad node: %s%s", sp.kind, sp.x, cex, joinWhy(w.why))})
	}
	return
}

func (ec *expandCheck) hook(x0 *Term, deleg map[*ssa.Function]bool) func(c *CallCtx) ([]Outcome, bool) {
	return func(cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn == nil || !ec.cands[cc.Fn] {
			return nil, false
		}
		a := unbox(cc.Args[0])
		if same(a, unbox(x0)) {
			deleg[cc.Fn] = true
		}
		static := cc.Fn.Params[0].Type()
		src := ec.source(cc.St.facts, a, static)
		if src.kind == "leaf" {
			return cc.ret(cc.St, app(mk("one", "", a)), tNil), true
		}
		if src.kind == "bad" {
			return cc.ret(cc.St, tNil, errNode), true
		}
		s2 := cc.St.clone()
		var outs []Outcome
		if cc.St.facts.assume(tFails(a), true) {
			outs = append(outs, cc.ret(cc.St, tNil, errNode)...)
		}
		if s2.facts.assume(tFails(a), false) {
			outs = append(outs, cc.ret(s2, tExp(a), tNil)...)
		}
		return outs, true
	}
}

func (ec *expandCheck) effects(events []Event, allow func(e Event) bool) (out []efail) {
	for _, e := range events {
		switch e.Kind {
		case "write", "append", "copy", "mapupdate", "mapdelete":
			if allow != nil && allow(e) {
				continue
			}
			what := fmt.Sprintf("%s on memory of the tree: %s", e.Kind, clip(describeEvents([]Event{e}), 300))
			out = append(out, efail{"C16", ec.p.pos(e.Pos), what}, efail{"C15", ec.p.pos(e.Pos), what})
		case "call":
			out = append(out, efail{"C16", ec.p.pos(e.Pos), "call with unknown effect: " + clip(describeEvents([]Event{e}), 300)})
		case "loop":
			for _, p := range e.L.Paths {
				out = append(out, ec.effects(p.Events, allow)...)
			}
		}
	}
	return
}

func (ec *expandCheck) verify(fn *ssa.Function) (out []efail) {
	x := newExec(ec.p)
	x.CheckIdx = true
	a := tIn("node")
	st := newState()
	st.facts.nils[a.Key()] = no
	st.facts.terms[a.Key()] = a
	deleg := map[*ssa.Function]bool{}
	x.OnCall = ec.hook(a, deleg)
	outs := x.Call(fn, []*Term{a}, st)
	kind := ec.kindOf(fn.Params[0].Type())
	ec.deleg[fn] = deleg
	for _, o := range outs {
		out = append(out, ec.outcome(x, o, a, kind, fn.Params[0].Type())...)
	}
	for _, u := range x.undecided {
		out = append(out, efail{"", ec.p.pos(fn.Pos()), "not decided: " + u})
	}
	for f := range x.funcs {
		ec.c.funcs[f.String()] = true
	}
	if len(outs) == 0 {
		out = append(out, efail{"", ec.p.pos(fn.Pos()), "no path analysed"})
	}
	return
}

// outcome checks one path of the expansion of node a.
func (ec *expandCheck) outcome(x *Exec, o Outcome, a *Term, kind string, static types.Type) (out []efail) {
	f := o.St.facts
	pos := ec.p.pos(o.Pos)
	out = append(out, ec.effects(o.St.events, nil)...)
	if kind == "value" || kind == "op" {
		src := ec.source(f, a, static)
		switch src.kind {
		case "leaf":
			kind = "leaf"
		case "bad":
			kind = "bad"
		case "exp":
			ts := f.dynTypes(a, static)
			if len(ts) == 1 {
				kind = ec.kindOf(ts[0])
			} else {
				kind = "any"
			}
		}
	}
	sp := ec.spec(a, kind)
	if o.Kind == oPanic {
		if sp != nil && !ec.world(sp, f, o.St.events).feasible() {
			return
		}
		return append(out, efail{"C15", pos, fmt.Sprintf("panics (%s) when %s", o.Msg, clip(f.describe(), 400))})
	}
	if len(o.Vals) != 2 {
		return append(out, efail{"", pos, "unexpected results"})
	}
	switch f.isNil(o.Vals[1]) {
	case no:
		if ec.prop == "C29" {
			out = append(out, ec.reason(sp, x, o, o.Vals[1], a, kind, static, pos)...)
		}
		switch {
		case kind == "bad", f.eval(tFails(a)) == yes:
		case sp == nil:
			out = append(out, efail{"C15", pos, fmt.Sprintf("%s %s is refused", kind, a)})
		default:
			out = append(out, ec.failure(sp, f, o.St.events, pos)...)
		}
	case yes:
		list := x.resolve(o.St, x.view(o.St, o.Vals[0]))
		switch {
		case sp != nil:
			out = append(out, ec.success(sp, f, o.St.events, list, pos)...)
		case kind == "leaf":
			l := unbox(list)
			if l.Op != "app" || len(l.A) != 1 || l.A[0].Op != "one" || !same(unbox(l.A[0].A[0]), unbox(a)) {
				out = append(out, efail{"C14", pos, fmt.Sprintf("a leaf expands to %s", list)})
			}
		case kind == "any" && f.eval(tFails(a)) == no && same(unbox(list), tExp(a)):
		default:
			out = append(out, efail{"C15", pos, fmt.Sprintf("%s %s expands to %s", kind, a, list)})
		}
	default:
		out = append(out, efail{"C15", pos, fmt.Sprintf("it is not known whether the result %s is an error", o.Vals[1])})
	}
	return
}

func (ec *expandCheck) run() {
	ec.candidates()
	for {
		var fns, drop []*ssa.Function
		for fn := range ec.cands {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		for _, fn := range fns {
			var fs []efail
			for _, f := range ec.verify(fn) {
				if f.prop == "" || f.prop == ec.prop {
					fs = append(fs, f)
				}
			}
			if len(fs) > 0 {
				if ec.fails[fn] == nil {
					ec.fails[fn] = fs
				}
				if debugOn {
					for _, f := range fs {
						fmt.Fprintln(os.Stderr, fn.Name(), f)
					}
				}
				drop = append(drop, fn)
			} else {
				delete(ec.fails, fn)
			}
		}
		isCand := func(f *ssa.Function) bool { _, ok := ec.cands[f]; return ok }
		for _, fn := range chooseDrop(drop, isCand) {
			delete(ec.cands, fn)
		}
		if len(drop) == 0 {
			break
		}
	}
	for f := range ec.cands {
		for g := range ec.deleg[f] {
			if ec.reaches(g, f, map[*ssa.Function]bool{}) {
				ec.fails[f] = append(ec.fails[f], efail{"C15", ec.p.pos(f.Pos()), fmt.Sprintf("%s expands its own node again", f)})
			}
		}
	}
}

func (ec *expandCheck) reaches(a, b *ssa.Function, seen map[*ssa.Function]bool) bool {
	if a == b {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	for g := range ec.deleg[a] {
		if ec.reaches(g, b, seen) {
			return true
		}
	}
	return false
}

// entry checks ExpandAlternates.
func (ec *expandCheck) entry() (out []efail) {
	fn := ec.pkg.Func("ExpandAlternates")
	if fn == nil || len(fn.Params) != 1 || !types.Identical(fn.Params[0].Type(), ec.fileT) {
		return []efail{{"", "", "function pass.ExpandAlternates(file) not found"}}
	}
	x := newExec(ec.p)
	x.CheckIdx = true
	a := tIn("file")
	st := newState()
	st.facts.nils[a.Key()] = no
	st.facts.terms[a.Key()] = a
	x.OnCall = ec.hook(a, map[*ssa.Function]bool{})
	outs := x.Call(fn, []*Term{a}, st)
	rules := fld("Rules", a)
	for _, o := range outs {
		f := o.St.facts
		pos := ec.p.pos(o.Pos)
		var writes []Event
		out = append(out, ec.effects(o.St.events, func(e Event) bool {
			if e.Kind == "write" && same(derefPath(e.A[0]), derefPath(rules)) {
				writes = append(writes, e)
				return true
			}
			return false
		})...)
		if o.Kind == oPanic {
			feasible := true
			for _, e := range o.St.events {
				if e.Kind == "loop" && !e.Full && (e.L.Count == nil || same(e.L.Count, lenOf(rules))) {
					feasible = feasible && ec.world(ec.spec(idx(rules, e.L.K), "rule"), f, o.St.events).feasible()
				}
			}
			if feasible {
				out = append(out, efail{"C15", pos, fmt.Sprintf("panics (%s) when %s", o.Msg, clip(f.describe(), 400))})
			}
			continue
		}
		switch f.isNil(o.Vals[0]) {
		case no:
			if len(writes) > 0 {
				out = append(out, efail{"C15", ec.p.pos(writes[0].Pos), "the rules are replaced although expansion fails"})
			}
			good := false
			var last []efail
			for _, e := range o.St.events {
				if e.Kind == "loop" && !e.Full && e.L.Count == nil || e.Kind == "loop" && !e.Full && same(e.L.Count, lenOf(rules)) {
					last = ec.failure(ec.spec(idx(rules, e.L.K), "rule"), f, o.St.events, pos)
					good = good || len(last) == 0
				}
			}
			// the first iteration has no loop event when nothing precedes it
			if !good {
				for k := range f.terms {
					if t := f.terms[k]; t.Op == "fails" && f.eval(t) == yes {
						n := t.A[0]
						if n.Op == "idx" && same(n.A[0], rules) {
							good = true
						}
					}
				}
			}
			if ec.prop == "C29" {
				txt := x.errorText(o.St, o.Vals[0])
				if cause(txt, errNode.S) == nil {
					bad := []efail{{"C29", pos, fmt.Sprintf("the reason of what failed is not part of the error %s", clip(fmt.Sprint(txt), 160))}}
					for _, e := range o.St.events {
						if e.Kind == "loop" && !e.Full && (e.L.Count == nil || same(e.L.Count, lenOf(rules))) {
							r := idx(rules, e.L.K)
							bad = ec.reason(ec.spec(r, "rule"), x, o, o.Vals[0], r, "rule", nil, pos)
						}
					}
					out = append(out, bad...)
				}
			}
			if !good {
				if len(last) == 0 {
					last = []efail{{"C15", pos, "an error is returned without any rule failing"}}
				}
				out = append(out, last...)
			}
		case yes:
			if len(writes) != 1 {
				out = append(out, efail{"C14", pos, fmt.Sprintf("the rules are replaced %d times", len(writes))})
				continue
			}
			list := x.resolve(o.St, x.view(o.St, writes[0].A[1]))
			l := unbox(list)
			if l.Op == "app" && len(l.A) == 1 && l.A[0].Op == "each" {
				l = l.A[0]
			}
			if l.Op != "each" || l.L.Count == nil || !same(l.L.Count, lenOf(rules)) {
				out = append(out, efail{"C14", ec.p.pos(writes[0].Pos), "the new rules are not the expansions of each rule in order: " + clip(list.String(), 300)})
				continue
			}
			for _, p := range l.L.Paths {
				r := idx(rules, l.L.K)
				out = append(out, ec.success(ec.spec(r, "rule"), p.Facts, p.Events, app(p.Segs[l.S]...), ec.p.pos(writes[0].Pos))...)
			}
			// every iteration of every loop over the rules must have succeeded
			for _, e := range o.St.events {
				if e.Kind == "loop" && !e.Full {
					out = append(out, efail{"C15", pos, "expansion stops before the last rule and reports success"})
				}
			}
		default:
			out = append(out, efail{"C15", pos, fmt.Sprintf("it is not known whether the result %s is an error", o.Vals[0])})
		}
	}
	for _, u := range x.undecided {
		out = append(out, efail{"", ec.p.pos(fn.Pos()), "not decided: " + u})
	}
	for f := range x.funcs {
		ec.c.funcs[f.String()] = true
	}
	if len(outs) < 2 {
		out = append(out, efail{"", ec.p.pos(fn.Pos()), fmt.Sprintf("%d paths analysed", len(outs))})
	}
	return
}

func (ec *expandCheck) report(prop string) {
	ec.prop = prop
	ec.run()
	c := ec.c
	es := ec.entry()
	mine := func(fs []efail) (out []efail) {
		for _, f := range fs {
			if f.prop == "" || f.prop == prop {
				out = append(out, f)
			}
		}
		return
	}
	my := mine(es)
	if len(my) == 0 {
		c.ok("entry pass.ExpandAlternates", "every path obeys the rule")
	}
	undecided := false
	for _, f := range my {
		if f.prop == "" {
			undecided = true
		}
		c.fail("entry pass.ExpandAlternates", f.pos, "%s", f.text)
	}
	// a function that breaks the rule is interpreted inside its callers; if
	// that fails too, say what was wrong with the function itself
	var fns []*ssa.Function
	for fn := range ec.fails {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		ms := mine(ec.fails[fn])
		// a failure of another property makes a function unusable as a summary
		real := len(ms) > 0 && (len(my) > 0 || len(es) > 0)
		if real {
			for i, f := range ms {
				if i < 6 {
					c.fail("expander "+fn.Name(), f.pos, "%s", f.text)
				}
			}
		}
	}
	_ = undecided
	for fn := range ec.cands {
		c.ok("expander "+fn.Name(), "every path obeys the rule")
	}
	for k, v := range ec.stats {
		c.counts[k+"_paths"] = v
	}
}

const expandRule = "Abstract interpretation of every expanding function (assume-guarantee over the recursion): per path, the running count of each loop is shown to be the common count by checking that every iteration computes the join of the count so far and the element's count; errors are returned exactly on paths where two counts differ, a part fails or a node is unknown; results are compared element by element, for an arbitrary index, with the i-th choice of every source."

func init() {
	checks["C14"] = func(c *Check) {
		c.rule = expandRule
		c.assumptions = []string{"trees are well formed: match, result, operation and arguments are not nil"}
		if ec := newExpandCheck(c); ec != nil {
			ec.report("C14")
		}
	}
	checks["C15"] = func(c *Check) {
		c.rule = expandRule
		c.assumptions = []string{"trees are well formed: match, result, operation and arguments are not nil", "alternations of one choice in a multi-part opcode may be refused or accepted"}
		if ec := newExpandCheck(c); ec != nil {
			ec.report("C15")
		}
	}
}

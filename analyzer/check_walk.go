package main

// C12, C13: traversal of syntax trees, containment and feature predicates.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type walkCheck struct {
	c       *Check
	p       *Program
	pkg     *ssa.Package
	visitor types.Type
	nodeT   types.Type
	cands   map[*ssa.Function][2]int // visitor and node parameter
	fails   map[*ssa.Function][]string
	done    map[*ssa.Function]int
	deleg   map[*ssa.Function]map[*ssa.Function]bool
	// only nodes that are or contain an s-expression count
	sexprs bool
	used   map[string]bool // traversal functions other functions build on
}

var walkLog = mk("glob", "<visits>")

func visitTok(v, n *Term) *Term  { return mk("visit", "", v, n) }
func visitedBy(v, n *Term) *Term { return mk("visited", "", v, n) }

func newWalkCheck(c *Check) *walkCheck {
	wc := &walkCheck{c: c, p: c.p, pkg: c.p.pkg("ast"), cands: map[*ssa.Function][2]int{},
		fails: map[*ssa.Function][]string{}, done: map[*ssa.Function]int{}, used: map[string]bool{}, deleg: map[*ssa.Function]map[*ssa.Function]bool{}}
	v, n := c.p.namedType(astPkg, "Visitor"), c.p.namedType(astPkg, "Node")
	if wc.pkg == nil || v == nil || n == nil {
		c.fail("anchor", "", "package ast, ast.Visitor or ast.Node not found")
		return nil
	}
	wc.visitor, wc.nodeT = v, n
	return wc
}

// children is the template of what is visited below a node with visitor w.
func (wc *walkCheck) children(w, x *Term, dyn types.Type) []item {
	f := func(n string) *Term { return fld(n, x) }
	wn := func(t *Term) *Term { return mk("wn", "", w, t) }
	node := func(n string) item { return iNode(wn(f(n)), fieldType(dyn, n)) }
	opt := func(n string) item {
		return iIf(notTerm(mk("isnil", "", f(n))), []item{node(n)}, nil)
	}
	list := func(l *Term, et types.Type) item {
		return iLoop(l, func(e, k, n *Term) []item { return []item{iNode(wn(e), et)} })
	}
	et := func(n string) types.Type { return fieldType(dyn, n).Underlying().(*types.Slice).Elem() }
	switch astName(dyn) {
	case "ast.File":
		return []item{list(f("Rules"), et("Rules"))}
	case "ast.Rule":
		if wc.sexprs {
			return []item{node("Match"), node("Result")}
		}
		return []item{node("Match"), opt("Condition"), node("Result")}
	case "ast.SExpr":
		if wc.sexprs {
			return []item{list(f("Args"), et("Args"))}
		}
		return []item{
			iIf(notTerm(strEq(f("Binding"), tStr(""))), []item{node("Binding")}, nil),
			node("Op"), opt("AuxInt"), opt("Aux"), list(f("Args"), et("Args"))}
	case "ast.OpcodeParts":
		if wc.sexprs {
			return nil
		}
		return []item{list(x, dyn.Underlying().(*types.Slice).Elem())}
	}
	return nil // leaves
}

func (wc *walkCheck) expand(f *Facts, t *Term, dyn types.Type) ([]item, bool) {
	if t.Op != "wn" || astName(dyn) == "" {
		return nil, false
	}
	v, n := t.A[0], t.A[1]
	w := visitedBy(v, n)
	return []item{iTerm(visitTok(v, n)), iIf(mk("isnil", "", w), nil, wc.children(w, n, dyn))}, true
}

func (wc *walkCheck) candidates() {
	it := wc.nodeT.Underlying().(*types.Interface)
	for _, fn := range wc.p.funcs {
		if fn.Pkg != wc.pkg || len(fn.Blocks) == 0 || fn.Synthetic != "" || len(fn.FreeVars) > 0 || fn.Signature.Results().Len() > 0 {
			continue
		}
		vi, ni := -1, -1
		for i, a := range fn.Params {
			if types.Identical(a.Type(), wc.visitor) {
				vi = i
			} else if types.Implements(a.Type(), it) && astName(a.Type()) != "" {
				ni = i
			}
		}
		if vi >= 0 && ni >= 0 && len(fn.Params) == 2 {
			wc.cands[fn] = [2]int{vi, ni}
		}
	}
}

// holdsSExpr reports whether the node can be or contain an s-expression.
func (wc *walkCheck) holdsSExpr(f *Facts, t *Term) bool {
	static := wc.nodeT
	if st := wc.staticOf(f, t); st != nil {
		static = st
	}
	ts := f.dynTypes(t, static)
	for _, t := range ts {
		switch astName(t) {
		case "ast.File", "ast.Rule", "ast.SExpr":
			return true
		}
	}
	return len(ts) == 0
}

// staticOf is the declared type of a part of a node.
func (wc *walkCheck) staticOf(f *Facts, t *Term) types.Type {
	of := func(t *Term) types.Type {
		if ts := f.dynTypes(t, wc.nodeT); len(ts) == 1 {
			return ts[0]
		}
		return nil
	}
	switch t.Op {
	case "fld":
		if p := of(t.A[0]); p != nil {
			return fieldType(p, t.S)
		}
	case "idx":
		l := wc.staticOf(f, t.A[0])
		if l == nil {
			l = of(t.A[0])
		}
		if l != nil {
			if s, ok := l.Underlying().(*types.Slice); ok {
				return s.Elem()
			}
		}
	}
	return nil
}

func (wc *walkCheck) isVisit(c *CallCtx) bool {
	return c.Invoke && c.Name == "("+tkey(wc.visitor)+").Visit"
}

func (wc *walkCheck) hook(x0 *Term, deleg map[*ssa.Function]bool) func(c *CallCtx) ([]Outcome, bool) {
	return func(c *CallCtx) ([]Outcome, bool) {
		if wc.isVisit(c) {
			c.X.emit(c.St, walkLog, visitTok(c.Args[0], c.Args[1]))
			return c.ret(c.St, visitedBy(c.Args[0], c.Args[1])), true
		}
		if ix, ok := wc.cands[c.Fn]; ok && c.Fn != nil && !mayBeNilArg(c, ix[1]) {
			if same(c.Args[ix[1]], x0) {
				deleg[c.Fn] = true
			}
			c.X.emit(c.St, walkLog, mk("node", "", mk("wn", "", c.Args[ix[0]], c.Args[ix[1]])))
			return c.ret(c.St), true
		}
		if c.Fn != nil && strings.HasSuffix(c.Name, "errutil.UnexpectedType") {
			return c.ret(c.St, errNode), true
		}
		return nil, false
	}
}

func (wc *walkCheck) verify(fn *ssa.Function) (fails []string, paths int) {
	ix := wc.cands[fn]
	x := newExec(wc.p)
	args := make([]*Term, 2)
	args[ix[0]], args[ix[1]] = tIn("v"), tIn("node")
	st := newState()
	st.facts.nils[args[ix[1]].Key()] = no
	st.facts.terms[args[ix[1]].Key()] = args[ix[1]]
	deleg := map[*ssa.Function]bool{}
	x.OnCall = wc.hook(args[ix[1]], deleg)
	static := fn.Params[ix[1]].Type()
	outs := x.Call(fn, args, st)
	m := &matcher{expand: wc.expand}
	if wc.sexprs {
		m.ignore = func(f *Facts, t *Term) bool {
			return t.Op == "node" && t.A[0].Op == "wn" && !same(t.A[0].A[1], args[ix[1]]) && !wc.holdsSExpr(f, t.A[0].A[1])
		}
	}
	root := mk("wn", "", args[ix[0]], args[ix[1]])
	for _, o := range outs {
		paths++
		where := wc.p.pos(o.Pos)
		if !o.Pos.IsValid() {
			where = wc.p.pos(fn.Pos())
		}
		if o.Kind == oPanic {
			fails = append(fails, fmt.Sprintf("%s: panics (%s) when %s", where, o.Msg, clip(o.St.facts.describe(), 300)))
			continue
		}
		parts := catParts(x.resolve(o.St, x.readContent(o.St, walkLog)))
		if len(parts) > 0 && same(parts[0], content(walkLog)) {
			parts = parts[1:]
		}
		if r := m.match(o.St.facts, []item{iNode(root, static)}, parts); r != nil {
			fails = append(fails, fmt.Sprintf("%s: for %s when %s: %s", where, shortType(static), clip(r.f.describe(), 300), strings.ReplaceAll(r.String(), "writes", "visits")))
		}
		for _, e := range o.St.events {
			if e.Kind == "call" || e.Kind == "write" {
				fails = append(fails, fmt.Sprintf("%s: unexpected effect %s", where, describeEvents([]Event{e})))
			}
		}
	}
	for _, u := range x.undecided {
		fails = append(fails, "not decided: "+u)
	}
	for f := range x.funcs {
		wc.c.funcs[f.String()] = true
	}
	if len(outs) == 0 && len(fails) == 0 {
		fails = append(fails, "no path analysed")
	}
	wc.deleg[fn] = deleg
	return fails, paths
}

func (wc *walkCheck) run() {
	wc.candidates()
	for {
		var fns, drop []*ssa.Function
		for fn := range wc.cands {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		for _, fn := range fns {
			fs, n := wc.verify(fn)
			if len(fs) > 0 {
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "WALK", fn, fs)
				}
				if wc.fails[fn] == nil {
					wc.fails[fn] = fs
				}
				drop = append(drop, fn)
			} else {
				wc.done[fn] = n
				delete(wc.fails, fn)
			}
		}
		isCand := func(f *ssa.Function) bool { _, ok := wc.cands[f]; return ok }
		for _, fn := range chooseDrop(drop, isCand) {
			delete(wc.cands, fn)
			delete(wc.done, fn)
		}
		if len(drop) == 0 {
			return
		}
	}
}

// ---- traversals with a known visitor: finite automaton over the visitor's state

type tstate struct {
	st                  *State
	matched, incomplete bool
}

func (t tstate) key(base *State) string {
	var ks []string
	for k, c := range t.st.mem {
		if old, ok := base.mem[k]; ok && same(old.val, c.val) {
			continue
		}
		ks = append(ks, k+"="+c.val.Key())
	}
	sort.Strings(ks)
	return fmt.Sprint(t.matched, t.incomplete, ks)
}

// explore computes the states a traversal can end in. step runs the visitor on
// an arbitrary node; test says whether that node is a match on an outcome
// (forking if the outcome has not decided it) and whether children follow.
func (wc *walkCheck) explore(c *CallCtx, start tstate, step func(st *State, n *Term) []Outcome,
	test func(o Outcome, n *Term) []tested) []tstate {
	base := c.St
	x := c.X
	seen := map[string]bool{}
	work := []tstate{start}
	var all []tstate
	for i := 0; len(work) > 0; i++ {
		s := work[0]
		work = work[1:]
		k := s.key(base)
		if seen[k] {
			continue
		}
		seen[k] = true
		all = append(all, s)
		if i > 32 {
			c.X.undecide(c.Pos(), "visitor of the traversal has no finite state")
			return all
		}
		c.X.fresh++
		n := tIn(fmt.Sprintf("visited%d", c.X.fresh))
		st := s.st.clone()
		st.events = nil
		st.facts.nils[n.Key()] = no
		st.facts.terms[n.Key()] = n
		for _, o := range step(st, n) {
			if o.Kind != oReturn {
				wc.c.fail("visitor", wc.p.pos(o.Pos), "the visitor panics: %s", o.Msg)
				continue
			}
			for _, e := range o.St.events {
				if e.Kind == "write" || e.Kind == "call" {
					// captured variables are written by plain stores to fresh cells
					wc.c.fail("visitor", wc.p.pos(e.Pos), "the visitor has an effect of its own: %s", describeEvents([]Event{e}))
				}
			}
			for _, t := range test(o, n) {
				ns := tstate{st: s.st.clone(), matched: s.matched, incomplete: s.incomplete}
				ns.st.mem = t.st.mem
				if t.match == yes {
					ns.matched = true
				} else if !s.matched && (t.match == unknown || t.cont != yes) {
					ns.incomplete = true
				}
				// values this node has decided
				for k, c := range ns.st.mem {
					if old, ok := base.mem[k]; ok && same(old.val, c.val) {
						continue
					}
					if v := t.st.facts.eval(c.val); v != unknown && c.val.Op != "bool" {
						x.set(ns.st, c.path, tBool(v == yes))
					}
				}
				work = append(work, ns)
			}
		}
	}
	return all
}

type tested struct {
	st          *State
	match, cont tri
}

// visitorStep is how a visitor term handles one node, and whether the children
// follow with the same visitor.
func (wc *walkCheck) visitorStep(c *CallCtx, v *Term) (func(st *State, n *Term) []Outcome, func(o Outcome) tri) {
	ts := c.St.facts.dynTypes(v, wc.visitor)
	if len(ts) != 1 {
		c.X.undecide(c.Pos(), "visitor %s of unknown type", v)
		return nil, nil
	}
	sel := wc.p.ssa.MethodSets.MethodSet(ts[0]).Lookup(wc.pkg.Pkg, "Visit")
	if sel == nil {
		c.X.undecide(c.Pos(), "type %s has no Visit method", ts[0])
		return nil, nil
	}
	m := wc.p.ssa.MethodValue(sel)
	step := func(st *State, n *Term) []Outcome {
		return c.X.callFn(c.Fr, st, m, []*Term{v, n}, nil, nil)
	}
	cont := func(o Outcome) tri {
		w := o.Vals[0]
		if w.Op == "nil" {
			return no
		}
		if same(unbox(w), unbox(v)) {
			return yes
		}
		return unknown
	}
	return step, cont
}

func (wc *walkCheck) funcStep(c *CallCtx, f *Term) func(st *State, n *Term) []Outcome {
	return func(st *State, n *Term) []Outcome {
		if f.Op == "fn" {
			return c.X.dispatch(c.Fr, st, nil, f.Fn, f.Fn.String(), []*Term{n}, f.A, f.Fn.Signature, false)
		}
		// an unknown function: recorded by the caller's hook
		return c.X.dispatch(c.Fr, st, nil, nil, "func value", []*Term{f, n}, nil, types.NewSignatureType(nil, nil, nil, nil,
			types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false), true)
	}
}

func boolTri(o Outcome, v *Term) tri { return o.St.facts.eval(v) }

// inspectSpec checks Inspect: f is called on each node, true means go on.
func (wc *walkCheck) inspect() {
	c := wc.c
	key := "entry ast.Inspect"
	fn := wc.pkg.Func("Inspect")
	if fn == nil || len(fn.Params) != 2 {
		c.fail(key, "", "function ast.Inspect(node, f) not found")
		return
	}
	x := newExec(wc.p)
	node, f := tIn("node"), tIn("f")
	st := newState()
	st.facts.nils[node.Key()] = no
	st.facts.terms[node.Key()] = node
	st.facts.nils[f.Key()] = no
	st.facts.terms[f.Key()] = f
	traversals := 0
	x.OnCall = func(cc *CallCtx) ([]Outcome, bool) {
		if cc.Name == "func value" && cc.Invoke && same(unbox(cc.Args[0]), f) {
			cc.St.events = append(cc.St.events, Event{Kind: "test", A: []*Term{cc.Args[1]}, Pos: cc.Pos()})
			return cc.ret(cc.St, mk("fres", "", cc.Args[1])), true
		}
		ix, ok := wc.cands[cc.Fn]
		if !ok || cc.Fn == nil {
			return nil, false
		}
		if !same(cc.Args[ix[1]], node) {
			c.fail(key, wc.p.pos(cc.Pos()), "traverses %s instead of its node", cc.Args[ix[1]])
		}
		traversals++
		step, cont := wc.visitorStep(cc, cc.Args[ix[0]])
		if step == nil {
			return cc.ret(cc.St), true
		}
		n := tIn("visited")
		s2 := cc.St.clone()
		s2.events = nil
		s2.facts.nils[n.Key()] = no
		s2.facts.terms[n.Key()] = n
		for _, o := range step(s2, n) {
			if o.Kind != oReturn {
				c.fail(key, wc.p.pos(o.Pos), "the visitor panics: %s", o.Msg)
				continue
			}
			if len(o.St.events) != 1 || o.St.events[0].Kind != "test" || !same(o.St.events[0].A[0], n) {
				c.fail(key, wc.p.pos(o.Pos), "the function is not called exactly once per node: %s", describeEvents(o.St.events))
				continue
			}
			want := o.St.facts.eval(mk("fres", "", n))
			got := cont(o)
			if want == unknown || want != got {
				c.fail(key, wc.p.pos(o.Pos), "children follow: %v, the function said %v", got, want)
			}
		}
		return cc.ret(cc.St), true
	}
	outs := x.Call(fn, []*Term{node, f}, st)
	c.saw(x)
	for _, o := range outs {
		if o.Kind != oReturn {
			c.fail(key, wc.p.pos(o.Pos), "panics: %s", o.Msg)
		}
	}
	c.check(traversals == 1 && len(outs) > 0, key, wc.p.pos(fn.Pos()), "one traversal of the node with a visitor that calls the function once per node (%d traversals on %d paths)", traversals, len(outs))
}

// contains checks Contains against "some visited node satisfies the predicate".
func (wc *walkCheck) contains() {
	c := wc.c
	key := "entry ast.Contains"
	fn := wc.pkg.Func("Contains")
	if fn == nil || len(fn.Params) != 2 {
		c.fail(key, "", "function ast.Contains(node, predicate) not found")
		return
	}
	node, pred := tIn("node"), tIn("predicate")
	bt := &boolTraversal{wc: wc, key: key, roots: []*Term{node}}
	bt.test = func(o Outcome, n *Term) []tested {
		m := unknown
		for _, e := range o.St.events {
			if e.Kind == "test" && same(e.A[0], n) {
				m = o.St.facts.eval(mk("pred", "", n))
			} else if e.Kind == "test" {
				c.fail(key, wc.p.pos(e.Pos), "the predicate is asked about %s", e.A[0])
			}
		}
		return []tested{{st: o.St, match: m}}
	}
	bt.onPred = func(cc *CallCtx) ([]Outcome, bool) {
		if cc.Name == "func value" && cc.Invoke && same(unbox(cc.Args[0]), pred) {
			n := cc.Args[1]
			cc.St.events = append(cc.St.events, Event{Kind: "test", A: []*Term{n}, Pos: cc.Pos()})
			s2 := cc.St.clone()
			r := mk("pred", "", n)
			cc.St.facts.assume(r, true)
			s2.facts.assume(r, false)
			return append(cc.ret(cc.St, tBool(true)), cc.ret(s2, tBool(false))...), true
		}
		return nil, false
	}
	bt.covered = func(have map[string]bool) bool { return have[node.Key()] }
	bt.run(fn, []*Term{node, pred}, "some visited node satisfies the predicate")
}

// boolTraversal analyses a function that answers "is there a matching node".
type boolTraversal struct {
	wc      *walkCheck
	key     string
	roots   []*Term
	test    func(o Outcome, n *Term) []tested
	onPred  func(cc *CallCtx) ([]Outcome, bool)
	covered func(have map[string]bool) bool
}

// ghost state: matched|incomplete|roots covered
func ghostOf(st *State) (matched, incomplete bool, roots map[string]bool) {
	roots = map[string]bool{}
	for _, p := range strings.Split(st.ghost, "\x00") {
		switch {
		case p == "matched":
			matched = true
		case p == "incomplete":
			incomplete = true
		case strings.HasPrefix(p, "root "):
			roots[p[5:]] = true
		}
	}
	return
}

func ghostMake(matched, incomplete bool, roots map[string]bool) string {
	var ps []string
	if matched {
		ps = append(ps, "matched")
	}
	if incomplete {
		ps = append(ps, "incomplete")
	}
	for r := range roots {
		ps = append(ps, "root "+r)
	}
	sort.Strings(ps)
	return strings.Join(ps, "\x00")
}

func (bt *boolTraversal) run(fn *ssa.Function, args []*Term, what string) {
	wc, c := bt.wc, bt.wc.c
	x := newExec(wc.p)
	st := newState()
	for _, a := range args {
		st.facts.nils[a.Key()] = no
		st.facts.terms[a.Key()] = a
	}
	traversals := 0
	x.OnCall = func(cc *CallCtx) ([]Outcome, bool) {
		if bt.onPred != nil {
			if o, ok := bt.onPred(cc); ok {
				return o, true
			}
		}
		if cc.Fn == nil {
			return nil, false
		}
		var step func(st *State, n *Term) []Outcome
		var cont func(o Outcome) tri
		var root *Term
		isContains := false
		if ix, ok := wc.cands[cc.Fn]; ok {
			root = cc.Args[ix[1]]
			step, cont = wc.visitorStep(cc, cc.Args[ix[0]])
		} else if cc.Name == astPkg+".Inspect" {
			wc.used["Inspect"] = true
			root = cc.Args[0]
			step = wc.funcStep(cc, unbox(cc.Args[1]))
			cont = func(o Outcome) tri { return boolTri(o, o.Vals[0]) }
		} else if cc.Name == astPkg+".Contains" && cc.Fn != fn {
			root = cc.Args[0]
			step = wc.funcStep(cc, unbox(cc.Args[1]))
			cont = func(o Outcome) tri { return yes }
			isContains = true
			wc.used["Contains"] = true
		} else {
			return nil, false
		}
		traversals++
		if step == nil {
			return cc.ret(cc.St, tBool(false)), true
		}
		okRoot := false
		for _, r := range bt.roots {
			if same(unbox(root), r) {
				okRoot = true
			}
		}
		if !okRoot {
			c.fail(bt.key, wc.p.pos(cc.Pos()), "looks at %s", root)
		}
		m, inc, roots := ghostOf(cc.St)
		roots[unbox(root).Key()] = true
		test := func(o Outcome, n *Term) []tested {
			ts := bt.test(o, n)
			for i := range ts {
				o2 := o
				o2.St = ts[i].st
				ts[i].cont = cont(o2)
				if isContains {
					// the answer of the predicate must be the match
					if b := boolTri(o2, o.Vals[0]); b != ts[i].match {
						c.fail(bt.key, wc.p.pos(o.Pos), "the predicate answers %s for a node that %s when %s", o.Vals[0],
							map[tri]string{yes: "matches", no: "does not match", unknown: "may match"}[ts[i].match], clip(o2.St.facts.describe(), 300))
					}
				}
			}
			return ts
		}
		ends := wc.explore(cc, tstate{st: cc.St, matched: m, incomplete: inc}, step, test)
		var outs []Outcome
		for _, e := range ends {
			s := e.st
			s.ghost = ghostMake(e.matched, e.incomplete, roots)
			if isContains {
				// a match found earlier does not count for this call
				mm := e.matched
				if m && len(ends) > 0 {
					outs = append(outs, cc.ret(s.clone(), tBool(true))...)
					mm = false
				}
				outs = append(outs, cc.ret(s, tBool(mm))...)
				continue
			}
			outs = append(outs, cc.ret(s)...)
		}
		return outs, true
	}
	outs := x.Call(fn, args, st)
	c.saw(x)
	where := wc.p.pos(fn.Pos())
	good := traversals > 0 && len(outs) > 0
	if !good {
		c.fail(bt.key, where, "does not traverse its node")
	}
	for _, o := range outs {
		if o.Kind != oReturn {
			c.fail(bt.key, wc.p.pos(o.Pos), "panics: %s", o.Msg)
			good = false
			continue
		}
		m, inc, roots := ghostOf(o.St)
		got := o.St.facts.eval(o.Vals[0])
		switch {
		case m && got != yes:
			c.fail(bt.key, wc.p.pos(o.Pos), "%s, but the answer is %s", what, o.Vals[0])
			good = false
		case !m && inc:
			c.fail(bt.key, wc.p.pos(o.Pos), "nodes are skipped before a match is found")
			good = false
		case !m && got != no:
			c.fail(bt.key, wc.p.pos(o.Pos), "nothing matches, but the answer is %s", o.Vals[0])
			good = false
		case !m && !bt.covered(roots):
			c.fail(bt.key, wc.p.pos(o.Pos), "parts of the rule are never looked at")
			good = false
		}
	}
	if good {
		c.ok(bt.key, "true exactly when %s: %d traversals, %d end states", what, traversals, len(outs))
	}
}

// walkEntry reports on Walk and the functions it is made of.
func (wc *walkCheck) walkEntry() bool {
	c := wc.c
	fn := wc.pkg.Func("Walk")
	if fn == nil {
		c.fail("entry ast.Walk", "", "function ast.Walk not found")
		return false
	}
	if _, ok := wc.cands[fn]; ok {
		c.ok("entry ast.Walk", "%d paths visit exactly the node and its children", wc.done[fn])
		for g, n := range wc.done {
			if g != fn {
				c.ok("walks "+g.Name(), "%d paths", n)
			}
		}
	} else {
		fs := wc.fails[fn]
		if len(fs) == 0 {
			fs = []string{"ast.Walk does not have a visitor and a node parameter"}
		}
		for i, f := range fs {
			if i < 6 {
				c.fail("entry ast.Walk", wc.p.pos(fn.Pos()), "%s", f)
			}
		}
		return false
	}
	// a function must not pass its own node around in a cycle
	for f := range wc.cands {
		if wc.deleg[f][f] {
			c.fail("recursion", wc.p.pos(f.Pos()), "%s walks its own node again", f)
		}
		for g := range wc.deleg[f] {
			if g != f && wc.deleg[g][f] {
				c.fail("recursion", wc.p.pos(f.Pos()), "%s and %s pass the node to each other", f, g)
			}
		}
	}
	return true
}

func init() {
	checks["C12"] = func(c *Check) {
		c.rule = "Abstract interpretation of the traversal: for every node type, list length (loop summaries) and combination of optional parts, the sequence of Visit calls and recursive walks equals the template visit(node), then unless the result is nil the children in order with the returned visitor. Inspect's visitor is verified to call its function once per node and to continue exactly on true; Contains' visitor is analysed as a finite automaton over its captured state."
		c.assumptions = []string{"trees are well formed: match, result, operation and arguments are not nil", "a visitor does not modify the tree"}
		wc := newWalkCheck(c)
		if wc == nil {
			return
		}
		wc.run()
		if !wc.walkEntry() {
			return
		}
		wc.inspect()
		wc.contains()
		kinds := wc.p.universeOf(wc.nodeT)
		c.counts["node_kinds"] = len(kinds)
		c.check(len(kinds) >= 8, "kinds", "", "%d node kinds", len(kinds))
	}
	checks["C13"] = func(c *Check) {
		c.rule = "For each feature predicate: the traversal it starts covers the whole rule, and the visitor or predicate, interpreted on an arbitrary node of every kind, answers true exactly when the node is an s-expression whose feature field is set. The functions this builds on are verified too: Contains and Inspect as in C12, Walk for every part that can hold an s-expression."
		c.assumptions = []string{"trees are well formed: match, result, operation and arguments are not nil", "s-expressions occur only in the match and the result"}
		wc := newWalkCheck(c)
		if wc == nil {
			return
		}
		wc.sexprs = true
		wc.run()
		if !wc.walkEntry() {
			return
		}
		pkg := c.p.pkg("rules")
		if pkg == nil {
			c.fail("anchor", "", "package rules not found")
			return
		}
		sx := c.p.typ(astPkg, "SExpr", true)
		feats := []struct {
			fn   string
			cond func(s *Term) *Term
		}{
			{"HasBinding", func(s *Term) *Term { return notTerm(strEq(fld("Binding", s), tStr(""))) }},
			{"HasType", func(s *Term) *Term { return notTerm(strEq(fld("Type", s), tStr(""))) }},
			{"HasAux", func(s *Term) *Term { return notTerm(mk("isnil", "", fld("Aux", s))) }},
			{"HasAuxInt", func(s *Term) *Term { return notTerm(mk("isnil", "", fld("AuxInt", s))) }},
			{"HasEllipsis", func(s *Term) *Term { return fld("Ellipsis", s) }},
			{"HasTrailing", func(s *Term) *Term { return fld("Trailing", s) }},
		}
		for _, ft := range feats {
			ft := ft
			key := "predicate rules." + ft.fn
			fn := pkg.Func(ft.fn)
			if fn == nil || len(fn.Params) != 1 {
				c.fail(key, "", "function rules.%s(rule) not found", ft.fn)
				continue
			}
			r := tIn("r")
			bt := &boolTraversal{wc: wc, key: key, roots: []*Term{r, fld("Match", r), fld("Result", r)}}
			bt.test = func(o Outcome, n *Term) []tested {
				var out []tested
				is := isTerm(n, sx, wc.nodeT)
				cond := ft.cond(n)
				a := o.St.clone()
				if a.facts.assume(is, false) {
					out = append(out, tested{st: a, match: no})
				}
				b := o.St.clone()
				if b.facts.assume(is, true) {
					b2 := b.clone()
					if b.facts.assume(cond, true) {
						out = append(out, tested{st: b, match: yes})
					}
					if b2.facts.assume(cond, false) {
						out = append(out, tested{st: b2, match: no})
					}
				}
				return out
			}
			bt.covered = func(have map[string]bool) bool {
				return have[r.Key()] || have[fld("Match", r).Key()] && have[fld("Result", r).Key()]
			}
			bt.run(fn, []*Term{r}, "some s-expression has the feature")
		}
		if wc.used["Contains"] {
			wc.contains()
		}
		if wc.used["Inspect"] {
			wc.inspect()
		}
	}
}

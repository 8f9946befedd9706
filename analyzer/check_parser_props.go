package main

// C01-C05, C07: what the analyses of the parser decide.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Check) sawFuncs(fs map[*ssa.Function]bool) {
	for f := range fs {
		c.funcs[f.String()] = true
	}
}

// grammarDiffs reports where the grammar is not the notation.
func (a *parserAnalysis) grammarDiffs(c *Check, layout bool) {
	n := 0
	for _, d := range a.cmp.diffs {
		if d.Layout == layout {
			n++
			c.fail("notation:"+d.Where, d.Where, "%s", d.Text)
		}
	}
	if n == 0 {
		c.ok("notation", "%d constructs of the built grammar compared with the notation, %d with an action", a.cmp.n, len(a.cmp.actions))
	}
	c.counts["constructs"] = a.cmp.n
}

func (a *parserAnalysis) useDerivations(c *Check, prop string) {
	k := a.allDerivations()
	n := 0
	for _, v := range k.out {
		if v.prop == prop || v.prop == "" {
			n++
			c.fail(v.key, v.pos, "%s", v.text)
		}
	}
	c.sawFuncs(k.d.x.funcs)
	for _, r := range sortedKeys(k.shapes) {
		c.ok("derivations:"+r, "%d forms of %s: the action is interpreted on each", k.shapes[r], r)
	}
	c.counts["derivations"] = k.n
	c.counts["action_runs"] = k.d.runs
	if prop == "C03" {
		for _, u := range countsBeyond(c.p, a.pkg, k.d.x.funcs, 4) {
			c.fail("uniform:"+u.fn.Name(), u.pos, "%s compares or computes with %d: what it builds may depend on a count that is not followed that far", u.fn.Name(), u.n)
		}
	}
}

func (a *parserAnalysis) useEngine(c *Check, e *engineCheck, want func(b engineBad) bool) {
	for _, b := range e.out {
		if want(b) {
			c.fail(b.key, b.pos, "%s", b.text)
		}
	}
	c.sawFuncs(e.funcs)
	for _, k := range sortedKeys(e.kinds) {
		c.ok("engine:"+k, "%d nodes of kind %s matched abstractly", e.kinds[k], k)
	}
	c.counts["nodes"] = e.n
	c.counts["paths"] = e.paths
}

func propIs(ps ...string) func(b engineBad) bool {
	return func(b engineBad) bool {
		for _, p := range ps {
			if b.prop == p {
				return true
			}
		}
		return b.prop == ""
	}
}

var parserAssumptions = []string{
	"models of fmt, strings, bytes, unicode/utf8, os, io; text/positions beyond 2^63 are not considered",
	"the Go parser (go/parser.ParseExpr) returns an expression or an error",
}

func init() {
	checks["C01"] = func(c *Check) {
		c.rule = "Every form each construct of the built grammar can take (optional parts present and absent, lists of 0 to 4, expressions valid and not) is derived abstractly and its action is interpreted on the values: no type assertion or index in it can fail. The exported functions are followed from the call to the first rule and back: whatever happens in between (match, failure, errors reported, a panic in an action), a file or an error is returned, not both, and no panic escapes."
		c.assumptions = parserAssumptions
		a := c.parser()
		if a == nil {
			return
		}
		a.useDerivations(c, "C01")
		e := a.engine()
		e.entries()
		a.useEngine(c, e, propIs("C01"))
		c.ok("entries", "%d ways out of the exported functions", e.paths)
	}
	checks["C02"] = checkC02
	checks["C03"] = func(c *Check) {
		c.rule = "The built grammar is the notation (comparison in normal form). Every form of each construct is derived abstractly with all texts symbolic; the tree its action builds has each written part in its own field, in order, with exactly its text, and nothing in the others. Parsing starts at the beginning of the whole input with the first rule and returns the tree of that rule. Matching follows the grammar (as for C07)."
		c.assumptions = parserAssumptions
		a := c.parser()
		if a == nil {
			return
		}
		a.grammarDiffs(c, false)
		a.useDerivations(c, "C03")
		e := a.engine()
		e.checkNodes()
		e.entries()
		a.useEngine(c, e, propIs("C03", "C07"))
	}
	checks["C04"] = func(c *Check) {
		c.rule = "Errors are followed from where they arise to the caller: the expression front end fails when go/parser does or a form is not supported; an action fails when an expression in it does, or an operand is repeated; the engine puts the error of an action and of a bad encoding on the parser's list; the list is returned whenever it is not empty or the input does not match; reading errors are returned. Decided on every path by abstract interpretation, with every operand and every outside call able to fail. The grammar accepts no more than the notation."
		c.assumptions = parserAssumptions
		a := c.parser()
		if a == nil {
			return
		}
		a.grammarDiffs(c, false)
		a.useDerivations(c, "C04")
		e := a.engine()
		e.checkNodes()
		e.entries()
		a.useEngine(c, e, propIs("C04"))
		if r, err := c.p.analyseGoexpr(); err != nil {
			c.fail("anchor", "", "%v", err)
		} else {
			r.checkReturns(c)
			r.checkAccepted(c, nil)
			c.saw(r.x)
		}
	}
	checks["C05"] = func(c *Check) {
		c.rule = "Wherever the notation allows layout, the built grammar allows the same: any number of blanks, line breaks and comments, in any mixture (comparison in normal form). Every position field of every node kind the expression front end accepts is set to a constant (abstract interpretation of its traversal), and nothing else of the expression is changed. No other type of the tree has a position."
		c.assumptions = []string{"matching follows the grammar (C07)", "go/ast.Inspect visits every node"}
		a := c.parser()
		if a == nil {
			return
		}
		a.grammarDiffs(c, true)
		r, err := c.p.analyseGoexpr()
		if err != nil {
			c.fail("anchor", "", "%v", err)
			return
		}
		r.checkPositions(c)
		r.checkReturns(c)
		c.saw(r.x)
		treePositions(c)
	}
	checks["C07"] = func(c *Check) {
		c.rule = "Every node of the built grammar is matched abstractly by the parser's own engine, its operands answered by an oracle (match or failure, any consumption): order of attempts, where each is made, what is returned, the position after success and failure, and the scope in which named parts are bound are compared with the meaning of the construct, on every path. Literals and classes are decided for every character."
		c.assumptions = append([]string{"repetitions are followed 4 times; that more behave alike is checked by the absence of larger counts in the engine"}, parserAssumptions...)
		a := c.parser()
		if a == nil {
			return
		}
		e := a.engine()
		e.checkNodes()
		e.entries()
		a.useEngine(c, e, propIs("C07"))
		c.check(e.n >= 100, "engine", "", "%d nodes matched, at least 100 expected", e.n)
	}
	checks["C27"] = func(c *Check) {
		c.rule = "Reading a character moves line and column as stated, on every path. Matching a node of the grammar records what it is, at the place where it began, if nothing was looked for further on - for every relation to the place recorded before, when it is to be there and when it is not - and nothing else; the record is otherwise left alone. Errors are reported at the place where their construct begins. The message of a reported error is followed symbolically: name, colon, line, colon, column, then what is wrong. The exported functions are followed from the start state to the error they return, which says all that was recorded."
		c.assumptions = append([]string{"lists of expected texts and of errors are followed for samples of up to 5 entries"}, parserAssumptions...)
		a := c.parser()
		if a == nil {
			return
		}
		e := a.engine()
		e.checkNodes()
		e.messages()
		a.useEngine(c, e, propIs("C27"))
		c.check(e.n >= 100, "engine", "", "%d nodes matched, at least 100 expected", e.n)
	}
	checks["ENG"] = func(c *Check) {
		a := c.parser()
		e := a.engine()
		e.checkNodes()
		e.entries()
		fmt.Println(e.n, e.paths, e.kinds)
		for _, b := range e.out {
			fmt.Println(b.prop, b.key, b.pos, b.text)
		}
	}
	checks["C06"] = checkC06
}

// treePositions: no type of the tree carries a source position.
func treePositions(c *Check) {
	sp := c.p.pkg("ast")
	if sp == nil {
		c.fail("tree", "ast", "there is no package ast")
		return
	}
	n := 0
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st := structOf(tn.Type())
		if st == nil {
			continue
		}
		n++
		bad := false
		for i := 0; i < st.NumFields(); i++ {
			switch typeName(st.Field(i).Type()) {
			case "Pos", "Position", "position", "savepoint", "FileSet":
				bad = true
				c.fail("tree:"+name, c.p.pos(tn.Pos()), "%s.%s carries a source position", name, st.Field(i).Name())
			}
		}
		if !bad {
			c.ok("tree:"+name, "%s carries no source position", name)
		}
	}
	c.check(n > 0, "tree", "ast", "%d node types", n)
}

// ---- C02

func checkC02(c *Check) {
	c.rule = "No rule of the built grammar can be entered again before input is consumed (left recursion, through nullable prefixes and look-ahead), and no repetition has an operand that can match nothing (nullability fixpoint over the grammar). The engine advances by a whole character whenever a character matches, never matches at the end of the input, and repeats only after a match (abstract matching of every node). Every other loop on the way runs over a list, text or table, or counts towards a bound; every other recursion goes through the engine."
	c.assumptions = append([]string{"the tree walk of go/ast and the Go parser terminate"}, parserAssumptions...)
	a := c.parser()
	if a == nil {
		return
	}
	a.termination(c)
	e := a.engine()
	e.checkNodes()
	a.useEngine(c, e, func(b engineBad) bool {
		if b.prop == "C02" || b.prop == "" {
			return true
		}
		if b.prop != "C07" {
			return false
		}
		for _, p := range []string{"match:", "operands:star", "operands:plus", "next", "position:any", "position:class", "position:lit", "result:any", "result:class", "result:star", "result:plus"} {
			if strings.HasPrefix(b.key, p) {
				return true
			}
		}
		return false
	})
	e.loops(c)
}

func (a *parserAnalysis) termination(c *Check) {
	g := a.g
	null := map[string]bool{}
	var nullable func(n *peg) bool
	nullable = func(n *peg) bool {
		switch n.Kind {
		case "star", "opt", "not", "and":
			return true
		case "lit":
			return n.Str == ""
		case "class", "any":
			return false
		case "ref":
			return null[n.Str]
		case "seq":
			for _, s := range n.Sub {
				if !nullable(s) {
					return false
				}
			}
			return true
		case "choice":
			for _, s := range n.Sub {
				if nullable(s) {
					return true
				}
			}
			return false
		}
		for _, s := range n.Sub {
			if nullable(s) {
				return true
			}
		}
		return len(n.Sub) == 0
	}
	for ch := true; ch; {
		ch = false
		for _, r := range g.Rules {
			if g.rule(r.Name) == r && !null[r.Name] && nullable(r.Body) {
				null[r.Name], ch = true, true
			}
		}
	}
	// repetitions
	seen := map[*peg]bool{}
	var walk func(n *peg)
	walk = func(n *peg) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.Kind == "star" || n.Kind == "plus" {
			c.check(!nullable(n.Sub[0]), "repetition:"+n.Pos, n.Pos, "what is repeated in %s consumes input", clip(n.String(), 80))
		}
		for _, s := range n.Sub {
			walk(s)
		}
	}
	// left calls
	left := map[string]map[string]bool{}
	var calls func(n *peg, out map[string]bool)
	calls = func(n *peg, out map[string]bool) {
		switch n.Kind {
		case "ref":
			out[n.Str] = true
		case "seq":
			for _, s := range n.Sub {
				calls(s, out)
				if !nullable(s) {
					return
				}
			}
		default:
			for _, s := range n.Sub {
				calls(s, out)
			}
		}
	}
	for _, r := range g.Rules {
		walk(r.Body)
		if g.rule(r.Name) != r {
			continue
		}
		m := map[string]bool{}
		calls(r.Body, m)
		left[r.Name] = m
	}
	for ch := true; ch; {
		ch = false
		for _, m := range left {
			for _, k := range sortedKeys(m) {
				for q := range left[k] {
					if !m[q] {
						m[q], ch = true, true
					}
				}
			}
		}
	}
	for _, r := range sortedKeys(left) {
		c.check(!left[r][r], "rule:"+r, "parse/internal/parser/zparser.go", "rule %s is not entered again before input is consumed", r)
	}
	// shared sub-expressions must not form a cycle outside the rules
	state := map[*peg]int{}
	var cyc func(n *peg) bool
	cyc = func(n *peg) bool {
		switch state[n] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n] = 1
		for _, s := range n.Sub {
			if cyc(s) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for _, r := range g.Rules {
		if cyc(r.Body) {
			c.fail("cycle:"+r.Name, "parse/internal/parser/zparser.go", "an expression of rule %s contains itself", r.Name)
		}
	}
}

// reachable are the functions of the repository an exported parsing function
// may call.
func (e *engineCheck) reachable() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && !seen[f] && e.p.inRepo(f) {
			seen[f] = true
			work = append(work, f)
		}
	}
	if sp := e.p.pkg("parse"); sp != nil {
		for _, f := range e.p.funcs {
			if f.Pkg == sp && f.Object() != nil && f.Object().Exported() {
				push(f)
			}
		}
	}
	for _, n := range e.nodes() {
		push(n.Run)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						push(g)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					m := ci.Common().Method
					for _, g := range e.p.funcs {
						if g.Name() == m.Name() && g.Signature.Recv() != nil && types.Identical(g.Object().Type().(*types.Signature).Params(), m.Type().(*types.Signature).Params()) {
							if it, ok := ci.Common().Value.Type().Underlying().(*types.Interface); ok && types.Implements(g.Signature.Recv().Type(), it) && g.Pkg != nil && (g.Pkg == e.a.pkg || strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/parse")) {
								push(g)
							}
						}
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			push(g)
		}
	}
	var out []*ssa.Function
	for f := range seen {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// loops: every loop ends, every recursion goes through the engine.
func (e *engineCheck) loops(c *Check) {
	fs := e.reachable()
	in := map[*ssa.Function]bool{}
	for _, f := range fs {
		in[f] = true
		c.funcs[f.String()] = true
	}
	for _, f := range fs {
		for h, li := range e.p.loopsOf(f) {
			key := fmt.Sprintf("loop:%s#%d", f.Name(), h.Index)
			pos := e.p.pos(f.Pos())
			for _, b := range h.Instrs {
				if b.Pos().IsValid() {
					pos = e.p.pos(b.Pos())
					break
				}
			}
			if why := e.loopEnds(li); why != "" {
				c.ok(key, "the loop in %s %s", f.Name(), why)
			} else {
				c.fail(key, pos, "that the loop in %s ends is not shown", f.Name())
			}
		}
	}
	// recursion that does not pass the engine
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fs {
		if f == e.disp {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && in[g] && g != e.disp {
						calls[f] = append(calls[f], g)
					}
				}
			}
		}
	}
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		switch state[f] {
		case 1:
			return true
		case 2:
			return false
		}
		state[f] = 1
		for _, g := range calls[f] {
			if visit(g) {
				c.fail("recursion:"+f.Name(), e.p.pos(f.Pos()), "%s is recursive without going through the grammar", f.Name())
				break
			}
		}
		state[f] = 2
		return false
	}
	for _, f := range fs {
		visit(f)
	}
	c.counts["functions"] = len(fs)
}

// loopEnds says why a loop ends, or "".
func (e *engineCheck) loopEnds(li *loopInfo) string {
	dominatesBack := func(b *ssa.BasicBlock) bool {
		for _, p := range li.header.Preds {
			if li.body[p] && !(b == p || b.Dominates(p)) {
				return false
			}
		}
		return true
	}
	var blocks []*ssa.BasicBlock
	for b := range li.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		if !dominatesBack(b) || len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || li.body[b.Succs[0]] == li.body[b.Succs[1]] {
			continue
		}
		stay := li.body[b.Succs[0]] // the loop goes on when the condition holds
		cond := iff.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op.String() != "!" {
				break
			}
			cond, stay = u.X, !stay
		}
		switch v := cond.(type) {
		case *ssa.Extract:
			if _, ok := v.Tuple.(*ssa.Next); ok && v.Index == 0 && stay {
				return "runs over a table or text"
			}
			if call, ok := v.Tuple.(*ssa.Call); ok && stay && e.matching(call, v.Index, 0) {
				return "goes on only after a match, and what is repeated consumes input"
			}
		case *ssa.BinOp:
			if why := countsTo(li, v, stay); why != "" {
				return why
			}
		}
	}
	return ""
}

// matching: the result says whether the operand matched.
func (e *engineCheck) matching(call *ssa.Call, i, depth int) bool {
	f := call.Call.StaticCallee()
	if f == nil || depth > 4 {
		return false
	}
	if f == e.disp {
		return i == 1
	}
	if f.Signature.Results().Len() != 2 || i != 1 || !e.isParser(f.Params[0].Type()) {
		return false
	}
	// a function that passes the answer on
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			n++
			x, ok := r.Results[1].(*ssa.Extract)
			if !ok {
				return false
			}
			c2, ok := x.Tuple.(*ssa.Call)
			if !ok || !e.matching(c2, x.Index, depth+1) {
				return false
			}
		}
	}
	return n > 0
}

// countsTo: the condition compares a counter, which moves by a constant, with
// a bound that the loop does not move.
func countsTo(li *loopInfo, op *ssa.BinOp, stay bool) string {
	o := op.Op.String()
	if !stay {
		neg := map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
		o = neg[o]
	}
	x, y := op.X, op.Y
	step := counterStep(li, x)
	if step == 0 {
		if step = counterStep(li, y); step == 0 {
			return ""
		}
		x, y = y, x
		flip := map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}
		o = flip[o]
	}
	if !fixedIn(li, y) {
		return ""
	}
	if step > 0 && (o == "<" || o == "<=") || step < 0 && (o == ">" || o == ">=") {
		return "counts towards a bound"
	}
	return ""
}

// counterStep is how much v moves in each round of the loop.
func counterStep(li *loopInfo, v ssa.Value) int64 {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		// the value after the step, as in a range loop
		b, okb := v.(*ssa.BinOp)
		if !okb || b.Op.String() != "+" && b.Op.String() != "-" {
			return 0
		}
		if phi, ok = b.X.(*ssa.Phi); !ok {
			return 0
		}
		if c, okc := b.Y.(*ssa.Const); !okc || !constTerm(c).isInt() {
			return 0
		}
	}
	if phi.Block() != li.header {
		return 0
	}
	step := int64(0)
	for i, p := range li.header.Preds {
		if !li.body[p] {
			continue
		}
		b, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || b.X != phi {
			return 0
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || !constTerm(c).isInt() {
			return 0
		}
		n := constTerm(c).N
		if b.Op.String() == "-" {
			n = -n
		} else if b.Op.String() != "+" {
			return 0
		}
		if step != 0 && (step > 0) != (n > 0) || n == 0 {
			return 0
		}
		step = n
	}
	return step
}

// fixedIn: the loop does not change v.
func fixedIn(li *loopInfo, v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return fixedIn(li, v.Call.Args[0])
		}
	case *ssa.UnOp:
		if v.Op.String() == "*" && fixedIn(li, v.X) {
			// a field or variable nobody stores to in the loop
			for b := range li.body {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && types.Identical(s.Val.Type(), v.Type()) {
						return false
					}
				}
			}
			return true
		}
	case *ssa.FieldAddr:
		return fixedIn(li, v.X)
	case *ssa.Field:
		return fixedIn(li, v.X)
	case *ssa.BinOp:
		if fixedIn(li, v.X) && fixedIn(li, v.Y) {
			return true
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		return !li.body[in.Block()]
	}
	return false
}

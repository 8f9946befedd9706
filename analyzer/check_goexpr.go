package main

// The embedded-expression front end (package goexpr): which kinds are let in,
// what happens to their positions, and when an error is returned. Shared by
// C04, C05 and C09.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// visitPath is one way the visiting function treats a node.
type visitPath struct {
	o        Outcome
	node     *Term
	kinds    []types.Type
	open     bool // kinds unbounded
	nilNode  bool
	cells    map[string]*Term // carried cell -> value afterwards
	descends tri
}

type inspection struct {
	fn      *ssa.Function
	root    *Term
	paths   []visitPath
	carried map[string]*Term // cell key -> symbol
	post    map[string]*Term
	cellOf  map[string]*Term
}

// goexprResult is the analysis of goexpr.Parse.
type goexprResult struct {
	x     *Exec
	fn    *ssa.Function
	outs  []Outcome
	insp  []*inspection
	parse []*Term // results of go/parser.ParseExpr calls: argument
	other []string
}

// visitorFn finds the function a traversal calls for each node.
func (x *Exec) visitorFn(v *Term, static types.Type) (*ssa.Function, []*Term, []*Term) {
	if v.Op == "fn" && v.Fn != nil {
		return v.Fn, v.A, nil
	}
	return nil, nil, nil
}

func (p *Program) analyseGoexpr() (*goexprResult, error) {
	sp := p.pkg("parse/internal/goexpr")
	if sp == nil {
		return nil, fmt.Errorf("package goexpr not found")
	}
	fn := sp.Func("Parse")
	if fn == nil || len(fn.Params) != 1 {
		return nil, fmt.Errorf("function goexpr.Parse not found")
	}
	r := &goexprResult{fn: fn}
	x := newExec(p)
	r.x = x
	nodeT := p.typ(goAst, "Node", false)
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		switch c.Name {
		case "go/parser.ParseExpr", "go/parser.ParseExprFrom":
			src := c.Args[0]
			if c.Name != "go/parser.ParseExpr" {
				src = c.Args[2]
			}
			src = unbox(src)
			r.parse = append(r.parse, src)
			e := mk("goparse", "", src)
			ok := c.St.clone()
			bad := c.St
			err := mk("goparseerr", "", src)
			bad.facts.nils[err.Key()] = no
			bad.facts.terms[err.Key()] = err
			// on error the parser still returns an expression
			ok.facts.nils[e.Key()] = no
			ok.facts.terms[e.Key()] = e
			return []Outcome{
				{Kind: oReturn, St: ok, Vals: []*Term{e, tNil}, Pos: c.Pos()},
				{Kind: oReturn, St: bad, Vals: []*Term{mk("goparsebad", "", src), err}, Pos: c.Pos()},
			}, true
		case "go/ast.Inspect":
			outs := x.inspect(c, r, c.Args[0], c.Args[1], nodeT, false)
			return outs, outs != nil
		case "go/ast.Walk":
			outs := x.inspect(c, r, c.Args[1], c.Args[0], nodeT, true)
			return outs, outs != nil
		}
		return nil, false
	}
	r.outs = x.Call(fn, []*Term{tIn("x")}, newState())
	return r, nil
}

// inspect summarises a traversal: the visiting function is analysed for one
// arbitrary node in an arbitrary reachable state.
func (x *Exec) inspect(c *CallCtx, r *goexprResult, root, v *Term, nodeT types.Type, walk bool) []Outcome {
	var fn *ssa.Function
	var binds []*Term
	recv := []*Term{}
	if walk {
		ts := c.St.facts.dynTypes(v, nil)
		var t types.Type
		if d := dynOf(v); d != nil {
			t = d
		} else if len(ts) == 1 {
			t = ts[0]
		} else if v.Op == "ref" || v.Op == "new" {
			t = v.T
		}
		if t == nil {
			return nil
		}
		ms := x.prog.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Visit" {
				fn = x.prog.ssa.MethodValue(ms.At(i))
			}
		}
		recv = append(recv, v)
	} else if v.Op == "fn" {
		fn, binds = v.Fn, v.A
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	ins := &inspection{fn: fn, root: root, carried: map[string]*Term{}, post: map[string]*Term{}, cellOf: map[string]*Term{}}
	node := mk("in", fmt.Sprintf("node%d", len(r.insp)))
	for round := 0; round < 4; round++ {
		st := c.St.clone()
		st.events = nil
		for k, s := range ins.carried {
			st.mem[k] = cell{ins.cellOf[k], s}
		}
		// the static type of the node
		st.facts.typeInfo(node, nodeT)
		outs := x.callFn(c.Fr, st, fn, append(append([]*Term{}, recv...), node), binds, c.Site)
		ins.paths = nil
		grew := false
		for _, o := range outs {
			vp := visitPath{o: o, node: node, cells: map[string]*Term{}}
			if o.St.facts.isNil(node) == yes {
				vp.nilNode = true
			}
			ts := o.St.facts.dynTypes(node, nodeT)
			vp.kinds, vp.open = ts, ts == nil
			for k, cl := range o.St.mem {
				root := rootOf(cl.path)
				if same(root, node) || strings.Contains(cl.path.Key(), node.Key()) {
					continue
				}
				old, had := c.St.mem[k]
				if had && same(old.val, cl.val) && ins.carried[k] == nil {
					continue
				}
				if !had && !x.outlives(c.St, cl.path, c) {
					continue
				}
				if ins.carried[k] == nil {
					ins.carried[k] = mk("carried", fmt.Sprintf("inspect%d.%s", len(r.insp), cl.path))
					ins.cellOf[k] = cl.path
					grew = true
				}
				vp.cells[k] = cl.val
			}
			if o.Kind == oReturn && len(o.Vals) == 1 {
				if walk {
					vp.descends = o.St.facts.isNil(o.Vals[0]).neg()
				} else {
					vp.descends = o.St.facts.eval(o.Vals[0])
				}
			}
			ins.paths = append(ins.paths, vp)
		}
		if !grew {
			break
		}
	}
	for k := range ins.carried {
		post := mk("post", fmt.Sprintf("inspect%d.%s", len(r.insp), ins.cellOf[k]))
		ins.post[k] = post
		c.St.mem[k] = cell{ins.cellOf[k], post}
	}
	r.insp = append(r.insp, ins)
	c.St.events = append(c.St.events, Event{Kind: "inspect", A: []*Term{root}, Pos: c.Pos()})
	return c.ret(c.St)
}

// outlives reports whether a location existed before the call.
func (x *Exec) outlives(st *State, path *Term, c *CallCtx) bool {
	r := rootOf(path)
	if r.Op == "new" || r.Op == "newslice" || r.Op == "newmap" {
		return !strings.HasPrefix(r.S, c.Fr.id+"/") || strings.HasPrefix(r.S, c.Fr.id+"#")
	}
	return true
}

// kindInfo is how a kind of expression node is treated.
type kindInfo struct {
	t       types.Type
	accept  []visitPath
	refuse  []visitPath
	unclear []string
}

// kindsOf classifies the node kinds by the error cell's fate.
func (r *goexprResult) kindsOf(ins *inspection) map[string]*kindInfo {
	res := map[string]*kindInfo{}
	for _, vp := range ins.paths {
		if vp.nilNode {
			continue
		}
		for _, t := range vp.kinds {
			k := res[tkey(t)]
			if k == nil {
				k = &kindInfo{t: t}
				res[tkey(t)] = k
			}
			refused := false
			for key, sym := range ins.carried {
				v := sym
				if c, ok := vp.o.St.mem[key]; ok {
					v = c.val
				}
				if same(v, sym) {
					// an earlier refusal is kept
					refused = refused || vp.o.St.facts.isNil(sym) == no
					continue
				}
				switch vp.o.St.facts.isNil(v) {
				case no:
					refused = true
				default:
					k.unclear = append(k.unclear, fmt.Sprintf("%s becomes %s", ins.cellOf[key], v))
				}
			}
			if refused {
				k.refuse = append(k.refuse, vp)
			} else {
				k.accept = append(k.accept, vp)
			}
		}
	}
	return res
}

func hasChildren(t types.Type) bool {
	switch astName(t) {
	case "goast.Ident", "goast.BasicLit":
		return false
	}
	return true
}

func sortedKinds(m map[string]*kindInfo) []*kindInfo {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*kindInfo
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

// checkReturns decides that goexpr.Parse returns the parsed, inspected
// expression exactly when nothing was refused.
func (r *goexprResult) checkReturns(c *Check) {
	p := c.p
	key := "goexpr.Parse results"
	nok, nerr := 0, 0
	for _, o := range r.outs {
		at := p.pos(o.Pos)
		if o.Kind == oPanic {
			c.fail(key, at, "goexpr.Parse panics: %s when %s", o.Msg, o.St.facts.describe())
			continue
		}
		e, err := o.Vals[0], o.Vals[1]
		badParse := false
		for _, t := range o.St.facts.terms {
			if t.Op == "goparseerr" && o.St.facts.isNil(t) == no {
				badParse = true
			}
		}
		var insp []*Term
		for _, ev := range o.St.events {
			if ev.Kind == "inspect" {
				insp = append(insp, ev.A[0])
			}
		}
		switch o.St.facts.isNil(err) {
		case yes:
			nok++
			if badParse {
				c.fail(key, at, "returns no error after the expression failed to parse")
				continue
			}
			if !same(e, mk("goparse", "", tIn("x"))) {
				c.fail(key, at, "returns %s, expected the expression parsed from the text", e)
				continue
			}
			seen := false
			for _, t := range insp {
				if same(t, e) {
					seen = true
				}
			}
			if !seen {
				c.fail(key, at, "returns an expression that was not inspected")
				continue
			}
			// nothing refused: every inspection's carried cell must be known nil
			good := true
			for _, ins := range r.insp {
				if !same(ins.root, e) {
					continue
				}
				isErr := false
				for k, post := range ins.post {
					_ = k
					isErr = true
					if o.St.facts.isNil(post) != yes {
						good = false
						c.fail(key, at, "returns no error although the inspection may have refused a node (%s)", ins.cellOf[k])
					}
				}
				if !isErr {
					good = false
					c.fail(key, at, "the inspection reports nothing")
				}
			}
			if good {
				c.ok(key, "success only when parsed and nothing refused")
			}
		case no:
			nerr++
			// an error must have a cause: failed parse or refused node
			cause := badParse
			for _, ins := range r.insp {
				for _, post := range ins.post {
					if o.St.facts.isNil(post) == no {
						cause = true
					}
				}
			}
			c.check(cause, key, at, "error %s returned because of a failed parse or a refused node", err)
			c.check(o.St.facts.isNil(e) == yes, key, at, "no expression is returned with an error (%s)", e)
		default:
			c.fail(key, at, "cannot tell whether %s is nil", err)
		}
	}
	c.check(nok > 0 && nerr >= 2, key, "", "%d success and %d error paths", nok, nerr)
}

// checkPositions decides that every accepted node has canonical positions.
func (r *goexprResult) checkPositions(c *Check) {
	p := c.p
	for _, ins := range r.insp {
		for _, k := range sortedKinds(r.kindsOf(ins)) {
			st := structOf(k.t)
			for _, vp := range k.accept {
				at := p.pos(vp.o.Pos)
				if hasChildren(k.t) {
					c.check(vp.descends == yes, "position "+shortType(k.t), at, "every part of an accepted %s is inspected and has its positions reset too", shortType(k.t))
				}
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					loc := fld(f.Name(), ins.paths[0].node)
					v := r.x.read(vp.o.St, loc, nil)
					isPos := tkey(f.Type()) == "go/token.Pos"
					key := "position " + shortType(k.t) + "." + f.Name()
					if !isPos {
						if !same(v, loc) {
							c.fail(key, at, "%s is changed to %s", loc, v)
						}
						continue
					}
					// Ellipsis marks a variadic call: its presence is kept
					if f.Name() == "Ellipsis" {
						switch vp.o.St.facts.eval(eq0(loc)) {
						case yes:
							z := unbox(v).isInt() && unbox(v).N == 0 || same(v, loc)
							c.check(z, key, at, "a call without ellipsis keeps none (%s)", v)
						case no:
							c.check(unbox(v).isInt() && unbox(v).N != 0, key, at, "the ellipsis of a variadic call gets a canonical position (%s)", v)
						default:
							c.fail(key, at, "%s becomes %s whether or not the call is variadic", loc, v)
						}
						continue
					}
					ok := unbox(v).isInt()
					if !ok && same(v, loc) && vp.o.St.facts.eval(eq0(loc)) == yes {
						ok = true
					}
					c.check(ok, key, at, "%s of an accepted expression is canonical afterwards (%s)", loc, v)
				}
			}
		}
	}
}

// checkAccepted relates the accepted kinds with those the printer prints.
func (r *goexprResult) checkAccepted(c *Check, printed map[string]bool) {
	if len(r.insp) == 0 {
		c.fail("goexpr inspection", c.p.pos(r.fn.Pos()), "no inspection of the parsed expression was found")
		return
	}
	for _, ins := range r.insp {
		n := 0
		kinds := r.kindsOf(ins)
		for _, k := range sortedKinds(kinds) {
			key := "kind " + shortType(k.t)
			for _, u := range k.unclear {
				c.fail(key, c.p.pos(ins.fn.Pos()), "not decided: %s", u)
			}
			for _, vp := range k.accept {
				if vp.o.Kind == oPanic {
					c.fail(key, c.p.pos(vp.o.Pos), "panics on %s: %s", shortType(k.t), vp.o.Msg)
					continue
				}
				n++
				if printed != nil {
					c.check(printed[astName(k.t)], key, c.p.pos(vp.o.Pos), "%s is accepted by the parser and printed by the printer", shortType(k.t))
				}
				if vp.descends != yes && hasChildren(k.t) {
					c.fail(key, c.p.pos(vp.o.Pos), "sub-expressions of an accepted %s are not inspected", shortType(k.t))
				}
			}
		}
		for _, vp := range ins.paths {
			if vp.open {
				c.fail("goexpr inspection", c.p.pos(vp.o.Pos), "a path accepts nodes of any kind")
			}
		}
		c.check(n >= 8, "goexpr inspection", "", "%d accepting paths analysed, at least 8 expected", n)
	}
}

func init() {
	checks["C09"] = func(c *Check) {
		c.rule = "The node kinds accepted by the expression front end (abstract interpretation of its traversal function for one arbitrary node) are a subset of the kinds the printer writes in full (template comparison of the printer's expression functions)."
		c.assumptions = []string{"writes succeed (C11 covers failures)", "go/ast.Inspect visits every node", "models of fmt, bytes, strings"}
		pc := newPrintCheck(c)
		if pc == nil {
			return
		}
		pc.run()
		pc.report()
		r, err := c.p.analyseGoexpr()
		if err != nil {
			c.fail("anchor", "", "%v", err)
			return
		}
		r.checkAccepted(c, pc.kinds)
		c.saw(r.x)
		for k := range pc.kinds {
			c.counts["printed_kinds"]++
			_ = k
		}
	}
	checks["C23"] = func(c *Check) {
		c.rule = "Composition of facts decided from the source: the built grammar is the notation; every form of every construct is built into the tree it says (abstract derivation) and matched as the grammar says (abstract matching); every printing function writes exactly the template of its node (abstract interpretation), operators and literals kept apart; the expression forms that are accepted are printed in full; nothing in a tree depends on where it was read. The templates are texts of the notation that derive the same tree (argument in DESIGN.md)."
		c.assumptions = append([]string{"writes succeed (C11 covers failures)", "go/parser reads the tokens go/ast expressions were read from as the same expression"}, parserAssumptions...)
		a := c.parser()
		if a == nil {
			return
		}
		a.grammarDiffs(c, false)
		a.useDerivations(c, "C03")
		for _, v := range a.allDerivations().out {
			if v.prop == "C23" || v.prop == "C04" && strings.HasPrefix(v.key, "repeated:") {
				c.fail(v.key, v.pos, "%s", v.text)
			}
		}
		e := a.engine()
		e.checkNodes()
		e.entries()
		a.useEngine(c, e, propIs("C03", "C07"))
		pc := newPrintCheck(c)
		if pc == nil {
			return
		}
		bad := len(c.bad)
		saved := c.bad
		c.bad = nil
		pc.run()
		pc.report()
		if len(c.bad) == 0 {
			pc.tokenShapes()
		}
		c.bad = append(saved[:bad:bad], c.bad...)
		r, err := c.p.analyseGoexpr()
		if err != nil {
			c.fail("anchor", "", "%v", err)
			return
		}
		r.checkAccepted(c, pc.kinds)
		r.checkPositions(c)
		r.checkReturns(c)
		c.saw(r.x)
		treePositions(c)
	}
	checks["C05x"] = func(c *Check) {
		r, err := c.p.analyseGoexpr()
		if err != nil {
			c.fail("anchor", "", "%v", err)
			return
		}
		r.checkPositions(c)
		r.checkReturns(c)
		c.saw(r.x)
	}
}

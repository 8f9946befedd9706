package main

// Abstract interpreter over go/ssa: forward, partitioned by branch facts, with
// loops summarised (loops.go). It computes, for a function applied to symbolic
// arguments, the set of outcomes: facts under which each is taken, effects
// (events), values returned. Nothing is executed and no solver is involved.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Kind string // call, write, loop, visit...
	S    string
	A    []*Term
	L    *Loop
	Pos  token.Pos
	Full bool // loop ran to completion
}

type cell struct {
	path *Term
	val  *Term
}

type deferred struct {
	fn       *ssa.Function
	invoke   *ssa.CallCommon
	args     []*Term
	bindings []*Term
	site     ssa.CallInstruction
	builtin  string
}

type State struct {
	mem       map[string]cell
	facts     *Facts
	events    []Event
	defers    map[string][]deferred
	mapver    map[string]int
	mapvg     map[string]bool // some keys of the map are not constants
	panicking *Term
	recovered bool
	lastCond  decision
	seq       int
	ghost     string // typestate of a checker
	tick      int    // iterations of unrolled loops so far
}

// tag distinguishes what is allocated in different unrolled iterations.
func (s *State) tag() string {
	if s.tick == 0 {
		return ""
	}
	return fmt.Sprintf("~%d", s.tick)
}

func (s *State) mapvague(m *Term) {
	n := map[string]bool{}
	for k := range s.mapvg {
		n[k] = true
	}
	n[m.Key()] = true
	delete(n, "known:"+m.Key()) // of the keys some are not
	s.mapvg = n
}

func newState() *State {
	return &State{mem: map[string]cell{}, facts: newFacts(), defers: map[string][]deferred{}, mapver: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{mem: make(map[string]cell, len(s.mem)), facts: s.facts.clone(),
		events: s.events[:len(s.events):len(s.events)], defers: map[string][]deferred{}, mapver: map[string]int{},
		panicking: s.panicking, recovered: s.recovered, lastCond: s.lastCond, seq: s.seq, mapvg: s.mapvg, ghost: s.ghost, tick: s.tick}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	for k, v := range s.mapver {
		n.mapver[k] = v
	}
	return n
}

type regs map[ssa.Value]*Term

func (r regs) clone() regs {
	n := make(regs, len(r))
	for k, v := range r {
		n[k] = v
	}
	return n
}

type Frame struct {
	fn     *ssa.Function
	id     string
	parent *Frame
	depth  int
}

type outKind int

const (
	oReturn outKind = iota
	oPanic
	oContinue
	oExit
)

type Outcome struct {
	Kind     outKind
	St       *State
	Vals     []*Term
	Msg      string
	Pos      token.Pos
	regs     regs
	from, to *ssa.BasicBlock
}

type CallCtx struct {
	X        *Exec
	Fr       *Frame
	St       *State
	Site     ssa.CallInstruction
	Fn       *ssa.Function
	Name     string
	Args     []*Term
	ArgTypes []types.Type
	Sig      *types.Signature
	Invoke   bool
}

func (c *CallCtx) ret(st *State, vals ...*Term) []Outcome {
	return []Outcome{{Kind: oReturn, St: st, Vals: vals, Pos: c.Pos()}}
}

func (c *CallCtx) Pos() token.Pos {
	if c.Site != nil {
		return c.Site.Pos()
	}
	return token.NoPos
}

type Exec struct {
	prog      *Program
	OnCall    func(c *CallCtx) ([]Outcome, bool)
	MayNil    func(t *Term, st *State) bool // pointers whose dereference needs a proof
	NoFail    bool                          // writes succeed
	CheckIdx  bool                          // unproved bounds become panics
	loops     []*loopRun
	stack     []*ssa.Function
	undecided []string
	steps     int
	funcs     map[*ssa.Function]bool
	OnWrite   func(c *CallCtx, n *Term) []Outcome // a write that can fail
	Track     func(v *Term) bool                  // typestate mode: values kept through loops; everything else is forgotten
	noModel   map[string]bool
	Unroll    bool             // constant propagation: loops are followed iteration by iteration
	BoxAll    bool             // every value in an interface keeps its dynamic type
	MapSplit  func(key string) // tables with constant keys do not have the key looked up
	RecDepth  int              // how often a pure function may be re-entered before it is left opaque
	visits    map[string]int
	MaxUnroll int
	fresh     int
}

func newExec(p *Program) *Exec {
	return &Exec{prog: p, NoFail: true, funcs: map[*ssa.Function]bool{}}
}

const maxSteps = 400000
const maxUnroll = 400

// objID names an object allocated by in.
func (x *Exec) objID(fr *Frame, st *State, in ssa.Instruction) string {
	if x.Unroll {
		x.fresh++
		return fmt.Sprintf("%s#%d.%d", fr.fn.Name(), instrIndex(in), x.fresh)
	}
	return fmt.Sprintf("%s#%d%s", fr.id, instrIndex(in), st.tag())
}

func (x *Exec) undecide(pos token.Pos, format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	if pos.IsValid() {
		m = x.prog.pos(pos) + ": " + m
	}
	for _, u := range x.undecided {
		if u == m {
			return
		}
	}
	x.undecided = append(x.undecided, m)
}

// Call runs fn on args from st and returns its outcomes.
func (x *Exec) Call(fn *ssa.Function, args []*Term, st *State) []Outcome {
	return x.callFn(nil, st, fn, args, nil, nil)
}

func (x *Exec) callFn(parent *Frame, st *State, fn *ssa.Function, args, bindings []*Term, site ssa.CallInstruction) []Outcome {
	id := fn.String()
	depth := 0
	if parent != nil {
		pos := 0
		if site != nil {
			pos = siteIndex(site)
		}
		id = fmt.Sprintf("%s/%d.%s%s", parent.id, pos, fn.Name(), st.tag())
		depth = parent.depth + 1
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > x.RecDepth && x.prog.isPureFn(fn) {
		var vals []*Term
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			s := fn.String()
			if rs.Len() > 1 {
				s = fmt.Sprintf("%s#%d", s, i)
			}
			vals = append(vals, &Term{Op: "call", S: s, A: args})
		}
		return []Outcome{{Kind: oReturn, St: st, Vals: vals, Pos: fn.Pos()}}
	}
	if n >= 2+x.RecDepth || depth > 60 {
		x.undecide(fn.Pos(), "recursion through %s is not summarised", fn)
		return nil
	}
	if len(fn.Blocks) == 0 {
		x.undecide(fn.Pos(), "no body for %s", fn)
		return nil
	}
	x.funcs[fn] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	saved := x.loops
	x.loops = nil
	defer func() { x.loops = saved }()

	fr := &Frame{fn: fn, id: id, parent: parent, depth: depth}
	rg := regs{}
	for i, p := range fn.Params {
		if i < len(args) {
			rg[p] = args[i]
		} else {
			rg[p] = mk("unk", id+".param"+p.Name())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			rg[fv] = bindings[i]
		} else {
			rg[fv] = mk("unk", id+".free"+fv.Name())
		}
	}
	outs := x.run(fr, st, rg, nil, fn.Blocks[0], nil)
	var res []Outcome
	for _, o := range outs {
		if o.Kind == oPanic && len(o.St.defers[id]) > 0 {
			res = append(res, x.unwind(fr, o)...)
			continue
		}
		delete(o.St.defers, id)
		res = append(res, o)
	}
	return res
}

func (x *Exec) unwind(fr *Frame, o Outcome) []Outcome {
	st := o.St.clone()
	st.panicking = mk("panicval", o.Msg)
	ds := st.defers[fr.id]
	delete(st.defers, fr.id)
	cur := []Outcome{{Kind: oReturn, St: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []Outcome
		for _, c := range cur {
			if c.Kind != oReturn {
				next = append(next, c)
				continue
			}
			next = append(next, x.callDeferred(fr, c.St, ds[i])...)
		}
		cur = next
	}
	var res []Outcome
	for _, c := range cur {
		if c.Kind != oReturn {
			res = append(res, c)
			continue
		}
		if !c.St.recovered {
			c.St.panicking = nil
			res = append(res, Outcome{Kind: oPanic, St: c.St, Msg: o.Msg, Pos: o.Pos})
			continue
		}
		c.St.panicking = nil
		c.St.recovered = false
		if fr.fn.Recover == nil {
			var vals []*Term
			rs := fr.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				vals = append(vals, zeroOf(rs.At(i).Type()))
			}
			res = append(res, Outcome{Kind: oReturn, St: c.St, Vals: vals, Pos: o.Pos})
			continue
		}
		rg := o.regs
		if rg == nil {
			rg = regs{}
		}
		res = append(res, x.run(fr, c.St, rg.clone(), nil, fr.fn.Recover, nil)...)
	}
	return res
}

func (x *Exec) callDeferred(fr *Frame, st *State, d deferred) []Outcome {
	if d.fn != nil {
		return x.dispatch(fr, st, d.site, d.fn, d.fn.String(), d.args, d.bindings, d.fn.Signature, false)
	}
	if d.invoke != nil {
		return x.dispatch(fr, st, d.site, nil, invokeName(d.invoke), d.args, nil, d.invoke.Signature(), true)
	}
	return []Outcome{{Kind: oReturn, St: st}}
}

func invokeName(c *ssa.CallCommon) string {
	return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
}

func siteIndex(site ssa.CallInstruction) int {
	b := site.Block()
	n := 0
	for _, bb := range b.Parent().Blocks {
		if bb == b {
			break
		}
		n += len(bb.Instrs)
	}
	for i, in := range b.Instrs {
		if in == site.(ssa.Instruction) {
			return n + i
		}
	}
	return n
}

// run enters block `to` from block `from` in the context of loop lp.
func (x *Exec) run(fr *Frame, st *State, rg regs, from, to *ssa.BasicBlock, lp *loopRun) []Outcome {
	x.steps++
	if x.steps > maxSteps {
		x.undecide(fr.fn.Pos(), "analysis budget exceeded in %s", fr.fn)
		return nil
	}
	if lp != nil {
		if to == lp.info.header && from != nil {
			return []Outcome{{Kind: oContinue, St: st, regs: rg, from: from, to: to}}
		}
		if !lp.info.body[to] {
			return []Outcome{{Kind: oExit, St: st, regs: rg, from: from, to: to}}
		}
	}
	if x.Unroll {
		if li := x.prog.loopsOf(fr.fn)[to]; li != nil {
			if x.visits == nil {
				x.visits = map[string]int{}
			}
			k := fmt.Sprintf("%s/%d", fr.id, to.Index)
			x.visits[k]++
			if x.visits[k] > maxUnroll && x.visits[k] > x.MaxUnroll {
				x.undecide(fr.fn.Pos(), "loop in %s has no constant bound", fr.fn)
				return nil
			}
		}
	} else if li := x.prog.loopsOf(fr.fn)[to]; li != nil && (lp == nil || li != lp.info) {
		if x.Track != nil {
			return x.typestateLoop(fr, st, rg, from, li, lp)
		}
		if !li.body[from] && !x.constTrip(st, rg, from, li) {
			return x.execLoop(fr, st, rg, from, li, lp)
		}
		st.tick++ // unrolled
	}
	if from != nil {
		x.phis(st, rg, from, to)
	}
	return x.block(fr, st, rg, to, 0, lp)
}

func (x *Exec) phis(st *State, rg regs, from, to *ssa.BasicBlock) {
	var vals []*Term
	var ps []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, x.val(st, rg, p.Edges[pi]))
	}
	for i, p := range ps {
		rg[p] = vals[i]
	}
}

func (x *Exec) val(st *State, rg regs, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return &Term{Op: "ref", A: []*Term{mk("glob", v.Pkg.Pkg.Path()+"."+v.Name())}}
	case *ssa.Function:
		return &Term{Op: "fn", S: v.String(), Fn: v}
	case *ssa.Builtin:
		return mk("builtin", v.Name())
	}
	if t, ok := rg[v]; ok {
		return t
	}
	return mk("unk", v.Name()+"@"+v.Parent().String())
}

func (x *Exec) fail(fr *Frame, st *State, rg regs, pos token.Pos, msg string) Outcome {
	return Outcome{Kind: oPanic, St: st, Msg: msg, Pos: pos, regs: rg}
}

// block interprets instructions of b from index i on.
func (x *Exec) block(fr *Frame, st *State, rg regs, b *ssa.BasicBlock, i int, lp *loopRun) []Outcome {
	var extra []Outcome
	for ; i < len(b.Instrs); i++ {
		x.steps++
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			pt := in.Type().Underlying().(*types.Pointer)
			n := &Term{Op: "new", S: x.objID(fr, st, in), T: in.Type()}
			_ = pt
			x.clearObj(st, n)
			rg[in] = n
		case *ssa.BinOp:
			a, b := x.val(st, rg, in.X), x.val(st, rg, in.Y)
			if x.CheckIdx && (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.X.Type()) {
				zero := cmpTerm("==", b, tInt(0))
				if st.facts.eval(zero) != no {
					if f := st.clone(); f.facts.assume(zero, true) {
						extra = append(extra, x.fail(fr, f, rg, in.Pos(), "division by zero: "+b.String()))
					}
					if !st.facts.assume(zero, false) {
						return extra
					}
				}
			}
			rg[in] = x.binop(st, in, a, b)
		case *ssa.UnOp:
			v := x.val(st, rg, in.X)
			switch in.Op {
			case token.MUL:
				if x.derefCheck(st, v) {
					if f := st.clone(); f.facts.assume(mk("isnil", "", v), true) {
						extra = append(extra, x.fail(fr, f, rg, in.Pos(), "nil dereference of "+v.String()))
					}
					if !st.facts.assume(mk("isnil", "", v), false) {
						return extra
					}
				}
				rg[in] = x.load(st, v, in.Type())
			case token.NOT:
				rg[in] = notTerm(v)
			case token.SUB:
				if isIntType(in.Type()) {
					rg[in] = linComb(v, -1, tInt(0), 0)
				} else {
					rg[in] = mk("un", in.Op.String(), v)
				}
			default:
				rg[in] = mk("un", in.Op.String(), v)
			}
		case *ssa.ChangeType, *ssa.ChangeInterface:
			ops := in.(ssa.Instruction).Operands(nil)
			rg[in.(ssa.Value)] = x.val(st, rg, *ops[0])
		case *ssa.Convert:
			rg[in] = x.convert(in.X.Type(), in.Type(), x.val(st, rg, in.X))
		case *ssa.MultiConvert:
			rg[in] = x.val(st, rg, in.X)
		case *ssa.MakeInterface:
			v := x.val(st, rg, in.X)
			rg[in] = x.box(st, v, in.X.Type())
		case *ssa.MakeClosure:
			t := &Term{Op: "fn", S: in.Fn.String(), Fn: in.Fn.(*ssa.Function)}
			for _, bv := range in.Bindings {
				t.A = append(t.A, x.val(st, rg, bv))
			}
			rg[in] = t
		case *ssa.MakeMap:
			n := mk("newmap", x.objID(fr, st, in))
			rg[in] = n
		case *ssa.MakeChan:
			rg[in] = mk("newchan", x.objID(fr, st, in))
		case *ssa.MakeSlice:
			n := &Term{Op: "newslice", S: x.objID(fr, st, in), A: []*Term{x.val(st, rg, in.Len)}, T: in.Type()}
			x.clearObj(st, n)
			if l := x.val(st, rg, in.Len); l.isInt() && l.N == 0 {
				rg[in] = app()
			} else {
				rg[in] = n
			}
		case *ssa.FieldAddr:
			v := x.val(st, rg, in.X)
			if x.derefCheck(st, v) {
				if f := st.clone(); f.facts.assume(mk("isnil", "", v), true) {
					extra = append(extra, x.fail(fr, f, rg, in.Pos(), "nil dereference of "+v.String()))
				}
				if !st.facts.assume(mk("isnil", "", v), false) {
					return extra
				}
			}
			f := structOf(in.X.Type()).Field(in.Field)
			rg[in] = ref(fld(f.Name(), v))
		case *ssa.Field:
			f := structOf(in.X.Type()).Field(in.Field)
			rg[in] = fld(f.Name(), x.val(st, rg, in.X))
		case *ssa.IndexAddr:
			v, iv := x.val(st, rg, in.X), x.val(st, rg, in.Index)
			base := v
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				base = deref(v)
			}
			if p, ok := x.boundsCheck(st, base, iv, in.X.Type()); !ok {
				if p != nil {
					extra = append(extra, x.fail(fr, p, rg, in.Pos(), fmt.Sprintf("index %s of %s out of range", iv, base)))
				}
			}
			p := idx(base, iv)
			if base.Op == "app" && p.Op != "idx" {
				p = mk("idx", "", base, iv) // a place, not the value in it
			}
			rg[in] = ref(p)
		case *ssa.Index:
			v, iv := x.val(st, rg, in.X), x.val(st, rg, in.Index)
			if p, ok := x.boundsCheck(st, v, iv, in.X.Type()); !ok {
				if p != nil {
					extra = append(extra, x.fail(fr, p, rg, in.Pos(), fmt.Sprintf("index %s of %s out of range", iv, v)))
				}
			}
			rg[in] = idx(v, iv)
		case *ssa.Slice:
			v := x.val(st, rg, in.X)
			base := v
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				base = deref(v)
			}
			var lo, hi *Term
			if in.Low != nil {
				lo = x.val(st, rg, in.Low)
			}
			if in.High != nil {
				hi = x.val(st, rg, in.High)
			}
			if x.CheckIdx && (lo != nil || hi != nil) {
				if p := x.sliceCheck(st, base, lo, hi); p != nil {
					extra = append(extra, x.fail(fr, p, rg, in.Pos(), fmt.Sprintf("slice bounds of %s out of range", base)))
				}
			}
			rg[in] = sliceOf(base, lo, hi)
		case *ssa.Lookup:
			m, k := x.val(st, rg, in.X), x.val(st, rg, in.Index)
			if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
				rg[in] = idx(m, k)
				continue
			}
			outs := x.lookup(fr, st, rg, in, m, k)
			var res []Outcome
			for _, o := range outs {
				res = append(res, x.block(fr, o.St, o.regs, b, i+1, lp)...)
			}
			return append(extra, res...)
		case *ssa.MapUpdate:
			m, k, v := x.val(st, rg, in.Map), x.val(st, rg, in.Key), x.val(st, rg, in.Value)
			x.mapUpdate(st, m, k, v, in.Pos())
		case *ssa.Range:
			rg[in] = mk("range", "", x.val(st, rg, in.X))
			if x.Unroll {
				x.fresh++
				rg[in] = mk("range", "", rg[in].A[0], mk("new", fmt.Sprintf("iter#%d", x.fresh)))
			}
		case *ssa.Next:
			r := x.val(st, rg, in.Iter)
			if x.Track != nil {
				x.fresh++
				u := func(s string) *Term { return mk("unk", fmt.Sprintf("%s%d", s, x.fresh)) }
				rg[in] = mk("tuple", "", u("more"), u("key"), u("elem"))
				continue
			}
			if x.Unroll && in.IsString && r.Op == "range" && len(r.A) == 2 && unbox(r.A[0]).isStr() {
				// a constant: character by character
				s, at := unbox(r.A[0]).S, 0
				if c, ok := st.mem[deref(r.A[1]).Key()]; ok {
					at = int(c.val.N)
				}
				if at >= len(s) {
					rg[in] = mk("tuple", "", tBool(false), tInt(0), tInt(0))
					continue
				}
				c, w := utf8.DecodeRuneInString(s[at:])
				x.set(st, deref(r.A[1]), tInt(int64(at+w)))
				rg[in] = mk("tuple", "", tBool(true), tInt(int64(at)), tInt(int64(c)))
				continue
			}
			if x.Unroll && !in.IsString && r.Op == "range" && len(r.A) == 2 && r.A[0].Op == "newmap" && !st.mapvg[r.A[0].Key()] {
				// all keys are known: in some order (C21 is about the order)
				var next *cell
				last := ""
				if c, ok := st.mem[deref(r.A[1]).Key()]; ok {
					last = c.val.S
				}
				for _, c := range st.mem {
					if c.path.Op == "mapidx" && same(c.path.A[0], r.A[0]) && c.path.A[1].Key() > last && (next == nil || c.path.A[1].Key() < next.path.A[1].Key()) {
						c := c
						next = &c
					}
				}
				if next == nil {
					rg[in] = mk("tuple", "", tBool(false), tNil, tNil)
				} else {
					x.set(st, deref(r.A[1]), tStr(next.path.A[1].Key()))
					rg[in] = mk("tuple", "", tBool(true), next.path.A[1], next.val)
				}
				continue
			}
			if len(x.loops) == 0 {
				x.undecide(in.Pos(), "range outside a loop")
				return extra
			}
			k := x.loops[len(x.loops)-1].K
			over := r
			if r.Op == "range" {
				over = r.A[0]
			}
			mode := "map"
			if in.IsString {
				mode = "str"
			}
			cnt := mk("rcount", mode, over)
			ok := cmpTerm("<", k, cnt)
			rg[in] = mk("tuple", "", ok, mk("rkey", mode, over, k), mk("relem", mode, over, k))
		case *ssa.Extract:
			t := x.val(st, rg, in.Tuple)
			if t.Op == "tuple" && in.Index < len(t.A) {
				rg[in] = t.A[in.Index]
			} else {
				rg[in] = mk("extract", fmt.Sprint(in.Index), t)
			}
		case *ssa.TypeAssert:
			outs := x.typeAssert(fr, st, rg, in)
			var res []Outcome
			for _, o := range outs {
				if o.Kind == oPanic {
					res = append(res, o)
					continue
				}
				res = append(res, x.block(fr, o.St, o.regs, b, i+1, lp)...)
			}
			return append(extra, res...)
		case *ssa.Store:
			a := x.val(st, rg, in.Addr)
			if x.derefCheck(st, a) {
				if f := st.clone(); f.facts.assume(mk("isnil", "", a), true) {
					extra = append(extra, x.fail(fr, f, rg, in.Pos(), "nil dereference of "+a.String()))
				}
				if !st.facts.assume(mk("isnil", "", a), false) {
					return extra
				}
			}
			x.store(st, deref(a), x.val(st, rg, in.Val), in.Pos())
		case *ssa.Call:
			outs := x.call(fr, st, rg, in)
			var res []Outcome
			for n, o := range outs {
				if o.Kind == oPanic {
					o.regs = rg
					res = append(res, o)
					continue
				}
				r2 := rg
				if n < len(outs)-1 {
					r2 = rg.clone()
				}
				r2[in] = tupleVal(o.Vals, in.Type())
				res = append(res, x.block(fr, o.St, r2, b, i+1, lp)...)
			}
			return append(extra, res...)
		case *ssa.Go:
			st.events = append(st.events, Event{Kind: "go", S: in.Call.String(), Pos: in.Pos()})
		case *ssa.Send, *ssa.Select:
			st.events = append(st.events, Event{Kind: "chan", S: in.String(), Pos: in.Pos()})
		case *ssa.Defer:
			d := deferred{site: in}
			c := &in.Call
			if c.IsInvoke() {
				d.invoke = c
				d.args = append(d.args, x.val(st, rg, c.Value))
			} else {
				fv := x.val(st, rg, c.Value)
				if fv.Op == "fn" {
					d.fn, d.bindings = fv.Fn, fv.A
				} else if fv.Op == "builtin" {
					d.builtin = fv.S
				} else {
					x.undecide(in.Pos(), "deferred call of unknown function")
				}
			}
			for _, a := range c.Args {
				d.args = append(d.args, x.val(st, rg, a))
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.RunDefers:
			ds := st.defers[fr.id]
			delete(st.defers, fr.id)
			cur := []Outcome{{Kind: oReturn, St: st}}
			for j := len(ds) - 1; j >= 0; j-- {
				var next []Outcome
				for _, c := range cur {
					if c.Kind != oReturn {
						next = append(next, c)
						continue
					}
					next = append(next, x.callDeferred(fr, c.St, ds[j])...)
				}
				cur = next
			}
			if len(cur) == 1 && cur[0].Kind == oReturn {
				st = cur[0].St
				continue
			}
			var res []Outcome
			for _, c := range cur {
				if c.Kind != oReturn {
					res = append(res, c)
					continue
				}
				res = append(res, x.block(fr, c.St, rg.clone(), b, i+1, lp)...)
			}
			return append(extra, res...)
		case *ssa.Jump:
			return append(extra, x.run(fr, st, rg, b, b.Succs[0], lp)...)
		case *ssa.If:
			c := x.val(st, rg, in.Cond)
			switch st.facts.eval(c) {
			case yes:
				st.lastCond = decision{c, true}
				return append(extra, x.run(fr, st, rg, b, b.Succs[0], lp)...)
			case no:
				st.lastCond = decision{c, false}
				return append(extra, x.run(fr, st, rg, b, b.Succs[1], lp)...)
			}
			st2, rg2 := st.clone(), rg.clone()
			if st.facts.assume(c, true) {
				st.lastCond = decision{c, true}
				extra = append(extra, x.run(fr, st, rg, b, b.Succs[0], lp)...)
			}
			if st2.facts.assume(c, false) {
				st2.lastCond = decision{c, false}
				extra = append(extra, x.run(fr, st2, rg2, b, b.Succs[1], lp)...)
			}
			return extra
		case *ssa.Return:
			var vs []*Term
			for _, r := range in.Results {
				vs = append(vs, x.val(st, rg, r))
			}
			return append(extra, Outcome{Kind: oReturn, St: st, Vals: vs, Pos: in.Pos(), regs: rg})
		case *ssa.Panic:
			v := x.val(st, rg, in.X)
			return append(extra, x.fail(fr, st, rg, in.Pos(), "panic("+v.String()+")"))
		default:
			x.undecide(in.Pos(), "instruction %T not handled", in)
			if v, ok := in.(ssa.Value); ok {
				rg[v] = mk("unk", x.objID(fr, st, in))
			}
		}
	}
	return extra
}

func tupleVal(vals []*Term, t types.Type) *Term {
	if tu, ok := t.(*types.Tuple); ok {
		if tu.Len() == 1 && len(vals) == 1 {
			return vals[0]
		}
		return mk("tuple", "", vals...)
	}
	if len(vals) == 1 {
		return vals[0]
	}
	if len(vals) == 0 {
		return mk("void", "")
	}
	return mk("tuple", "", vals...)
}

func instrIndex(in ssa.Instruction) int {
	n := 0
	for _, bb := range in.Parent().Blocks {
		if bb == in.Block() {
			break
		}
		n += len(bb.Instrs)
	}
	for i, j := range in.Block().Instrs {
		if j == in {
			return n + i
		}
	}
	return n
}

func notTerm(v *Term) *Term {
	switch {
	case v.isTrue():
		return tBool(false)
	case v.isFalse():
		return tBool(true)
	case v.Op == "not":
		return v.A[0]
	}
	return mk("not", "", v)
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func (x *Exec) binop(st *State, in *ssa.BinOp, a, b *Term) *Term {
	t := in.X.Type()
	op := in.Op.String()
	switch {
	case isIntType(t) && isIntType(in.Y.Type()):
		switch op {
		case "+":
			return add(a, b)
		case "-":
			return sub(a, b)
		case "*":
			if unbox(a).isInt() {
				return linComb(b, unbox(a).N, tInt(0), 0)
			}
			if unbox(b).isInt() {
				return linComb(a, unbox(b).N, tInt(0), 0)
			}
		case "<", "<=", ">", ">=", "==", "!=":
			c := cmpTerm(op, a, b)
			return st.facts.constCond(c)
		}
		return mk("bin", op, a, b)
	case isStringType(t) && isStringType(in.Y.Type()):
		switch op {
		case "+":
			return cat(a, b)
		case "==", "!=":
			c := strEq(a, b)
			if op == "!=" {
				c = notTerm(c)
			}
			return c
		}
		return mk("bin", op, a, b)
	case isBoolType(t) && isBoolType(in.Y.Type()):
		if op == "==" || op == "!=" {
			if b.Op == "bool" {
				a, b = b, a
			}
			if a.Op == "bool" {
				r := b
				if a.isTrue() != (op == "==") {
					r = notTerm(r)
				}
				return r
			}
		}
	}
	if op == "==" || op == "!=" {
		var c *Term
		ua, ub := a, b
		switch {
		case ub.Op == "nil":
			c = mk("isnil", "", ua)
		case ua.Op == "nil":
			c = mk("isnil", "", ub)
		case same(ua, ub):
			c = tBool(true)
		case typesDiffer(ua, ub):
			c = tBool(false)
		case ua.Op == "box" && isStringType(t):
			c = strEq(ua, ub)
		default:
			if ua.Key() > ub.Key() {
				ua, ub = ub, ua
			}
			c = mk("eq", "", ua, ub)
		}
		if c.Op == "isnil" && isNilable(t) {
			switch st.facts.isNil(c.A[0]) {
			case yes:
				c = tBool(true)
			case no:
				c = tBool(false)
			}
		}
		if op == "!=" {
			c = notTerm(c)
		}
		return c
	}
	return mk("bin", op, a, b)
}

func (f *Facts) constCond(c *Term) *Term { return c }

func strEq(a, b *Term) *Term {
	a, b = unbox(a), unbox(b)
	if a.isStr() {
		a, b = b, a
	}
	if a.isStr() && b.isStr() {
		return tBool(a.S == b.S)
	}
	if same(a, b) {
		return tBool(true)
	}
	if b.isStr() {
		return mk("streq", "", a, b)
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

// differ: two strings cannot be the same.
func differ(a, b *Term) bool {
	a, b = unbox(a), unbox(b)
	if a.isConst() && b.isConst() {
		return !same(a, b)
	}
	p, q := catParts(a), catParts(b)
	for len(p) > 0 && len(q) > 0 && same(p[0], q[0]) {
		p, q = p[1:], q[1:]
	}
	for len(p) > 0 && len(q) > 0 && same(p[len(p)-1], q[len(q)-1]) {
		p, q = p[:len(p)-1], q[:len(q)-1]
	}
	text := func(l []*Term) bool {
		for _, t := range l {
			if t.isStr() && t.S != "" {
				return true
			}
		}
		return false
	}
	if len(p) == 0 || len(q) == 0 {
		return text(p) || text(q)
	}
	lead := func(u, v *Term) bool {
		return u.isStr() && v.isStr() && !strings.HasPrefix(u.S, v.S) && !strings.HasPrefix(v.S, u.S)
	}
	trail := func(u, v *Term) bool {
		return u.isStr() && v.isStr() && !strings.HasSuffix(u.S, v.S) && !strings.HasSuffix(v.S, u.S)
	}
	if len(p) == 1 && len(q) == 1 && p[0].isStr() && q[0].isStr() {
		return p[0].S != q[0].S
	}
	return lead(p[0], q[0]) || trail(p[len(p)-1], q[len(q)-1])
}

func (x *Exec) convert(from, to types.Type, v *Term) *Term {
	if isStringType(to) && isIntType(from) {
		if unbox(v).isInt() {
			return tStr(string(rune(unbox(v).N)))
		}
		return mk("runestr", "", v)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isStringType(from) {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return mk("runes", "", v)
		}
	}
	return v
}

// box tags a value put in an interface with its dynamic type.
func (x *Exec) box(st *State, v *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		return v
	}
	if v.Op == "box" {
		v = v.A[0]
	}
	if v.isConst() || x.BoxAll {
		return &Term{Op: "box", S: tkey(t), A: []*Term{v}, T: t}
	}
	switch v.Op {
	case "new", "obj", "err", "fn":
		return v
	case "lin", "cat", "app":
		return v
	}
	k := v.Key()
	if tf, ok := st.facts.types[k]; ok && tf.incl != nil && tf.incl[tkey(t)] == nil {
		// the value of another type, converted
		return &Term{Op: "box", S: tkey(t), A: []*Term{v}, T: t}
	}
	st.facts.types[k] = typeFact{incl: map[string]types.Type{tkey(t): t}}
	st.facts.terms[k] = v
	return v
}

func (x *Exec) derefCheck(st *State, v *Term) bool {
	if st.facts.isNil(v) == yes {
		return true
	}
	if x.MayNil == nil {
		return false
	}
	if st.facts.isNil(v) == no {
		return false
	}
	return x.MayNil(v, st)
}

// lenAt is the length of a slice value: that of its header, whatever its
// elements are by now.
func (x *Exec) lenAt(st *State, s *Term) *Term {
	if h := lenOf(s); h.Op != "len" || s.Op == "slice" {
		return h
	}
	return lenOf(x.view(st, s))
}

func (x *Exec) boundsCheck(st *State, base, i *Term, t types.Type) (*State, bool) {
	if !x.CheckIdx {
		return nil, true
	}
	n := x.lenAt(st, base)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			n = tInt(a.Len())
		}
	}
	lo := mk("not", "", cmpTerm("<", i, tInt(0)))
	hi := cmpTerm("<", i, n)
	if st.facts.eval(lo) == yes && st.facts.eval(hi) == yes {
		return nil, true
	}
	bad := st.clone()
	if st.facts.eval(lo) == yes {
		if !bad.facts.assume(hi, false) {
			bad = nil
		}
	}
	st.facts.assume(lo, true)
	st.facts.assume(hi, true)
	return bad, false
}

func (x *Exec) sliceCheck(st *State, base, lo, hi *Term) *State {
	n := x.lenAt(st, base)
	if lo == nil {
		lo = tInt(0)
	}
	if hi == nil {
		hi = n
	}
	c1 := mk("not", "", cmpTerm("<", lo, tInt(0)))
	c2 := cmpTerm("<=", lo, hi)
	c3 := cmpTerm("<=", hi, n)
	var bad *State
	for _, c := range []*Term{c1, c2, c3} {
		if st.facts.eval(c) == yes {
			continue
		}
		bad = st.clone()
		if !bad.facts.assume(c, false) {
			bad = nil
			continue
		}
		st.facts.assume(c, true)
	}
	return bad
}

// ---- memory

func isFresh(root *Term) bool {
	switch root.Op {
	case "new", "newslice", "newmap", "zero", "obj", "app", "cat":
		return true
	}
	return false
}

func (x *Exec) clearObj(st *State, n *Term) {
	for k, c := range st.mem {
		q := c.path
		for q.Op == "content" || q.Op == "contents" {
			q = rootOf(q.A[0])
		}
		if r := rootOf(q); same(r, n) {
			delete(st.mem, k)
		}
	}
}

// ancestor returns the container path of a path, and how to project.
func ancestor(p *Term) (parent *Term, project func(v *Term) *Term) {
	switch p.Op {
	case "fld":
		return derefPath(p.A[0]), func(v *Term) *Term { return fld(p.S, v) }
	case "idx":
		return p.A[0], func(v *Term) *Term { return idx(v, p.A[1]) }
	}
	return nil, nil
}

// derefPath turns the subject of a fld term in a path: fields of a pointer p
// are located in deref(p).
func derefPath(x *Term) *Term {
	switch x.Op {
	case "fld", "idx", "deref", "glob":
		return x
	}
	return deref(x)
}

func (x *Exec) lookupCell(st *State, p *Term) (*Term, bool) {
	if c, ok := st.mem[p.Key()]; ok {
		return c.val, true
	}
	// embedded: fld(f, q) where q is a pointer stored somewhere
	if p.Op == "fld" && p.A[0].Op != "deref" {
		if c, ok := st.mem[deref(p.A[0]).Key()]; ok {
			return fld(p.S, c.val), true
		}
	}
	if p.Op == "idx" && isFresh(rootOf(p)) {
		// another element may be the same one
		for _, c := range st.mem {
			if c.path.Op != "idx" || !same(c.path.A[0], p.A[0]) || c.path.A[1].isInt() && p.A[1].isInt() {
				continue
			}
			if v := x.view(st, p.A[0]); v.Op == "app" && !p.A[1].isInt() {
				all := true
				for _, c2 := range st.mem {
					if c2.path.Op == "idx" && same(c2.path.A[0], p.A[0]) && !c2.path.A[1].isInt() {
						all = false
					}
				}
				if all {
					return idx(v, p.A[1]), true
				}
			}
			return mk("unk", "elem", p, c.path, c.val), true
		}
	}
	par, proj := ancestor(p)
	if par == nil {
		return nil, false
	}
	if v, ok := x.lookupCell(st, par); ok {
		return proj(v), true
	}
	if p.Op == "idx" {
		if c, ok := st.mem[mk("contents", "", p.A[0]).Key()]; ok {
			return idx(c.val, p.A[1]), true
		}
	}
	return nil, false
}

func (x *Exec) read(st *State, p *Term, t types.Type) *Term {
	if p.Op != "fld" && p.Op != "idx" && p.Op != "deref" && p.Op != "glob" && p.Op != "content" && p.Op != "contents" {
		return p
	}
	if p.Op == "glob" {
		if c, ok := st.mem[p.Key()]; ok {
			return c.val
		}
		if c := x.prog.globalConst(p.S); c != nil {
			return c
		}
		return p
	}
	v, ok := x.lookupCell(st, p)
	if !ok {
		if r := rootOf(p); isFresh(r) && r.Op != "app" && r.Op != "cat" && r.Op != "obj" && t != nil {
			v = zeroOf(t)
		} else if p.Op == "idx" && p.A[0].Op == "app" {
			v = idx(p.A[0], p.A[1])
		} else {
			v = p
		}
	}
	// a struct whose parts were stored separately
	if t != nil {
		if s, isS := t.Underlying().(*types.Struct); isS && x.hasSub(st, p) {
			o := &Term{Op: "obj", S: tkey(t), T: t}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				fp := fld(f.Name(), p)
				if c, ok := st.mem[fp.Key()]; ok {
					o.A = append(o.A, c.val)
				} else if x.hasSub(st, fp) {
					o.A = append(o.A, x.read(st, fp, f.Type()))
				} else {
					o.A = append(o.A, fld(f.Name(), v))
				}
			}
			return o
		}
		if a, isA := t.Underlying().(*types.Array); isA && x.hasSub(st, p) {
			known := a.Len() <= 1000
			var parts []string
			for _, c := range st.mem {
				if isStrictPrefix(p, c.path) {
					parts = append(parts, c.path.Key()+"="+c.val.Key())
				}
				q := c.path
				for q != nil && (q.Op == "fld" || q.Op == "idx") {
					if q.Op == "idx" && same(q.A[0], p) && !q.A[1].isInt() {
						known = false
					}
					q = q.A[0]
				}
			}
			if !known {
				sort.Strings(parts)
				return mk("unk", "array", p, mk("const", strings.Join(parts, ";")))
			}
			l := app()
			for i := int64(0); i < a.Len(); i++ {
				l = app(l, mk("one", "", x.read(st, mk("idx", "", p, tInt(i)), a.Elem())))
			}
			return l
		}
	}
	return v
}

func (x *Exec) hasSub(st *State, p *Term) bool {
	for _, c := range st.mem {
		if isStrictPrefix(p, c.path) {
			return true
		}
	}
	return false
}

func isStrictPrefix(p, q *Term) bool {
	for {
		switch q.Op {
		case "fld":
			if p.Op == "deref" && same(p.A[0], q.A[0]) {
				return true
			}
			q = q.A[0]
		case "idx":
			q = q.A[0]
		default:
			return false
		}
		if same(p, q) {
			return true
		}
	}
}

func (x *Exec) load(st *State, addr *Term, t types.Type) *Term {
	return x.read(st, deref(addr), t)
}

func (x *Exec) store(st *State, path, val *Term, pos token.Pos) {
	for k, c := range st.mem {
		if isStrictPrefix(path, c.path) {
			delete(st.mem, k)
		}
	}
	if !isFresh(rootOf(path)) {
		st.events = append(st.events, Event{Kind: "write", A: []*Term{path, val}, Pos: pos})
	}
	if val.Op == "zero" && isFresh(rootOf(path)) {
		if par, _ := ancestor(path); par == nil {
			delete(st.mem, path.Key())
			return
		}
	}
	st.mem[path.Key()] = cell{path, val}
}

func (x *Exec) set(st *State, path, val *Term) { st.mem[path.Key()] = cell{path, val} }

// view is the contents of a slice value as a list term.
func (x *Exec) view(st *State, s *Term) *Term {
	base, lo, hi := s, tInt(0), (*Term)(nil)
	if s.Op == "slice" {
		base, lo = s.A[0], s.A[1]
		if s.A[2].Op != "nil" {
			hi = s.A[2]
		}
	}
	if c, ok := st.mem[mk("contents", "", base).Key()]; ok {
		return sliceOf(c.val, lo, hi)
	}
	var n *Term
	var et types.Type
	switch {
	case base.Op == "newslice":
		n = base.A[0]
		if sl, ok := base.T.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
	case base.Op == "deref" && base.A[0].Op == "new":
		p, ok := base.A[0].T.Underlying().(*types.Pointer)
		if !ok {
			return s
		}
		a, ok := p.Elem().Underlying().(*types.Array)
		if !ok {
			return s
		}
		n, et = tInt(a.Len()), a.Elem()
	default:
		if base.Op == "fld" || base.Op == "idx" || base.Op == "deref" {
			return s
		}
		return s
	}
	if !n.isInt() || n.N > 1000 {
		return s
	}
	l := app()
	for i := int64(0); i < n.N; i++ {
		l = app(l, mk("one", "", x.read(st, idx(base, tInt(i)), et)))
	}
	return sliceOf(l, lo, hi)
}

// resolve replaces local objects by their contents at this point.
func (x *Exec) resolve(st *State, t *Term) *Term { return x.resolveN(st, t, 0) }

func (x *Exec) resolveN(st *State, t *Term, depth int) *Term {
	if t == nil || depth > 12 {
		return t
	}
	switch t.Op {
	case "new":
		p, ok := t.T.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			o := &Term{Op: "obj", S: tkey(t.T), T: t.T}
			whole := x.read(st, deref(t), nil)
			if whole.Op == "deref" && same(whole.A[0], t) {
				whole = zeroOf(p.Elem())
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				v := fld(f.Name(), whole)
				fp := fld(f.Name(), t)
				if c, ok := st.mem[fp.Key()]; ok {
					v = c.val
				} else if x.hasSub(st, fp) {
					v = x.read(st, fp, f.Type())
				}
				o.A = append(o.A, x.resolveN(st, v, depth+1))
			}
			return o
		}
		return t
	case "newslice":
		v := x.view(st, t)
		if !same(v, t) {
			return x.resolveN(st, v, depth+1)
		}
		return t
	case "deref", "slice":
		v := x.view(st, t)
		if !same(v, t) {
			return x.resolveN(st, v, depth+1)
		}
		return t
	case "each", "prefix", "fn", "in", "int", "str", "bool", "nil", "glob", "fld", "idx":
		return t
	case "ref":
		return t
	}
	if len(t.A) == 0 {
		return t
	}
	as := make([]*Term, len(t.A))
	ch := false
	for i, a := range t.A {
		as[i] = x.resolveN(st, a, depth+1)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, as)
}

func (x *Exec) lookup(fr *Frame, st *State, rg regs, in *ssa.Lookup, m, k *Term) []Outcome {
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	key := mk("mapidx", "", m, k)
	if c, ok := st.mem[key.Key()]; ok {
		if in.CommaOk {
			rg[in] = mk("tuple", "", c.val, tBool(true))
		} else {
			rg[in] = c.val
		}
		return []Outcome{{Kind: oReturn, St: st, regs: rg}}
	}
	if m.Op == "nil" || m.Op == "zero" {
		if in.CommaOk {
			rg[in] = mk("tuple", "", zeroOf(vt), tBool(false))
		} else {
			rg[in] = zeroOf(vt)
		}
		return []Outcome{{Kind: oReturn, St: st, regs: rg}}
	}
	ver := fmt.Sprint(st.mapver[m.Key()])
	val := mk("mapget", ver, m, k)
	ok := mk("mapok", ver, m, k)
	if m.Op == "newmap" && x.MapSplit != nil && !st.mapvg[m.Key()] && !unbox(k).isConst() {
		// the keys of a constant table are explored separately
		for _, c := range st.mem {
			if c.path.Op == "mapidx" && same(c.path.A[0], m) {
				if s := unbox(c.path.A[1]); s.isStr() {
					x.MapSplit(s.S)
				}
			}
		}
		ok = tBool(false)
		val = zeroOf(vt)
	}
	if m.Op == "newmap" && (st.mapver[m.Key()] == 0 || !st.mapvg[m.Key()] && unbox(k).isConst()) {
		ok = tBool(false)
		val = zeroOf(vt)
	}
	if m.Op == "newmap" && !ok.isFalse() && (!st.mapvg[m.Key()] || st.mapvg["known:"+m.Key()]) {
		// all keys are known, and are other ones
		other := true
		for _, c := range st.mem {
			if c.path.Op == "mapidx" && same(c.path.A[0], m) && !differ(c.path.A[1], k) {
				other = false
			}
		}
		if other {
			ok = tBool(false)
			val = zeroOf(vt)
		}
	}
	if !in.CommaOk {
		rg[in] = val
		return []Outcome{{Kind: oReturn, St: st, regs: rg}}
	}
	switch st.facts.eval(ok) {
	case yes:
		rg[in] = mk("tuple", "", val, tBool(true))
		return []Outcome{{Kind: oReturn, St: st, regs: rg}}
	case no:
		rg[in] = mk("tuple", "", zeroOf(vt), tBool(false))
		return []Outcome{{Kind: oReturn, St: st, regs: rg}}
	}
	st2, rg2 := st.clone(), rg.clone()
	st.facts.assume(ok, true)
	rg[in] = mk("tuple", "", val, tBool(true))
	st2.facts.assume(ok, false)
	rg2[in] = mk("tuple", "", zeroOf(vt), tBool(false))
	return []Outcome{{Kind: oReturn, St: st, regs: rg}, {Kind: oReturn, St: st2, regs: rg2}}
}

func (x *Exec) mapUpdate(st *State, m, k, v *Term, pos token.Pos) {
	for key, c := range st.mem {
		if c.path.Op == "mapidx" && same(c.path.A[0], m) && !same(c.path.A[1], k) {
			if unbox(c.path.A[1]).isConst() && unbox(k).isConst() || differ(c.path.A[1], k) {
				continue // different keys
			}
			delete(st.mem, key)
			st.mapvague(m)
		}
	}
	if !unbox(k).isConst() {
		known := !st.mapvg[m.Key()] || st.mapvg["known:"+m.Key()]
		st.mapvague(m)
		if known {
			st.mapvg["known:"+m.Key()] = true
		}
	}
	st.mapver[m.Key()]++
	x.set(st, mk("mapidx", "", m, k), v)
	st.events = append(st.events, Event{Kind: "mapupdate", A: []*Term{m, k, v}, Pos: pos})
}

func (x *Exec) typeAssert(fr *Frame, st *State, rg regs, in *ssa.TypeAssert) []Outcome {
	v := x.val(st, rg, in.X)
	static := in.X.Type()
	is := &Term{Op: "is", S: tkey(in.AssertedType), A: []*Term{v, {Op: "static", S: tkey(static), T: static}}, T: in.AssertedType}
	got := v
	if !types.IsInterface(in.AssertedType) {
		got = unbox(v)
	}
	zero := zeroOf(in.AssertedType)
	if in.CommaOk {
		switch st.facts.eval(is) {
		case yes:
			rg[in] = mk("tuple", "", got, tBool(true))
			return []Outcome{{Kind: oReturn, St: st, regs: rg}}
		case no:
			rg[in] = mk("tuple", "", zero, tBool(false))
			return []Outcome{{Kind: oReturn, St: st, regs: rg}}
		}
		st2, rg2 := st.clone(), rg.clone()
		var outs []Outcome
		if st.facts.assume(is, true) {
			rg[in] = mk("tuple", "", got, tBool(true))
			outs = append(outs, Outcome{Kind: oReturn, St: st, regs: rg})
		}
		if st2.facts.assume(is, false) {
			rg2[in] = mk("tuple", "", zero, tBool(false))
			outs = append(outs, Outcome{Kind: oReturn, St: st2, regs: rg2})
		}
		return outs
	}
	msg := fmt.Sprintf("type assertion %s.(%s) may fail", v, shortType(in.AssertedType))
	switch st.facts.eval(is) {
	case yes:
		rg[in] = got
		return []Outcome{{Kind: oReturn, St: st, regs: rg}}
	case no:
		return []Outcome{x.fail(fr, st, rg, in.Pos(), msg)}
	}
	st2 := st.clone()
	var outs []Outcome
	if st2.facts.assume(is, false) {
		outs = append(outs, x.fail(fr, st2, rg.clone(), in.Pos(), msg))
	}
	if st.facts.assume(is, true) {
		rg[in] = got
		outs = append(outs, Outcome{Kind: oReturn, St: st, regs: rg})
	}
	return outs
}

// ---- calls

func (x *Exec) call(fr *Frame, st *State, rg regs, in *ssa.Call) []Outcome {
	c := &in.Call
	var args []*Term
	if c.IsInvoke() {
		args = append(args, x.val(st, rg, c.Value))
		for _, a := range c.Args {
			args = append(args, x.val(st, rg, a))
		}
		// devirtualise
		if m := x.devirt(st, args[0], c); m != nil {
			if args[0].Op == "box" {
				args[0] = args[0].A[0]
			}
			return x.dispatch(fr, st, in, m, m.String(), args, nil, m.Signature, false)
		}
		return x.dispatch(fr, st, in, nil, invokeName(c), args, nil, c.Signature(), true)
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, rg, a))
	}
	fv := x.val(st, rg, c.Value)
	switch fv.Op {
	case "builtin":
		return x.builtin(fr, st, in, fv.S, args)
	case "fn":
		return x.dispatch(fr, st, in, fv.Fn, fv.Fn.String(), args, fv.A, fv.Fn.Signature, false)
	}
	// unknown function value
	return x.dispatch(fr, st, in, nil, "func value", append([]*Term{fv}, args...), nil, c.Signature(), true)
}

// devirt finds the method of the only possible dynamic type.
func (x *Exec) devirt(st *State, recv *Term, c *ssa.CallCommon) *ssa.Function {
	var t types.Type
	if d := dynOf(recv); d != nil {
		t = d
	} else if recv.Op == "fn" {
		return nil
	} else {
		ts := st.facts.dynTypes(recv, c.Value.Type())
		if ts == nil {
			if one := x.prog.onlyImpl(c.Value.Type()); one != nil {
				t = one
			}
		} else if len(ts) == 1 {
			t = ts[0]
		}
	}
	if t == nil {
		return nil
	}
	sel := x.prog.ssa.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		return nil
	}
	return x.prog.ssa.MethodValue(sel)
}

func (x *Exec) dispatch(fr *Frame, st *State, site ssa.CallInstruction, fn *ssa.Function, name string, args, bindings []*Term, sig *types.Signature, invoke bool) []Outcome {
	ctx := &CallCtx{X: x, Fr: fr, St: st, Site: site, Fn: fn, Name: name, Args: args, Sig: sig, Invoke: invoke}
	if site != nil {
		cc := site.Common()
		if cc.IsInvoke() {
			ctx.ArgTypes = append(ctx.ArgTypes, cc.Value.Type())
		}
		for _, a := range cc.Args {
			ctx.ArgTypes = append(ctx.ArgTypes, a.Type())
		}
	}
	if x.OnCall != nil {
		if outs, ok := x.OnCall(ctx); ok {
			return outs
		}
	}
	if m := models[name]; m != nil {
		if outs, ok := m(ctx); ok {
			return outs
		}
	}
	if fn != nil && len(fn.Blocks) > 0 && x.prog.inRepo(fn) {
		return x.callFn(fr, st, fn, args, bindings, site)
	}
	return x.opaque(ctx)
}

// opaque models a call whose body is not analysed.
func (x *Exec) opaque(c *CallCtx) []Outcome {
	st := c.St
	pure := isPure(c.Name)
	var as []*Term
	for _, a := range c.Args {
		as = append(as, x.resolve(st, x.view(st, a)))
	}
	id := ""
	if !pure {
		st.seq++
		id = fmt.Sprintf("@%d", st.seq)
		st.events = append(st.events, Event{Kind: "call", S: c.Name, A: as, Pos: c.Pos()})
	}
	var vals []*Term
	rs := c.Sig.Results()
	for i := 0; i < rs.Len(); i++ {
		s := c.Name
		if rs.Len() > 1 {
			s = fmt.Sprintf("%s#%d", c.Name, i)
		}
		vals = append(vals, &Term{Op: "call", S: s + id, A: as})
	}
	return c.ret(st, vals...)
}

func (x *Exec) builtin(fr *Frame, st *State, in *ssa.Call, name string, args []*Term) []Outcome {
	ret := func(v ...*Term) []Outcome { return []Outcome{{Kind: oReturn, St: st, Vals: v, Pos: in.Pos()}} }
	switch name {
	case "len":
		return ret(x.lenAt(st, args[0]))
	case "cap":
		return ret(mk("cap", "", args[0]))
	case "append":
		base := args[0]
		if !isFreshList(base) {
			st.events = append(st.events, Event{Kind: "append", A: []*Term{base, args[len(args)-1]}, Pos: in.Pos()})
		}
		l := x.view(st, base)
		if len(args) > 1 {
			more := x.view(st, args[1])
			if isStringType(in.Call.Args[1].Type()) || isByteSlice(in.Type()) {
				// bytes: string-like concatenation
				if base.Op == "nil" || base.isConst() {
					return ret(cat(bytesStr(more)))
				}
				return ret(cat(bytesStr(l), bytesStr(more)))
			}
			return ret(app(append(append([]*Term{}, asSegs(l)...), asSegs(more)...)...))
		}
		return ret(l)
	case "copy":
		st.events = append(st.events, Event{Kind: "copy", A: args, Pos: in.Pos()})
		if isFresh(rootOf(args[0])) {
			dst := args[0]
			src := x.view(st, args[1])
			if dst.Op == "newslice" && same(dst.A[0], lenOf(src)) {
				x.set(st, mk("contents", "", dst), src)
				return ret(lenOf(src))
			}
			x.undecide(in.Pos(), "copy into part of a slice")
		}
		return ret(mk("call", "copy", args...))
	case "panic":
		return []Outcome{x.fail(fr, st, nil, in.Pos(), "panic")}
	case "recover":
		if st.panicking != nil && !st.recovered {
			st.recovered = true
			v := st.panicking
			st.facts.nils[v.Key()] = no
			return ret(v)
		}
		return ret(tNil)
	case "delete":
		st.events = append(st.events, Event{Kind: "mapdelete", A: args, Pos: in.Pos()})
		if args[0].Op == "newmap" && !st.mapvg[args[0].Key()] && unbox(args[1]).isConst() {
			// all keys are known
			delete(st.mem, mk("mapidx", "", args[0], args[1]).Key())
			st.mapver[args[0].Key()]++
			return ret()
		}
		st.mapver[args[0].Key()]++
		for key, c := range st.mem {
			if c.path.Op == "mapidx" && same(c.path.A[0], args[0]) {
				delete(st.mem, key)
			}
		}
		st.mapvague(args[0])
		return ret()
	case "print", "println":
		st.events = append(st.events, Event{Kind: "call", S: name, A: args, Pos: in.Pos()})
		return ret()
	case "min", "max":
		return ret(mk("bin", name, args...))
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	x.undecide(in.Pos(), "builtin %s not handled", name)
	return ret(mk("unk", name))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// bytesStr reads a list of byte constants as a string.
func bytesStr(t *Term) *Term {
	if t.Op == "app" {
		out := tStr("")
		for _, s := range t.A {
			switch {
			case s.Op == "one" && s.A[0].isInt():
				out = cat(out, tStr(string([]byte{byte(s.A[0].N)})))
			case s.Op == "all":
				out = cat(out, s.A[0])
			default:
				out = cat(out, s)
			}
		}
		return out
	}
	return t
}

func isFreshList(t *Term) bool {
	switch t.Op {
	case "nil", "app", "newslice", "cat", "str", "accum":
		return true
	case "deref":
		return t.A[0].Op == "new"
	case "slice":
		// re-slicing a fresh list
		return isFreshList(t.A[0])
	}
	return isFresh(rootOf(t))
}

// sortedEvents helps printing.
func describeEvents(evs []Event) string {
	var out []string
	for _, e := range evs {
		var as []string
		for _, a := range e.A {
			as = append(as, a.String())
		}
		s := e.Kind
		if e.S != "" {
			s += ":" + e.S
		}
		if e.L != nil {
			full := "full"
			if !e.Full {
				full = "part"
			}
			s += " " + full + "{" + e.L.describe("") + "}"
		}
		if len(as) > 0 {
			s += "(" + strings.Join(as, ", ") + ")"
		}
		out = append(out, s)
	}
	return strings.Join(out, "; ")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

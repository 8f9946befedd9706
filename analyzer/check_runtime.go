package main

// C01, C02, C04, C07: the matching engine of the parser. Every node of the
// built grammar is matched abstractly: the node is the real one, its operands
// are answered by an oracle (any of them may match or fail, and consume any
// amount), and what happens is compared with what the construct means.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type engineBad struct{ prop, key, pos, text string }

type engineCheck struct {
	a      *parserAnalysis
	p      *Program
	disp   *ssa.Function
	push   map[*ssa.Function]bool // functions that open a scope of named parts
	pop    map[*ssa.Function]bool // and that close one
	badScp map[*ssa.Function]string
	reads  []*ssa.Function // functions that only move the position
	reader *ssa.Function
	adders map[*ssa.Function]bool
	quiet  map[*ssa.Function]bool
	isRun  map[*ssa.Function]bool
	byObj  map[string]*peg
	parser *types.Named
	save   types.Type
	out    []engineBad
	funcs  map[*ssa.Function]bool
	n      int // nodes
	paths  int
	kinds  map[string]int
	max    int // repetitions followed
	sizes  []int64
}

func (e *engineCheck) bad(prop, key, pos, f string, args ...interface{}) {
	t := clip(fmt.Sprintf(f, args...), 700)
	for _, b := range e.out {
		if b.prop == prop && b.key == key && b.text == t {
			return
		}
	}
	e.out = append(e.out, engineBad{prop, key, pos, t})
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// methods are the methods of the parser (and functions that take it first).
func (e *engineCheck) methods() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range e.p.funcs {
		if f.Pkg == e.a.pkg && len(f.Params) > 0 && f.Synthetic == "" && e.isParser(f.Params[0].Type()) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (e *engineCheck) isParser(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), e.parser)
}

// engine finds the parts of the matching engine by what they do.
func (a *parserAnalysis) engine() *engineCheck {
	e := &engineCheck{a: a, p: a.c.p, adders: map[*ssa.Function]bool{}, quiet: map[*ssa.Function]bool{}, isRun: map[*ssa.Function]bool{},
		push: map[*ssa.Function]bool{}, pop: map[*ssa.Function]bool{}, badScp: map[*ssa.Function]string{},
		byObj: map[string]*peg{}, funcs: map[*ssa.Function]bool{}, kinds: map[string]int{}, max: 4}
	o := a.pkg.Pkg.Scope().Lookup("parser")
	if o == nil {
		e.bad("", "engine", "", "the parser package has no type parser")
		return e
	}
	e.parser, _ = o.Type().(*types.Named)
	st := structOf(o.Type())
	if e.parser == nil || st == nil {
		e.bad("", "engine", "", "type parser is not a struct")
		return e
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "pt" {
			e.save = st.Field(i).Type()
		}
	}
	if e.save == nil {
		e.bad("", "engine", "", "the parser has no position (field pt)")
		return e
	}
	best := 0
	for _, f := range e.methods() {
		s := f.Signature
		if len(f.Params) == 2 && s.Results().Len() == 2 && isEmptyIface(f.Params[1].Type()) && isEmptyIface(s.Results().At(0).Type()) && isBoolType(s.Results().At(1).Type()) {
			n := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ta, ok := in.(*ssa.TypeAssert); ok && ta.X == f.Params[1] {
						n++
					}
				}
			}
			if n > best {
				best, e.disp = n, f
			}
		}
	}
	if e.disp == nil {
		e.bad("", "engine", "", "no function dispatches on the kind of a grammar node")
		return e
	}
	for _, f := range e.methods() {
		switch {
		case f == e.disp:
		case len(f.Params) == 1 && f.Signature.Results().Len() == 0:
			e.classify(f)
		case f.Signature.Results().Len() == 0 && len(f.Params) >= 2 && types.Identical(f.Params[1].Type(), errorType):
			if e.isAdder(f) {
				e.adders[f] = true
			}
		case f.Signature.Results().Len() == 0 && e.isQuiet(f):
			e.quiet[f] = true
		}
	}
	// a function that does more than open or close a scope is a user of one,
	// unless there is no other
	for _, set := range []struct {
		m         map[*ssa.Function]bool
		key, what string
	}{{e.push, "scope:open", "opening"}, {e.pop, "scope:close", "closing"}} {
		good := 0
		for f := range set.m {
			if e.badScp[f] == "" {
				good++
			}
		}
		for _, f := range sortedFns(set.m) {
			if why := e.badScp[f]; why != "" && good > 0 && strings.HasPrefix(why, "writes") {
				delete(set.m, f)
			} else if why != "" {
				e.bad("C07", set.key, e.p.pos(f.Pos()), "%s a scope of named parts (%s) %s", set.what, f.Name(), why)
			}
		}
	}
	for _, f := range e.reads {
		if e.reader == nil || !e.decodes(e.reader) && e.decodes(f) {
			e.reader = f
		}
	}
	if e.reader != nil {
		e.goodRead(e.reader)
	}
	if len(e.push) == 0 || len(e.pop) == 0 {
		e.bad("", "engine", "", "the functions that open and close a scope of named parts are not found")
	}
	if e.reader == nil {
		e.bad("", "engine", "", "the function that advances to the next character is not found")
	}
	return e
}

func (e *engineCheck) po() *Term {
	t := tIn("p")
	t.T = types.NewPointer(e.parser)
	return t
}

func (e *engineCheck) exec() *Exec {
	x := newExec(e.p)
	x.Unroll = true
	x.BoxAll = true
	return x
}

func (e *engineCheck) note(x *Exec) {
	for f := range x.funcs {
		e.funcs[f] = true
	}
}

// written are the places outcome o writes to.
func written(o Outcome) []*Term {
	var out []*Term
	for _, ev := range o.St.events {
		switch ev.Kind {
		case "write", "mapupdate", "mapdelete", "copy":
			if len(ev.A) > 0 {
				out = append(out, ev.A[0])
			}
		}
	}
	return out
}

// parserField is the field of the parser that path lies in.
func parserField(po, path *Term) string {
	for t := path; t != nil; {
		if t.Op == "fld" && (same(t.A[0], po) || t.A[0].Op == "deref" && same(t.A[0].A[0], po)) {
			return t.S
		}
		switch t.Op {
		case "fld", "idx", "deref", "slice", "mapidx", "content", "contents":
			t = t.A[0]
		default:
			return ""
		}
	}
	return ""
}

// classify recognises push, pop and read among the methods without operands.
func (e *engineCheck) classify(f *ssa.Function) {
	x := e.exec()
	po := e.po()
	outs := x.Call(f, []*Term{po}, newState())
	if len(outs) == 0 || len(x.undecided) > 0 {
		return
	}
	vs := fld("vstack", po)
	grow, shrink := 0, 0
	readsPt := 0
	var why string
	for _, o := range outs {
		if o.Kind != oReturn {
			return
		}
		fs := map[string]bool{}
		for _, w := range written(o) {
			fs[parserField(po, w)] = true
		}
		if fs["pt"] && !fs["vstack"] {
			readsPt++
		}
		if !fs["vstack"] {
			continue
		}
		v := x.read(o.St, vs, nil)
		d := sub(lenOf(v), lenOf(vs))
		if d.isInt() && d.N == 1 {
			grow++
			if w := e.goodPush(x, o, v, vs, fs); w != "" {
				why = w
			}
		}
		if d.isInt() && d.N == -1 {
			shrink++
			if w := e.goodPop(x, o, v, vs, fs); w != "" {
				why = w
			}
		}
	}
	switch {
	case grow == len(outs):
		e.note(x)
		e.push[f], e.badScp[f] = true, why
	case shrink == len(outs):
		e.note(x)
		e.pop[f], e.badScp[f] = true, why
	case readsPt == len(outs):
		e.note(x)
		e.reads = append(e.reads, f)
	}
}

// decodes: f, or what it calls, reads a character of the input.
func (e *engineCheck) decodes(f *ssa.Function) bool {
	x := e.exec()
	for _, o := range x.Call(f, []*Term{e.po()}, newState()) {
		rn := x.resolve(o.St, fld("rn", x.read(o.St, fld("pt", e.po()), e.save)))
		if rn.Op == "call" && strings.HasPrefix(rn.S, "unicode/utf8.DecodeRune") {
			return true
		}
	}
	return false
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (e *engineCheck) onlyField(fs map[string]bool, ok ...string) string {
	for f := range fs {
		good := false
		for _, k := range ok {
			good = good || f == k
		}
		if !good {
			if f == "" {
				return "writes outside the parser"
			}
			return "writes the parser's " + f
		}
	}
	return ""
}

// goodPush: the stack is what it was with one empty scope on top.
func (e *engineCheck) goodPush(x *Exec, o Outcome, v, vs *Term, fs map[string]bool) string {
	if w := e.onlyField(fs, "vstack"); w != "" {
		return w
	}
	n := lenOf(vs)
	var top *Term
	switch {
	case v.Op == "slice" && same(v.A[0], vs) && same(v.A[1], tInt(0)):
		top = x.read(o.St, mk("idx", "", vs, n), nil)
	case v.Op == "app" && len(v.A) == 2 && v.A[0].Op == "all" && same(v.A[0].A[0], vs) && v.A[1].Op == "one":
		top = x.read(o.St, mk("idx", "", v, n), nil)
	default:
		return "replaces the open scopes"
	}
	for _, w := range written(o) {
		if same(w, vs) || w.Op == "idx" && same(w.A[1], n) && (same(w.A[0], vs) || same(w.A[0], v)) {
			continue
		}
		return "changes " + w.String()
	}
	if top.Op == "newmap" {
		if e.emptyMap(o.St, top) {
			return ""
		}
		return "opens a scope that is not empty"
	}
	if o.St.facts.isNil(top) == no && o.St.facts.eval(eq0(lenOf(top))) == yes {
		return ""
	}
	return "opens a scope that may not be an empty map: " + top.String()
}

func (e *engineCheck) emptyMap(st *State, m *Term) bool {
	for _, c := range st.mem {
		if c.path.Op == "mapidx" && same(c.path.A[0], m) {
			return false
		}
	}
	return st.mapver[m.Key()] == 0
}

func (e *engineCheck) goodPop(x *Exec, o Outcome, v, vs *Term, fs map[string]bool) string {
	if w := e.onlyField(fs, "vstack"); w != "" {
		return w
	}
	if v.Op != "slice" || !same(v.A[0], vs) || !same(v.A[1], tInt(0)) {
		return "replaces the open scopes"
	}
	last := sub(lenOf(vs), tInt(1))
	for _, w := range written(o) {
		if same(w, vs) || w.Op == "idx" && same(w.A[0], vs) && same(w.A[1], last) {
			continue
		}
		return "changes " + w.String()
	}
	return ""
}

// goodRead: read goes to the next character of the input.
func (e *engineCheck) goodRead(f *ssa.Function) {
	x := e.exec()
	po := e.po()
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		if e.adderName(c.Fn) {
			c.St.ghost += "E"
			if at := e.placeArg(x, c); !e.samePlace(at, e.placeOf(x.read(c.St, fld("pt", po), e.save))) {
				e.bad("C27", "encoding:place", e.p.pos(c.Pos()), "an encoding error is reported at %s, not at the character", clip(at.String(), 100))
			}
			return c.ret(c.St), true
		}
		return nil, false
	}
	st := newState()
	st.facts.bools[fld("allowInvalidUTF8", po).Key()] = false
	outs := x.Call(f, []*Term{po}, st)
	pt := fld("pt", po)
	off := e.offset(pt)
	nxt := add(off, fld("w", pt))
	rest := sliceOf(fld("data", po), nxt, tNil)
	pos := e.p.pos(f.Pos())
	for _, o := range outs {
		if o.Kind != oReturn {
			e.bad("C07", "next:panic", pos, "%s panics: %s", f.Name(), o.Msg)
			continue
		}
		np := x.read(o.St, pt, e.save)
		no := x.simplify(o.St, e.offset(np))
		rn, w := fld("rn", np), fld("w", np)
		if !same(no, nxt) {
			e.bad("C07", "next:offset", pos, "reading the next character moves to %s, not past the current one", no)
		}
		isDec := func(t *Term, i string) bool {
			return t.Op == "call" && strings.HasPrefix(t.S, "unicode/utf8.DecodeRune#"+i) && len(t.A) == 1 && same(t.A[0], rest)
		}
		if !isDec(rn, "0") || !isDec(w, "1") {
			e.bad("C07", "next:char", pos, "the current character is %s (width %s), not the one at the position", clip(rn.String(), 80), clip(w.String(), 80))
			continue
		}
		e.readPlace(f, x, o, pt, np, rn)
		for _, wr := range written(o) {
			if pf := parserField(po, wr); pf != "pt" {
				e.bad("C07", "next:effect", pos, "reading the next character also writes %s", wr)
			}
		}
		// an encoding error is reported
		f1 := o.St.facts.clone()
		if f1.assume(eq0(sub(rn, tInt(utf8.RuneError))), true) && f1.assume(eq0(sub(w, tInt(1))), true) {
			if !strings.Contains(o.St.ghost, "E") {
				e.bad("C04", "encoding", pos, "an encoding error in the input is not reported (%s)", o.St.facts.describe())
			}
		} else if strings.Contains(o.St.ghost, "E") {
			e.bad("C03", "encoding:valid", pos, "an error is reported for a valid character (%s)", o.St.facts.describe())
		}
	}
	for _, u := range x.undecided {
		e.bad("C07", "next", pos, "not decided: %s", u)
	}
}

// simplify drops object construction around a field.
func (x *Exec) simplify(st *State, t *Term) *Term { return t }

// offset is the byte offset of a savepoint.
func (e *engineCheck) offset(pt *Term) *Term { return fld("offset", e.placeOf(pt)) }

// placeOf is the position within a savepoint.
func (e *engineCheck) placeOf(pt *Term) *Term {
	if s := structOf(e.save); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "offset" {
				return pt
			}
			if s.Field(i).Embedded() {
				if in := structOf(s.Field(i).Type()); in != nil {
					for j := 0; j < in.NumFields(); j++ {
						if in.Field(j).Name() == "offset" {
							return fld(s.Field(i).Name(), pt)
						}
					}
				}
			}
		}
	}
	return fld("position", pt)
}

// adderName: a method of the parser whose first operand is an error.
func (e *engineCheck) adderName(f *ssa.Function) bool {
	return f != nil && len(f.Params) >= 2 && e.isParser(f.Params[0].Type()) && types.Identical(f.Params[1].Type(), errorType) && f.Signature.Results().Len() == 0
}

// isAdder: f puts its error on the parser's list, and nothing else.
func (e *engineCheck) isAdder(f *ssa.Function) bool {
	x := e.exec()
	po := e.po()
	args := []*Term{po}
	for _, p := range f.Params[1:] {
		args = append(args, tIn(p.Name()))
	}
	outs := x.Call(f, args, newState())
	e.note(x)
	pos := e.p.pos(f.Pos())
	list := deref(fld("errs", po))
	okAll := len(outs) > 0 && len(x.undecided) == 0
	for _, o := range outs {
		if o.Kind != oReturn {
			okAll = false
			e.bad("C04", "report:panic:"+f.Name(), pos, "%s panics: %s", f.Name(), o.Msg)
			continue
		}
		v := x.read(o.St, list, nil)
		if v.Op != "app" || len(v.A) != 2 || v.A[0].Op != "all" || !same(v.A[0].A[0], list) || v.A[1].Op != "one" {
			okAll = false
			e.bad("C04", "report:"+f.Name(), pos, "%s does not put its error on the list of errors: the list is then %s", f.Name(), clip(v.String(), 120))
			continue
		}
		if unbox(x.resolve(o.St, v.A[1].A[0])).Op == "nil" {
			okAll = false
			e.bad("C04", "report:"+f.Name(), pos, "%s puts no error on the list", f.Name())
		} else {
			e.adderText(f, x, o, v.A[1].A[0], args)
		}
		for _, w := range written(o) {
			if pf := parserField(po, w); pf != "errs" && !isFresh(rootOf(w)) {
				okAll = false
				e.bad("C07", "report:effect:"+f.Name(), pos, "%s also writes %s", f.Name(), w)
			}
		}
	}
	for _, u := range x.undecided {
		e.bad("C04", "report:"+f.Name(), pos, "not decided: %s", u)
	}
	return okAll
}

// isQuiet: f only keeps track of how far the parser got, for error messages.
func (e *engineCheck) isQuiet(f *ssa.Function) bool {
	for _, p := range f.Params[1:] {
		switch u := p.Type().Underlying().(type) {
		case *types.Basic, *types.Struct:
			_ = u
		default:
			return false
		}
	}
	x := e.exec()
	po := e.po()
	args := []*Term{po}
	for _, p := range f.Params[1:] {
		args = append(args, tIn(p.Name()))
	}
	outs := x.Call(f, args, newState())
	if len(outs) == 0 || len(x.undecided) > 0 {
		return false
	}
	for _, o := range outs {
		if o.Kind != oReturn {
			return false
		}
		for _, w := range written(o) {
			if !strings.HasPrefix(parserField(po, w), "maxFail") {
				return false
			}
		}
		for _, ev := range o.St.events {
			if ev.Kind == "call" {
				return false
			}
		}
	}
	e.note(x)
	return true
}

// nodeState is the part of the initial state that belongs to a node.
func (e *engineCheck) nodeState(objs ...*Term) *State {
	in := e.a.init
	out := newState()
	out.mapver, out.mapvg = map[string]int{}, map[string]bool{}
	by := map[string][]string{}
	for k, c := range in.mem {
		r := rootOf(c.path)
		if c.path.Op == "mapidx" {
			r = rootOf(c.path.A[0])
		}
		by[r.Key()] = append(by[r.Key()], k)
	}
	seen := map[string]bool{}
	var add func(o *Term, top bool)
	add = func(o *Term, top bool) {
		if seen[o.Key()] || !top && e.byObj[o.Key()] != nil {
			return
		}
		seen[o.Key()] = true
		for _, k := range by[o.Key()] {
			c := in.mem[k]
			out.mem[k] = c
			walkTerm(c.val, func(t *Term) bool {
				if len(by[t.Key()]) > 0 {
					add(t, false)
				}
				return true
			})
		}
		if v, ok := in.mapver[o.Key()]; ok {
			out.mapver[o.Key()] = v
		}
		if v, ok := in.mapvg[o.Key()]; ok {
			out.mapvg[o.Key()] = v
		}
	}
	for _, o := range objs {
		add(o, true)
	}
	return out
}

// attempt is one use of an operand.
type attempt struct {
	node  *peg
	run   bool // the node's action
	err   *Term
	place *Term // of the error
	inv   *Term // what is looked for must not be there
	pt    *Term
	frame *Term
	below string
	ok    bool
	val   *Term
	after *Term
	text  *Term
	same  bool // the scopes below are those of the caller
}

type attemptLog struct {
	as []attempt
}

func (e *engineCheck) samePt(st *State, a, b *Term) bool {
	if same(a, b) {
		return true
	}
	return st.facts.eval(eq0(sub(e.offset(a), e.offset(b)))) == yes
}

// nodes of the built grammar, in order.
func (e *engineCheck) nodes() []*peg {
	seen := map[*peg]bool{}
	var out []*peg
	var walk func(n *peg)
	walk = func(n *peg) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		out = append(out, n)
		for _, s := range n.Sub {
			walk(s)
		}
	}
	for _, r := range e.a.g.Rules {
		walk(r.Body)
	}
	return out
}

func (e *engineCheck) checkNodes() {
	if e.disp == nil || len(e.push) == 0 || len(e.pop) == 0 || e.reader == nil {
		return
	}
	ns := e.nodes()
	for _, n := range ns {
		if n.Obj != nil {
			e.byObj[n.Obj.Key()] = n
		}
		if n.Run != nil {
			e.isRun[n.Run] = true
		}
	}
	for _, n := range ns {
		if n.Obj == nil {
			continue
		}
		e.n++
		e.kinds[n.Kind]++
		e.checkNode(n)
	}
	e.uniform()
}

const nextOp = "next"

// checkNode matches one node.
func (e *engineCheck) checkNode(n *peg) {
	x := e.exec()
	po := e.po()
	st := e.nodeState(n.Obj)
	outer := mk("newmap", "outer")
	entry := mk("newmap", "entry")
	st.mapver[entry.Key()], st.mapvg[entry.Key()] = 1, true
	x.set(st, fld("vstack", po), app(mk("one", "", outer), mk("one", "", entry)))
	p0 := fld("pt", po)
	ptPath := fld("pt", po)
	cnt := fld("ExprCnt", fld("Stats", po))
	st.facts.assume(cmpTerm("<", add(cnt, tInt(100000)), fld("maxExprCnt", po)), true)
	st.facts.bools[fld("allowInvalidUTF8", po).Key()] = false
	// the rules by name
	rules := mk("newmap", "rules")
	if n.Kind == "ref" {
		for _, r := range e.a.g.Rules {
			o := e.ruleObj(r)
			if o == nil {
				continue
			}
			for k, c := range e.nodeState(o).mem {
				st.mem[k] = c
			}
			x.mapUpdate(st, rules, tStr(r.Name), o, 0)
		}
		x.set(st, fld("rules", po), rules)
	}
	st.events = nil
	logs := map[string]*attemptLog{"": {}}
	fresh := 0
	extend := func(st *State, a attempt) {
		old := logs[st.ghost]
		fresh++
		id := fmt.Sprintf("%s.%d", st.ghost, fresh)
		logs[id] = &attemptLog{append(old.as[:len(old.as):len(old.as)], a)}
		st.ghost = id
	}
	curText := fld("text", fld("cur", po))
	leafNode := n.Kind == "lit" || n.Kind == "class" || n.Kind == "any"
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		switch {
		case c.Fn == nil:
			return nil, false
		case e.push[c.Fn]:
			fresh++
			v := x.read(c.St, fld("vstack", po), nil)
			m := mk("newmap", fmt.Sprintf("scope#%d", fresh))
			x.set(c.St, fld("vstack", po), app(append(append([]*Term{}, asSegs(v)...), mk("one", "", m))...))
			return c.ret(c.St), true
		case e.pop[c.Fn]:
			segs := asSegs(x.read(c.St, fld("vstack", po), nil))
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
			x.set(c.St, fld("vstack", po), app(segs...))
			return c.ret(c.St), true
		case c.Fn == e.reader:
			cur := x.read(c.St, ptPath, e.save)
			x.store(c.St, ptPath, mk(nextOp, "", cur), 0)
			return c.ret(c.St), true
		case e.adders[c.Fn]:
			extend(c.St, attempt{err: unbox(c.Args[1]), place: e.placeArg(x, c), pt: x.read(c.St, ptPath, e.save)})
			return c.ret(c.St), true
		case e.quiet[c.Fn] && !leafNode:
			e.bad("C27", "farthest:"+n.Kind, e.p.pos(c.Pos()), "matching %s records something as looked for: only characters are", clip(n.String(), 80))
			return c.ret(c.St), true
		case c.Fn == e.disp && len(x.stack) > 0:
			kid := e.byObj[unbox(c.Args[1]).Key()]
			if kid == nil {
				x.undecide(c.Pos(), "what is matched here is not known: %s", clip(c.Args[1].String(), 80))
				return nil, true
			}
			segs := asSegs(x.read(c.St, fld("vstack", po), nil))
			a := attempt{node: kid, pt: x.read(c.St, ptPath, e.save), inv: x.read(c.St, fld("maxFailInvertExpected", po), nil)}
			a.frame, a.same = e.scope(segs, outer, entry)
			tries := 0
			for _, p := range logs[c.St.ghost].as {
				if p.node == kid && !p.run && p.ok {
					tries++
				}
			}
			fresh++
			k := fresh
			fail := c.St.clone()
			fa := a
			fa.after = a.pt
			extend(fail, fa)
			x.store(fail, curText, tIn(fmt.Sprintf("cur#%d", k)), 0)
			outs := c.ret(fail, tNil, tBool(false))
			if tries < e.max {
				ok := c.St.clone()
				ok.events = c.St.events[:len(c.St.events):len(c.St.events)]
				a.ok = true
				a.val = tIn(fmt.Sprintf("val#%d", k))
				a.after = tIn(fmt.Sprintf("at#%d", k))
				x.store(ok, ptPath, a.after, 0)
				x.store(ok, curText, tIn(fmt.Sprintf("cur#%d", k)), 0)
				extend(ok, a)
				outs = append(outs, c.ret(ok, a.val, tBool(true))...)
			}
			return outs, true
		case e.isRun[c.Fn]:
			segs := asSegs(x.read(c.St, fld("vstack", po), nil))
			a := attempt{run: true, pt: x.read(c.St, ptPath, e.save), text: x.read(c.St, curText, nil)}
			for _, m := range e.nodes() {
				if m.Run == c.Fn && (m == n || a.node == nil) {
					a.node = m
				}
			}
			a.frame, a.same = e.scope(segs, outer, entry)
			fresh++
			k := fresh
			a.val = tIn(fmt.Sprintf("val#%d", k))
			a.ok = true
			good := c.St.clone()
			extend(good, a)
			b := a
			b.err = errTerm(c, "action")
			b.val = tIn(fmt.Sprintf("val#%d", k))
			failed := c.St.clone()
			failed.facts.nils[b.err.Key()] = no
			extend(failed, b)
			return append(c.ret(good, a.val, tNil), c.ret(failed, b.val, b.err)...), true
		}
		return nil, false
	}
	arg := boxOf(n.Obj, n.Obj.T)
	outs := x.Call(e.disp, []*Term{po, arg}, st)
	e.note(x)
	pos := e.p.pos(e.disp.Pos())
	for _, h := range e.handlers(n) {
		pos = e.p.pos(h.Pos())
	}
	key := n.Kind
	for _, u := range x.undecided {
		e.bad("C07", "match:"+key, pos, "matching %s: not decided: %s", clip(n.String(), 80), u)
	}
	if len(x.undecided) > 0 {
		return
	}
	if len(outs) == 0 {
		e.bad("C07", "match:"+key, pos, "matching %s has no outcome", clip(n.String(), 80))
	}
	var leaf []Outcome
	for _, o := range outs {
		e.paths++
		say := func(prop, what, f string, args ...interface{}) {
			e.bad(prop, what+":"+key, pos, "%s (%s): %s", clip(n.String(), 80), n.Pos, fmt.Sprintf(f, args...))
		}
		if o.Kind == oPanic {
			say("C07", "panic", "matching it panics: %s", o.Msg)
			continue
		}
		if len(o.Vals) != 2 {
			say("C07", "result", "matching it has no result")
			continue
		}
		ok := o.Vals[1]
		tv := o.St.facts.eval(ok)
		if tv == unknown {
			say("C07", "result", "whether it matches is not determined: %s", clip(ok.String(), 100))
			continue
		}
		end := x.read(o.St, ptPath, e.save)
		log := logs[o.St.ghost].as
		if f, s := e.scope(asSegs(x.read(o.St, fld("vstack", po), nil)), outer, entry); f == nil || !same(f, entry) || !s {
			say("C07", "scope", "the scopes of named parts are not those from before")
		}
		for _, ev := range o.St.events {
			if ev.Kind == "mapupdate" && n.Kind != "label" && !isScope(ev.A[0]) {
				say("C07", "scope", "it changes a scope of named parts")
			}
			if ev.Kind == "write" {
				switch pf := parserField(po, ev.A[0]); pf {
				case "pt", "cur", "vstack", "rstack", "Stats", "recoveryStack":
				default:
					if strings.HasPrefix(pf, "maxFail") {
						continue
					}
					say("C07", "effect", "it writes %s", ev.A[0])
				}
			}
		}
		val := unbox(o.Vals[0])
		if tv == no {
			if val.Op != "nil" && n.Kind != "choice" {
				say("C07", "value", "a failed attempt has the value %s", clip(val.String(), 80))
			}
			if !e.samePt(o.St, end, p0) {
				say("C07", "position", "a failed attempt leaves the parser at %s", clip(end.String(), 80))
			}
		}
		e.farthest(x, o, n, tv == yes, p0, log, say)
		switch n.Kind {
		case "lit", "class", "any":
			leaf = append(leaf, o)
			if tv == yes {
				e.consumed(x, o, n, p0, end, say)
			}
			continue
		}
		e.verdict(x, o, n, tv == yes, p0, end, log, entry, say)
	}
	switch n.Kind {
	case "lit":
		e.checkLit(x, n, leaf, p0, ptPath, pos)
	case "class", "any":
		e.checkChar(x, n, leaf, p0, pos)
	}
}

func isScope(m *Term) bool { return m.Op == "newmap" && strings.HasPrefix(m.S, "scope#") }

func (e *engineCheck) ruleObj(r *pegRule) *Term {
	rd := &pegReader{p: e.p, x: newExec(e.p), st: e.a.init, memo: map[string]*peg{}}
	g := rd.x.read(e.a.init, mk("glob", e.a.pkg.Pkg.Path()+".g"), nil)
	l, _ := rd.list(rd.field(g, "rules"))
	for i, o := range l {
		if i < len(e.a.g.Rules) && e.a.g.Rules[i] == r {
			return o
		}
	}
	return nil
}

// scope: the innermost scope, and whether the ones below are the caller's.
func (e *engineCheck) scope(segs []*Term, outer, entry *Term) (*Term, bool) {
	if len(segs) < 2 {
		return nil, false
	}
	for _, s := range segs {
		if s.Op != "one" {
			return nil, false
		}
	}
	ok := same(segs[0].A[0], outer) && same(segs[1].A[0], entry)
	return segs[len(segs)-1].A[0], ok
}

// handlers are the methods that take a node of n's type.
func (e *engineCheck) handlers(n *peg) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range e.methods() {
		if len(f.Params) == 2 && types.Identical(f.Params[1].Type(), n.Obj.T) {
			out = append(out, f)
		}
	}
	return out
}

type sayFn func(prop, what, f string, args ...interface{})

// verdict compares what was tried with what the construct means.
func (e *engineCheck) verdict(x *Exec, o Outcome, n *peg, ok bool, p0, end *Term, log []attempt, entry *Term, say sayFn) {
	val := unbox(o.Vals[0])
	i := 0
	next := func(kid *peg, at *Term, fresh bool, what string) *attempt {
		if i >= len(log) {
			say("C07", "operands", "%s is not tried", what)
			return nil
		}
		a := &log[i]
		i++
		if a.run || a.err != nil || a.node != kid {
			say("C07", "operands", "%s is expected here, not %s", what, e.attemptName(a))
			return nil
		}
		if !e.samePt(o.St, a.pt, at) {
			say("C07", "position", "%s is tried at %s", what, clip(a.pt.String(), 80))
			return nil
		}
		if !a.same {
			say("C07", "scope", "the scopes of named parts are lost when %s is tried", what)
		}
		if fresh && !isScope(a.frame) {
			say("C07", "scope", "the named parts of %s are bound outside it", what)
		}
		if !fresh && !same(a.frame, entry) {
			say("C07", "scope", "the named parts of %s are not bound in the construct they belong to", what)
		}
		if fresh && isScope(a.frame) {
			for j := 0; j < i-1; j++ {
				if log[j].frame != nil && same(log[j].frame, a.frame) {
					say("C07", "scope", "%s is matched in a scope that was used before", what)
				}
			}
		}
		return a
	}
	done := func() {
		if i < len(log) {
			say("C07", "operands", "then %s", e.attemptName(&log[i]))
		}
	}
	result := func(want bool) bool {
		if ok != want {
			s := "fails"
			if ok {
				s = "matches"
			}
			say("C07", "result", "it %s after %s", s, e.history(log))
			return false
		}
		return true
	}
	isVal := func(want *Term) {
		if !same(val, unbox(want)) {
			say("C07", "value", "its value is %s, not what was matched", clip(x.resolve(o.St, val).String(), 100))
		}
	}
	isNil := func() {
		if val.Op != "nil" && o.St.facts.isNil(val) != yes {
			say("C07", "value", "its value is %s, not nil", clip(val.String(), 100))
		}
	}
	isList := func(want []*Term) {
		l := x.view(o.St, val)
		if d := dynOf(o.Vals[0]); d == nil || !types.Identical(d.Underlying(), ifaceSlice) {
			say("C07", "value", "its value is not a list but %s", clip(o.Vals[0].String(), 100))
			return
		}
		if len(want) == 0 && (l.Op == "nil" || l.Op == "zero") {
			return
		}
		segs := asSegs(l)
		good := len(segs) == len(want)
		for j := 0; good && j < len(segs); j++ {
			good = segs[j].Op == "one" && same(unbox(segs[j].A[0]), unbox(want[j]))
		}
		if !good {
			say("C07", "value", "its value is %s, not the list of what was matched", clip(l.String(), 120))
		}
	}
	at := func(want *Term, what string) {
		if !e.samePt(o.St, end, want) {
			say("C07", "position", "%s, it ends at %s", what, clip(end.String(), 80))
		}
	}
	switch n.Kind {
	case "seq":
		cur := p0
		var vs []*Term
		for j, k := range n.Sub {
			a := next(k, cur, false, fmt.Sprintf("element %d", j+1))
			if a == nil {
				return
			}
			if !a.ok {
				if result(false) {
					at(p0, "after a failure")
				}
				done()
				return
			}
			cur = a.after
			vs = append(vs, a.val)
		}
		if result(true) {
			isList(vs)
			at(cur, "after all elements")
		}
	case "choice":
		for j, k := range n.Sub {
			a := next(k, p0, true, fmt.Sprintf("alternative %d", j+1))
			if a == nil {
				return
			}
			if a.ok {
				if result(true) {
					isVal(a.val)
					at(a.after, "after the alternative")
				}
				done()
				return
			}
		}
		if result(false) {
			isNil()
		}
	case "star", "plus":
		cur := p0
		var vs []*Term
		for {
			a := next(n.Sub[0], cur, true, "another repetition")
			if a == nil {
				return
			}
			if !a.ok {
				break
			}
			cur = a.after
			vs = append(vs, a.val)
		}
		if n.Kind == "plus" && len(vs) == 0 {
			if result(false) {
				isNil()
			}
		} else if result(true) {
			isList(vs)
			at(cur, "after the repetitions")
		}
	case "opt":
		a := next(n.Sub[0], p0, true, "the operand")
		if a == nil {
			return
		}
		if result(true) {
			if a.ok {
				isVal(a.val)
				at(a.after, "after the operand")
			} else {
				isNil()
				at(p0, "without the operand")
			}
		}
	case "and", "not":
		a := next(n.Sub[0], p0, true, "the operand")
		if a == nil {
			return
		}
		if result(a.ok == (n.Kind == "and")) {
			isNil()
			at(p0, "after looking ahead")
		}
	case "label":
		a := next(n.Sub[0], p0, true, "the operand")
		if a == nil {
			return
		}
		binds := 0
		for _, ev := range o.St.events {
			if ev.Kind != "mapupdate" || isScope(ev.A[0]) {
				continue
			}
			binds++
			if !same(ev.A[0], entry) || !same(unbox(ev.A[1]), tStr(n.Str)) || !same(unbox(ev.A[2]), unbox(a.valOrNil())) || !a.ok {
				say("C07", "binding", "%s is bound to %s", ev.A[1], clip(ev.A[2].String(), 80))
			}
		}
		if a.ok && n.Str != "" && binds != 1 {
			say("C07", "binding", "the named part is bound %d times", binds)
		}
		if result(a.ok) && a.ok {
			isVal(a.val)
			at(a.after, "after the operand")
		}
	case "ref":
		r := e.a.g.rule(n.Str)
		if r == nil {
			if ok {
				say("C07", "result", "it matches although there is no such rule")
			}
			return
		}
		a := next(r.Body, p0, true, "the rule "+n.Str)
		if a == nil {
			return
		}
		if result(a.ok) && a.ok {
			isVal(a.val)
			at(a.after, "after the rule")
		}
	case "action":
		a := next(n.Sub[0], p0, false, "the operand")
		if a == nil {
			return
		}
		if !a.ok {
			result(false)
			done()
			return
		}
		if i >= len(log) || !log[i].run || log[i].node != n {
			say("C07", "action", "its action does not run when it matches")
			return
		}
		r := log[i]
		i++
		if !same(r.frame, entry) || !r.same {
			say("C07", "scope", "its action does not see the named parts of the construct")
		}
		if want := sliceOf(fld("data", e.po()), e.offset(p0), e.offset(a.after)); !same(r.text, want) {
			say("C03", "text", "its action sees %s, not the text matched", clip(r.text.String(), 100))
		}
		if r.err != nil {
			if i >= len(log) || log[i].err == nil || log[i].run || !mentionsTerm(log[i].err, r.err) {
				say("C04", "action-error", "the error of its action is not reported")
				return
			}
			i++
		}
		if result(true) {
			isVal(r.val)
			at(a.after, "after the operand")
		}
	default:
		say("", "kind", "a %s is not part of the notation", n.Kind)
		return
	}
	done()
}

func (a *attempt) valOrNil() *Term {
	if a.val == nil {
		return tNil
	}
	return a.val
}

func (e *engineCheck) attemptName(a *attempt) string {
	switch {
	case a.run:
		return "its action runs"
	case a.err != nil:
		return "an error is reported"
	}
	return clip(a.node.String(), 60) + " is tried"
}

func (e *engineCheck) history(log []attempt) string {
	var b []string
	for i := range log {
		s := e.attemptName(&log[i])
		if log[i].node != nil && !log[i].run {
			if log[i].ok {
				s = clip(log[i].node.String(), 40) + " matched"
			} else {
				s = clip(log[i].node.String(), 40) + " failed"
			}
		}
		b = append(b, s)
	}
	if len(b) == 0 {
		return "nothing was tried"
	}
	return strings.Join(b, ", ")
}

// consumed: a matched character or text is the value and is passed.
func (e *engineCheck) consumed(x *Exec, o Outcome, n *peg, p0, end *Term, say sayFn) {
	k := 1
	if n.Kind == "lit" {
		k = utf8.RuneCountInString(n.Str)
	}
	want := p0
	for i := 0; i < k; i++ {
		want = mk(nextOp, "", want)
	}
	if !same(end, want) {
		say("C07", "position", "after it, the parser is at %s", clip(end.String(), 80))
		return
	}
	v := unbox(o.Vals[0])
	if w := sliceOf(fld("data", e.po()), e.offset(p0), e.offset(end)); !same(v, w) {
		say("C07", "value", "its value is %s, not the text matched", clip(v.String(), 80))
	}
}

// checkLit: it matches exactly when every character is the one written.
func (e *engineCheck) checkLit(x *Exec, n *peg, outs []Outcome, p0, ptPath *Term, pos string) {
	if n.Fold {
		return // not part of the notation
	}
	rs := []rune(n.Str)
	// every text that agrees on i characters and then differs, and the text itself
	for i := 0; i <= len(rs); i++ {
		for _, other := range []rune{0, ' ', 'A', '_', 'a', '~', 0xFFFD, maxRune} {
			if i < len(rs) && other == rs[i] || i == len(rs) && other != 0 {
				continue
			}
			var seen []string
			match := 0
			for _, o := range outs {
				f := o.St.facts.clone()
				ok := true
				at := p0
				for j := 0; ok && j < len(rs) && j <= i; j++ {
					c := rs[j]
					if j == i {
						c = other
					}
					ok = f.assume(eq0(sub(fld("rn", at), tInt(int64(c)))), true)
					at = mk(nextOp, "", at)
				}
				if !ok {
					continue
				}
				match++
				got := o.St.facts.eval(o.Vals[1]) == yes
				seen = append(seen, fmt.Sprint(got))
				if got != (i == len(rs)) {
					e.bad("C07", "result:lit", pos, "the literal %q (%s) is matched: %v, by a text that agrees with it on %d characters", n.Str, n.Pos, got, i)
				}
			}
			if match == 0 {
				e.bad("C07", "result:lit", pos, "the literal %q (%s) has no outcome for a text that agrees with it on %d characters", n.Str, n.Pos, i)
			}
		}
	}
}

// checkChar: it matches exactly the characters of its set, and not the end.
func (e *engineCheck) checkChar(x *Exec, n *peg, outs []Outcome, p0 *Term, pos string) {
	if n.Fold {
		return // not part of the notation
	}
	rn, w := fld("rn", p0), fld("w", p0)
	cuts := map[int64]bool{0: true, '\n': true, utf8.RuneError: true, maxRune: true, 0x7F: true, 0x80: true, 0x7FF: true, 0x800: true, 0xFFFF: true, 0x10000: true}
	if n.Kind == "class" {
		for _, r := range n.Set {
			cuts[int64(r[0])], cuts[int64(r[1])] = true, true
		}
	}
	for _, o := range outs {
		for _, d := range o.St.facts.conds {
			walkTerm(d.c, func(t *Term) bool {
				if t.Op == "lt0" || t.Op == "eq0" {
					if core, sign, c := linSplit(t.A[0]); same(core, rn) {
						cuts[-sign*c] = true
					}
				}
				return true
			})
		}
	}
	var vs []int64
	for c := range cuts {
		for _, v := range []int64{c - 1, c, c + 1} {
			if v >= 0 && v <= maxRune {
				vs = append(vs, v)
			}
		}
	}
	try := func(v, width int64, want bool, what string) {
		match := 0
		for _, o := range outs {
			f := o.St.facts.clone()
			if !f.assume(eq0(sub(rn, tInt(v))), true) || !f.assume(eq0(sub(w, tInt(width))), true) {
				continue
			}
			match++
			if got := o.St.facts.eval(o.Vals[1]) == yes; got != want {
				prop := "C07"
				if v == utf8.RuneError && width == 0 {
					prop = "C02"
				}
				e.bad(prop, "result:"+n.Kind, pos, "%s (%s) is matched: %v, by %s", n, n.Pos, got, what)
			}
		}
		if match == 0 {
			e.bad("C07", "result:"+n.Kind, pos, "%s (%s) has no outcome for %s", n, n.Pos, what)
		}
	}
	in := func(v int64) bool {
		if n.Kind == "any" {
			return true
		}
		for _, r := range n.Set {
			if rune(v) >= r[0] && rune(v) <= r[1] {
				return true
			}
		}
		return false
	}
	for _, v := range vs {
		if v == utf8.RuneError {
			try(v, 0, false, "the end of the input")
			try(v, 1, in(v), "a byte that is not text")
			try(v, 3, in(v), "the replacement character")
			continue
		}
		k := int64(utf8.RuneLen(rune(v)))
		if k < 1 {
			continue // a surrogate is never read
		}
		try(v, k, in(v), fmt.Sprintf("%q", rune(v)))
	}
}

// uniform: nothing in the engine counts further than the repetitions followed.
func (e *engineCheck) uniform() {
	for _, u := range countsBeyond(e.p, e.a.pkg, e.funcs, int64(e.max)) {
		e.bad("C07", "uniform:"+u.fn.Name(), u.pos, "%s compares or computes with %d: matching may depend on a count that is not followed that far", u.fn.Name(), u.n)
	}
}

type countUse struct {
	fn  *ssa.Function
	pos string
	n   int64
}

// countsBeyond are the integers, other than characters, that functions of pkg
// compare or compute with and that are not below max.
func countsBeyond(p *Program, pkg *ssa.Package, funcs map[*ssa.Function]bool, max int64) []countUse {
	var fs []*ssa.Function
	for f := range funcs {
		if f.Pkg == pkg {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	var out []countUse
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok || !isIntType(op.X.Type()) {
					continue
				}
				for _, v := range []ssa.Value{op.X, op.Y} {
					c, ok := v.(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					if b, ok := c.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8) {
						continue // a character
					}
					if n := constTerm(c); n.isInt() && (n.N >= max || n.N < -1) {
						out = append(out, countUse{f, p.pos(op.Pos()), n.N})
					}
				}
			}
		}
	}
	return out
}

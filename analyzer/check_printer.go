package main

// C08, C09: what the printer writes for each kind of node.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	astPkg = modPath + "/ast"
	goAst  = "go/ast"
)

type printCheck struct {
	c     *Check
	p     *Program
	pkg   *ssa.Package
	cands map[*ssa.Function]int // node parameter index
	node  *types.Interface      // ast.Node
	goexp types.Type            // go/ast.Expr
	fails map[*ssa.Function][]string
	done  map[*ssa.Function]int // paths verified
	deleg map[*ssa.Function]map[*ssa.Function]bool
	first map[*ssa.Function]bool // failed in the first round
	kinds map[string]bool        // go/ast kinds with a printed form, as verified
}

func astName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() {
	case astPkg:
		return "ast." + n.Obj().Name()
	case goAst:
		return "goast." + n.Obj().Name()
	}
	return ""
}

func (p *Program) typ(path, name string, ptr bool) types.Type {
	n := p.namedType(path, name)
	if n == nil {
		panic("type " + path + "." + name + " not found")
	}
	if ptr {
		return types.NewPointer(n)
	}
	return n
}

func fieldType(t types.Type, name string) types.Type {
	st := structOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// expandNode is the printed form of one node.
func (p *Program) expandNode(x *Term, dyn types.Type) ([]item, bool) {
	f := func(n string) *Term {
		if fieldType(dyn, n) == nil {
			panic("no field " + n + " in " + dyn.String())
		}
		return fld(n, x)
	}
	node := func(n string) item { return iNode(f(n), fieldType(dyn, n)) }
	nonnil := func(n string) *Term { return notTerm(mk("isnil", "", f(n))) }
	nonempty := func(n string) *Term { return notTerm(strEq(f(n), tStr(""))) }
	list := func(n string) (types.Type, *Term) {
		return fieldType(dyn, n).Underlying().(*types.Slice).Elem(), f(n)
	}
	switch astName(dyn) {
	case "ast.File":
		et, l := list("Rules")
		return []item{iLoop(l, func(e, k, n *Term) []item { return []item{iNode(e, et), ws} })}, true
	case "ast.Rule":
		return []item{node("Match"),
			iIf(nonnil("Condition"), []item{ws, iStr("&&"), ws, node("Condition")}, nil),
			ws, iStr("=>"), ws,
			iIf(nonempty("Block"), []item{iStr("@"), iTerm(f("Block")), ws}, nil),
			node("Result")}, true
	case "ast.SExpr":
		et, l := list("Args")
		return []item{
			iIf(nonempty("Binding"), []item{node("Binding"), iStr(":")}, nil),
			iStr("("), ows, node("Op"),
			iIf(nonempty("Type"), []item{ws, iStr("<"), iTerm(f("Type")), iStr(">")}, nil),
			iIf(nonnil("AuxInt"), []item{ws, iStr("["), node("AuxInt"), iStr("]")}, nil),
			iIf(nonnil("Aux"), []item{ws, iStr("{"), node("Aux"), iStr("}")}, nil),
			iLoop(l, func(e, k, n *Term) []item { return []item{ws, iNode(e, et)} }),
			iIf(f("Ellipsis"), []item{ws, iStr("...")}, nil),
			iIf(f("Trailing"), []item{ws, iStr("___")}, nil),
			ows, iStr(")")}, true
	case "ast.Expr":
		return []item{node("Expr")}, true
	case "ast.Variable", "ast.Opcode":
		return []item{iTerm(x)}, true
	case "ast.OpcodeParts":
		et := dyn.Underlying().(*types.Slice).Elem()
		return []item{iLoop(x, func(e, k, n *Term) []item { return []item{iNode(e, et)} })}, true
	case "ast.OpcodeAlt":
		et := dyn.Underlying().(*types.Slice).Elem()
		// an alternation has at least one choice
		return []item{iIf(eq0(lenOf(x)), []item{{kind: "any"}}, []item{iLoop(x, func(e, k, n *Term) []item {
			if k.N == 0 {
				return []item{iStr("("), iNode(e, et)}
			}
			return []item{iStr("|"), iNode(e, et)}
		}), iStr(")")})}, true
	case "goast.Ident":
		return []item{iTerm(f("Name"))}, true
	case "goast.BasicLit":
		return []item{iTerm(f("Value"))}, true
	case "goast.ParenExpr":
		return []item{iStr("("), gows, node("X"), gows, iStr(")")}, true
	case "goast.UnaryExpr":
		return []item{iTerm(tokStr(f("Op"))), gows, node("X")}, true
	case "goast.StarExpr":
		return []item{iStr("*"), gows, node("X")}, true
	case "goast.BinaryExpr":
		return []item{node("X"), gows, iTerm(tokStr(f("Op"))), gows, node("Y")}, true
	case "goast.SelectorExpr":
		return []item{node("X"), gows, iStr("."), gows, node("Sel")}, true
	case "goast.CallExpr":
		et, l := list("Args")
		return []item{node("Fun"), gows, iStr("("), gows,
			iLoop(l, func(e, k, n *Term) []item {
				if k.N == 0 {
					return []item{iNode(e, et)}
				}
				return []item{gows, iStr(","), gows, iNode(e, et)}
			}),
			iIf(notTerm(eq0(f("Ellipsis"))), []item{gows, iStr("...")}, nil),
			gows, iStr(")")}, true
	}
	return nil, false
}

// sinkOf finds where a call writes: an io.Writer argument, or the writer field
// of a struct argument.
func (p *Program) isWriter(t types.Type) bool {
	n := p.namedType("io", "Writer")
	if n == nil {
		return false
	}
	it := n.Underlying().(*types.Interface)
	if types.Implements(t, it) {
		return true
	}
	if _, ok := t.(*types.Pointer); !ok {
		return types.Implements(types.NewPointer(t), it)
	}
	return false
}

func isError(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// writerField is the field of a struct that holds the destination.
func (p *Program) writerField(t types.Type) string {
	st := structOf(t)
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if p.isWriter(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func errFields(t types.Type) []string {
	var out []string
	st := structOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if isError(st.Field(i).Type()) {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// sinkArg is the index of the argument that carries the destination, or -1.
func (p *Program) sinkArg(fn *ssa.Function) int {
	for i, a := range fn.Params {
		t := a.Type()
		if astName(t) != "" {
			continue
		}
		if pt, ok := t.(*types.Pointer); ok && p.writerField(pt.Elem()) != "" {
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return i
			}
		}
		if p.isWriter(t) {
			return i
		}
	}
	return -1
}

func (x *Exec) sinkTerm(st *State, t types.Type, arg *Term) *Term {
	if pt, ok := t.(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			if f := x.prog.writerField(pt.Elem()); f != "" {
				path := fld(f, arg)
				if ft := fieldType(pt.Elem(), f); ft != nil && !types.IsInterface(ft) {
					if _, isPtr := ft.(*types.Pointer); !isPtr {
						return ref(path)
					}
				}
				return x.read(st, path, nil)
			}
		}
	}
	return arg
}

func newPrintCheck(c *Check) *printCheck {
	pc := &printCheck{c: c, p: c.p, pkg: c.p.pkg("printer"), cands: map[*ssa.Function]int{}, kinds: map[string]bool{}}
	if pc.pkg == nil {
		c.fail("anchor", "", "package printer not found")
		return nil
	}
	n := c.p.namedType(astPkg, "Node")
	if n == nil {
		c.fail("anchor", "", "interface ast.Node not found")
		return nil
	}
	pc.node = n.Underlying().(*types.Interface)
	pc.goexp = c.p.typ(goAst, "Expr", false)
	return pc
}

func (pc *printCheck) isNodeType(t types.Type) bool {
	if types.Implements(t, pc.node) {
		return true
	}
	return types.Implements(t, pc.goexp.Underlying().(*types.Interface))
}

// candidates are the functions that may print a whole node.
func (pc *printCheck) candidates() {
	for _, fn := range pc.p.funcs {
		if fn.Pkg != pc.pkg || len(fn.Blocks) == 0 || fn.Synthetic != "" || len(fn.FreeVars) > 0 {
			continue
		}
		if pc.p.sinkArg(fn) < 0 {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() > 1 || (rs.Len() == 1 && !isError(rs.At(0).Type())) {
			continue
		}
		node := -1
		for i, a := range fn.Params {
			if pc.isNodeType(a.Type()) && astName(a.Type()) != "" {
				if node >= 0 {
					node = -2
					break
				}
				node = i
			}
		}
		if node >= 0 {
			pc.cands[fn] = node
		}
	}
}

func (pc *printCheck) hook(top *ssa.Function, x0 *Term, deleg map[*ssa.Function]bool) func(c *CallCtx) ([]Outcome, bool) {
	return func(c *CallCtx) ([]Outcome, bool) {
		ni, ok := pc.cands[c.Fn]
		if !ok || c.Fn == nil {
			return nil, false
		}
		si := pc.p.sinkArg(c.Fn)
		if mayBeNilArg(c, ni) {
			return nil, false
		}
		arg := c.Args[ni]
		if x0 != nil && same(arg, x0) {
			deleg[c.Fn] = true
		}
		w := c.X.sinkTerm(c.St, c.Fn.Params[si].Type(), c.Args[si])
		c.X.emit(c.St, w, mk("node", "", arg))
		if c.Fn.Signature.Results().Len() == 1 {
			return c.ret(c.St, tNil), true
		}
		return c.ret(c.St), true
	}
}

// verify runs one function and compares what it writes with the template.
func (pc *printCheck) verify(fn *ssa.Function) (fails []string, paths int) {
	ni, si := pc.cands[fn], pc.p.sinkArg(fn)
	x := newExec(pc.p)
	var args []*Term
	st := newState()
	for i, a := range fn.Params {
		t := tIn(a.Name())
		if a.Name() == "_" {
			t = tIn(fmt.Sprintf("arg%d", i))
		}
		args = append(args, t)
	}
	sinkT := fn.Params[si].Type()
	var errCells []*Term
	if pt, ok := sinkT.(*types.Pointer); ok {
		for _, f := range errFields(pt.Elem()) {
			cell := fld(f, args[si])
			x.set(st, cell, tNil)
			errCells = append(errCells, cell)
		}
	}
	deleg := map[*ssa.Function]bool{}
	x.OnCall = pc.hook(fn, args[ni], deleg)
	static := fn.Params[ni].Type()
	if !types.IsInterface(static) {
		st.facts.nils[args[ni].Key()] = no
	}
	outs := x.Call(fn, args, st)
	m := &matcher{expand: func(f *Facts, t *Term, dyn types.Type) ([]item, bool) { return pc.p.expandNode(t, dyn) }}
	for _, o := range outs {
		paths++
		w := x.sinkTerm(o.St, sinkT, args[si])
		var errv *Term = tNil
		for _, cell := range errCells {
			if v := x.read(o.St, cell, nil); v.Op != "nil" {
				errv = v
			}
		}
		if len(o.Vals) == 1 && o.Vals[0].Op != "nil" {
			errv = o.Vals[0]
		}
		where := pc.p.pos(o.Pos)
		if !o.Pos.IsValid() {
			where = pc.p.pos(fn.Pos())
		}
		cond := clip(o.St.facts.describe(), 300)
		if o.Kind == oPanic {
			fails = append(fails, fmt.Sprintf("%s: panics (%s) when %s", where, o.Msg, cond))
			continue
		}
		switch o.St.facts.isNil(errv) {
		case no:
			for _, t := range o.St.facts.dynTypes(args[ni], static) {
				if _, ok := pc.p.expandNode(args[ni], t); ok {
					fails = append(fails, fmt.Sprintf("%s: reports an error for a %s when %s", where, shortType(t), cond))
				}
			}
			continue
		case unknown:
			fails = append(fails, fmt.Sprintf("%s: cannot tell whether an error is reported when %s", where, cond))
			continue
		}
		cont := x.readContent(o.St, w)
		parts := catParts(x.resolve(o.St, cont))
		if len(parts) > 0 && same(parts[0], content(w)) {
			parts = parts[1:]
		} else if len(parts) == 0 {
		} else {
			fails = append(fails, fmt.Sprintf("%s: what was written before is not kept: %s", where, clip(cont.String(), 200)))
			continue
		}
		if r := m.match(o.St.facts, []item{iNode(args[ni], static)}, parts); r != nil {
			fails = append(fails, fmt.Sprintf("%s: for %s when %s: %s", where, shortType(static), clip(r.f.describe(), 400), r))
		} else if ts := o.St.facts.dynTypes(args[ni], static); true {
			for _, t := range ts {
				if n := astName(t); strings.HasPrefix(n, "goast.") {
					pc.kinds[n] = true
				}
			}
		}
		// nothing else is written
		for _, e := range o.St.events {
			if e.Kind == "call" {
				fails = append(fails, fmt.Sprintf("%s: unexpected call %s", where, e.S))
			}
		}
	}
	for _, u := range x.undecided {
		fails = append(fails, "not decided: "+u)
	}
	for f := range x.funcs {
		pc.c.funcs[f.String()] = true
	}
	if pc.deleg == nil {
		pc.deleg = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	pc.deleg[fn] = deleg
	if len(outs) == 0 && len(fails) == 0 {
		fails = append(fails, "no path analysed")
	}
	return fails, paths
}

// run computes the largest set of functions that print exactly their node.
func (pc *printCheck) run() {
	pc.candidates()
	pc.fails = map[*ssa.Function][]string{}
	pc.done = map[*ssa.Function]int{}
	for {
		dropped := false
		pc.kinds = map[string]bool{}
		var fns []*ssa.Function
		for fn := range pc.cands {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		var drop []*ssa.Function
		for _, fn := range fns {
			fs, n := pc.verify(fn)
			if len(fs) > 0 {
				if pc.fails[fn] == nil {
					pc.fails[fn] = fs
				}
				drop = append(drop, fn)
				continue
			}
			pc.done[fn] = n
			delete(pc.fails, fn)
		}
		if pc.first == nil {
			pc.first = map[*ssa.Function]bool{}
			for _, fn := range drop {
				pc.first[fn] = true
			}
		}
		isCand := func(f *ssa.Function) bool { _, ok := pc.cands[f]; return ok }
		for _, fn := range chooseDrop(drop, isCand) {
			delete(pc.cands, fn)
			delete(pc.done, fn)
			dropped = true
		}
		if !dropped {
			return
		}
	}
}

// cyclic reports a function that delegates its node to itself.
func (pc *printCheck) cyclic() *ssa.Function {
	color := map[*ssa.Function]int{}
	var visit func(f *ssa.Function) *ssa.Function
	visit = func(f *ssa.Function) *ssa.Function {
		if color[f] == 1 {
			return f
		}
		if color[f] == 2 {
			return nil
		}
		color[f] = 1
		for g := range pc.deleg[f] {
			if r := visit(g); r != nil {
				return r
			}
		}
		color[f] = 2
		return nil
	}
	for f := range pc.cands {
		if r := visit(f); r != nil {
			return r
		}
	}
	return nil
}

// roots checks the exported entry points.
func (pc *printCheck) roots() bool {
	good := true
	for _, name := range []string{"Fprint", "Bytes", "Print"} {
		fn := pc.pkg.Func(name)
		key := "entry printer." + name
		if fn == nil {
			pc.c.fail(key, "", "function printer.%s not found", name)
			good = false
			continue
		}
		if _, ok := pc.cands[fn]; ok {
			pc.c.ok(key, "writes exactly the printed form of its node (%d paths)", pc.done[fn])
			continue
		}
		if fs := pc.fails[fn]; len(fs) > 0 {
			pc.c.fail(key, pc.p.pos(fn.Pos()), "%s", strings.Join(fs, " | "))
			good = false
			continue
		}
		x := newExec(pc.p)
		n := tIn("n")
		x.OnCall = pc.hook(fn, nil, nil)
		st := newState()
		ok := true
		var outs []Outcome
		if len(fn.Params) != 1 {
			pc.c.fail(key, pc.p.pos(fn.Pos()), "unexpected parameters")
			good = false
			continue
		}
		outs = x.Call(fn, []*Term{n}, st)
		static := fn.Params[0].Type()
		m := &matcher{expand: func(f *Facts, t *Term, dyn types.Type) ([]item, bool) { return pc.p.expandNode(t, dyn) }}
		for _, o := range outs {
			if o.Kind == oPanic {
				pc.c.fail(key, pc.p.pos(o.Pos), "panics: %s", o.Msg)
				ok = false
				continue
			}
			err := o.Vals[len(o.Vals)-1]
			if o.St.facts.isNil(err) != yes {
				pc.c.fail(key, pc.p.pos(o.Pos), "returns an error after printing: %s when %s", err, o.St.facts.describe())
				ok = false
				continue
			}
			var got *Term
			if name == "Bytes" {
				got = x.resolve(o.St, o.Vals[0])
			} else {
				w := mk("glob", "os.Stdout")
				got = x.readContent(o.St, w)
				if ps := catParts(got); len(ps) > 0 && same(ps[0], content(w)) {
					got = cat(ps[1:]...)
				}
			}
			if r := m.match(o.St.facts, []item{iNode(n, static)}, catParts(got)); r != nil {
				pc.c.fail(key, pc.p.pos(o.Pos), "%s", r)
				ok = false
			}
		}
		pc.c.saw(x)
		if len(outs) == 0 {
			pc.c.fail(key, pc.p.pos(fn.Pos()), "no path analysed")
			ok = false
		}
		if ok {
			pc.c.ok(key, "gives exactly the printed form of its node")
		}
		good = good && ok
	}
	return good
}

// kindOf groups functions by what they print.
func (pc *printCheck) isGoExprFn(fn *ssa.Function) bool {
	for _, a := range fn.Params {
		if strings.HasPrefix(astName(a.Type()), "goast.") {
			return true
		}
	}
	return false
}

func (pc *printCheck) report() {
	if len(pc.c.bad) > 0 {
		return
	}
	before := pc.c.bad
	good := pc.roots()
	if f := pc.cyclic(); f != nil {
		pc.c.fail("recursion", pc.p.pos(f.Pos()), "%s passes its own node around in a cycle", f)
		good = false
	}
	var fns []*ssa.Function
	for fn := range pc.done {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		pc.c.ok("prints "+fn.Name(), "%s writes exactly the printed form of its node on all %d paths", fn, pc.done[fn])
	}
	if good {
		return
	}
	// the functions that do not print their node explain the failure
	var bad []*ssa.Function
	for fn := range pc.fails {
		if len(fn.Params) == 2 && pc.first[fn] {
			bad = append(bad, fn)
		}
	}
	if len(bad) == 0 {
		for fn := range pc.fails {
			bad = append(bad, fn)
		}
	}
	if len(bad) == 0 {
		return
	}
	after := pc.c.bad[len(before):]
	pc.c.bad = append([]finding{}, before...)
	sort.Slice(bad, func(i, j int) bool { return bad[i].String() < bad[j].String() })
	for _, fn := range bad {
		for i, f := range pc.fails[fn] {
			if i < 4 {
				pc.c.fail("prints "+fn.Name(), pc.p.pos(fn.Pos()), "%s", f)
			}
		}
	}
	for _, f := range after {
		if f.Key != "undecided" {
			pc.c.bad = append(pc.c.bad, f)
		}
	}
	if len(pc.c.bad) == len(before) {
		pc.c.bad = append(pc.c.bad, after...)
	}
}

func init() {
	checks["C08"] = func(c *Check) {
		c.rule = "Abstract interpretation of every function of package printer that writes a node: on each path the text written equals the template of the node's kind, part by part and in order (recursive calls by their own verified summaries)."
		c.assumptions = []string{"writes succeed (C11 covers failures)", "an alternation has at least one choice", "models of fmt, bytes, strings"}
		pc := newPrintCheck(c)
		if pc == nil {
			return
		}
		pc.run()
		pc.report()
		// every kind of node must be reachable from the entry points by template expansion
		kinds := 0
		for _, t := range pc.p.universeOf(pc.p.typ(astPkg, "Node", false)) {
			_, ok := pc.p.expandNode(tIn("n"), t)
			c.check(ok, "kind "+shortType(t), "", "node kind %s has a printed form", shortType(t))
			kinds++
		}
		c.check(kinds >= 8, "kinds", "", "%d node kinds found, at least 8 expected", kinds)
	}
}

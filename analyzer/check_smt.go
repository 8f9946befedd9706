package main

// C17, C18, C19: the SMT generator. The functions that evaluate a node at a
// requested type are verified one by one, each assuming the others; the entry
// point is then matched against the layout of a script.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const gotypesTyp = "go/types.Typ"

// typTerm is the predeclared type of kind k.
func typTerm(k types.BasicKind) *Term { return mk("idx", "", mk("glob", gotypesTyp), tInt(int64(k))) }

// typKind is the kind of a predeclared type.
func typKind(t *Term) (types.BasicKind, bool) {
	t = unbox(t)
	if t.Op == "idx" && len(t.A) == 2 && unbox(t.A[1]).isInt() {
		b := t.A[0]
		if b.Op == "glob" && b.S == gotypesTyp {
			return types.BasicKind(unbox(t.A[1]).N), true
		}
	}
	return 0, false
}

// typesDiffer: two known, different types.
func typesDiffer(a, b *Term) bool {
	ka, oka := typKind(a)
	kb, okb := typKind(b)
	if oka && okb {
		return ka != kb
	}
	return oka && unbox(b).Op == "obj" || okb && unbox(a).Op == "obj"
}

// mk2 is the one of a and b that is not nil.
func mk2(a, b *Term) *Term {
	if a.Op == "nil" {
		return b
	}
	return a
}

func initTypeModels() {
	m := models
	m["go/types.Identical"] = func(c *CallCtx) ([]Outcome, bool) {
		a, b := unbox(c.Args[0]), unbox(c.Args[1])
		if same(a, b) {
			return c.ret(c.St, tBool(true)), true
		}
		ka, oka := typKind(a)
		kb, okb := typKind(b)
		if oka && okb {
			return c.ret(c.St, tBool(ka == kb)), true
		}
		if oka && b.Op == "obj" || okb && a.Op == "obj" {
			return c.ret(c.St, tBool(false)), true // not a basic type
		}
		if a.Op == "nil" || b.Op == "nil" {
			return c.ret(c.St, mk("isnil", "", mk2(a, b))), true
		}
		if a.Key() > b.Key() {
			a, b = b, a
		}
		return c.ret(c.St, mk("eq", "", a, b)), true
	}
	m["(*go/types.Basic).Kind"] = func(c *CallCtx) ([]Outcome, bool) {
		if k, ok := typKind(c.Args[0]); ok {
			return c.ret(c.St, tInt(int64(k))), true
		}
		return nil, false
	}
	m["(*go/types.Basic).Info"] = func(c *CallCtx) ([]Outcome, bool) {
		if k, ok := typKind(c.Args[0]); ok && int(k) < len(types.Typ) {
			return c.ret(c.St, tInt(int64(types.Typ[k].Info()))), true
		}
		return nil, false
	}
	name := func(c *CallCtx) ([]Outcome, bool) {
		if k, ok := typKind(c.Args[0]); ok && int(k) < len(types.Typ) {
			return c.ret(c.St, tStr(types.Typ[k].Name())), true
		}
		return nil, false
	}
	m["(*go/types.Basic).Name"] = name
	m["(*go/types.Basic).String"] = name
}

// opSpec is the meaning of an opcode: argument kinds, result kind and the term.
type opSig struct {
	params []types.BasicKind
	result types.BasicKind
}

type opSpec struct {
	core    bool // supported today
	sigs    []opSig
	format  []string // accepted terms, with %0, %1 for the arguments
	commute bool
}

var smtOps = map[string]opSpec{}

func init() {
	type iw struct {
		n    string
		s, u types.BasicKind
	}
	widths := []iw{{"8", types.Int8, types.Uint8}, {"16", types.Int16, types.Uint16}, {"32", types.Int32, types.Uint32}, {"64", types.Int64, types.Uint64}}
	rep := func(k types.BasicKind, n int) []types.BasicKind {
		var r []types.BasicKind
		for i := 0; i < n; i++ {
			r = append(r, k)
		}
		return r
	}
	for _, w := range widths {
		arith := func(name, op string, n int, core, commute bool) {
			f := "( " + op
			for i := 0; i < n; i++ {
				f += fmt.Sprintf(" %%%d", i)
			}
			smtOps[name+w.n] = opSpec{core, []opSig{{rep(w.s, n), w.s}, {rep(w.u, n), w.u}}, []string{f + " )"}, commute}
		}
		arith("Add", "bvadd", 2, true, true)
		arith("Sub", "bvsub", 2, true, false)
		arith("Mul", "bvmul", 2, false, true)
		arith("And", "bvand", 2, true, true)
		arith("Or", "bvor", 2, true, true)
		arith("Xor", "bvxor", 2, true, true)
		arith("Neg", "bvneg", 1, true, false)
		arith("Com", "bvnot", 1, true, false)
		both := []opSig{{rep(w.s, 2), types.Bool}, {rep(w.u, 2), types.Bool}}
		smtOps["Eq"+w.n] = opSpec{false, both, []string{"( = %0 %1 )"}, true}
		smtOps["Neq"+w.n] = opSpec{false, both, []string{"( not ( = %0 %1 ) )", "( distinct %0 %1 )"}, true}
		smtOps["Less"+w.n] = opSpec{false, both[:1], []string{"( bvslt %0 %1 )", "( bvsgt %1 %0 )"}, false}
		smtOps["Leq"+w.n] = opSpec{false, both[:1], []string{"( bvsle %0 %1 )", "( bvsge %1 %0 )"}, false}
		smtOps["Less"+w.n+"U"] = opSpec{false, both[1:], []string{"( bvult %0 %1 )", "( bvugt %1 %0 )"}, false}
		smtOps["Leq"+w.n+"U"] = opSpec{false, both[1:], []string{"( bvule %0 %1 )", "( bvuge %1 %0 )"}, false}
	}
	b2 := []opSig{{rep(types.Bool, 2), types.Bool}}
	b1 := []opSig{{rep(types.Bool, 1), types.Bool}}
	smtOps["AndB"] = opSpec{true, b2, []string{"( and %0 %1 )"}, true}
	smtOps["OrB"] = opSpec{true, b2, []string{"( or %0 %1 )"}, true}
	smtOps["EqB"] = opSpec{true, b2, []string{"( = %0 %1 )"}, true}
	smtOps["NeqB"] = opSpec{true, b2, []string{"( not ( = %0 %1 ) )", "( distinct %0 %1 )", "( xor %0 %1 )"}, true}
	smtOps["Not"] = opSpec{true, b1, []string{"( not %0 )"}, false}
}

var smtSorts = map[types.BasicKind]string{
	types.Bool: "Bool",
	types.Int8: "( _ BitVec 8 )", types.Uint8: "( _ BitVec 8 )",
	types.Int16: "( _ BitVec 16 )", types.Uint16: "( _ BitVec 16 )",
	types.Int32: "( _ BitVec 32 )", types.Uint32: "( _ BitVec 32 )",
	types.Int64: "( _ BitVec 64 )", types.Uint64: "( _ BitVec 64 )",
}

// symbols a name must not collide with (reserved words, and the theory and
// logic symbols of QF_BV).
var smtSymbols = strings.Fields(`BINARY DECIMAL HEXADECIMAL NUMERAL STRING _ ! as let exists forall match par
 assert check-sat check-sat-assuming declare-const declare-datatype declare-datatypes declare-fun declare-sort define-fun
 define-fun-rec define-funs-rec define-sort echo exit get-assertions get-assignment get-info get-model get-option get-proof
 get-unsat-assumptions get-unsat-core get-value pop push reset reset-assertions set-info set-logic set-option
 true false not and or xor ite distinct Bool BitVec concat extract bvnot bvneg bvand bvor bvxor bvnand bvnor bvxnor bvadd bvsub
 bvmul bvudiv bvurem bvsdiv bvsrem bvsmod bvshl bvlshr bvashr repeat zero_extend sign_extend rotate_left rotate_right
 bvult bvule bvugt bvuge bvslt bvsle bvsgt bvsge bvcomp bvredor bvredand bv0 bv1 bv2int int2bv nat2bv`)

type smtCheck struct {
	varsOf   *State // the state varsMap was found in
	varsMap  *Term
	mutOf    *State // the state muts was found in
	muts     []smtMut
	varsRefs bool // its values are pointers
	c        *Check
	p        *Program
	pkg      *ssa.Package
	node     *types.Interface
	cands    map[*ssa.Function][2]int // index of the node and of the type
	deleg    map[*ssa.Function]map[*ssa.Function]bool
	base     *State  // at the first evaluation
	first    []*Term // its arguments
	fn0      *ssa.Function
	res      types.Type // of evaluating functions
	keys     map[string]bool
	names    map[string]bool // name shapes of declared variables
	pnam     map[string]bool // and of placeholders
	opsOK    map[string]bool // opcodes some run modelled
	fails    map[*ssa.Function][]smtFail
	// refusals at no type of variables that have one: they count if anything
	// but the match is evaluated at no type
	untyped map[*ssa.Function][]smtFail
	nilEval bool
	runs    int
}

type smtFail struct{ prop, text string }

func isGoType(t types.Type) bool { return t.String() == "go/types.Type" }

// parts of the value an evaluation returns
func (sc *smtCheck) findParts(t types.Type) (expr, typ string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case isStringType(f.Type()):
			if expr != "" {
				return "", ""
			}
			expr = f.Name()
		case isGoType(f.Type()):
			typ = f.Name()
		}
	}
	return
}

func (sc *smtCheck) part(x *Exec, st *State, v *Term, name string) *Term {
	return x.resolve(st, x.read(st, fld(name, v), nil))
}

func (sc *smtCheck) exprOf(x *Exec, st *State, v *Term) *Term {
	e, _ := sc.findParts(sc.res)
	return sc.part(x, st, v, e)
}

func (sc *smtCheck) typeOf(x *Exec, st *State, v *Term) *Term {
	_, t := sc.findParts(sc.res)
	return unbox(sc.part(x, st, v, t))
}

// candidates: (node, type) -> (value, error).
func (sc *smtCheck) candidates() {
	for _, fn := range sc.p.funcs {
		if fn.Pkg != sc.pkg || len(fn.Blocks) == 0 || fn.Synthetic != "" || len(fn.FreeVars) > 0 {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() != 2 || !isError(rs.At(1).Type()) {
			continue
		}
		if e, t := sc.findParts(rs.At(0).Type()); e == "" || t == "" {
			continue
		}
		n, ty := -1, -1
		for i, a := range fn.Params {
			if types.Implements(a.Type(), sc.node) && astName(a.Type()) != "" {
				n = i
			} else if isGoType(a.Type()) {
				ty = i
			}
		}
		if n >= 0 && ty >= 0 {
			if sc.res == nil || types.Identical(sc.res, rs.At(0).Type()) {
				sc.res = rs.At(0).Type()
				sc.cands[fn] = [2]int{n, ty}
			}
		}
	}
}

func (sc *smtCheck) writer(x *Exec, st *State, fn *ssa.Function, args []*Term) *Term {
	if i := sc.p.sinkArg(fn); i >= 0 {
		return x.sinkTerm(st, fn.Params[i].Type(), args[i])
	}
	return nil
}

// mutable lists the parts of the generator that evaluations change.
type smtMut struct {
	path *Term
	m    *Term // a map value
}

func (sc *smtCheck) mutable(st *State) []smtMut {
	if st != sc.base {
		return sc.findMutable(st)
	}
	if sc.mutOf != st {
		sc.mutOf, sc.muts = st, sc.findMutable(st)
	}
	return sc.muts
}

func (sc *smtCheck) findMutable(st *State) []smtMut {
	stored := map[string]bool{}
	for f := range sc.reach() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if st := structOf(fa.X.Type()); st != nil {
							stored[fa.X.Type().String()+"."+st.Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
	var out []smtMut
	for _, k := range sortedKeys(st.mem) {
		c := st.mem[k]
		if c.path.Op != "fld" || !isFresh(rootOf(c.path)) {
			continue
		}
		if c.val.Op == "newmap" && c.val.T == nil || c.val.Op == "newmap" {
			used := false
			for _, d := range st.mem {
				if d.path.Op == "mapidx" && same(d.path.A[0], c.val) {
					used = true
				}
			}
			if !used {
				out = append(out, smtMut{c.path, c.val})
			}
			continue
		}
		if sc.isStored(stored, c.path) && (c.val.isInt() || c.val.Op == "in" || c.val.isStr() || c.val.isTrue() || c.val.isFalse()) {
			out = append(out, smtMut{c.path, nil})
		}
	}
	for i, a := range sc.first {
		t := structOf(sc.fn0.Params[i].Type())
		if t == nil || !isFresh(rootOf(a)) {
			continue
		}
		for j := 0; j < t.NumFields(); j++ {
			f := t.Field(j)
			p := fld(f.Name(), a)
			if _, ok := st.mem[p.Key()]; !ok && sc.isStored(stored, p) && (isIntType(f.Type()) || isStringType(f.Type()) || isBoolType(f.Type())) {
				out = append(out, smtMut{p, nil})
			}
		}
	}
	return out
}

// isStored: the path is a field of the generator that evaluations store to.
func (sc *smtCheck) isStored(stored map[string]bool, path *Term) bool {
	for i, a := range sc.first {
		t := sc.fn0.Params[i].Type()
		if structOf(t) != nil && stored[t.String()+"."+path.S] && same(fld(path.S, a), path) {
			return true
		}
	}
	return false
}

// typeOfPath is the type of a field of the generator.
func (p *Program) typeOfPath(sc *smtCheck, path *Term) types.Type {
	for i := range sc.first {
		if t := structOf(sc.fn0.Params[i].Type()); t != nil && path.Op == "fld" {
			for j := 0; j < t.NumFields(); j++ {
				if t.Field(j).Name() == path.S {
					return t.Field(j).Type()
				}
			}
		}
	}
	return nil
}

func (sc *smtCheck) reach() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Pkg != sc.pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for f := range sc.cands {
		visit(f)
	}
	return seen
}

// havoc: what an evaluation may have changed.
func (sc *smtCheck) havoc(x *Exec, st *State) {
	if sc.base == nil {
		return
	}
	if e := sc.nilStores(st); e != nil {
		sc.c.fail("nil-variable", "", "%s may be remembered as nil", e)
	}
	for _, m := range sc.mutable(sc.base) {
		if m.m != nil {
			for k, c := range st.mem {
				if c.path.Op == "mapidx" && same(c.path.A[0], m.m) {
					delete(st.mem, k)
				}
			}
			st.mapver[m.m.Key()] += 1
			st.mapvague(m.m)
			continue
		}
		x.fresh++
		cur := x.read(st, m.path, sc.p.typeOfPath(sc, m.path))
		if cur.isInt() || cur.Op == "in" || cur.Op == "lin" {
			n := tIn(fmt.Sprintf("%s~%d", m.path.S, x.fresh))
			st.facts.assume(cmpTerm(">=", n, tInt(0)), true)
			x.set(st, m.path, n)
		} else {
			x.set(st, m.path, tIn(fmt.Sprintf("%s~%d", m.path.S, x.fresh)))
		}
	}
}

// hook summarises a call of a candidate.
func (sc *smtCheck) hook(x0 *Term, top *ssa.Function, capture bool) func(c *CallCtx) ([]Outcome, bool) {
	return func(c *CallCtx) ([]Outcome, bool) {
		x := c.X
		if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == modPath+"/printer" {
			return sc.printed(c)
		}
		ix, ok := sc.cands[c.Fn]
		if !ok || c.Fn == nil {
			return nil, false
		}
		st := c.St
		self := x0 != nil && same(unbox(c.Args[ix[0]]), unbox(x0))
		if !self && (sc.base != nil || !capture) && st.facts.isNil(unbox(c.Args[ix[1]])) != no {
			sc.nilEval = true
		}
		if capture && sc.base == nil {
			sc.base = st.clone()
			sc.first = c.Args
			sc.fn0 = c.Fn
		}
		n, t := c.Args[ix[0]], unbox(c.Args[ix[1]])
		if self && top != nil {
			if sc.deleg[top] == nil {
				sc.deleg[top] = map[*ssa.Function]bool{}
			}
			sc.deleg[top][c.Fn] = true
		}
		n = unbox(n)
		x.fresh++
		v := mk("evalv", fmt.Sprint(x.fresh), n, t)
		bad := st.clone()
		bad.ghost += "!"
		st.facts.nils[v.Key()] = no
		st.facts.terms[v.Key()] = v
		_, tf := sc.findParts(sc.res)
		tt := fld(tf, v)
		if st.facts.isNil(t) == no {
			x.set(st, tt, t)
		} else {
			st.facts.nils[tt.Key()] = no
		}
		w := sc.writer(x, st, c.Fn, c.Args)
		if w == nil {
			return nil, false
		}
		x.emit(st, w, mk("eval", fmt.Sprint(x.fresh), n, t))
		sc.havoc(x, st)
		e := &Term{Op: "err", S: fmt.Sprintf("eval@%d", x.fresh), A: []*Term{n}, T: errType}
		outs := c.ret(st, v, tNil)
		zero := tNil
		if _, ok := sc.res.Underlying().(*types.Pointer); !ok {
			zero = zeroOf(sc.res)
		}
		return append(outs, c.ret(bad, zero, e)...), true
	}
}

// printed summarises the printer: C08 to C11 are about what it writes.
func (sc *smtCheck) printed(c *CallCtx) ([]Outcome, bool) {
	ni := -1
	for i, a := range c.ArgTypes {
		if types.Implements(a, sc.node) && astName(a) != "" {
			ni = i
		}
	}
	if ni < 0 {
		return nil, false
	}
	text := mk("printed", "", unbox(c.Args[ni]))
	bad := c.St.clone()
	bad.ghost += "!"
	e := &Term{Op: "err", S: "printer", T: errType}
	switch c.Fn.Name() {
	case "Bytes":
		return append(c.ret(c.St, text, tNil), c.ret(bad, tNil, e)...), true
	case "Fprint":
		c.X.emit(c.St, c.Args[0], text)
		return append(c.ret(c.St, tNil), c.ret(bad, e)...), true
	}
	return nil, false
}

func (sc *smtCheck) oracle() {
	basic := types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "x", nil), nil, nil))
	_ = basic
	bt := sc.p.typ("go/types", "Basic", true)
	typeOracle = func(t *Term) ([]types.Type, bool) {
		if _, ok := typKind(t); ok && bt != nil {
			return []types.Type{bt}, true
		}
		return nil, false
	}
	nilOracle = func(f *Facts, t *Term) tri {
		if _, ok := typKind(t); ok {
			return no
		}
		// the values of the map of variables are not nil (checked: nilStores)
		if t.Op == "mapget" && sc.base != nil {
			if m := sc.vars(); m != nil && same(t.A[0], m) && f.eval(mk("mapok", t.S, t.A...)) == yes {
				return no
			}
		}
		return unknown
	}
}

func newSmtCheck(c *Check) *smtCheck {
	sc := &smtCheck{c: c, p: c.p, pkg: c.p.pkg("smt2"), cands: map[*ssa.Function][2]int{}, deleg: map[*ssa.Function]map[*ssa.Function]bool{},
		keys: map[string]bool{}, names: map[string]bool{}, pnam: map[string]bool{}, opsOK: map[string]bool{}, fails: map[*ssa.Function][]smtFail{}, untyped: map[*ssa.Function][]smtFail{}}
	n := c.p.namedType(astPkg, "Node")
	if sc.pkg == nil || n == nil || c.p.fn("smt2", "Generate") == nil {
		c.fail("anchor", "", "smt2.Generate or ast.Node not found")
		return nil
	}
	sc.node = n.Underlying().(*types.Interface)
	initTypeModels()
	sc.oracle()
	sc.candidates()
	if len(sc.cands) == 0 {
		c.fail("anchor", "", "no function of smt2 evaluates a node at a type")
		return nil
	}
	return sc
}

// smtLex turns written parts into a flat list: "(", ")", words, and terms.
type smtTok struct {
	s string
	t *Term
}

func smtLex(parts []*Term) ([]smtTok, string) {
	var out []smtTok
	var word []*Term
	inComment := false
	flush := func() {
		if len(word) > 0 {
			if t := cat(word...); t.isStr() {
				out = append(out, smtTok{s: t.S})
			} else {
				out = append(out, smtTok{t: t})
			}
			word = nil
		}
	}
	for _, p := range parts {
		if p.isStr() {
			for _, r := range p.S {
				if inComment {
					if r == '\n' {
						inComment = false
					}
					continue
				}
				switch {
				case r == ';':
					flush()
					inComment = true
				case r == '(' || r == ')':
					flush()
					out = append(out, smtTok{s: string(r)})
				case r == ' ' || r == '\n' || r == '\t' || r == '\r':
					flush()
				default:
					word = append(word, tStr(string(r)))
				}
			}
			continue
		}
		if inComment {
			if !oneLine(p) {
				return nil, "a comment contains text that may have line breaks: " + clip(p.String(), 200)
			}
			continue
		}
		if p.Op == "eval" {
			if len(word) > 0 {
				return nil, "declarations in the middle of a word"
			}
			out = append(out, smtTok{t: p})
			continue
		}
		if p.Op == "each" && p.L != nil && len(word) == 0 && commentLoop(p) {
			continue
		}
		word = append(word, p)
	}
	flush()
	if inComment {
		return nil, "the script ends in a comment"
	}
	return out, ""
}

// oneLine: text printed into a comment that cannot end it: every line break in
// it starts another comment line.
func oneLine(p *Term) bool {
	switch p.Op {
	case "call":
		if p.S == "strings.ReplaceAll" && len(p.A) == 3 {
			from, to := unbox(p.A[1]), unbox(p.A[2])
			return from.isStr() && to.isStr() && from.S == "\n" && safeBreak(to.S)
		}
		if p.S == "strings.Replace" && len(p.A) == 4 {
			from, to, n := unbox(p.A[1]), unbox(p.A[2]), unbox(p.A[3])
			return from.isStr() && to.isStr() && from.S == "\n" && safeBreak(to.S) && n.isInt() && n.N < 0
		}
		if p.S == "bytes.ReplaceAll" && len(p.A) == 3 {
			from, to := bytesConst(p.A[1]), bytesConst(p.A[2])
			return from == "\n" && safeBreak(to)
		}
	case "join":
		if len(p.A) == 2 && unbox(p.A[1]).isStr() && safeBreak(unbox(p.A[1]).S) {
			l := p.A[0]
			return isSplit(l)
		}
	case "each", "prefix":
		return false
	}
	return false
}

func isSplit(l *Term) bool {
	return l.Op == "call" && l.S == "strings.Split" && len(l.A) == 2 && unbox(l.A[1]).isStr() && unbox(l.A[1]).S == "\n"
}

func bytesConst(t *Term) string {
	t = unbox(bytesStr(t))
	if t.isStr() {
		return t.S
	}
	return "\x00"
}

// safeBreak: s has no line break that does not start a comment.
func safeBreak(s string) bool {
	for i, l := range strings.Split(s, "\n") {
		if i > 0 && !strings.HasPrefix(strings.TrimLeft(l, " \t"), ";") {
			return false
		}
	}
	return true
}

// commentLoop: for each line of some text, one comment line.
func commentLoop(p *Term) bool {
	l := p.L
	if len(l.Paths) == 0 {
		return false
	}
	for _, pa := range l.Paths {
		segs := pa.Segs[p.S]
		var flat []*Term
		for _, s := range segs {
			flat = append(flat, catParts(s)...)
		}
		if len(flat) < 2 || !flat[0].isStr() || !strings.HasPrefix(flat[0].S, ";") || strings.Contains(flat[0].S, "\n") {
			return false
		}
		last := flat[len(flat)-1]
		if !last.isStr() || !strings.HasSuffix(last.S, "\n") || strings.Count(last.S, "\n") != 1 {
			return false
		}
		for _, m := range flat[1 : len(flat)-1] {
			if m.isStr() && !strings.Contains(m.S, "\n") {
				continue
			}
			if m.Op == "idx" && isSplit(m.A[0]) {
				continue
			}
			return false
		}
	}
	return true
}

// sexp groups a token list into top-level expressions.
type smtExp struct {
	tok  smtTok
	kids []smtExp
	list bool
}

func (e smtExp) String() string {
	if e.list {
		var ks []string
		for _, k := range e.kids {
			ks = append(ks, k.String())
		}
		return "(" + strings.Join(ks, " ") + ")"
	}
	if e.tok.t != nil {
		return e.tok.t.Key()
	}
	return e.tok.s
}

func smtParse(toks []smtTok) ([]smtExp, string) {
	stack := [][]smtExp{nil}
	for _, t := range toks {
		switch t.s {
		case "(":
			stack = append(stack, nil)
		case ")":
			if len(stack) == 1 {
				return nil, "unbalanced )"
			}
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			stack[len(stack)-1] = append(stack[len(stack)-1], smtExp{list: true, kids: top})
		default:
			stack[len(stack)-1] = append(stack[len(stack)-1], smtExp{tok: t})
		}
	}
	if len(stack) != 1 {
		return nil, "unbalanced ("
	}
	return stack[0], ""
}

func smtRead(parts []*Term) ([]smtExp, string) {
	t, e := smtLex(parts)
	if e != "" {
		return nil, e
	}
	return smtParse(t)
}

func eatoms(e smtExp, words ...string) bool {
	if !e.list || len(e.kids) < len(words) {
		return false
	}
	for i, w := range words {
		if e.kids[i].list || e.kids[i].tok.t != nil || e.kids[i].tok.s != w {
			return false
		}
	}
	return true
}

// entry checks smt2.Generate itself.
func (sc *smtCheck) entry() {
	c := sc.c
	fn := sc.p.fn("smt2", "Generate")
	x := newExec(sc.p)
	x.CheckIdx = true
	st := sc.p.withInit(sc.pkg)
	r := tIn(fn.Params[0].Name())
	st.facts.nils[r.Key()] = no
	st.facts.assume(cmpTerm(">=", lenOf(mk("glob", gotypesTyp)), tInt(26)), true)
	x.OnCall = sc.hook(nil, nil, true)
	outs := x.Call(fn, []*Term{r}, st)
	c.saw(x)
	good := 0
	where := sc.p.pos(fn.Pos())
	for _, o := range outs {
		f := o.St.facts
		cond := clip(f.describe(), 300)
		if o.Kind == oPanic {
			sc.report("C17", "generate-panic", sc.p.pos(o.Pos), "Generate panics (%s) when %s", o.Msg, cond)
			continue
		}
		if len(o.Vals) != 2 {
			sc.report("C17", "generate-shape", where, "Generate does not return a script and an error")
			continue
		}
		switch f.isNil(o.Vals[1]) {
		case no:
			if sc.c.id == "C29" {
				if e := sc.entryReason(x, o, r); e != "" {
					sc.report("C29", "generate-reason", sc.p.pos(o.Pos), "%s, when %s", e, cond)
				}
			}
			if f.isNil(o.Vals[0]) != yes && x.resolve(o.St, o.Vals[0]).Key() != tStr("").Key() {
				sc.report("C17", "generate-error", sc.p.pos(o.Pos), "Generate returns a script along with an error when %s", cond)
			}
			if o.St.ghost == "" && f.isNil(fld("Condition", r)) != no && f.eval(strEq(fld("Block", r), tStr(""))) != no {
				sc.report("C18", "generate-reject", sc.p.pos(o.Pos), "Generate rejects a rule without condition and block although both sides evaluate, when %s", cond)
			}
			continue
		case unknown:
			sc.report("C17", "generate-unknown", sc.p.pos(o.Pos), "cannot tell whether Generate fails when %s", cond)
			continue
		}
		good++
		if o.St.ghost != "" {
			sc.report("C17", "generate-drop", sc.p.pos(o.Pos), "Generate succeeds although printing or evaluating a side failed, when %s", cond)
			continue
		}
		if f.isNil(fld("Condition", r)) != yes {
			sc.report("C17", "generate-condition", sc.p.pos(o.Pos), "Generate may succeed for a rule with a condition, when %s", cond)
		}
		if f.eval(strEq(fld("Block", r), tStr(""))) != yes {
			sc.report("C17", "generate-block", sc.p.pos(o.Pos), "Generate may succeed for a rule with a block, when %s", cond)
		}
		txt := x.resolve(o.St, o.Vals[0])
		exps, e := smtRead(catParts(txt))
		if e != "" {
			sc.report("C18", "generate-text", sc.p.pos(o.Pos), "the script is not well formed: %s", e)
			continue
		}
		if e := sc.layout(x, o.St, r, exps); e != "" {
			sc.report("C18", "generate-layout", sc.p.pos(o.Pos), "%s, in a script with the commands %s", e, clip(fmt.Sprint(exps), 600))
		}
	}
	if good == 0 {
		sc.report("C18", "generate-none", where, "no path of Generate succeeds")
	} else {
		c.ok("generate", "%d paths, %d of them successful", len(outs), good)
	}
}

func (sc *smtCheck) layout(x *Exec, st *State, r *Term, exps []smtExp) string {
	i := 0
	version, logic := false, false
	for ; i < len(exps) && exps[i].list; i++ {
		e := exps[i]
		switch {
		case eatoms(e, "set-info", ":smt-lib-version") && len(e.kids) == 3:
			version = true
		case eatoms(e, "set-info"), eatoms(e, "set-option"):
		case eatoms(e, "set-logic") && len(e.kids) == 2:
			if e.kids[1].tok.s != "QF_BV" {
				return "the logic is " + e.kids[1].String()
			}
			if logic {
				return "the logic is set twice"
			}
			logic = true
		default:
			goto body
		}
	}
body:
	if !version || !logic {
		return "version and logic are not set first"
	}
	var evs []*Term
	for ; i < len(exps) && !exps[i].list && exps[i].tok.t != nil && exps[i].tok.t.Op == "eval"; i++ {
		evs = append(evs, exps[i].tok.t)
	}
	if len(evs) != 2 {
		return fmt.Sprintf("%d values are evaluated before the assertion instead of match and result", len(evs))
	}
	val := func(e *Term) *Term { return mk("evalv", e.S, e.A...) }
	m, q := evs[0], evs[1]
	_, tf := sc.findParts(sc.res)
	if !same(m.A[0], fld("Match", r)) || st.facts.isNil(m.A[1]) != yes {
		return "the match is not evaluated first, at no given type"
	}
	if !same(q.A[0], fld("Result", r)) || !same(unbox(q.A[1]), fld(tf, val(m))) {
		return "the result is not evaluated at the type of the match"
	}
	rest := exps[i:]
	if len(rest) < 2 || len(rest) > 3 {
		return "the script does not end with an assertion, check-sat and exit"
	}
	ef, _ := sc.findParts(sc.res)
	a, b := fld(ef, val(m)).Key(), fld(ef, val(q)).Key()
	ok := false
	for _, s := range []string{"(assert (not (= %s %s)))", "(assert (distinct %s %s))"} {
		if got := rest[0].String(); got == fmt.Sprintf(s, a, b) || got == fmt.Sprintf(s, b, a) {
			ok = true
		}
	}
	if !ok {
		return "what is asserted is not that match and result differ: " + clip(rest[0].String(), 300)
	}
	if rest[1].String() != "(check-sat)" {
		return "the assertion is not followed by check-sat"
	}
	if len(rest) == 3 && rest[2].String() != "(exit)" {
		return "check-sat is not followed by exit"
	}
	if len(rest) < 3 {
		return "the script does not end with exit"
	}
	return ""
}

// report files a failure with the property it breaks.
// wants: what breaks a part of the generator's contract breaks the whole.
func (sc *smtCheck) wants(prop string) bool {
	return prop == sc.c.id || sc.c.id == "C24" && (prop == "C17" || prop == "C18" || prop == "C19")
}

func (sc *smtCheck) report(prop, key, pos, format string, args ...interface{}) {
	if !sc.wants(prop) {
		return
	}
	sc.c.fail(key, pos, format, args...)
}

// reqTypes are the types a node may be requested at.
var reqKinds = []types.BasicKind{types.Bool, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Uint64,
	types.Int, types.Uint, types.String, types.Float64}

type smtReq struct {
	name string
	t    *Term
	kind types.BasicKind // Invalid: no type or not a basic one
}

func (sc *smtCheck) requests(st *State) []smtReq {
	rs := []smtReq{{"no type", tNil, 0}}
	for _, k := range reqKinds {
		rs = append(rs, smtReq{types.Typ[k].Name(), typTerm(k), k})
	}
	return append(rs, smtReq{"a type that is not basic", mk("obj", "nonbasic"), 0})
}

// start is the state and arguments of a run of fn.
func (sc *smtCheck) start(x *Exec, fn *ssa.Function, node *Term, req smtReq) (*State, []*Term) {
	st := sc.base.clone()
	st.events = nil
	st.ghost = ""
	ix := sc.cands[fn]
	var args []*Term
	for i, a := range fn.Params {
		switch i {
		case ix[0]:
			args = append(args, node)
		case ix[1]:
			t := req.t
			if t.Op == "obj" {
				t = &Term{Op: "obj", S: "nonbasic", T: types.NewPointer(sc.p.namedType("go/types", "Slice"))}
			}
			args = append(args, t)
		default:
			t := tIn(a.Name())
			for j, b := range sc.fn0.Params {
				if types.Identical(a.Type(), b.Type()) {
					t = sc.first[j]
				}
			}
			args = append(args, t)
		}
	}
	for _, k := range sortedKeys(st.mem) {
		if c := st.mem[k]; c.path.Op == "content" {
			x.set(st, c.path, mk("before", c.path.Key()))
		}
	}
	sc.havoc(x, st)
	st.facts.assume(cmpTerm(">=", lenOf(mk("glob", gotypesTyp)), tInt(26)), true)
	return st, args
}

type smtRun struct {
	fn   *ssa.Function
	node *Term
	dyn  types.Type
	req  smtReq
	op   string // constant opcode
	args []*Term
}

func (sc *smtCheck) verify(fn *ssa.Function) {
	ix := sc.cands[fn]
	sc.deleg[fn] = nil
	sc.fails[fn], sc.untyped[fn] = nil, nil
	static := fn.Params[ix[0]].Type()
	n := tIn("n")
	for _, req := range sc.requests(sc.base) {
		// an arbitrary node with an opcode outside the table
		sc.runOne(smtRun{fn: fn, node: n, req: req}, static)
	}
	// every operation
	sx := sc.p.typ(astPkg, "SExpr", true)
	if sx == nil || !types.AssignableTo(sx, static) {
		return
	}
	ops := map[string]bool{}
	for k := range smtOps {
		ops[k] = true
	}
	for k := range sc.keys {
		ops[k] = true
	}
	for _, op := range sortedKeys(ops) {
		max := 3
		for k := 0; k <= max; k++ {
			var as []*Term
			for i := 0; i < k; i++ {
				as = append(as, tIn(fmt.Sprintf("arg%d", i)))
			}
			for _, req := range sc.requests(sc.base) {
				sc.runOne(smtRun{fn: fn, node: n, dyn: sx, req: req, op: op, args: as}, static)
			}
		}
	}
}

func (sc *smtCheck) runOne(r smtRun, static types.Type) {
	fn := r.fn
	x := newExec(sc.p)
	x.CheckIdx = true
	x.OnCall = sc.hook(r.node, fn, false)
	st, args := sc.start(x, fn, r.node, r.req)
	opT := fld("Op", r.node)
	opc := sc.p.typ(astPkg, "Opcode", false)
	if !types.IsInterface(static) {
		st.facts.nils[r.node.Key()] = no
	}
	if r.op != "" {
		x.Unroll = true // everything that is counted is known
		if types.IsInterface(static) {
			st.facts.types[r.node.Key()] = typeFact{incl: map[string]types.Type{tkey(r.dyn): r.dyn}}
			st.facts.terms[r.node.Key()] = r.node
			st.facts.nils[r.node.Key()] = no
		}
		x.set(st, opT, &Term{Op: "box", S: tkey(opc), A: []*Term{tStr(r.op)}, T: opc})
		var segs []*Term
		for _, a := range r.args {
			segs = append(segs, mk("one", "", a))
			st.facts.nils[a.Key()] = no
		}
		x.set(st, fld("Args", r.node), app(segs...))
	} else {
		x.MapSplit = func(key string) { sc.keys[key] = true }
		for k := range smtOps {
			st.facts.assume(strEq(opT, tStr(k)), false)
		}
	}
	sc.runs++
	outs := x.Call(fn, args, st)
	for f := range x.funcs {
		sc.c.funcs[f.String()] = true
	}
	bad := func(prop, format string, a ...interface{}) {
		sc.fails[fn] = append(sc.fails[fn], smtFail{prop, fmt.Sprintf(format, a...)})
	}
	for _, u := range x.undecided {
		bad("", "not decided: %s", u)
	}
	if len(outs) == 0 {
		bad("", "no path analysed")
	}
	for _, o := range outs {
		sc.outcome(x, r, o, args, static, bad)
	}
}

func (sc *smtCheck) outcome(x *Exec, r smtRun, o Outcome, args []*Term, static types.Type, bad func(prop, format string, a ...interface{})) {
	f := o.St.facts
	fn := r.fn
	where := sc.p.pos(o.Pos)
	cond := clip(f.describe(), 260)
	at := "requested at " + r.req.name
	n := r.node
	if o.Kind == oPanic {
		bad("C17", "%s: panics (%s) %s when %s", where, o.Msg, at, cond)
		return
	}
	dyns := f.dynTypes(n, static)
	if !types.IsInterface(static) {
		dyns = []types.Type{static}
	}
	is := func(name string) bool {
		for _, d := range dyns {
			if astName(d) != name {
				return false
			}
		}
		return len(dyns) > 0
	}
	features := sc.features(f, n)
	spec, known := smtOps[r.op]
	if e := sc.nilStores(o.St); e != nil {
		bad("C18", "%s: %s may be remembered as nil, %s when %s", where, e, at, cond)
	}
	errNil := f.isNil(o.Vals[1])
	if errNil == no {
		if sc.c.id == "C29" {
			if e := sc.reason(x, r, o, static, is); e != "" {
				bad("C29", "%s: %s, %s when %s", where, e, at, cond)
			}
		}
		// is the error justified?
		if o.St.ghost != "" {
			return
		}
		switch {
		case r.op != "":
			if !known || !spec.core || len(r.args) != len(spec.sigs[0].params) || features != "" {
				return
			}
			if r.req.name == "no type" || resultIs(spec, r.req.kind) {
				bad("C19", "%s: %s with %d arguments is refused %s when %s", where, r.op, len(r.args), at, cond)
			}
		case is("ast.Variable"):
			if _, ok := smtSorts[r.req.kind]; !ok && r.req.name != "no type" {
				return
			}
			// found at another type, or its type not known
			if sc.variableType(x, o.St, r, args) != no {
				if r.req.name == "no type" {
					sc.untyped[fn] = append(sc.untyped[fn], smtFail{"C18", fmt.Sprintf("%s: a variable is refused %s when %s", where, at, cond)})
					return
				}
				bad("C18", "%s: a variable is refused %s when %s", where, at, cond)
			}
		}
		return
	}
	if errNil == unknown {
		bad("C17", "%s: cannot tell whether it fails %s when %s", where, at, cond)
		return
	}
	if o.St.ghost != "" {
		bad("C17", "%s: succeeds although an argument could not be evaluated, %s, when %s", where, at, cond)
		return
	}
	v := x.resolve(o.St, o.Vals[0])
	w := sc.writer(x, o.St, fn, args)
	if w == nil {
		bad("C18", "%s: no writer", where)
		return
	}
	parts := catParts(x.resolve(o.St, x.readContent(o.St, w)))
	if len(parts) == 0 || parts[0].Op != "before" {
		bad("C18", "%s: what was written before is not kept", where)
		return
	}
	exps, e := smtRead(parts[1:])
	if e != "" {
		bad("C18", "%s: declarations are not well formed: %s", where, e)
		return
	}
	// delegated
	if v.Op == "evalv" && same(v.A[0], n) {
		if len(exps) != 1 || exps[0].tok.t == nil || exps[0].tok.t.Op != "eval" || exps[0].tok.t.S != v.S {
			bad("C18", "%s: evaluates %s more than once or writes something else: %s", where, n, clip(fmt.Sprint(exps), 300))
			return
		}
		if !same(unbox(v.A[1]), unbox(args[sc.cands[fn][1]])) {
			bad("C19", "%s: evaluates its node at another type than requested", where)
		}
		return
	}
	switch {
	case is("ast.Variable"):
		sc.variable(x, r, o, args, v, exps, where, at+" when "+cond, bad)
	case is("ast.SExpr"):
		if features != "" {
			bad("C17", "%s: an expression with %s is accepted %s when %s", where, features, at, cond)
			return
		}
		if r.op == "" {
			bad("C17", "%s: an opcode that is not in the table (or not expanded) is accepted %s when %s", where, at, cond)
			return
		}
		if !known {
			bad("C19", "%s: opcode %s is modelled, but its meaning is not known to the check", where, r.op)
			return
		}
		if len(r.args) != len(spec.sigs[0].params) {
			bad("C19", "%s: %s is accepted with %d arguments", where, r.op, len(r.args))
			bad("C17", "%s: %s is accepted with %d arguments", where, r.op, len(r.args))
			return
		}
		sc.operation(x, r, spec, o, v, exps, where, at+" when "+cond, bad)
	default:
		var ns []string
		for _, d := range dyns {
			ns = append(ns, shortType(d))
		}
		bad("C17", "%s: a node of type %v is accepted %s when %s", where, ns, at, cond)
	}
}

func resultIs(s opSpec, k types.BasicKind) bool {
	for _, g := range s.sigs {
		if g.result == k {
			return true
		}
	}
	return false
}

// features lists the parts of expression n that are not known to be absent.
func (sc *smtCheck) features(f *Facts, n *Term) string {
	var out []string
	for _, s := range []string{"Binding", "Type"} {
		if f.eval(strEq(fld(s, n), tStr(""))) != yes {
			out = append(out, s)
		}
	}
	for _, s := range []string{"AuxInt", "Aux"} {
		if f.isNil(fld(s, n)) != yes {
			out = append(out, s)
		}
	}
	for _, s := range []string{"Ellipsis", "Trailing"} {
		if f.eval(fld(s, n)) != no {
			out = append(out, s)
		}
	}
	return strings.Join(out, ", ")
}

// vars is the map from variables to values.
func (sc *smtCheck) vars() *Term {
	if sc.varsOf == sc.base {
		return sc.varsMap
	}
	sc.varsOf, sc.varsMap = sc.base, sc.findVars()
	return sc.varsMap
}

// isFound: whether variable n was declared before.
func (sc *smtCheck) isFound(f *Facts, n *Term) tri {
	m := sc.vars()
	if m == nil {
		return unknown
	}
	if t := f.eval(mk("mapok", "1", m, n)); t != unknown {
		return t
	}
	// the values are not nil, and what is absent is
	if val := mk("mapget", "1", m, n); sc.varsRefs {
		switch f.isNil(val) {
		case yes:
			return no
		case no:
			return yes
		}
	}
	return unknown
}

// nilStores is what is stored in the map of variables and may be nil.
func (sc *smtCheck) nilStores(st *State) *Term {
	m := sc.vars()
	if m == nil || !sc.varsRefs {
		return nil
	}
	for _, c := range st.mem {
		if c.path.Op == "mapidx" && same(c.path.A[0], m) && st.facts.isNil(c.val) != no {
			return c.path
		}
	}
	return nil
}

func (sc *smtCheck) findVars() *Term {
	var m *Term
	sc.varsRefs = false
	for _, u := range sc.mutable(sc.base) {
		if u.m != nil {
			if m != nil {
				return nil
			}
			m = u.m
			if t, ok := sc.p.typeOfPath(sc, u.path).(*types.Map); ok {
				_, sc.varsRefs = t.Elem().Underlying().(*types.Pointer)
			}
		}
	}
	return m
}

// variableType: yes if the variable has the requested type or can get it: it
// was declared at that type, or a type is requested and it was not declared. no
// if it was declared at another type, or has none; unknown otherwise.
func (sc *smtCheck) variableType(x *Exec, st *State, r smtRun, args []*Term) tri {
	m := sc.vars()
	if m == nil {
		return unknown
	}
	val := mk("mapget", "1", m, r.node)
	found := sc.isFound(st.facts, r.node)
	if st.facts.eval(strEq(r.node, tStr("_"))) == yes {
		found = no
	}
	switch {
	case r.req.name == "no type" && found == unknown:
		return unknown
	case r.req.name == "no type":
		return found
	case found == no:
		return yes
	case found == yes && st.facts.eval(strEq(r.node, tStr("_"))) == no:
		t := sc.typeOf(x, st, val)
		return st.facts.eval(typeEq(t, r.req.t))
	}
	return unknown
}

func typeEq(a, b *Term) *Term {
	a, b = unbox(a), unbox(b)
	if same(a, b) {
		return tBool(true)
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

func (sc *smtCheck) variable(x *Exec, r smtRun, o Outcome, args []*Term, v *Term, exps []smtExp, where, at string, bad func(prop, format string, a ...interface{})) {
	f := o.St.facts
	m := sc.vars()
	if m == nil {
		bad("C18", "%s: no map of declared variables", where)
		return
	}
	n := r.node
	val := mk("mapget", "1", m, n)
	found := sc.isFound(f, n)
	ph := f.eval(strEq(n, tStr("_")))
	if len(exps) == 0 {
		// a variable declared before
		if !same(v, val) || found != yes {
			bad("C18", "%s: a variable is used without being declared, %s", where, at)
			return
		}
		if ph != no {
			bad("C18", "%s: a placeholder is not declared anew, %s", where, at)
		}
		if r.req.name != "no type" && f.eval(typeEq(sc.typeOf(x, o.St, val), r.req.t)) != yes {
			bad("C17", "%s: a variable declared at another type is accepted, %s", where, at)
			bad("C19", "%s: a variable declared at another type is accepted, %s", where, at)
		}
		return
	}
	if len(exps) != 1 || !(eatoms(exps[0], "declare-const") && len(exps[0].kids) == 3 || eatoms(exps[0], "declare-fun") && len(exps[0].kids) == 4 && exps[0].kids[2].String() == "()") {
		bad("C18", "%s: a variable is not declared by one command: %s", where, clip(fmt.Sprint(exps), 300))
		return
	}
	if found != no && ph != yes {
		bad("C18", "%s: a variable may be declared twice, %s", where, at)
	}
	want, ok := smtSorts[r.req.kind]
	if !ok {
		bad("C17", "%s: a variable of unsupported type is accepted, %s", where, at)
		bad("C18", "%s: a variable of a type without a sort is declared with sort %s, %s", where, clip(exps[0].kids[len(exps[0].kids)-1].String(), 100), at)
		return
	}
	d := exps[0].kids
	if got := d[len(d)-1].String(); got != strings.ReplaceAll(strings.ReplaceAll(want, "( ", "("), " )", ")") {
		bad("C18", "%s: a variable of type %s is declared with sort %s", where, r.req.name, clip(got, 100))
	}
	name := sc.exprOf(x, o.St, v)
	if d[1].String() != name.Key() && !(name.isStr() && d[1].String() == name.S) {
		// the name may be written in pieces
		if d[1].tok.t == nil || !same(d[1].tok.t, name) {
			bad("C18", "%s: the declared name %s is not the one used, %s", where, clip(d[1].String(), 100), clip(name.String(), 100))
			return
		}
	}
	if k, ok := typKind(sc.typeOf(x, o.St, v)); !ok || k != r.req.kind {
		bad("C19", "%s: a variable requested at %s gets another type, %s", where, r.req.name, at)
	}
	sc.name(x, r, o, name, ph, where, bad)
	if ph != yes {
		c, ok := o.St.mem[mk("mapidx", "", m, n).Key()]
		if !ok || !same(sc.exprOf(x, o.St, c.val), name) || !same(sc.typeOf(x, o.St, c.val), sc.typeOf(x, o.St, v)) {
			bad("C18", "%s: a declared variable is not remembered with its name and type, %s", where, at)
		}
	}
}

// name checks the shape of a declared name.
func (sc *smtCheck) name(x *Exec, r smtRun, o Outcome, name *Term, ph tri, where string, bad func(prop, format string, a ...interface{})) {
	parts := catParts(name)
	pre, suf := "", ""
	var mid *Term
	for _, p := range parts {
		switch {
		case p.isStr() && mid == nil:
			pre += p.S
		case p.isStr():
			suf += p.S
		case mid == nil:
			mid = p
		default:
			bad("C18", "%s: a name is built from more than the variable: %s", where, clip(name.String(), 200))
			return
		}
	}
	if mid == nil {
		bad("C18", "%s: every variable is declared under the name %s", where, clip(name.String(), 100))
		return
	}
	if ph == yes && !mentionsTerm(mid, r.node) {
		// a counter that differs from one placeholder to the next
		ok := false
		for _, u := range sc.mutable(sc.base) {
			if u.m != nil {
				continue
			}
			after := x.read(o.St, u.path, sc.p.typeOfPath(sc, u.path))
			var before *Term
			walkTerm(after, func(t *Term) bool {
				if t.Op == "in" && strings.HasPrefix(t.S, u.path.S+"~") {
					before = t
				}
				return true
			})
			if before == nil || !mentionsTerm(mid, before) {
				continue
			}
			if o.St.facts.eval(cmpTerm("==", after, add(before, tInt(1)))) == yes {
				ok = true
			}
		}
		if !ok {
			bad("C18", "%s: placeholders are not told apart by a count: %s", where, clip(name.String(), 200))
		}
		sc.pnam[pre+"\x00"+suf] = true
		return
	}
	if ph == no || ph == unknown {
		if !same(mid, r.node) {
			bad("C18", "%s: a name is not the variable with a prefix: %s", where, clip(name.String(), 200))
			return
		}
		sc.names[pre+"\x00"+suf] = true
		if ph == unknown {
			bad("C18", "%s: a placeholder may be declared under one name for all", where)
		}
		return
	}
	bad("C18", "%s: placeholders share a name: %s", where, clip(name.String(), 200))
}

// nameClashes compares the shapes of all declared names with each other and
// with the symbols of the language.
func (sc *smtCheck) nameClashes() {
	split := func(s string) (string, string) {
		i := strings.IndexByte(s, 0)
		return s[:i], s[i+1:]
	}
	for _, s := range sortedKeys(sc.names) {
		pre, suf := split(s)
		quoted := strings.HasPrefix(pre, "|") && strings.HasSuffix(suf, "|")
		for _, sym := range smtSymbols {
			if !quoted && strings.HasPrefix(sym, pre) && strings.HasSuffix(sym, suf) && len(sym) >= len(pre)+len(suf) {
				sc.report("C18", "symbol", "", "a variable can be declared under the SMT-LIB symbol %s (names are %q, the variable, %q)", sym, pre, suf)
				break
			}
		}
		if quoted {
			sc.checkQuoted(pre)
		}
		for _, t := range sortedKeys(sc.pnam) {
			p2, s2 := split(t)
			if (strings.HasPrefix(pre, p2) || strings.HasPrefix(p2, pre)) && (strings.HasSuffix(suf, s2) || strings.HasSuffix(s2, suf)) {
				sc.report("C18", "clash", "", "a variable and a placeholder can be declared under the same name (%q and %q)", pre, p2)
			}
		}
	}
	if len(sc.names) > 1 || len(sc.pnam) > 1 {
		sc.report("C18", "shapes", "", "names have several shapes: %d for variables, %d for placeholders", len(sc.names), len(sc.pnam))
	}
	if len(sc.names) == 0 || len(sc.pnam) == 0 {
		sc.report("C18", "nonames", "", "no path declares a variable, or none a placeholder")
	}
}

func (sc *smtCheck) checkQuoted(pre string) {
	if pre == "|" {
		// |v| and v are the same symbol
		sc.report("C18", "symbol", "", "a quoted variable is the same symbol as an unquoted one")
	}
}

func (sc *smtCheck) operation(x *Exec, r smtRun, spec opSpec, o Outcome, v *Term, exps []smtExp, where, at string, bad func(prop, format string, a ...interface{})) {
	f := o.St.facts
	var vals []*Term
	var evs []*Term
	for _, e := range exps {
		if e.list || e.tok.t == nil || e.tok.t.Op != "eval" {
			bad("C18", "%s: %s writes something besides its arguments' declarations: %s", where, r.op, clip(fmt.Sprint(exps), 300))
			return
		}
		evs = append(evs, e.tok.t)
	}
	for i, a := range r.args {
		if i >= len(evs) || !same(evs[i].A[0], a) {
			bad("C18", "%s: %s does not evaluate its arguments once each and in order, %s", where, r.op, at)
			return
		}
		vals = append(vals, mk("evalv", evs[i].S, evs[i].A...))
	}
	if len(evs) != len(r.args) {
		bad("C18", "%s: %s evaluates an argument more than once, %s", where, r.op, at)
		return
	}
	// types
	res, ok := typKind(sc.typeOf(x, o.St, v))
	if !ok {
		bad("C19", "%s: the type of the result of %s is not known, %s", where, r.op, at)
		return
	}
	var sig *opSig
	for i := range spec.sigs {
		if spec.sigs[i].result == res {
			s := spec.sigs[i]
			match := true
			for j, a := range vals {
				if k, ok := typKind(sc.typeOf(x, o.St, a)); !ok || k != s.params[j] {
					if f.eval(typeEq(sc.typeOf(x, o.St, a), typTerm(s.params[j]))) != yes {
						match = false
					}
				}
			}
			if match {
				sig = &spec.sigs[i]
				break
			}
		}
	}
	if sig == nil {
		var ts []string
		for _, a := range vals {
			ts = append(ts, sc.kindName(sc.typeOf(x, o.St, a)))
		}
		bad("C19", "%s: %s is given argument types %v and result type %s, %s", where, r.op, ts, types.Typ[res].Name(), at)
		return
	}
	if r.req.name != "no type" {
		if r.req.kind != res {
			bad("C19", "%s: %s requested at %s has type %s, %s", where, r.op, r.req.name, types.Typ[res].Name(), at)
			return
		}
	} else if res != spec.sigs[0].result || sig != &spec.sigs[0] {
		bad("C19", "%s: %s has type %s instead of the default %s, %s", where, r.op, types.Typ[res].Name(), types.Typ[spec.sigs[0].result].Name(), at)
		return
	}
	// the term
	got, e := smtRead(catParts(sc.exprOf(x, o.St, v)))
	if e != "" || len(got) != 1 {
		bad("C19", "%s: %s is not translated to one term: %s %s", where, r.op, clip(sc.exprOf(x, o.St, v).String(), 200), e)
		return
	}
	ef, _ := sc.findParts(sc.res)
	good := false
	for _, tmpl := range spec.format {
		perms := [][]int{{0, 1, 2}}
		if spec.commute {
			perms = append(perms, []int{1, 0, 2})
		}
		for _, pm := range perms {
			var toks []smtTok
			for _, w := range strings.Fields(tmpl) {
				if w[0] == '%' {
					toks = append(toks, smtTok{t: fld(ef, vals[pm[w[1]-'0']])})
				} else {
					toks = append(toks, smtTok{s: w})
				}
			}
			ws, _ := smtParse(toks)
			if len(ws) == 1 && ws[0].String() == got[0].String() {
				good = true
			}
		}
	}
	if !good {
		bad("C19", "%s: %s is translated to %s instead of %s of its arguments, %s", where, r.op, clip(sc.exprOf(x, o.St, v).String(), 300), spec.format[0], at)
		return
	}
	sc.opsOK[r.op] = true
}

func (sc *smtCheck) kindName(t *Term) string {
	if k, ok := typKind(t); ok {
		return types.Typ[k].Name()
	}
	return clip(t.String(), 60)
}

func (sc *smtCheck) run() {
	sc.entry()
	if sc.base == nil {
		sc.c.fail("anchor", "", "Generate does not reach an evaluation of the match")
		return
	}
	first := map[*ssa.Function][]smtFail{}
	for {
		var fns []*ssa.Function
		for fn := range sc.cands {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		sc.names, sc.pnam, sc.opsOK = map[string]bool{}, map[string]bool{}, map[string]bool{}
		before := len(sc.keys)
		for _, fn := range fns {
			sc.verify(fn)
		}
		if len(sc.keys) != before {
			continue // operations that were not known when some function was run
		}
		var drop []*ssa.Function
		for _, fn := range fns {
			if len(sc.fails[fn]) > 0 && !sc.essential(fn) {
				drop = append(drop, fn)
				if os.Getenv("VERIF_DEBUG") != "" {
					for i, f := range sc.fails[fn] {
						if i < 5 {
							fmt.Println("drop", fn.Name(), f.prop, clip(f.text, 400))
						}
					}
				}
				if first[fn] == nil {
					first[fn] = sc.fails[fn]
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		isCand := func(f *ssa.Function) bool { _, ok := sc.cands[f]; return ok }
		for _, fn := range chooseDrop(drop, isCand) {
			delete(sc.cands, fn)
		}
	}
	total := 0
	for fn := range sc.cands {
		fs := sc.fails[fn]
		if sc.nilEval {
			fs = append(fs, sc.untyped[fn]...)
		}
		n := 0
		for _, f := range fs {
			if sc.wants(f.prop) || f.prop == "" {
				n++
				if n <= 6 {
					sc.c.fail("eval:"+fn.Name(), sc.p.pos(fn.Pos()), "%s: %s", fn.Name(), f.text)
				}
			}
		}
		if n == 0 {
			sc.c.ok("eval:"+fn.Name(), "every path evaluates its node as specified")
		}
		total++
	}
	if r := sc.cyclic(); r != nil {
		sc.c.fail("loop", sc.p.pos(r.Pos()), "%s evaluates its own node by itself", r.Name())
	}
	if sc.wants("C18") {
		sc.nameClashes()
	}
	if sc.c.id == "C19" {
		for k, s := range smtOps {
			if s.core {
				sc.c.check(sc.opsOK[k], "op:"+k, "", "opcode %s is modelled", k)
			}
		}
	}
	sc.c.ok("runs", "%d evaluations (function, opcode, argument count, requested type)", sc.runs)
	sc.c.ok("ops", "%d opcodes are modelled by %d evaluating functions", len(sc.opsOK), total)
}

// essential functions are those whose inlining would leave recursion: the one
// called first. A helper that has another contract is inlined.
func (sc *smtCheck) essential(fn *ssa.Function) bool {
	if fn == sc.fn0 {
		return true
	}
	// a function on a call cycle that does not pass through other candidates
	return false
}

func (sc *smtCheck) cyclic() *ssa.Function {
	pc := &printCheck{deleg: sc.deleg, cands: map[*ssa.Function]int{}}
	for f := range sc.cands {
		pc.cands[f] = 0
	}
	return pc.cyclic()
}

var smtRule = map[string]string{
	"C17": "Every function that evaluates a node is interpreted abstractly on an arbitrary node, for every opcode of the table and every requested type: a path that succeeds has examined every part of the node (or refused it), has evaluated every argument exactly once, and has bound each variable to one type; Generate succeeds only when both sides and the printer did, and only for rules without condition and block.",
	"C18": "Generate is interpreted abstractly into a summary of the text it writes; on every success path the summary, read as S-expressions, is: version and logic, the rule in comments, the declarations (each variable once, at the sort of its type, under a name no SMT-LIB symbol has, before any use), the question whether the two sides differ, and the command to decide it.",
	"C24": "Induction over the rule, each case decided from the source: every evaluating function, on an arbitrary node, opcode and requested type, gives the term of SMT-LIB's theory with the meaning of the opcode, applied to the terms of its arguments in order and at their width (frozen table); a variable is one constant of its type's sort, each placeholder a constant of its own; no part of a rule is ignored; Generate asks whether the two terms can differ, and nothing else is asserted.",
	"C19": "Every entry of the operator table, as built by the package's initialiser, is evaluated abstractly for every requested basic type and 0 to 3 arguments; operator, operand order, operand and result types are compared with a frozen table of meanings; opcodes of the frozen core have to be modelled.",
}

func init() {
	for _, id := range []string{"C17", "C18", "C19", "C24"} {
		checks[id] = func(c *Check) {
			c.rule = smtRule[c.id]
			c.assumptions = []string{"go/types' tables of basic types", "models of fmt, strings, bytes, strconv", "helpers satisfy their own verified contracts (assume-guarantee over the recursion)"}
			if sc := newSmtCheck(c); sc != nil {
				sc.run()
			}
		}
	}
}

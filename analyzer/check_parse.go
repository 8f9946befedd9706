package main

// C01-C07: the parser. The grammar is read from the parser's initial state;
// constructs are identified by comparison with the notation below.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// notation is the rule notation. Actions name what a construct is.
const notation = `
File <- _ rs:( Rule _ )* EOF {File}
Rule <- m:Value cond:( __ "&&" __ Condition )? _ "=>" _ block:Block? _ r:Value {Rule}
Value <- SExpr / Expr
SExpr <- binding:( Variable ':' )? '(' _ op:Op operands:( __ Operand )* ellipsis:( __ "..." )? trailing:( __ "___" )? _ ')' {SExpr}
Op <- parts:( OpPart / OpAlt )+ {Op}
OpPart <- [_a-zA-Z0-9]+ {OpPart}
OpAlt <- '(' first:OpPart rest:( '|' OpPart )+ ')' {OpAlt}
Operand <- Type / AuxInt / Aux / Value
Type <- '<' [^>]+ '>' {Type}
AuxInt <- '[' [^\]]+ ']' {AuxInt}
Aux <- '{' [^}]+ '}' {Aux}
Expr <- Call / Variable / Placeholder
Call <- Ident '(' _ Expr ( _ ',' _ Expr _ )* _ ')' {Call}
Variable <- Ident {Variable}
Placeholder <- "_" !"_" {Placeholder}
Ident <- [a-z] [_a-zA-Z0-9]*
Condition <- ( !"=>" . )+ {Condition}
Block <- '@' ( !Skip . )+ {Block}
__ <- Skip+
_ <- Skip*
Skip <- Comment / [ \t\r\n]
Comment <- "//" [^\n]* ( '\n' / EOF )
EOF <- !.
`

// referenceGrammar is the notation as a grammar.
func referenceGrammar() *pegGrammar {
	f, err := parsePeg("notation", notation)
	if err != nil {
		panic(err)
	}
	seen := map[*peg]bool{}
	var walk func(n *peg)
	walk = func(n *peg) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.Kind == "ref" && (n.Str == "_" || n.Str == "__") {
			n.Lay = true
		}
		if n.Kind == "action" {
			n.Role = n.Code
		}
		for _, s := range n.Sub {
			walk(s)
		}
	}
	for _, r := range f.G.Rules {
		walk(r.Body)
	}
	return f.G
}

// parserAnalysis is what the checks of the parser share.
type parserAnalysis struct {
	c     *Check
	pkg   *ssa.Package
	init  *State
	base  *State // without the grammar
	g     *pegGrammar
	ref   *pegGrammar
	cmp   *pegCmp
	roles map[*peg]string // actions of the built grammar
	errs  []string
}

func (c *Check) parser() *parserAnalysis {
	a := &parserAnalysis{c: c, roles: map[*peg]string{}}
	a.pkg = c.p.pkg("parse/internal/parser")
	if a.pkg == nil {
		c.fail("package", "", "there is no package parse/internal/parser")
		return nil
	}
	a.init = c.p.withInit(a.pkg)
	a.g, a.errs = builtGrammar(c.p, a.pkg, a.init)
	for i, e := range a.errs {
		c.fail(fmt.Sprintf("grammar:%d", i), "parse/internal/parser", "%s", e)
	}
	if a.g == nil {
		return nil
	}
	a.ref = referenceGrammar()
	a.cmp = newPegCmp(a.g, a.ref)
	a.cmp.cmp(a.g.Rules[0].Body, a.ref.Rules[0].Body, false, true)
	for _, p := range a.cmp.actions {
		a.roles[p.a] = p.b.Role
	}
	return a
}

func (a *parserAnalysis) deriver() *deriver {
	d := &deriver{p: a.c.p, pkg: a.pkg, g: a.g, roles: a.roles}
	d.setup()
	return d
}

func sinkNone(string, ...interface{}) {}

// verdicts of derivations, per property.
type deriveVerdict struct {
	prop, key, pos, text string
}

type deriveChecker struct {
	a      *parserAnalysis
	d      *deriver
	out    []deriveVerdict
	n      int
	shapes map[string]int
}

func (k *deriveChecker) bad(prop, key, pos, f string, args ...interface{}) {
	k.out = append(k.out, deriveVerdict{prop, key, pos, fmt.Sprintf(f, args...)})
}

// allDerivations checks every construct's action against what the construct
// means.
func (a *parserAnalysis) allDerivations() *deriveChecker {
	if a.base == nil {
		a.base = a.init.without(a.pkg.Pkg.Path() + ".g")
	}
	k := &deriveChecker{a: a, d: a.deriver(), shapes: map[string]int{}}
	acts := map[string]*peg{}
	for n, r := range a.roles {
		acts[r] = n
	}
	small := map[string]bool{"SExpr": true, "Op": true, "Type": true, "AuxInt": true, "Aux": true, "Variable": true}
	run := func(role string, cfg deriveCfg) {
		n := acts[role]
		if n == nil {
			k.bad("", "construct:"+role, "parse/internal/parser/zparser.go", "the parser has no construct for %s", role)
			return
		}
		k.d.cfg = cfg
		k.d.root = role
		st := a.base.clone()
		st.events = nil
		before := len(k.d.bad)
		ds := k.d.derive(n, st, 0)
		if len(ds) == 0 && len(k.d.bad) == before {
			k.bad("", "construct:"+role, n.Pos, "the construct for %s has no derivation", role)
		}
		for _, v := range ds {
			k.n++
			k.shapes[role]++
			k.verify(role, n, v)
		}
	}
	run("File", deriveCfg{lens: []int{0, 1, 2, 3, 4}, opts: -1, fails: true})
	run("Rule", deriveCfg{lens: []int{1}, opts: -1, fails: true})
	run("Op", deriveCfg{lens: []int{1, 2, 3}, opts: -1})
	run("SExpr", deriveCfg{lens: []int{0, 1, 2}, opts: -1, fails: true})
	for _, o := range []int{0, 1} {
		run("SExpr", deriveCfg{lens: []int{3, 4}, opts: o, roles: small})
	}
	for _, b := range k.d.bad {
		prop := ""
		switch strings.SplitN(b.key, ":", 2)[0] {
		case "panic":
			prop = "C01"
		case "dropped":
			prop = "C04"
		case "effect":
			prop = "C03"
		}
		k.bad(prop, b.key, b.pos, "%s", b.text)
	}
	return k
}

func (k *deriveChecker) verify(role string, n *peg, v deriv) {
	t := v.trees[0]
	pos := n.Pos
	if n.Run != nil {
		pos = k.a.c.p.pos(k.actionBody(n.Run).Pos())
	}
	what := describeTrees(t.Kids)
	if role == "SExpr" {
		seen := map[string]int{}
		for _, kid := range t.Kids {
			seen[kid.Role]++
		}
		for _, r := range []string{"Type", "AuxInt", "Aux"} {
			if seen[r] > 1 {
				if !v.failed {
					k.bad("C04", "repeated:"+r, pos, "an s-expression with two operands of kind %s (%s) is accepted", r, what)
				}
				return
			}
		}
	}
	if v.failed {
		if v.why != "" {
			k.bad("C03", "refused:"+role, pos, "a well-formed %s (%s) is refused: %s", role, what, v.why)
		}
		return
	}
	val := v.val
	st := v.st
	ptr := func(name string) *Term {
		want := types.NewPointer(k.d.astType(name))
		dt := dynOf(val)
		if dt == nil || !types.Identical(dt, want) || unbox(val).Op == "nil" {
			k.bad("C03", "value:"+role, pos, "the value of a %s (%s) is not a *ast.%s but %s", role, what, name, clip(val.String(), 80))
			return nil
		}
		return unbox(val)
	}
	field := func(p *Term, name, typ string) *Term {
		sct := structOf(k.d.astType(typ))
		for i := 0; i < sct.NumFields(); i++ {
			if sct.Field(i).Name() == name {
				return k.d.x.read(st, fld(name, p), sct.Field(i).Type())
			}
		}
		return tNil
	}
	wrong := func(f string, got *Term, want string) {
		k.bad("C03", "field:"+role+"."+f, pos, "%s of a %s (%s) is %s, not %s", f, role, what, clip(k.d.x.resolve(st, got).String(), 120), want)
	}
	switch role {
	case "File":
		p := ptr("File")
		if p == nil {
			return
		}
		k.list(st, "Rules", field(p, "Rules", "File"), t.Kids, nil, wrong)
	case "Rule":
		p := ptr("Rule")
		if p == nil {
			return
		}
		var vals []*ptree
		var cond, block *ptree
		for _, kid := range t.Kids {
			switch kid.Role {
			case "Condition":
				cond = kid
			case "Block":
				block = kid
			case "":
			default:
				vals = append(vals, kid)
			}
		}
		if len(vals) != 2 {
			k.bad("C03", "parts:Rule", pos, "a rule has %d sides", len(vals))
			return
		}
		if g := field(p, "Match", "Rule"); !k.value(st, g, vals[0]) {
			wrong("Match", g, "what is written before =>")
		}
		if g := field(p, "Result", "Rule"); !k.value(st, g, vals[1]) {
			wrong("Result", g, "what is written after =>")
		}
		k.expr(st, role, pos, "Condition", field(p, "Condition", "Rule"), cond, 0, wrong)
		g := field(p, "Block", "Rule")
		if block == nil && !same(unbox(g), tStr("")) {
			wrong("Block", g, "empty although no block is written")
		}
		if block != nil && !same(unbox(g), sliceOf(block.Text, tInt(1), nil)) {
			wrong("Block", g, "the text after @")
		}
	case "SExpr":
		p := ptr("SExpr")
		if p == nil {
			return
		}
		var binding, op, typ, auxint, aux *ptree
		var args []*ptree
		ell, trail := false, false
		for _, kid := range t.Kids {
			switch {
			case kid.Lit == "...":
				ell = true
			case kid.Lit == "___":
				trail = true
			case kid.Lit != "":
			case kid.Role == "Op":
				op = kid
			case kid.Role == "Variable" && op == nil:
				binding = kid
			case kid.Role == "Type":
				typ = kid
			case kid.Role == "AuxInt":
				auxint = kid
			case kid.Role == "Aux":
				aux = kid
			case kid.Role != "":
				args = append(args, kid)
			}
		}
		g := field(p, "Binding", "SExpr")
		if binding == nil && !same(unbox(g), tStr("")) || binding != nil && !same(unbox(g), binding.Text) {
			wrong("Binding", g, "the name written before the colon, if any")
		}
		if g = field(p, "Op", "SExpr"); op == nil || !same(g, op.Val) {
			wrong("Op", g, "the opcode written")
		}
		g = field(p, "Type", "SExpr")
		if typ == nil && !same(unbox(g), tStr("")) || typ != nil && !same(unbox(g), inner(typ.Text)) {
			wrong("Type", g, "the text written between < and >, if any")
		}
		k.expr(st, role, pos, "AuxInt", field(p, "AuxInt", "SExpr"), auxint, 1, wrong)
		k.expr(st, role, pos, "Aux", field(p, "Aux", "SExpr"), aux, 1, wrong)
		k.list(st, "Args", field(p, "Args", "SExpr"), args, nil, wrong)
		if g = field(p, "Ellipsis", "SExpr"); !same(g, tBool(ell)) {
			wrong("Ellipsis", g, fmt.Sprint(ell))
		}
		if g = field(p, "Trailing", "SExpr"); !same(g, tBool(trail)) {
			wrong("Trailing", g, fmt.Sprint(trail))
		}
	case "Op":
		var parts []*ptree
		for _, kid := range t.Kids {
			if kid.Role != "" {
				parts = append(parts, kid)
			}
		}
		dt := dynOf(val)
		if len(parts) == 1 && parts[0].Role == "OpPart" {
			if dt == nil || !types.Identical(dt, k.d.astType("Opcode")) || !same(unbox(val), parts[0].Text) {
				k.bad("C03", "value:Op", pos, "the opcode read from %s is %s, not the text written", what, clip(val.String(), 100))
			}
			return
		}
		if dt == nil || !types.Identical(dt, k.d.astType("OpcodeParts")) {
			k.bad("C03", "value:Op", pos, "the opcode read from %s is %s, not its list of parts", what, clip(val.String(), 100))
			return
		}
		k.list(st, "parts", unbox(val), parts, nil, wrong)
	}
}

// actionBody is the function with the source of an action: run is a wrapper.
func (k *deriveChecker) actionBody(fn *ssa.Function) *ssa.Function {
	for i := 0; i < 3; i++ {
		var only *ssa.Function
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if s := c.Call.StaticCallee(); s != nil && k.a.c.p.inRepo(s) {
						only = s
						n++
					}
				}
			}
		}
		if len(fn.Blocks) == 1 && n == 1 {
			fn = only
			continue
		}
		break
	}
	return fn
}

// inner is the text between one-character delimiters.
func inner(t *Term) *Term { return sliceOf(t, tInt(1), sub(lenOf(t), tInt(1))) }

func (k *deriveChecker) list(st *State, f string, got *Term, want []*ptree, _ *Term, wrong func(string, *Term, string)) {
	var ws []*ptree
	for _, w := range want {
		if w.Role != "" {
			ws = append(ws, w)
		}
	}
	l := k.d.x.view(st, unbox(got))
	segs := asSegs(l)
	if len(segs) != len(ws) {
		wrong(f, l, fmt.Sprintf("the %d written", len(ws)))
		return
	}
	for i, s := range segs {
		if s.Op != "one" || !k.value(st, s.A[0], ws[i]) {
			wrong(f, l, "what is written, in order")
			return
		}
	}
}

// value: got is the value of construct w.
func (k *deriveChecker) value(st *State, got *Term, w *ptree) bool {
	if w.Sym {
		return same(unbox(got), unbox(w.Val))
	}
	typed := func(name string) bool {
		dt := dynOf(got)
		return dt != nil && types.Identical(dt, k.d.astType(name))
	}
	switch w.Role {
	case "Variable", "Placeholder":
		return typed("Variable") && same(unbox(got), w.Text)
	case "OpPart":
		// an element of an alternation is an opcode as it stands
		return (dynOf(got) == nil || typed("Opcode")) && same(unbox(got), w.Text)
	case "OpAlt":
		if !typed("OpcodeAlt") {
			return false
		}
		var parts []*ptree
		for _, kid := range w.Kids {
			if kid.Role != "" {
				parts = append(parts, kid)
			}
		}
		segs := asSegs(k.d.x.view(st, unbox(got)))
		if len(segs) != len(parts) {
			return false
		}
		for i, s := range segs {
			if s.Op != "one" || !same(unbox(s.A[0]), parts[i].Text) {
				return false
			}
		}
		return true
	case "Call":
		dt := dynOf(got)
		if dt == nil || !types.Identical(dt, types.NewPointer(k.d.astType("Expr"))) {
			return false
		}
		return same(k.exprOf(st, unbox(got)), goexprTerm(w.Text))
	}
	return false
}

func (k *deriveChecker) exprOf(st *State, p *Term) *Term {
	sct := structOf(k.d.astType("Expr"))
	return unbox(k.d.x.read(st, fld("Expr", p), sct.Field(0).Type()))
}

// expr: got points to the expression written in w, or is nil if w is.
func (k *deriveChecker) expr(st *State, role, pos, f string, got *Term, w *ptree, trim int, wrong func(string, *Term, string)) {
	g := unbox(got)
	if w == nil {
		if g.Op != "nil" {
			wrong(f, got, "empty although none is written")
		}
		return
	}
	if g.Op == "nil" {
		wrong(f, got, "the expression written")
		return
	}
	text := w.Text
	if trim > 0 {
		text = inner(text)
	}
	e := k.exprOf(st, g)
	if e.Op != "goexpr" {
		wrong(f, e, "the expression written")
		return
	}
	a, joined := exprText(e.A[0])
	if !same(a, text) {
		wrong(f, a, "the text written")
		return
	}
	if joined {
		if f == "Condition" {
			k.bad("C23", "carriage-return-in-condition", pos, "carriage returns in the text of a condition reach the expression reader, which drops them from raw strings: =, CR, > in one becomes =>, which ends the condition when it is printed and read again")
		}
		k.bad("C03", "comment-in-"+strings.ToLower(f), pos, "line breaks in a %s become spaces before it is read as an expression: a comment in it then hides the rest of it", f)
	}
}

// exprText is the text an expression is read from: blanks around it do not
// matter to the reader, line breaks may be turned into blanks.
func exprText(a *Term) (text *Term, joined bool) {
	blank := func(from, to *Term) bool {
		str := func(t *Term) string {
			if unbox(t).isStr() {
				return unbox(t).S
			}
			return bytesConst(t)
		}
		return str(from) == "\n" && str(to) == " "
	}
	for {
		a = unbox(a)
		switch {
		case a.Op == "conv" && len(a.A) == 1:
			a = a.A[0]
		case a.Op == "join" && len(a.A) == 2 && isSplit(a.A[0]) && unbox(a.A[1]).isStr() && unbox(a.A[1]).S == " " && len(unbox(a.A[0]).A) > 0:
			a, joined = unbox(a.A[0]).A[0], true
		case a.Op != "call" || len(a.A) == 0:
			return a, joined
		case strings.HasPrefix(a.S, "strings.TrimSpace"), strings.HasPrefix(a.S, "bytes.TrimSpace"):
			a = a.A[0]
		case (strings.HasPrefix(a.S, "strings.ReplaceAll") || strings.HasPrefix(a.S, "bytes.ReplaceAll")) && len(a.A) == 3 && blank(a.A[1], a.A[2]):
			a, joined = a.A[0], true
		case (a.S == "strings.Replace" || a.S == "bytes.Replace") && len(a.A) == 4 && blank(a.A[1], a.A[2]) && unbox(a.A[3]).isInt() && unbox(a.A[3]).N < 0:
			a, joined = a.A[0], true
		default:
			return a, joined
		}
	}
}

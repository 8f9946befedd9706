package main

// C10: adjacent tokens of printed expressions do not run together.

import (
	"fmt"
	goscanner "go/scanner"
	gotoken "go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shape describes an expression as far as token adjacency depends on it.
type shape struct {
	kind string        // goast type name
	op   gotoken.Token // Unary, Binary
	sub  map[string]*shape
	lit  gotoken.Token
	val  string // text of a literal
}

func (s *shape) String() string {
	switch s.kind {
	case "Ident":
		return "x"
	case "BasicLit":
		return s.val
	case "UnaryExpr":
		return s.op.String() + s.sub["X"].String()
	case "StarExpr":
		return "*" + s.sub["X"].String()
	case "BinaryExpr":
		return s.sub["X"].String() + " " + s.op.String() + " " + s.sub["Y"].String()
	case "ParenExpr":
		return "(" + s.sub["X"].String() + ")"
	case "SelectorExpr":
		return s.sub["X"].String() + " .Sel"
	case "CallExpr":
		return s.sub["Fun"].String() + "(...)"
	}
	return s.kind
}

// first is the first token of the printed form; last likewise.
func (s *shape) first() string {
	switch s.kind {
	case "UnaryExpr":
		return s.op.String()
	case "StarExpr":
		return "*"
	case "BinaryExpr", "SelectorExpr":
		return s.sub["X"].first()
	case "CallExpr":
		return s.sub["Fun"].first()
	case "ParenExpr":
		return "("
	case "BasicLit":
		return s.String()
	}
	return "x"
}

func (s *shape) last() string {
	switch s.kind {
	case "UnaryExpr", "StarExpr":
		return s.sub["X"].last()
	case "BinaryExpr":
		return s.sub["Y"].last()
	case "ParenExpr", "CallExpr":
		return ")"
	case "BasicLit":
		return s.String()
	}
	return "x"
}

var unaryOps = []gotoken.Token{gotoken.ADD, gotoken.SUB, gotoken.NOT, gotoken.XOR, gotoken.AND, gotoken.ARROW, gotoken.TILDE}
var binaryOps = []gotoken.Token{gotoken.LOR, gotoken.LAND, gotoken.EQL, gotoken.NEQ, gotoken.LSS, gotoken.LEQ, gotoken.GTR, gotoken.GEQ,
	gotoken.ADD, gotoken.SUB, gotoken.OR, gotoken.XOR, gotoken.MUL, gotoken.QUO, gotoken.REM, gotoken.SHL, gotoken.SHR, gotoken.AND, gotoken.AND_NOT}

// scanTokens is how Go reads a text.
func scanTokens(src string) []string {
	var s goscanner.Scanner
	fs := gotoken.NewFileSet()
	f := fs.AddFile("", fs.Base(), len(src))
	s.Init(f, []byte(src), func(gotoken.Position, string) {}, goscanner.ScanComments|goscanner.Mode(2)) // no automatic semicolons
	var out []string
	for {
		_, tok, lit := s.Scan()
		if tok == gotoken.EOF {
			return out
		}
		if tok == gotoken.SEMICOLON && lit == "\n" {
			continue
		}
		if lit == "" {
			lit = tok.String()
		}
		out = append(out, tok.String()+":"+lit)
	}
}

// placeShape records the facts of a shape about expression term t.
func (p *Program) placeShape(x *Exec, st *State, t *Term, s *shape) {
	typ := p.typ(goAst, s.kind, true)
	st.facts.types[t.Key()] = typeFact{incl: map[string]types.Type{tkey(typ): typ}}
	st.facts.terms[t.Key()] = t
	st.facts.nils[t.Key()] = no
	switch s.kind {
	case "UnaryExpr", "BinaryExpr":
		x.set(st, fld("Op", t), tInt(int64(s.op)))
	case "BasicLit":
		x.set(st, fld("Kind", t), tInt(int64(s.lit)))
		x.set(st, fld("Value", t), tStr(s.String()))
	}
	for f, q := range s.sub {
		if strings.HasPrefix(f, "Args") {
			continue
		}
		p.placeShape(x, st, fld(f, t), q)
	}
	if s.kind == "CallExpr" {
		l := app()
		for i := 0; ; i++ {
			q := s.sub[fmt.Sprintf("Args%d", i)]
			if q == nil {
				break
			}
			at := &Term{Op: "in", S: fmt.Sprintf("arg%d.%s", i, t.Key())}
			p.placeShape(x, st, at, q)
			l = app(l, mk("one", "", at))
		}
		x.set(st, fld("Args", t), l)
		x.set(st, fld("Ellipsis", t), tInt(7))
	}
}

func shapeOf(s *shape, t *Term, root *Term) *shape {
	// t is a path of fields below root
	if same(t, root) {
		return s
	}
	if t.Op == "in" && strings.HasPrefix(t.S, "arg") {
		var i int
		fmt.Sscanf(t.S, "arg%d.", &i)
		return s.sub[fmt.Sprintf("Args%d", i)]
	}
	if t.Op == "fld" {
		par := t.A[0]
		if par.Op == "deref" {
			par = par.A[0]
		}
		if q := shapeOf(s, par, root); q != nil {
			return q.sub[t.S]
		}
	}
	return nil
}

func init() {
	checks["C10"] = func(c *Check) {
		c.rule = "For every operator (7 unary, *, 19 binary) and every way its operand can begin with an operator (unary operator or *, directly or at the left end of a chain of binary operators up to depth 3), for literals of every kind (26 texts: signs of exponents, prefixes, separators, lengths from 1 to 30 digits) followed by a selector or by the ellipsis of a call: constant propagation of the printer on that shape gives the text between the tokens; Go's scanner must read operator, text and first token of the operand as separate tokens."
		c.assumptions = []string{"operand expressions print their own first token first (C09)", "expressions are as the parser builds them: a selector, call or index operand with a leading operator is in parentheses", "binary chains deeper than 3 on the left behave as those of depth 3"}
		pc := newPrintCheck(c)
		if pc == nil {
			return
		}
		pc.run()
		pc.tokenShapes()
	}
}

func (pc *printCheck) tokenShape(fp *ssa.Function, init *State, s *shape) bool {
	c := pc.c
	x := newExec(pc.p)
	x.Unroll = true
	x.RecDepth = 8
	st := init.clone()
	w, n := tIn("w"), tIn("n")
	et := pc.p.typ(astPkg, "Expr", true)
	st.facts.types[n.Key()] = typeFact{incl: map[string]types.Type{tkey(et): et}}
	st.facts.terms[n.Key()] = n
	st.facts.nils[n.Key()] = no
	root := fld("Expr", n)
	pc.p.placeShape(x, st, root, s)
	x.OnCall = func(cc *CallCtx) ([]Outcome, bool) {
		ni, ok := pc.cands[cc.Fn]
		if !ok || cc.Fn == nil {
			return nil, false
		}
		arg := cc.X.resolve(cc.St, cc.Args[ni])
		if same(arg, n) || same(arg, root) {
			return nil, false
		}
		si := pc.p.sinkArg(cc.Fn)
		w := cc.X.sinkTerm(cc.St, cc.Fn.Params[si].Type(), cc.Args[si])
		cc.X.emit(cc.St, w, mk("node", "", arg))
		if cc.Fn.Signature.Results().Len() == 1 {
			return cc.ret(cc.St, tNil), true
		}
		return cc.ret(cc.St), true
	}
	outs := x.Call(fp, []*Term{w, n}, st)
	key := "tokens of " + s.String()
	c.saw(x)
	if len(x.undecided) > 0 {
		return false
	}
	good := len(outs) > 0
	if !good {
		c.fail(key, pc.p.pos(fp.Pos()), "no path")
	}
	for _, o := range outs {
		if o.Kind == oPanic {
			c.fail(key, pc.p.pos(o.Pos), "panics: %s", o.Msg)
			return false
		}
		if o.St.facts.isNil(o.Vals[0]) != yes {
			if s.op == gotoken.TILDE || s.kind == "UnaryExpr" && s.sub["X"].op == gotoken.TILDE {
				continue
			}
			c.fail(key, pc.p.pos(o.Pos), "not printed: error %s", o.Vals[0])
			return false
		}
		parts := catParts(x.resolve(o.St, x.readContent(o.St, w)))
		if len(parts) > 0 && same(parts[0], content(w)) {
			parts = parts[1:]
		}
		var text strings.Builder // as printed, sub-expressions by a stand-in
		var want []string
		for _, q := range parts {
			switch {
			case q.isStr():
				text.WriteString(q.S)
				want = append(want, scanTokens(q.S)...)
			case q.Op == "node":
				sub := shapeOf(s, x.resolve(o.St, q.A[0]), root)
				if sub == nil {
					c.fail(key, pc.p.pos(fp.Pos()), "cannot relate printed part %s to the shape", q)
					return false
				}
				t := standIn(sub)
				text.WriteString(t)
				want = append(want, scanTokens(t)...)
			default:
				text.WriteString("x")
				want = append(want, scanTokens("x")...)
			}
		}
		got := scanTokens(text.String())
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.fail(key, pc.p.pos(fp.Pos()), "%q is read as %v instead of %v", text.String(), got, want)
			good = false
		}
	}
	if good {
		c.ok(key, "tokens stay apart")
	}
	return good
}

// standIn is a text with the same first and last token as the printed form.
func standIn(s *shape) string {
	f, l := s.first(), s.last()
	if f == "x" && l == "x" || s.kind == "BasicLit" {
		return f
	}
	if f == "x" && l == ")" {
		return "x()"
	}
	if f == "(" && l == ")" {
		return "(x)"
	}
	return f + " " + l
}

// tokenShapes decides for every shape of operator and operand how it is printed.
func (pc *printCheck) tokenShapes() {
	c := pc.c
	fp := pc.pkg.Func("Fprint")
	if fp == nil {
		c.fail("anchor", "", "function printer.Fprint not found")
		return
	}
	init := c.p.withInit(pc.pkg)
	ident := &shape{kind: "Ident"}
	un := func(op gotoken.Token) *shape {
		return &shape{kind: "UnaryExpr", op: op, sub: map[string]*shape{"X": ident}}
	}
	star := &shape{kind: "StarExpr", sub: map[string]*shape{"X": ident}}
	bin := func(op gotoken.Token, l, r *shape) *shape {
		return &shape{kind: "BinaryExpr", op: op, sub: map[string]*shape{"X": l, "Y": r}}
	}
	num := &shape{kind: "BasicLit", lit: gotoken.INT, val: "1"}
	var lits []*shape
	for _, l := range []struct {
		k  gotoken.Token
		vs []string
	}{
		{gotoken.INT, []string{"1", "0", "10", "0x1f", "0b1", "0o17", "017", "1_0", "1234567890", "123456789012345678901234567890"}},
		{gotoken.FLOAT, []string{"1.5", "1e5", ".5", "0x1p4", "1e-10", "12345678901234567890.5"}},
		{gotoken.IMAG, []string{"1i", "1.5i", "10i"}},
		{gotoken.CHAR, []string{"'a'", "'\\n'", "'.'"}},
		{gotoken.STRING, []string{"\"\"", "\"s\"", "`r`", "\"1\""}},
	} {
		for _, v := range l.vs {
			lits = append(lits, &shape{kind: "BasicLit", lit: l.k, val: v})
		}
	}
	operands := []*shape{ident, num, star}
	var leads []*shape
	for _, u := range unaryOps {
		leads = append(leads, un(u))
	}
	leads = append(leads, star)
	operands = append(operands, leads...)
	for _, l := range leads {
		if l.op == gotoken.TILDE {
			continue
		}
		d := l
		for depth := 0; depth < 3; depth++ {
			d = bin(gotoken.MUL, d, ident)
			operands = append(operands, d)
		}
	}
	for _, op := range []gotoken.Token{gotoken.SHL, gotoken.AND, gotoken.REM, gotoken.QUO, gotoken.AND_NOT, gotoken.SHR} {
		operands = append(operands, bin(op, un(gotoken.SUB), ident), bin(op, un(gotoken.AND), ident))
	}
	operands = append(operands, &shape{kind: "ParenExpr", sub: map[string]*shape{"X": un(gotoken.SUB)}},
		&shape{kind: "CallExpr", sub: map[string]*shape{"Fun": ident}},
		&shape{kind: "SelectorExpr", sub: map[string]*shape{"X": ident, "Sel": ident}})
	var shapes []*shape
	for _, q := range operands {
		for _, u := range unaryOps {
			if u != gotoken.TILDE && q.kind != "BinaryExpr" {
				shapes = append(shapes, &shape{kind: "UnaryExpr", op: u, sub: map[string]*shape{"X": q}})
			}
		}
		if q.kind != "BinaryExpr" {
			shapes = append(shapes, &shape{kind: "StarExpr", sub: map[string]*shape{"X": q}})
		}
		for _, b := range binaryOps {
			shapes = append(shapes, bin(b, ident, q))
		}
	}
	for _, n := range lits {
		shapes = append(shapes, &shape{kind: "SelectorExpr", sub: map[string]*shape{"X": n, "Sel": ident}})
		for _, a := range []*shape{n, un(gotoken.SUB), bin(gotoken.ADD, ident, n), {kind: "UnaryExpr", op: gotoken.SUB, sub: map[string]*shape{"X": n}}} {
			shapes = append(shapes, &shape{kind: "CallExpr", sub: map[string]*shape{"Fun": ident, "Args0": a}})
			shapes = append(shapes, &shape{kind: "CallExpr", sub: map[string]*shape{"Fun": ident, "Args0": ident, "Args1": a}})
		}
	}
	bad := 0
	for _, s := range shapes {
		if !pc.tokenShape(fp, init, s) {
			bad++
			if bad > 8 {
				break
			}
		}
	}
	c.counts["shapes"] = len(shapes)
	c.check(len(shapes) > 400, "shapes", "", "%d operator and operand shapes", len(shapes))
}

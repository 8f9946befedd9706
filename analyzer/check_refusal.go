package main

// C29: a refusal names what is refused.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// words are the words of the constant parts of a text, in lower case.
func wordsOf(parts []*Term) map[string]bool {
	res := map[string]bool{}
	var b strings.Builder
	for _, t := range parts {
		if t.isStr() {
			b.WriteString(t.S)
		} else {
			b.WriteString(" ")
		}
	}
	for _, w := range strings.FieldsFunc(strings.ToLower(b.String()), func(r rune) bool { return !unicode.IsLetter(r) }) {
		res[w] = true
		res[strings.TrimSuffix(w, "s")] = true
	}
	return res
}

// mentions: the term itself is one of the parts of a text.
func namesTerm(parts []*Term, t *Term) bool {
	t = unbox(t)
	for _, p := range parts {
		q := p
		for (typeOrFull(q) || q.Op == "conv" || q.Op == "call" && strings.HasSuffix(q.S, "String")) && len(q.A) == 1 {
			q = unbox(q.A[0])
		}
		if same(q, t) {
			return true
		}
		if t.isStr() && p.isStr() && hasWord(p.S, t.S) {
			return true
		}
	}
	return false
}

func hasWord(s, w string) bool {
	part := func(r byte) bool { return r == '_' || unicode.IsLetter(rune(r)) || unicode.IsDigit(rune(r)) }
	for i := 0; i+len(w) <= len(s); i++ {
		if s[i:i+len(w)] == w && (i == 0 || !part(s[i-1])) && (i+len(w) == len(s) || !part(s[i+len(w)])) {
			return true
		}
	}
	return false
}

var (
	saidExpected = regexp.MustCompile(`(?i)\b(?:expect|expects|expected|want|wants|wanted|need|needs|takes|requires)\W+([0-9]+)\b`)
	saidGiven    = regexp.MustCompile(`(?i)\b(?:got|have|has|given|found)\W+([0-9]+)\b`)
)

// plainText is the text with its unknown parts left out.
func plainText(parts []*Term) string {
	var b strings.Builder
	for _, t := range parts {
		switch {
		case t.isStr():
			b.WriteString(t.S)
		case t.isInt():
			b.WriteString(fmt.Sprint(t.N))
		default:
			b.WriteString("?")
		}
	}
	return b.String()
}

func mentionsNumber(parts []*Term, n int) bool {
	for _, m := range numbersIn(parts) {
		if m == n {
			return true
		}
	}
	return false
}

// cause is the error of a failed evaluation named in a text.
func cause(parts []*Term, names ...string) *Term {
	for _, p := range parts {
		if p.Op == "err" {
			for _, n := range names {
				if strings.HasPrefix(p.S, n) {
					return p
				}
			}
		}
	}
	return nil
}

// entryReason says what is wrong with the error of Generate.
func (sc *smtCheck) entryReason(x *Exec, o Outcome, r *Term) string {
	f := o.St.facts
	txt := x.errorText(o.St, o.Vals[1])
	said := clip(fmt.Sprint(txt), 160)
	if o.St.ghost != "" {
		if cause(txt, "eval@", "printer") == nil {
			return fmt.Sprintf("the reason of what failed is not part of the error %s", said)
		}
		return ""
	}
	var want []string
	if f.isNil(fld("Condition", r)) == no {
		want = append(want, "condition")
	}
	if f.eval(strEq(fld("Block", r), tStr(""))) == no {
		want = append(want, "block")
	}
	return namesOne(txt, want, said)
}

func namesOne(txt []*Term, want []string, said string) string {
	if len(want) == 0 {
		return ""
	}
	ws := wordsOf(txt)
	for _, w := range want {
		if ws[w] {
			return ""
		}
	}
	return fmt.Sprintf("what is refused (%s) is not named in the error %s", strings.Join(want, ", "), said)
}

// reason says what is wrong with the error of an evaluation.
func (sc *smtCheck) reason(x *Exec, r smtRun, o Outcome, static types.Type, is func(string) bool) string {
	f := o.St.facts
	n := r.node
	txt := x.errorText(o.St, o.Vals[1])
	said := clip(fmt.Sprint(txt), 160)
	if o.St.ghost != "" {
		e := cause(txt, "eval@")
		if e == nil {
			return fmt.Sprintf("the reason of what failed is not part of the error %s", said)
		}
		if len(e.A) == 1 && same(e.A[0], unbox(n)) {
			return "" // the node itself, evaluated by a helper
		}
		if r.op == "" {
			return ""
		}
		if !namesTerm(txt, tStr(r.op)) {
			return fmt.Sprintf("the opcode %s is not named in the error %s about its argument", r.op, said)
		}
		for i, a := range r.args {
			if len(e.A) == 1 && same(e.A[0], a) && !mentionsNumber(txt, i) && !mentionsNumber(txt, i+1) {
				return fmt.Sprintf("the error %s does not say which argument (%d) of %s is refused", said, i, r.op)
			}
		}
		return ""
	}
	switch {
	case is("ast.Variable"):
		if !namesTerm(txt, n) {
			return fmt.Sprintf("the variable is not named in the error %s", said)
		}
		if _, ok := smtSorts[r.req.kind]; !ok && r.req.name != "no type" && !sc.foundElsewhere(x, r, o) && !mentionsType(txt, r.req) {
			return fmt.Sprintf("the type is not named in the error %s", said)
		}
		return ""
	case is("ast.SExpr"):
	default:
		if len(f.dynTypes(n, static)) > 0 || types.IsInterface(static) {
			if showsNode(txt, n) {
				return ""
			}
			return fmt.Sprintf("neither the node nor its type is part of the error %s", said)
		}
		return ""
	}
	var want []string
	for _, s := range []string{"Binding", "Type"} {
		if f.eval(strEq(fld(s, n), tStr(""))) == no {
			want = append(want, strings.ToLower(s))
		}
	}
	for _, s := range []string{"AuxInt", "Aux"} {
		if f.isNil(fld(s, n)) == no {
			want = append(want, strings.ToLower(s))
		}
	}
	for _, s := range []string{"Ellipsis", "Trailing"} {
		if f.eval(fld(s, n)) == yes {
			want = append(want, strings.ToLower(s))
		}
	}
	if len(want) > 0 {
		return namesOne(txt, want, said)
	}
	if r.op == "" {
		op := x.resolve(o.St, fld("Op", n))
		if namesTerm(txt, op) {
			return ""
		}
		opc := sc.p.typ(astPkg, "Opcode", false)
		ts := f.dynTypes(op, sc.p.namedType(astPkg, "Op"))
		plain := ts == nil
		for _, t := range ts {
			plain = plain || types.Identical(t, opc)
		}
		if plain {
			return fmt.Sprintf("the opcode is not named in the error %s", said)
		}
		return namesOne(txt, []string{"opcode", "alternative", "alternation"}, said)
	}
	if !namesTerm(txt, tStr(r.op)) {
		return fmt.Sprintf("the opcode %s is not named in the error %s", r.op, said)
	}
	spec, ok := smtOps[r.op]
	if !ok {
		return ""
	}
	if _, modelled := sc.keys[r.op]; !modelled {
		return ""
	}
	right := r.req.name == "no type" || resultIs(spec, r.req.kind)
	count := len(spec.sigs[0].params)
	if !right && mentionsType(txt, r.req) {
		return ""
	}
	if len(r.args) != count {
		if !mentionsNumber(txt, count) || !mentionsNumber(txt, len(r.args)) {
			return fmt.Sprintf("the error %s about %s with %d arguments does not give both numbers (%d expected)", said, r.op, len(r.args), count)
		}
		for _, m := range saidExpected.FindAllStringSubmatch(plainText(txt), -1) {
			if m[1] != fmt.Sprint(count) {
				return fmt.Sprintf("the error %s about %s gives %s as the number of arguments it takes, instead of %d", said, r.op, m[1], count)
			}
		}
		for _, m := range saidGiven.FindAllStringSubmatch(plainText(txt), -1) {
			if m[1] != fmt.Sprint(len(r.args)) {
				return fmt.Sprintf("the error %s about %s gives %s as the number of its arguments, instead of %d", said, r.op, m[1], len(r.args))
			}
		}
		return ""
	}
	if !right {
		return fmt.Sprintf("the error %s about %s at type %s does not name the type", said, r.op, r.req.name)
	}
	return ""
}

func mentionsType(txt []*Term, req smtReq) bool {
	if namesTerm(txt, req.t) || namesTerm(txt, tStr(req.name)) {
		return true
	}
	for _, p := range txt {
		for (typeOrFull(p) || p.Op == "call") && len(p.A) >= 1 {
			p = unbox(p.A[0])
		}
		if p.Op == "obj" && req.t.Op == "obj" && p.S == req.t.S || same(p, req.t) {
			return true
		}
	}
	return false
}

// foundElsewhere: the variable is known at some type.
func (sc *smtCheck) foundElsewhere(x *Exec, r smtRun, o Outcome) bool {
	return sc.isFound(o.St.facts, r.node) == yes
}

// reason says what is wrong with the error of expanding a node.
func (ec *expandCheck) reason(sp *espec, x *Exec, o Outcome, err, a *Term, kind string, static types.Type, pos string) []efail {
	f := o.St.facts
	txt := x.errorText(o.St, err)
	said := clip(fmt.Sprint(txt), 160)
	bad := func(format string, args ...interface{}) []efail {
		return []efail{{"C29", pos, fmt.Sprintf(format, args...)}}
	}
	if cause(txt, errNode.S) != nil {
		return nil
	}
	if kind == "bad" {
		if !showsNode(txt, a) {
			return bad("neither the node nor its type is part of the error %s", said)
		}
		return nil
	}
	if f.eval(tFails(a)) == yes {
		return bad("the reason of what failed is not part of the error %s", said)
	}
	if sp == nil {
		return nil // C15 says that it should not be refused
	}
	w := ec.world(sp, f, o.St.events)
	if !w.feasible() {
		return nil
	}
	var all []source
	for _, s := range sp.fixed {
		all = append(all, ec.source(f, s.node, s.static))
	}
	all = append(all, w.partial...)
	for _, s := range all {
		if s.kind == "exp" && f.eval(tFails(s.node)) == yes {
			return bad("the reason of what failed is not part of the error %s", said)
		}
		if s.kind == "bad" {
			if !showsNode(txt, s.node) {
				return bad("neither the refused part nor its type is part of the error %s", said)
			}
			return nil
		}
	}
	terms := append([]*Term{}, w.sources...)
	var n *Term
	if sp.kind == "parts" {
		n = lenOf(sp.list)
		terms = append(terms, n)
		var unknown []*Term
		for _, e := range o.St.events {
			if e.Kind == "loop" && !e.Full {
				if el := idx(sp.list, e.L.K); len(f.dynTypes(el, sp.static)) == 0 {
					unknown = append(unknown, el)
				}
			}
		}
		for k, tf := range f.types {
			if t := f.terms[k]; t != nil && t.Op == "idx" && same(unbox(t.A[0]), unbox(sp.list)) && tf.incl != nil && len(tf.incl) == 0 {
				unknown = append(unknown, t)
			}
		}
		for _, u := range unknown {
			if showsNode(txt, u) {
				return nil
			}
		}
		if len(unknown) > 0 {
			return bad("neither the refused part nor its type is part of the error %s", said)
		}
	}
	// which two counts do not match
	var nums []*Term
	for _, t := range txt {
		if !t.isStr() && t.Op != "err" && t.Op != "fmt" {
			nums = append(nums, t)
		}
	}
	terms = append(terms, nums...)
	if n := numbersIn(txt); len(n) > 0 {
		for _, k := range n {
			nums = append(nums, tInt(int64(k)))
		}
	}
	ok, cex := w.implied(f.conds, terms, func(ev func(*Term) int64) bool {
		for i, a := range nums {
			for _, b := range nums[i+1:] {
				if !compat(ev(a), ev(b)) {
					return true
				}
			}
		}
		for _, s := range w.partial {
			if s.kind == "alt" && ev(s.cnt) < 1 {
				return true
			}
		}
		return sp.kind == "parts" && (ev(n) == 0 || w.joined && ev(listCount(sp.list)) <= 1)
	})
	if !ok {
		return bad("the two counts that do not match are not both part of the error %s: %s", said, cex)
	}
	return nil
}

// showsNode: a node or its type is part of a text.
func showsNode(txt []*Term, n *Term) bool {
	for _, p := range txt {
		for (typeOrFull(p) || p.Op == "call" || p.Op == "conv") && len(p.A) == 1 {
			p = unbox(p.A[0])
		}
		if same(p, unbox(n)) {
			return true
		}
	}
	return false
}

// named says what is wrong with the error of a node that cannot be printed.
func (ec *errCheck) named(x *Exec, fn *ssa.Function, o Outcome, e, node *Term) string {
	txt := x.errorText(o.St, e)
	if cause(txt, errNode.S) != nil {
		return ""
	}
	for _, p := range txt {
		for (typeOrFull(p) || p.Op == "call" || p.Op == "conv") && len(p.A) == 1 {
			p = unbox(p.A[0])
		}
		if p.isStr() || p.isInt() {
			continue
		}
		if node != nil && !same(rootOf(p), rootOf(unbox(node))) {
			continue
		}
		var static types.Type
		if node != nil && same(p, unbox(node)) {
			if ni, ok := ec.cands[fn]; ok {
				static = fn.Params[ni].Type()
			}
		}
		ts := o.St.facts.dynTypes(p, static)
		printable := false
		for _, t := range ts {
			if _, ok := ec.p.expandNode(p, t); ok {
				printable = true
			}
		}
		if !printable {
			return ""
		}
	}
	return fmt.Sprintf("%s refuses a node whose type is not part of the error %s", fn.Name(), clip(fmt.Sprint(txt), 160))
}

// reasons: the error about an expression says what is wrong with it.
func (r *goexprResult) reasons(c *Check) {
	p := c.p
	n := 0
	for _, ins := range r.insp {
		for _, vp := range ins.paths {
			if vp.nilNode {
				continue
			}
			for key, sym := range ins.carried {
				cl, ok := vp.o.St.mem[key]
				if !ok || same(cl.val, sym) || vp.o.St.facts.isNil(cl.val) != no {
					continue
				}
				txt := r.x.errorText(vp.o.St, cl.val)
				if len(txt) == 1 && isConstant(txt[0]) && !txt[0].isStr() {
					continue // not an error: a flag
				}
				kept := false
				for _, t := range txt {
					kept = kept || same(t, sym)
				}
				n++
				if !kept && !showsNode(txt, vp.node) {
					c.fail("expression", p.pos(vp.o.Pos), "neither the refused part of an expression nor its type is part of the error %s", clip(fmt.Sprint(txt), 160))
				}
			}
		}
	}
	for _, o := range r.outs {
		if o.Kind == oPanic || len(o.Vals) != 2 || o.St.facts.isNil(o.Vals[1]) != no {
			continue
		}
		txt := r.x.errorText(o.St, o.Vals[1])
		ok := false
		for _, t := range txt {
			if t.Op == "goparseerr" {
				ok = true
			}
			for _, ins := range r.insp {
				for _, post := range ins.post {
					ok = ok || same(t, post) || mentionsTerm(t, post)
				}
			}
		}
		n++
		if !ok {
			c.fail("expression", p.pos(o.Pos), "the error %s of an expression does not contain the reason", clip(fmt.Sprint(txt), 160))
		}
	}
	if n > 0 {
		c.ok("expression", "%d errors say what is refused", n)
	} else {
		c.fail("expression", "", "no error path")
	}
}

func isConstant(t *Term) bool { return t.isStr() || t.isInt() || t.Op == "bool" || t.Op == "nil" }

func init() {
	checks["C29"] = func(c *Check) {
		c.rule = "The error paths of SMT generation and of expansion are those of C15 and C17-C19 (abstract interpretation of every evaluating and every expanding function on an arbitrary node). The text of the error of each path is followed symbolically through fmt, errors and the module's own error types: it has to contain the reason of a part that failed; the opcode, and the place of the argument, around an argument's error; the name of a refused feature that the path has found present; the variable or type that cannot be declared; both numbers where numbers differ; the type of a node that is not expected."
		c.assumptions = []string{"models of fmt and errors", "a feature goes by the name of its field"}
		if sc := newSmtCheck(c); sc != nil {
			sc.run()
		}
		if ec := newExpandCheck(c); ec != nil {
			ec.report("C29")
		}
		runErrCheck(c, true)
		if r, err := c.p.analyseGoexpr(); err != nil {
			c.fail("expression", "", "%v", err)
		} else {
			r.reasons(c)
		}
	}
}

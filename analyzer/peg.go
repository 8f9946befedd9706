package main

// Parsing expression grammars: the one built into the parser (read from the
// package's initial state), the one in the grammar file, and a normal form in
// which they are compared.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// peg is a node of a grammar.
type peg struct {
	Kind  string // seq choice star plus opt not and label action lit class any ref ...
	Sub   []*peg
	Str   string // literal, label or rule name
	Fold  bool
	Set   runeSet
	Run   *ssa.Function // action
	Bind  []*Term
	Code  string // action source
	Role  string // what the action builds (reference grammar)
	Pos   string
	Obj   *Term // the node's object
	Lay   bool  // stands for layout (reference grammar)
	Split bool
}

type pegRule struct {
	Name string
	Body *peg
}

type pegGrammar struct {
	Rules []*pegRule
	by    map[string]*pegRule
}

func (g *pegGrammar) rule(n string) *pegRule { return g.by[n] }

func newGrammar(rs []*pegRule) *pegGrammar {
	g := &pegGrammar{Rules: rs, by: map[string]*pegRule{}}
	for _, r := range rs {
		g.by[r.Name] = r // the last of several wins, as in a map
	}
	return g
}

// runeSet is a sorted list of disjoint inclusive ranges.
type runeSet [][2]rune

const maxRune = 0x10FFFF

func (s runeSet) norm() runeSet {
	var out runeSet
	t := append(runeSet{}, s...)
	for i := range t {
		for j := i + 1; j < len(t); j++ {
			if t[j][0] < t[i][0] {
				t[i], t[j] = t[j], t[i]
			}
		}
	}
	for _, r := range t {
		if r[0] > r[1] {
			continue
		}
		if n := len(out); n > 0 && r[0] <= out[n-1][1]+1 {
			if r[1] > out[n-1][1] {
				out[n-1][1] = r[1]
			}
			continue
		}
		out = append(out, r)
	}
	return out
}

func (s runeSet) invert() runeSet {
	var out runeSet
	next := rune(0)
	for _, r := range s.norm() {
		if r[0] > next {
			out = append(out, [2]rune{next, r[0] - 1})
		}
		next = r[1] + 1
	}
	if next <= maxRune {
		out = append(out, [2]rune{next, maxRune})
	}
	return out
}

func (s runeSet) equal(t runeSet) bool {
	a, b := s.norm(), t.norm()
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s runeSet) has(r rune) bool {
	for _, x := range s {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}

func (s runeSet) String() string {
	n := s.norm()
	inv := false
	if len(n) > 0 && n[len(n)-1][1] == maxRune {
		inv = true
		n = n.invert()
	}
	var b strings.Builder
	b.WriteString("[")
	if inv {
		b.WriteString("^")
	}
	for _, r := range n {
		q := func(c rune) string { s := fmt.Sprintf("%q", c); return s[1 : len(s)-1] }
		if r[0] == r[1] {
			b.WriteString(q(r[0]))
		} else {
			b.WriteString(q(r[0]) + "-" + q(r[1]))
		}
	}
	return b.String() + "]"
}

func (n *peg) String() string {
	if n == nil {
		return "nothing"
	}
	sub := func(i int) string {
		s := n.Sub[i].String()
		if len(n.Sub[i].Sub) > 1 {
			s = "(" + s + ")"
		}
		return s
	}
	switch n.Kind {
	case "seq":
		var out []string
		for i := range n.Sub {
			out = append(out, sub(i))
		}
		return strings.Join(out, " ")
	case "choice":
		var out []string
		for i := range n.Sub {
			out = append(out, sub(i))
		}
		return strings.Join(out, " / ")
	case "star":
		return sub(0) + "*"
	case "plus":
		return sub(0) + "+"
	case "opt":
		return sub(0) + "?"
	case "not":
		return "!" + sub(0)
	case "and":
		return "&" + sub(0)
	case "label":
		return n.Str + ":" + sub(0)
	case "action":
		return n.Sub[0].String() + " {action}"
	case "lit":
		if n.Fold {
			return fmt.Sprintf("%q", n.Str) + "i"
		}
		return fmt.Sprintf("%q", n.Str)
	case "class":
		return n.Set.String()
	case "any":
		return "."
	case "ref":
		return n.Str
	}
	return n.Kind
}

// ---- extraction from the parser

type pegReader struct {
	p    *Program
	x    *Exec
	st   *State
	memo map[string]*peg
	errs []string
}

func (r *pegReader) field(o *Term, name string) *Term {
	v := r.x.read(r.st, fld(name, o), r.fieldType(o, name))
	return unbox(v)
}

func (r *pegReader) fieldType(o *Term, name string) types.Type {
	st := structOf(o.T)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func (r *pegReader) list(t *Term) ([]*Term, bool) {
	v := r.x.view(r.st, t)
	if v.Op == "nil" {
		return nil, true
	}
	if v.Op != "app" {
		return nil, false
	}
	var out []*Term
	for _, s := range v.A {
		if s.Op != "one" {
			return nil, false
		}
		out = append(out, unbox(s.A[0]))
	}
	return out, true
}

func (r *pegReader) bad(f string, a ...interface{}) *peg {
	r.errs = append(r.errs, fmt.Sprintf(f, a...))
	return &peg{Kind: "unknown"}
}

func (r *pegReader) posOf(o *Term) string {
	pt := r.field(o, "pos")
	if pt.Op == "fld" && same(pt.A[0], o) || pt.Op == "zero" {
		pt = o
	}
	l, c := unbox(r.x.read(r.st, fld("line", pt), nil)), unbox(r.x.read(r.st, fld("col", pt), nil))
	if l.isInt() && c.isInt() {
		return fmt.Sprintf("rules.peg:%d:%d", l.N, c.N)
	}
	return "parse/internal/parser/zparser.go"
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

var pegKinds = map[string]string{
	"actionExpr": "action", "andCodeExpr": "andcode", "andExpr": "and", "anyMatcher": "any", "charClassMatcher": "class",
	"choiceExpr": "choice", "labeledExpr": "label", "litMatcher": "lit", "notCodeExpr": "notcode", "notExpr": "not",
	"oneOrMoreExpr": "plus", "recoveryExpr": "recovery", "ruleRefExpr": "ref", "seqExpr": "seq", "throwExpr": "throw",
	"zeroOrMoreExpr": "star", "zeroOrOneExpr": "opt",
}

func (r *pegReader) node(o *Term) *peg {
	o = unbox(o)
	if n := r.memo[o.Key()]; n != nil {
		return n
	}
	t := dynOf(o)
	if t == nil || o.Op != "new" {
		return r.bad("the grammar has an element %s that is not a node of the grammar", o)
	}
	kind := pegKinds[typeName(t)]
	n := &peg{Kind: kind, Obj: o, Pos: r.posOf(o)}
	r.memo[o.Key()] = n
	str := func(f string) string {
		v := r.field(o, f)
		if !v.isStr() {
			r.bad("%s: %s of a %s is not a constant", n.Pos, f, kind)
		}
		return v.S
	}
	flag := func(f string) bool {
		v := r.field(o, f)
		if !v.isTrue() && !v.isFalse() {
			r.bad("%s: %s of a %s is not a constant", n.Pos, f, kind)
		}
		return v.isTrue()
	}
	kids := func(f string) {
		l, ok := r.list(r.field(o, f))
		if !ok {
			r.bad("%s: %s of a %s is not a constant list", n.Pos, f, kind)
		}
		for _, k := range l {
			n.Sub = append(n.Sub, r.node(k))
		}
	}
	runes := func(f string) []rune {
		l, ok := r.list(r.field(o, f))
		var out []rune
		for _, k := range l {
			ok = ok && k.isInt()
			out = append(out, rune(k.N))
		}
		if !ok {
			r.bad("%s: %s of a %s is not a constant list", n.Pos, f, kind)
		}
		return out
	}
	switch kind {
	case "action":
		n.Sub = []*peg{r.node(r.field(o, "expr"))}
		run := r.field(o, "run")
		if run.Op != "fn" {
			r.bad("%s: the action is not a known function", n.Pos)
		} else {
			n.Run, n.Bind = run.Fn, run.A
		}
	case "andcode", "notcode", "throw", "recovery":
		r.bad("%s: a %s is not part of the notation", n.Pos, kind)
	case "and", "not", "plus", "star", "opt":
		n.Sub = []*peg{r.node(r.field(o, "expr"))}
	case "any":
	case "class":
		cs, rs := runes("chars"), runes("ranges")
		if l, ok := r.list(r.field(o, "classes")); !ok || len(l) > 0 {
			r.bad("%s: character classes by Unicode table are not modelled", n.Pos)
		}
		for _, c := range cs {
			n.Set = append(n.Set, [2]rune{c, c})
		}
		for i := 0; i+1 < len(rs); i += 2 {
			n.Set = append(n.Set, [2]rune{rs[i], rs[i+1]})
		}
		n.Set = n.Set.norm()
		n.Fold = flag("ignoreCase")
		if flag("inverted") {
			n.Set = n.Set.invert()
		}
	case "choice":
		kids("alternatives")
	case "seq":
		kids("exprs")
	case "label":
		n.Str = str("label")
		n.Sub = []*peg{r.node(r.field(o, "expr"))}
	case "lit":
		n.Str = str("val")
		n.Fold = flag("ignoreCase")
	case "ref":
		n.Str = str("name")
	default:
		return r.bad("the grammar has an element of type %s", t)
	}
	return n
}

// builtGrammar reads the grammar of the parser package.
func builtGrammar(p *Program, pkg *ssa.Package, st *State) (*pegGrammar, []string) {
	r := &pegReader{p: p, x: newExec(p), st: st, memo: map[string]*peg{}}
	g := r.x.read(st, mk("glob", pkg.Pkg.Path()+".g"), nil)
	if g.Op != "new" {
		return nil, []string{"the parser's grammar (variable g) is not built once, at initialisation: " + clip(g.String(), 80)}
	}
	rules, ok := r.list(r.field(g, "rules"))
	if !ok {
		return nil, []string{"the parser's list of rules is not constant"}
	}
	var rs []*pegRule
	for _, o := range rules {
		nm := r.field(o, "name")
		if !nm.isStr() {
			r.bad("the name of a rule is not constant")
		}
		rs = append(rs, &pegRule{Name: nm.S, Body: r.node(r.field(o, "expr"))})
	}
	if len(rs) == 0 {
		r.bad("the grammar has no rules")
	}
	return newGrammar(rs), r.errs
}

package main

// Abstract derivations: the semantic actions of a grammar are interpreted on
// the values the constructs below them produce, with the text of every name,
// expression or block left symbolic.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ptree is an abstract parse tree.
type ptree struct {
	Role string // construct (actions of the reference grammar)
	Lit  string // literal text
	Text *Term
	Val  *Term
	Kids []*ptree
	Sym  bool // construct left symbolic
}

// deriv is one derivation.
type deriv struct {
	st     *State
	val    *Term
	text   *Term
	trees  []*ptree
	labels map[string]*Term // bound in the frame of the construct
	failed bool             // an action returned an error
	why    string
}

type deriveCfg struct {
	lens  []int           // lengths of repetitions with actions in them
	roles map[string]bool // nil: all
	opts  int             // options: -1 both, 0 absent, 1 present
	fails bool            // expressions may be malformed
}

type deriver struct {
	p     *Program
	pkg   *ssa.Package
	g     *pegGrammar
	x     *Exec
	roles map[*peg]string // action -> role
	root  string
	cfg   deriveCfg
	n     int
	cmp   *pegCmp
	hasA  map[*peg]bool
	bad   []deriveBad
	runs  int
	curT  types.Type
	base  *State
	pos   string
}

type deriveBad struct{ key, pos, text string }

func (d *deriver) fail(key, pos, f string, a ...interface{}) {
	d.bad = append(d.bad, deriveBad{key, pos, fmt.Sprintf(f, a...)})
}

var finalRoles = map[string]string{"File": "*File", "Rule": "*Rule", "SExpr": "*SExpr", "Op": ""}

const goexprPath = modPath + "/parse/internal/goexpr"

// goexprTerm is the expression read from text.
func goexprTerm(text *Term) *Term { return mk("goexpr", "", text) }

func (d *deriver) fresh(kind string) *Term {
	d.n++
	return tIn(fmt.Sprintf("%s#%d", kind, d.n))
}

func (d *deriver) setup() {
	d.x = newExec(d.p)
	d.x.BoxAll = true
	d.x.CheckIdx = true
	d.x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == goexprPath && token.IsExported(c.Fn.Name()) {
			sig := c.Fn.Signature
			if len(c.Args) == 1 && sig.Results().Len() == 2 && isStringType(sig.Params().At(0).Type()) {
				e := goexprTerm(unbox(c.Args[0]))
				ok := c.St
				var outs []Outcome
				if d.cfg.fails {
					bad := ok.clone()
					bad.ghost += "!"
					outs = append(outs, c.ret(bad, tNil, errTerm(c, "goexpr"))...)
				}
				ok.facts.nils[e.Key()] = no
				return append(outs, c.ret(ok, e, tNil)...), true
			}
		}
		return nil, false
	}
	d.hasA = map[*peg]bool{}
	d.cmp = newPegCmp(d.g, d.g)
}

// acts: there is an action in n.
func (d *deriver) acts(n *peg) bool { return d.acts1(n, map[*peg]bool{}) }

func (d *deriver) acts1(n *peg, on map[*peg]bool) bool {
	if v, ok := d.hasA[n]; ok {
		return v
	}
	if on[n] {
		return false
	}
	on[n] = true
	r := n.Kind == "action"
	if n.Kind == "ref" {
		if q := d.g.rule(n.Str); q != nil {
			r = d.acts1(q.Body, on)
		}
	}
	if n.Kind != "not" && n.Kind != "and" {
		for _, s := range n.Sub {
			r = r || d.acts1(s, on)
		}
	}
	d.hasA[n] = r
	return r
}

func (d *deriver) astType(name string) types.Type {
	sp := d.p.pkg("ast")
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func boxOf(v *Term, t types.Type) *Term {
	return &Term{Op: "box", S: tkey(t), A: []*Term{v}, T: t}
}

var ifaceSlice = types.NewSlice(types.NewInterfaceType(nil, nil))
var byteSlice = types.NewSlice(types.Typ[types.Uint8])

func listVal(vs []*Term) *Term {
	var segs []*Term
	for _, v := range vs {
		segs = append(segs, mk("one", "", v))
	}
	return boxOf(app(segs...), ifaceSlice)
}

// skip reports that the configuration leaves out constructs of this role.
func (d *deriver) skip(role string) bool { return d.cfg.roles != nil && !d.cfg.roles[role] }

// stop is a construct left symbolic.
func (d *deriver) stop(role string, st *State) []deriv {
	mkd := func(t types.Type, v *Term) deriv {
		tx := d.fresh("text")
		s := st.clone()
		s.facts.nils[v.Key()] = no
		b := boxOf(v, t)
		return deriv{st: s, val: b, text: tx, trees: []*ptree{{Role: role, Text: tx, Val: b, Sym: true}}}
	}
	if role == "Op" {
		return []deriv{mkd(d.astType("Opcode"), d.fresh("op")), mkd(d.astType("OpcodeParts"), d.fresh("op"))}
	}
	return []deriv{mkd(types.NewPointer(d.astType(strings.TrimPrefix(finalRoles[role], "*"))), d.fresh(strings.ToLower(role)))}
}

func (d *deriver) derive(n *peg, st *State, depth int) []deriv {
	if depth > 60 {
		d.fail("depth", n.Pos, "the grammar nests too deeply to derive")
		return nil
	}
	if !d.acts(n) && d.cmp.layoutOnly(d.g, n, 0) {
		// layout: its text and value are of no interest
		return []deriv{{st: st, val: d.fresh("layout"), text: d.fresh("layout")}}
	}
	switch n.Kind {
	case "ref":
		r := d.g.rule(n.Str)
		if r == nil {
			d.fail("rule:"+n.Str, n.Pos, "the grammar has no rule %s", n.Str)
			return nil
		}
		ds := d.derive(r.Body, st, depth+1)
		for i := range ds {
			ds[i].labels = nil
		}
		return ds
	case "lit":
		if n.Fold {
			tx := d.fresh("text")
			return []deriv{{st: st, val: boxOf(tx, byteSlice), text: tx}}
		}
		t := tStr(n.Str)
		return []deriv{{st: st, val: boxOf(t, byteSlice), text: t, trees: []*ptree{{Lit: n.Str, Text: t}}}}
	case "class", "any":
		tx := d.fresh("char")
		if len(n.Set) == 1 && n.Set[0][0] == n.Set[0][1] {
			tx = tStr(string(n.Set[0][0]))
			return []deriv{{st: st, val: boxOf(tx, byteSlice), text: tx, trees: []*ptree{{Lit: tx.S, Text: tx}}}}
		}
		return []deriv{{st: st, val: boxOf(tx, byteSlice), text: tx}}
	case "not", "and":
		return []deriv{{st: st, val: tNil, text: tStr("")}}
	case "label":
		ds := d.derive(n.Sub[0], st, depth+1)
		for i := range ds {
			ds[i].labels = map[string]*Term{n.Str: ds[i].val}
		}
		return ds
	case "choice":
		var out []deriv
		for _, s := range n.Sub {
			ds := d.derive(s, st.clone(), depth+1)
			for i := range ds {
				ds[i].labels = nil
			}
			out = append(out, ds...)
		}
		return out
	case "opt":
		var out []deriv
		if d.cfg.opts != 1 {
			out = append(out, deriv{st: st.clone(), val: tNil, text: tStr("")})
		}
		if d.cfg.opts != 0 {
			ds := d.derive(n.Sub[0], st.clone(), depth+1)
			for i := range ds {
				ds[i].labels = nil
			}
			out = append(out, ds...)
		}
		return out
	case "star", "plus":
		if !d.acts(n) {
			// text of its own
			tx := d.fresh("text")
			v := d.fresh("chars")
			if n.Kind == "plus" {
				st.facts.assume(strEq(tx, tStr("")), false)
			}
			return []deriv{{st: st, val: boxOf(v, ifaceSlice), text: tx}}
		}
		var out []deriv
		for _, k := range d.cfg.lens {
			if k == 0 && n.Kind == "plus" {
				continue
			}
			cur := []deriv{{st: st.clone(), val: nil, text: tStr("")}}
			vals := [][]*Term{nil}
			for i := 0; i < k; i++ {
				var next []deriv
				var nv [][]*Term
				for j, c := range cur {
					for _, e := range d.derive(n.Sub[0], c.st.clone(), depth+1) {
						next = append(next, deriv{st: e.st, text: cat(c.text, e.text), trees: append(c.trees[:len(c.trees):len(c.trees)], e.trees...),
							failed: c.failed || e.failed, why: c.why + e.why})
						nv = append(nv, append(vals[j][:len(vals[j]):len(vals[j])], e.val))
					}
				}
				cur, vals = next, nv
			}
			for j := range cur {
				cur[j].val = listVal(vals[j])
			}
			out = append(out, cur...)
		}
		return out
	case "seq":
		cur := []deriv{{st: st, text: tStr(""), labels: map[string]*Term{}}}
		vals := [][]*Term{nil}
		for _, s := range n.Sub {
			var next []deriv
			var nv [][]*Term
			for j, c := range cur {
				for _, e := range d.derive(s, c.st.clone(), depth+1) {
					ls := map[string]*Term{}
					for k, v := range c.labels {
						ls[k] = v
					}
					for k, v := range e.labels {
						ls[k] = v
					}
					next = append(next, deriv{st: e.st, text: cat(c.text, e.text), labels: ls,
						trees: append(c.trees[:len(c.trees):len(c.trees)], e.trees...), failed: c.failed || e.failed, why: c.why + e.why})
					nv = append(nv, append(vals[j][:len(vals[j]):len(vals[j])], e.val))
				}
			}
			cur, vals = next, nv
		}
		for j := range cur {
			cur[j].val = listVal(vals[j])
		}
		return cur
	case "action":
		role := d.roles[n]
		if role != "" && d.skip(role) {
			return nil
		}
		if _, final := finalRoles[role]; final && (role != d.root || depth > 0) {
			return d.stop(role, st)
		}
		var out []deriv
		if d.acts(n.Sub[0]) && !d.labelled(n.Sub[0]) {
			// the action sees the text only
			return d.act(n, role, deriv{st: st, val: tNil, text: d.fresh("text")})
		}
		for _, c := range d.derive(n.Sub[0], st, depth+1) {
			out = append(out, d.act(n, role, c)...)
		}
		return out
	}
	d.fail("kind", n.Pos, "the grammar has a construct (%s) that is not part of the notation", n.Kind)
	return nil
}

// labelled: n binds a name in the frame it is matched in.
func (d *deriver) labelled(n *peg) bool {
	switch n.Kind {
	case "label":
		return n.Str != ""
	case "seq", "action":
		for _, s := range n.Sub {
			if d.labelled(s) {
				return true
			}
		}
	}
	return false
}

// without is the state of a package but for what is only reachable from the
// variable name.
func (st *State) without(name string) *State {
	out := newState()
	out.mapver, out.mapvg = st.mapver, st.mapvg
	by := map[string][]string{}
	var work []string
	for k, c := range st.mem {
		r := rootOf(c.path)
		if c.path.Op == "mapidx" {
			r = c.path.A[0]
		}
		if r.Op == "glob" {
			if r.S != name {
				work = append(work, k)
			}
			continue
		}
		by[r.Key()] = append(by[r.Key()], k)
	}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if _, ok := out.mem[k]; ok {
			continue
		}
		c := st.mem[k]
		out.mem[k] = c
		walkTerm(c.val, func(t *Term) bool {
			if l := by[t.Key()]; len(l) > 0 {
				work = append(work, l...)
			}
			return true
		})
	}
	return out
}

// act runs an action.
func (d *deriver) act(n *peg, role string, c deriv) []deriv {
	if c.failed {
		return []deriv{{st: c.st, val: tNil, text: c.text, trees: []*ptree{{Role: role, Text: c.text, Kids: c.trees, Val: tNil}}, failed: true, why: c.why}}
	}
	if n.Run == nil {
		return nil
	}
	st := c.st.clone()
	d.n++
	st.tick = d.n
	pt := d.parserType()
	if pt == nil {
		return nil
	}
	po := &Term{Op: "new", S: fmt.Sprintf("parser#%d", d.n), T: types.NewPointer(pt)}
	m := mk("newmap", fmt.Sprintf("labels#%d", d.n))
	for _, k := range sortedKeys(c.labels) {
		d.x.mapUpdate(st, m, tStr(k), c.labels[k], token.NoPos)
	}
	below := mk("newmap", fmt.Sprintf("outer#%d", d.n))
	d.x.set(st, fld("vstack", po), app(mk("one", "", below), mk("one", "", m)))
	d.x.set(st, fld("text", fld("cur", po)), c.text)
	st.events = nil
	st.ghost = ""
	d.runs++
	d.x.steps = 0
	nu := len(d.x.undecided)
	args := append([]*Term{po}, nil...)
	outs := d.x.callFn(nil, st, n.Run, args, n.Bind, nil)
	var res []deriv
	if len(d.x.undecided) > nu {
		d.fail("action:"+role, d.p.pos(n.Run.Pos()), "what the action of %s does is not determined: %s", role, d.x.undecided[nu])
		return nil
	}
	for _, o := range outs {
		ghost := o.St.ghost
		tree := &ptree{Role: role, Text: c.text, Kids: c.trees}
		if o.Kind == oPanic {
			d.fail("panic:"+role, d.p.pos(o.Pos), "the action of %s panics on %s: %s", role, describeTrees(c.trees), o.Msg)
			continue
		}
		if len(o.Vals) != 2 {
			d.fail("action:"+role, d.p.pos(n.Run.Pos()), "the action of %s has no value", role)
			continue
		}
		for _, e := range o.St.events {
			switch e.Kind {
			case "write", "mapupdate", "mapdelete", "append":
				if len(e.A) > 0 && !isFresh(rootOf(e.A[0])) {
					d.fail("effect:"+role, d.p.pos(e.Pos), "the action of %s writes to %s, which outlives it", role, e.A[0])
				}
			}
		}
		err := o.St.facts.isNil(unbox(o.Vals[1]))
		if o.Vals[1].Op == "nil" {
			err = yes
		}
		if err == unknown {
			d.fail("action:"+role, d.p.pos(n.Run.Pos()), "whether the action of %s fails is not determined", role)
			continue
		}
		if ghost != "" && err == yes {
			d.fail("dropped:"+role, d.p.pos(o.Pos), "the action of %s returns no error although the expression in %s is not valid", role, describeTrees(c.trees))
			continue
		}
		nd := deriv{st: o.St, val: o.Vals[0], text: c.text, trees: []*ptree{tree}}
		tree.Val = o.Vals[0]
		if err == no {
			nd.failed = true
			nd.val = tNil
			nd.why = "the action of " + role + " reports an error"
			if ghost != "" {
				nd.why = ""
			}
		}
		res = append(res, nd)
	}
	return res
}

func (d *deriver) parserType() types.Type {
	o := d.pkg.Pkg.Scope().Lookup("parser")
	if o == nil {
		d.fail("parser", "", "the parser package has no type parser")
		return nil
	}
	return o.Type()
}

func describeTrees(ts []*ptree) string {
	var b strings.Builder
	var w func(t *ptree)
	w = func(t *ptree) {
		if t.Lit != "" {
			b.WriteString(t.Lit + " ")
			return
		}
		if t.Role != "" {
			b.WriteString(t.Role)
			if !t.Sym && len(t.Kids) > 0 {
				b.WriteString("<")
				for _, k := range t.Kids {
					w(k)
				}
				b.WriteString(">")
			}
			b.WriteString(" ")
		}
	}
	for _, t := range ts {
		w(t)
	}
	return clip(strings.TrimSpace(b.String()), 200)
}

package main

// C27: what parse errors say: the input's name, the place, and what is wrong.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// positionType is the type of a place in the input.
func (e *engineCheck) positionType() types.Type {
	if s := structOf(e.parser); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "maxFailPos" {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// posField is the line or column of a savepoint.
func (e *engineCheck) posField(pt *Term, name string) *Term { return fld(name, e.placeOf(pt)) }

// errorText is the message of an error value in the state of o.
func (e *engineCheck) errorText(x *Exec, st *State, er *Term) []Outcome {
	t := dynOf(er)
	if t == nil {
		return nil
	}
	sel := e.p.ssa.MethodSets.MethodSet(t).Lookup(e.a.pkg.Pkg, "Error")
	if sel == nil {
		return nil
	}
	m := e.p.ssa.MethodValue(sel)
	if m == nil {
		return nil
	}
	return x.Call(m, []*Term{unbox(er)}, st)
}

// prefixed: text is the name (if there is one), line, column and then ends
// with last.
func prefixed(f *Facts, text, name, place, last *Term) string {
	parts := catParts(text)
	i := 0
	named := f.eval(strEq(name, tStr("")))
	if name.isStr() {
		named = triOf(name.S == "")
	}
	lit := "" // constant text so far
	var items []*Term
	for _, p := range parts {
		if p.isStr() {
			lit += p.S
			continue
		}
		if lit != "" {
			items = append(items, tStr(lit))
			lit = ""
		}
		items = append(items, p)
	}
	if lit != "" {
		items = append(items, tStr(lit))
	}
	at := func() *Term {
		if i < len(items) {
			return items[i]
		}
		return tNil
	}
	if named != yes {
		if named == unknown {
			return "it does not depend on whether the input has a name"
		}
		if name.isStr() {
			if !at().isStr() || !strings.HasPrefix(at().S, name.S+":") {
				return "it does not start with the name of the input"
			}
			if rest := at().S[len(name.S)+1:]; rest == "" {
				i++
			} else {
				return "after the name of the input comes " + rest
			}
		} else {
			if !same(at(), name) {
				return "it does not start with the name of the input"
			}
			i++
			if !at().isStr() || at().S != ":" {
				return "the name of the input is not followed by a colon"
			}
			i++
		}
	}
	num := func(n string) bool {
		t := at()
		i++
		return t.Op == "fmt" && t.S == "%d" && same(t.A[0], fld(n, place))
	}
	if !num("line") {
		return "the line is not where it belongs"
	}
	if !at().isStr() || at().S != ":" {
		return "line and column are not separated by a colon"
	}
	i++
	if !num("col") {
		return "the column is not where it belongs"
	}
	if last == nil {
		return ""
	}
	if n := len(items); n == 0 || i >= n || !same(items[n-1], last) {
		return "it does not end with what is wrong"
	}
	return ""
}

// placeArg is the place an error is reported at.
func (e *engineCheck) placeArg(x *Exec, c *CallCtx) *Term {
	t := e.positionType()
	for i := 2; i < len(c.Fn.Params); i++ {
		if t != nil && types.Identical(c.Fn.Params[i].Type(), t) {
			return c.Args[i]
		}
	}
	return e.placeOf(x.read(c.St, fld("pt", c.Args[0]), e.save))
}

// samePlace: line, column and offset are the same.
func (e *engineCheck) samePlace(a, b *Term) bool {
	if same(a, b) {
		return true
	}
	for _, f := range []string{"line", "col", "offset"} {
		if !same(fld(f, a), fld(f, b)) {
			return false
		}
	}
	return true
}

// adderText: what is put on the list says where and what.
func (e *engineCheck) adderText(f *ssa.Function, x *Exec, o Outcome, er *Term, args []*Term) {
	pos := e.p.pos(f.Pos())
	po := args[0]
	place := e.placeOf(fld("pt", po))
	t := e.positionType()
	for i := 2; i < len(f.Params); i++ {
		if t != nil && types.Identical(f.Params[i].Type(), t) {
			place = args[i]
		}
	}
	old := x.OnCall
	x.OnCall = e.msgHook
	outs := e.errorText(x, o.St, er)
	x.OnCall = old
	if len(outs) == 0 {
		e.bad("C27", "message:"+f.Name(), pos, "%s: what an error says is not determined: %s", f.Name(), clip(er.String(), 120))
	}
	for _, u := range outs {
		if u.Kind != oReturn {
			e.bad("C27", "message:"+f.Name(), pos, "%s: asking for the message panics: %s", f.Name(), u.Msg)
			continue
		}
		txt := x.resolve(u.St, u.Vals[0])
		if why := prefixed(u.St.facts, txt, fld("filename", po), place, mk("errtext", "", args[1])); why != "" {
			e.bad("C27", "message:"+f.Name(), pos, "%s: the message of an error is %s: %s (when %s)", f.Name(), clip(txt.String(), 300), why, clip(u.St.facts.describe(), 200))
		}
	}
}

// msgHook: the message of an error that is not known is a symbol.
func (e *engineCheck) msgHook(c *CallCtx) ([]Outcome, bool) {
	if c.Invoke && strings.HasSuffix(c.Name, ".Error") && len(c.Args) == 1 {
		if r := unbox(c.Args[0]); r.Op == "in" || r.Op == "err" {
			switch {
			case r.Op == "err" && strings.HasPrefix(r.S, "msg:"):
				return c.ret(c.St, tStr(r.S[4:])), true
			case r.Op == "err" && strings.HasPrefix(r.S, "New@") && len(r.A) == 1:
				return c.ret(c.St, unbox(r.A[0])), true
			case r.Op == "err" && strings.HasPrefix(r.S, "Errorf@") && len(r.A) == 2:
				if toks, ok := c.X.formatTokens(c.St, r.A[0], r.A[1], nil); ok {
					return c.ret(c.St, cat(toks...)), true
				}
			}
			return c.ret(c.St, mk("errtext", "", c.Args[0])), true
		}
	}
	return nil, false
}

// readPlace: after a character, the line and column are those of the next.
func (e *engineCheck) readPlace(f *ssa.Function, x *Exec, o Outcome, pt, np, rn *Term) {
	pos := e.p.pos(f.Pos())
	line, col := x.read(o.St, e.posField(np, "line"), nil), x.read(o.St, e.posField(np, "col"), nil)
	l0, c0 := e.posField(pt, "line"), e.posField(pt, "col")
	for _, nl := range []bool{true, false} {
		g := o.St.facts.clone()
		if !g.assume(eq0(sub(rn, tInt('\n'))), nl) {
			continue
		}
		wl, wc, what := l0, add(c0, tInt(1)), "a character"
		if nl {
			wl, wc, what = add(l0, tInt(1)), tInt(0), "a line break"
		}
		if !same(line, wl) {
			e.bad("C27", "next:line", pos, "the line of %s is %s", what, clip(line.String(), 80))
		}
		if !same(col, wc) {
			e.bad("C27", "next:column", pos, "the column of %s is %s", what, clip(col.String(), 80))
		}
	}
}

// farthest: what was looked for is recorded when it is not there, with the
// place, if nothing was looked for further on. Errors are about the place where
// their construct begins.
func (e *engineCheck) farthest(x *Exec, o Outcome, n *peg, ok bool, p0 *Term, log []attempt, say sayFn) {
	po := e.po()
	inv, far, exp := fld("maxFailInvertExpected", po), fld("maxFailPos", po), fld("maxFailExpected", po)
	inv1, far1, exp1 := x.read(o.St, inv, nil), x.read(o.St, far, e.positionType()), x.view(o.St, x.read(o.St, exp, nil))
	f := o.St.facts
	eq := func(a, b *Term) bool {
		va, vb := f.eval(a), f.eval(b)
		return same(a, b) || va != unknown && va == vb || same(notTerm(a), b) || same(a, notTerm(b)) && false
	}
	if !eq(inv1, inv) {
		say("C27", "inverted", "afterwards, whether something must not be there is %s", clip(inv1.String(), 80))
	}
	for i := range log {
		a := &log[i]
		switch {
		case a.err != nil && a.place != nil:
			if !e.samePlace(a.place, e.placeOf(p0)) {
				say("C27", "place", "its error is reported at %s, not where it begins", clip(a.place.String(), 80))
			}
		case a.node != nil && !a.run && a.inv != nil:
			want := inv
			if n.Kind == "not" {
				want = notTerm(inv)
			}
			if !eq(a.inv, want) {
				say("C27", "inverted", "its operand is tried with %s", clip(a.inv.String(), 80))
			}
		}
	}
	leaf := n.Kind == "lit" || n.Kind == "class" || n.Kind == "any"
	if !leaf {
		if !same(far1, far) || !sameList(exp1, exp) {
			say("C27", "farthest", "matching it changes what was looked for last")
		}
		return
	}
	off0, offF := e.offset(p0), fld("offset", far)
	for _, must := range []bool{false, true} { // must not be there
		g := f.clone()
		if !g.assume(inv, must) {
			continue
		}
		if ok != must {
			if !same(far1, far) || !sameList(exp1, exp) {
				say("C27", "farthest", "it is recorded as missing although it is as it should be (%s)", clip(g.describe(), 200))
			}
			continue
		}
		name := clip(n.String(), 60)
		if must {
			name = "!" + name
		}
		for _, c := range []struct {
			c    *Term
			what string
		}{{cmpTerm("<", off0, offF), "before"}, {cmpTerm("==", off0, offF), "at"}, {cmpTerm("<", offF, off0), "beyond"}} {
			h := g.clone()
			if !h.assume(c.c, true) {
				continue
			}
			var segs []*Term
			for _, s := range asSegs(exp1) {
				if l := s; l.Op == "all" {
					if l = l.A[0]; l.Op == "slice" && isZero(l.A[1]) && isZero(l.A[2]) {
						continue // emptied
					}
				}
				segs = append(segs, s)
			}
			last := func(k int) bool {
				return len(segs) == k+1 && segs[k].Op == "one" && unbox(segs[k].A[0]).isStr() && names(unbox(segs[k].A[0]).S, n, must)
			}
			cond := clip(h.describe(), 200)
			switch c.what {
			case "before":
				if !same(far1, far) || !sameList(exp1, exp) {
					say("C27", "farthest", "it is recorded as looked for although the parser got further before (%s)", cond)
				}
			case "at":
				if !e.samePlace(far1, far) && !e.samePlace(far1, e.placeOf(p0)) {
					say("C27", "farthest", "the place reached is then %s (%s)", clip(far1.String(), 80), cond)
				}
				if !(last(1) && (segs[0].Op == "all" && same(segs[0].A[0], exp))) {
					say("C27", "farthest", "what is looked for at the farthest place is then %s, %s is not added (%s)", clip(exp1.String(), 120), name, cond)
				}
			case "beyond":
				if !e.samePlace(far1, e.placeOf(p0)) {
					say("C27", "farthest", "the farthest place is then %s, not where it was looked for (%s)", clip(far1.String(), 80), cond)
				}
				if !last(0) {
					say("C27", "farthest", "what is looked for there is then %s, not %s (%s)", clip(exp1.String(), 120), name, cond)
				}
			}
		}
	}
}

func sameList(a, b *Term) bool {
	if same(a, b) {
		return true
	}
	s := asSegs(a)
	return len(s) == 1 && s[0].Op == "all" && same(s[0].A[0], b)
}

// names: s is how n is written in the notation.
func names(s string, n *peg, not bool) bool {
	if not {
		if !strings.HasPrefix(s, "!") {
			return false
		}
		s = s[1:]
	}
	if e := strings.LastIndex(s, "]"); n.Kind == "class" && e > 0 {
		var b strings.Builder // a bracket within the class
		for i := 0; i < e; i++ {
			if s[i] == '\\' && i+1 < e {
				b.WriteString(s[i : i+2])
				i++
				continue
			}
			if s[i] == ']' {
				b.WriteByte('\\')
			}
			b.WriteByte(s[i])
		}
		s = b.String() + s[e:]
	}
	f, err := parsePeg("wanted", "A <- "+s+"\n")
	if err != nil || len(f.G.Rules) != 1 {
		return false
	}
	m := f.G.Rules[0].Body
	return m != nil && m.Kind == n.Kind && m.Str == n.Str && m.Fold == n.Fold && fmt.Sprint(m.Set.norm()) == fmt.Sprint(n.Set.norm())
}

// messages follows each exported function to what its error says.
func (e *engineCheck) messages() {
	sp := e.p.pkg("parse")
	if e.disp == nil || e.reader == nil || sp == nil {
		return
	}
	for _, f := range e.p.funcs {
		if f.Pkg != sp || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		if r := f.Signature.Results(); r.Len() == 2 && types.Identical(r.At(1).Type(), errorType) && typeName(r.At(0).Type()) == "File" {
			e.message(f)
		}
	}
}

// wants are lists of what was looked for, in the order in which it was.
var wants = [][]string{
	{`"b"`, `!.`, `"a"`, `"b"`},
	{`"a"`},
	{`[0-9]`, `"a"`, `[0-9]`, `"c"`, `"a"`},
	{`!.`},
	{`!.`, `!"x"`, `!.`},
}

// texts are lists of errors reported.
var texts = [][]string{
	{"one"},
	{"one", "two"},
	{"one", "two", "one"},
	{"two", "one", "three"},
}

func (e *engineCheck) message(f *ssa.Function) {
	x := newExec(e.p)
	x.BoxAll = true
	x.Unroll = true
	st := e.a.init.clone()
	st.events = nil
	var args []*Term
	for _, p := range f.Params {
		args = append(args, tIn(p.Name()))
	}
	pos, name := e.p.pos(f.Pos()), f.Name()
	say := func(key, format string, a ...interface{}) {
		e.bad("C27", key+":"+name, pos, "parse.%s: %s", name, fmt.Sprintf(format, a...))
	}
	given := tNil // the name given
	if f.Signature.Params().Len() > 0 && (name == "File" || name == "Reader") {
		given = args[0]
	}
	pt := e.positionType()
	tree := tIn("tree")
	ft := types.NewPointer(e.fileType())
	var pname, where *Term
	started := false
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		switch {
		case c.Fn == nil:
		case c.Fn == e.disp:
			po := c.Args[0]
			started = true
			pname = x.read(c.St, fld("filename", po), types.Typ[types.String])
			if given.Op != "nil" && !same(pname, given) {
				say("name", "errors name the input %s, not as the caller does", clip(pname.String(), 80))
			}
			if v := x.read(c.St, fld("maxFailInvertExpected", po), types.Typ[types.Bool]); !v.isFalse() {
				say("inverted", "to begin with, what is looked for is not to be there")
			}
			far := fld("maxFailPos", po)
			if o := x.read(c.St, fld("offset", far), types.Typ[types.Int]); !isZero(o) {
				say("begin", "to begin with, the farthest place is at %s", clip(o.String(), 80))
			} else if l, k := x.read(c.St, fld("line", far), types.Typ[types.Int]), x.read(c.St, fld("col", far), types.Typ[types.Int]); !same(l, tInt(1)) || !same(k, tInt(1)) {
				say("begin", "the beginning of the input is line %s, column %s", clip(l.String(), 80), clip(k.String(), 80))
			}
			if l := x.view(c.St, x.read(c.St, fld("maxFailExpected", po), nil)); len(asSegs(l)) != 0 && l.Op != "zero" {
				say("begin", "to begin with, %s is looked for", clip(l.String(), 80))
			}
			var outs []Outcome
			for k, w := range wants {
				s := c.St.clone()
				s.ghost = fmt.Sprintf("w%d", k)
				where = tIn("farthest")
				where.T = pt
				x.store(s, far, where, 0)
				var l []*Term
				for _, t := range w {
					l = append(l, mk("one", "", tStr(t)))
				}
				x.store(s, fld("maxFailExpected", po), app(l...), 0)
				outs = append(outs, c.ret(s, tNil, tBool(false))...)
			}
			list := deref(x.read(c.St, fld("errs", po), nil))
			for k, w := range texts {
				for _, ok := range []bool{false, true} {
					s := c.St.clone()
					s.ghost = fmt.Sprintf("t%d", k)
					x.store(s, list, app(), 0)
					ss := []*State{s}
					for _, t := range w {
						er := mk("err", "msg:"+t)
						er.T = errType
						var next []*State
						for _, s := range ss {
							next = append(next, e.reported(x, s, po, er)...)
						}
						ss = next
					}
					for _, s := range ss {
						if ok {
							s.facts.nils[tree.Key()] = no
							outs = append(outs, c.ret(s, boxOf(tree, ft), tBool(true))...)
						} else {
							outs = append(outs, c.ret(s, tNil, tBool(false))...)
						}
					}
				}
			}
			return outs, true
		case c.Fn == e.reader:
			po := c.Args[0]
			if !started {
				cur := x.read(c.St, fld("pt", po), e.save)
				if l, k := x.read(c.St, e.posField(cur, "line"), types.Typ[types.Int]), x.read(c.St, e.posField(cur, "col"), types.Typ[types.Int]); !same(l, tInt(1)) || !isZero(k) {
					say("begin", "the first character is read when the line is %s and the column %s, not 1 and 0", clip(l.String(), 80), clip(k.String(), 80))
				}
			}
			x.store(c.St, fld("pt", po), mk(nextOp, "", x.read(c.St, fld("pt", po), e.save)), 0)
			return c.ret(c.St), true
		case e.push[c.Fn] || e.pop[c.Fn]:
			return c.ret(c.St), true
		}
		if outs, ok := e.msgHook(c); ok {
			return outs, ok
		}
		if outs, ok := e.outside(x, c); ok && len(outs) > 0 {
			return outs[:1], true
		}
		return nil, false
	}
	outs := x.Call(f, args, st)
	e.note(x)
	seen := map[string]bool{}
	for _, o := range outs {
		g := o.St.ghost
		if o.Kind != oReturn || len(o.Vals) != 2 || g == "" {
			continue
		}
		er := o.Vals[1]
		if unbox(er).Op == "nil" {
			say("none", "no error is returned")
			continue
		}
		ms := e.errorText(x, o.St, er)
		if len(ms) == 0 {
			say("text", "what the error says is not determined: %s", clip(er.String(), 200))
		}
		for _, m := range ms {
			if m.Kind != oReturn {
				say("text", "asking for the message panics: %s", m.Msg)
				continue
			}
			txt := x.resolve(m.St, m.Vals[0])
			seen[g] = true
			var k int
			fmt.Sscanf(g[1:], "%d", &k)
			if g[0] == 't' {
				for _, w := range texts[k] {
					if !strings.Contains(flatText(txt), w) {
						say("all", "of the errors %s only %s is left", strings.Join(texts[k], ", "), clip(txt.String(), 200))
					}
				}
				continue
			}
			if why := prefixed(m.St.facts, txt, pname, where, nil); why != "" {
				say("where", "the message of a syntax error is %s: %s (when %s)", clip(txt.String(), 300), why, clip(m.St.facts.describe(), 200))
				continue
			}
			if why := namesAll(flatText(txt), wants[k]); why != "" {
				say("expected", "when %s was looked for, the message of the error is %s: %s", strings.Join(wants[k], ", "), clip(txt.String(), 300), why)
			}
		}
	}
	for _, u := range x.undecided {
		say("text", "not decided: %s", u)
	}
	if n := len(wants) + len(texts); len(seen) < n && len(x.undecided) == 0 {
		say("text", "the error is determined in %d of %d situations only", len(seen), n)
	}
	e.paths += len(outs)
}

// reported are the states after the error has been reported.
func (e *engineCheck) reported(x *Exec, st *State, po, er *Term) []*State {
	var f *ssa.Function
	for a := range e.adders {
		if f == nil || len(a.Params) < len(f.Params) || len(a.Params) == len(f.Params) && a.String() < f.String() {
			f = a
		}
	}
	if f == nil {
		return []*State{st}
	}
	args := []*Term{po, er}
	for _, p := range f.Params[2:] {
		if pt := e.positionType(); pt != nil && types.Identical(p.Type(), pt) {
			args = append(args, tIn("where"))
		} else {
			args = append(args, zeroOf(p.Type()))
		}
	}
	var out []*State
	for _, o := range x.Call(f, args, st) {
		if o.Kind == oReturn {
			out = append(out, o.St)
		}
	}
	return out
}

// flatText is the constant text of a string, other parts left out.
func flatText(t *Term) string {
	var b strings.Builder
	for _, p := range catParts(t) {
		if p.isStr() {
			b.WriteString(p.S)
		} else {
			b.WriteByte(0)
		}
	}
	return b.String()
}

// namesAll: the text mentions everything once, and nothing else.
func namesAll(text string, want []string) string {
	seen := map[string]bool{}
	var rest []string
	for _, w := range want {
		if seen[w] {
			continue
		}
		seen[w] = true
		if w != "!." {
			rest = append(rest, w)
			continue
		}
		n := 0
		for _, s := range []string{"EOF", "!.", "end of "} {
			n += strings.Count(text, s)
			text = strings.ReplaceAll(text, s, "\x01")
		}
		if n == 0 {
			return "it does not mention the end of the input"
		}
		if n > 1 {
			return "it mentions the end of the input again"
		}
	}
	// longer ones first: !"x" before "x"
	sort.Slice(rest, func(i, j int) bool { return len(rest[i]) > len(rest[j]) })
	for _, w := range rest {
		switch n := strings.Count(text, w); {
		case n == 0:
			return "it does not mention " + w
		case n > 1:
			return "it mentions " + w + " again"
		}
		text = strings.Replace(text, w, "\x01", 1)
	}
	if !seen["!."] && (strings.Contains(text, "EOF") || strings.Contains(text, "!.")) {
		return "it mentions the end of the input"
	}
	if strings.ContainsAny(text, "\"[") {
		return "it mentions something else"
	}
	return ""
}

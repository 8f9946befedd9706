package main

// C01, C03, C04: the way into the parser and out of it again.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entryCheck follows the exported parsing functions up to the first rule, and
// from its result back to the caller.
func (e *engineCheck) entries() {
	if e.disp == nil || e.reader == nil {
		return
	}
	sp := e.p.pkg("parse")
	if sp == nil {
		e.bad("", "entry", "", "there is no package parse")
		return
	}
	n := 0
	for _, f := range e.p.funcs {
		if f.Pkg != sp || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		if r := f.Signature.Results(); r.Len() == 2 && types.Identical(r.At(1).Type(), errorType) && typeName(r.At(0).Type()) == "File" {
			n++
			e.entry(f)
		}
	}
	if n == 0 {
		e.bad("", "entry", "", "package parse has no function that returns a file")
	}
}

type entryState struct {
	forks  map[string]string
	reads  map[string]bool
	checks int
}

func (e *engineCheck) entry(f *ssa.Function) {
	x := newExec(e.p)
	x.BoxAll = true
	st := e.a.init.clone()
	st.events = nil
	var args []*Term
	for _, p := range f.Params {
		t := tIn(p.Name())
		args = append(args, t)
	}
	pos := e.p.pos(f.Pos())
	name := f.Name()
	root := e.a.g.Rules[0].Body
	reached := 0
	say := func(prop, key, format string, a ...interface{}) {
		e.bad(prop, key+":"+name, pos, "parse.%s: %s", name, fmt.Sprintf(format, a...))
	}
	tree := tIn("tree")
	ft := types.NewPointer(e.fileType())
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		switch {
		case c.Fn == e.disp:
			po := c.Args[0]
			reached++
			if unbox(c.Args[1]).Key() != root.Obj.Key() {
				say("C03", "start", "parsing starts at %s, not at the first rule", clip(c.Args[1].String(), 60))
			}
			e.startState(x, c, f, po, say)
			errs := fld("errs", po)
			ep := x.read(c.St, errs, nil)
			list := deref(ep)
			var lt types.Type
			if ps := structOf(e.parser); ps != nil {
				for i := 0; i < ps.NumFields(); i++ {
					if p, ok := ps.Field(i).Type().(*types.Pointer); ok && ps.Field(i).Name() == "errs" {
						lt = p.Elem()
					}
				}
			}
			var outs []Outcome
			if l := x.view(c.St, x.read(c.St, list, lt)); l.Op != "nil" && l.Op != "zero" && !(l.Op == "app" && len(l.A) == 0) && !strings.Contains(c.St.ghost, "+") {
				say("C03", "start-errors", "parsing starts with errors already reported: %s", clip(l.String(), 80))
			}
			for _, some := range []bool{false, true} {
				for _, kind := range []string{"ok", "fail", "panic"} {
					s := c.St.clone()
					if some {
						s.ghost += "+"
						er := mk("err", "reported")
						er.T = errType
						x.store(s, list, app(mk("one", "", er), mk("all", "", tIn("more"))), 0)
					}
					s.ghost += "|" + kind + "|"
					switch kind {
					case "ok":
						s.facts.nils[tree.Key()] = no
						outs = append(outs, c.ret(s, boxOf(tree, ft), tBool(true))...)
					case "fail":
						outs = append(outs, c.ret(s, tNil, tBool(false))...)
					case "panic":
						outs = append(outs, Outcome{Kind: oPanic, St: s, Msg: "an action panics", Pos: c.Pos()})
					}
				}
			}
			return outs, true
		case c.Fn != nil && c.Fn == e.reader:
			po := c.Args[0]
			cur := x.read(c.St, fld("pt", po), e.save)
			x.store(c.St, fld("pt", po), mk(nextOp, "", cur), 0)
			return c.ret(c.St), true
		case c.Fn != nil && e.adders[c.Fn]:
			list := deref(x.read(c.St, fld("errs", c.Args[0]), nil))
			l := x.view(c.St, x.read(c.St, list, nil))
			er := mk("err", "added")
			er.T = errType
			var segs []*Term
			if l.Op != "nil" && l.Op != "zero" {
				segs = asSegs(l)
			}
			x.store(c.St, list, app(append(append([]*Term{}, segs...), mk("one", "", er))...), 0)
			c.St.ghost += "+"
			return c.ret(c.St), true
		case c.Fn != nil && e.quiet[c.Fn]:
			return c.ret(c.St), true
		case c.Fn != nil && (e.push[c.Fn] || e.pop[c.Fn]):
			return c.ret(c.St), true
		}
		return e.outside(x, c)
	}
	outs := x.Call(f, args, st)
	e.note(x)
	for _, u := range x.undecided {
		e.bad("", "entry:"+name, pos, "parse.%s: not decided: %s", name, u)
	}
	if reached == 0 {
		say("C03", "start", "the parser is never started")
	}
	okay := 0
	for _, o := range outs {
		if o.Kind == oPanic {
			say("C01", "panic", "panics (%s): %s", e.p.pos(o.Pos), o.Msg)
			continue
		}
		if len(o.Vals) != 2 {
			continue
		}
		val, er := unbox(o.Vals[0]), o.Vals[1]
		nilErr := o.St.facts.isNil(unbox(er))
		if er.Op == "nil" {
			nilErr = yes
		} else if er.Op == "box" && unbox(er).Op != "nil" || er.Op == "err" || er.Op == "obj" {
			nilErr = no
		}
		nilVal := o.St.facts.isNil(val)
		if nilErr == unknown || nilVal == unknown {
			say("C01", "result", "it is not determined whether a file or an error is returned: %s, %s", clip(val.String(), 60), clip(er.String(), 60))
			continue
		}
		g := o.St.ghost
		failed := strings.Contains(closeFailed.ReplaceAllString(g, ""), "!")
		reason := ""
		switch {
		case failed:
			reason = "the input cannot be read"
		case strings.Contains(g, "|fail|"):
			reason = "the input does not match"
		case strings.Contains(g, "|panic|"):
			reason = "an action panics"
		case strings.Contains(g, "+"):
			reason = "an error was reported"
		case !strings.Contains(g, "|ok|"):
			reason = "nothing was parsed"
		}
		if nilErr == yes {
			if nilVal == yes {
				say("C01", "neither", "neither a file nor an error is returned (%s)", o.St.facts.describe())
			}
			if reason != "" {
				say("C04", "dropped", "no error is returned although %s", reason)
			} else {
				okay++
				if !same(val, tree) {
					say("C03", "tree", "what is returned is %s, not the file parsed", clip(val.String(), 80))
				}
			}
			continue
		}
		if nilVal == no {
			say("C01", "both", "both a file and an error are returned")
		}
		if reason == "" && !strings.Contains(g, "!") {
			say("C03", "refused", "an error is returned for a valid input (%s)", o.St.facts.describe())
		}
	}
	if okay == 0 && len(x.undecided) == 0 {
		say("C03", "start", "no input is accepted")
	}
	e.paths += len(outs)
}

// outside: calls of other packages that can fail do so or not.
func (e *engineCheck) outside(x *Exec, c *CallCtx) ([]Outcome, bool) {
	if strings.HasPrefix(c.Name, "(*bytes.Buffer).W") || strings.HasPrefix(c.Name, "(*strings.Builder).W") {
		return nil, false // never fails
	}
	if c.Fn == nil || !e.p.inRepo(c.Fn) {
		rs := c.Sig.Results()
		if k := rs.Len(); k > 0 && types.Identical(rs.At(k-1).Type(), errorType) && !isErrMaker(c.Name) {
			c.St.seq++
			var as []*Term
			for _, a := range c.Args {
				as = append(as, x.resolve(c.St, x.view(c.St, a)))
			}
			c.St.events = append(c.St.events, Event{Kind: "call", S: c.Name, A: as, Pos: c.Pos()})
			var good, badv []*Term
			for i := 0; i < k-1; i++ {
				v := &Term{Op: "call", S: fmt.Sprintf("%s#%d", c.Name, i), A: as}
				good = append(good, v)
				badv = append(badv, mk("unk", c.Name+"#failed"))
			}
			er := &Term{Op: "call", S: fmt.Sprintf("%s#err", c.Name), A: as}
			bad := c.St.clone()
			bad.facts.nils[er.Key()] = no
			bad.ghost += "!" + c.Name + "!"
			return append(c.ret(c.St, append(good, tNil)...), c.ret(bad, append(badv, er)...)...), true
		}
	}
	return nil, false
}

// closeFailed marks a file read to its end that could not be closed.
var closeFailed = regexp.MustCompile(`![^!]*\)\.Close!`)

func isErrMaker(name string) bool {
	return name == "errors.New" || name == "fmt.Errorf" || strings.HasSuffix(name, "errors.Join")
}

func (e *engineCheck) fileType() types.Type {
	return e.p.pkg("ast").Pkg.Scope().Lookup("File").Type()
}

// startState: what the parser works with when the first rule is tried.
func (e *engineCheck) startState(x *Exec, c *CallCtx, f *ssa.Function, po *Term, say func(string, string, string, ...interface{})) {
	st := c.St
	data := unbox(x.read(st, fld("data", po), nil))
	if why := e.wholeInput(x, st, f, data); why != "" {
		say("C03", "input", "%s", why)
	}
	pt := x.read(st, fld("pt", po), e.save)
	if pt.Op != nextOp {
		say("C07", "start", "the first character is not read before the first rule is tried")
	} else if off, w := e.offset(pt.A[0]), fld("w", pt.A[0]); !isZero(off) || !isZero(w) {
		say("C03", "start-position", "parsing starts at %s (+%s), not at the beginning", off, w)
	}
	for _, fl := range []string{"allowInvalidUTF8"} {
		if v := x.read(st, fld(fl, po), types.Typ[types.Bool]); !v.isFalse() && v.Op != "zero" {
			say("C04", "option", "invalid encoding may be let through: %s is %s", fl, v)
		}
	}
	if v := x.read(st, fld("maxExprCnt", po), types.Typ[types.Uint64]); !(v.S == "18446744073709551615" || v.isInt() && v.N == -1) {
		say("C03", "limit", "the parser stops after %s attempts", clip(v.String(), 60))
	}
	rt := x.read(st, fld("rules", po), nil)
	for _, r := range e.a.g.Rules {
		if e.a.g.rule(r.Name) != r {
			continue
		}
		v, ok := st.mem[mk("mapidx", "", rt, tStr(r.Name)).Key()]
		if !ok || !same(unbox(v.val), e.ruleObj(r)) {
			say("C07", "rules", "the table of rules does not lead to the rule %s", r.Name)
		}
	}
}

func isZero(t *Term) bool { return t.isInt() && t.N == 0 || t.Op == "zero" }

// wholeInput: data is all of what f is given to parse.
func (e *engineCheck) wholeInput(x *Exec, st *State, f *ssa.Function, data *Term) string {
	isCall := func(t *Term, names ...string) *Term {
		t = unbox(t)
		if t.Op != "call" {
			return nil
		}
		for _, n := range names {
			if strings.HasPrefix(t.S, n) {
				return t
			}
		}
		return nil
	}
	last := f.Params[len(f.Params)-1]
	arg := tIn(last.Name())
	// File is given a name, Reader and String the text; of other functions it
	// is not known which
	file := f.Name() != "Reader" && f.Name() != "String"
	text := f.Name() != "File"
	if t := isCall(data, "os.ReadFile#0", "io/ioutil.ReadFile#0"); t != nil && file && same(unbox(t.A[0]), arg) {
		return ""
	}
	if text && same(data, arg) || text && data.Op == "conv" && same(unbox(data.A[0]), arg) {
		return ""
	}
	if t := isCall(data, "io.ReadAll#0", "io/ioutil.ReadAll#0"); t != nil {
		r := unbox(t.A[0])
		if same(r, arg) && !isStringType(last.Type()) {
			return ""
		}
		if o := isCall(r, "os.Open#0"); o != nil && file && same(unbox(o.A[0]), arg) {
			return ""
		}
		if o := isCall(r, "strings.NewReader", "bytes.NewBufferString", "bytes.NewReader"); o != nil && text && same(unbox(o.A[0]), arg) {
			return ""
		}
	}
	return "what is parsed is not known to be the whole input: " + clip(data.String(), 120)
}

package main

// C30: the debug dump.

import (
	"fmt"
	"strings"
)

type dumpCheck struct {
	c *Check
	p *Program
}

// filter says what a field filter leaves out that is not nil.
func (d *dumpCheck) filter(x *Exec, st *State, f *Term) string {
	f = unbox(f)
	if f.Op == "nil" || st.facts.isNil(f) == yes {
		return ""
	}
	if f.Op != "fn" || f.Fn == nil {
		return fmt.Sprintf("the filter is not known: %s", clip(f.String(), 80))
	}
	if f.Fn.String() == "go/ast.NotNilFilter" {
		return ""
	}
	if len(f.Fn.Blocks) == 0 {
		return fmt.Sprintf("the filter %s is not known", f.Fn)
	}
	old := x.OnCall
	defer func() { x.OnCall = old }()
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		if c.Name == "go/ast.NotNilFilter" {
			return c.ret(c.St, mk("shown", "")), true
		}
		if strings.HasSuffix(c.Name, "reflect.Value).IsNil") {
			return c.ret(c.St, mk("not", "", mk("shown", ""))), true
		}
		return nil, false
	}
	for _, o := range x.callFn(nil, st.clone(), f.Fn, []*Term{tIn("name"), tIn("value")}, f.A, nil) {
		if o.Kind != oReturn {
			return "the filter panics"
		}
		v := o.Vals[0]
		if o.St.facts.eval(v) == yes || same(v, mk("shown", "")) || o.St.facts.eval(mk("shown", "")) == no {
			continue
		}
		return fmt.Sprintf("the filter leaves out fields that are not nil, when %s", clip(o.St.facts.describe(), 120))
	}
	return ""
}

func (d *dumpCheck) run(name string, writer, text bool) {
	c := d.c
	fn := d.p.fn("ast", name)
	key := "ast." + name
	if fn == nil {
		c.fail(key, "", "function ast.%s not found", name)
		return
	}
	x := newExec(d.p)
	x.CheckIdx = true
	st := d.p.withInit(d.p.pkg("ast"))
	st.events = nil
	var args []*Term
	var w, n *Term
	for i, p := range fn.Params {
		t := tIn(p.Name())
		args = append(args, t)
		st.facts.nils[t.Key()] = no
		if i == len(fn.Params)-1 {
			n = t
		} else {
			w = t
		}
	}
	if !writer && !text {
		w = mk("glob", "os.Stdout")
		w = x.resolve(st, w)
	}
	failed := &Term{Op: "err", S: "dump", T: errType}
	wfail := &Term{Op: "err", S: "write", T: errType}
	shown := mk("dumped", "", n)
	bad := ""
	x.OnWrite = func(cc *CallCtx, m *Term) []Outcome {
		if isBuffer(dynOf(cc.Args[0])) || isBuffer(cc.Args[0].T) {
			return cc.ret(cc.St, m, tNil)
		}
		s2 := cc.St.clone()
		s2.ghost = "w"
		return append(cc.ret(cc.St, m, tNil), cc.ret(s2, m, wfail)...)
	}
	x.OnCall = func(cc *CallCtx) ([]Outcome, bool) {
		var dst, node *Term
		switch cc.Name {
		case "go/ast.Fprint":
			dst, node = cc.Args[0], cc.Args[2]
			if m := d.filter(x, cc.St, x.resolve(cc.St, cc.Args[3])); m != "" {
				bad = m
			}
		case "go/ast.Print":
			dst, node = mk("glob", "os.Stdout"), cc.Args[1]
		default:
			return nil, false
		}
		if !same(unbox(node), n) {
			bad = fmt.Sprintf("%s is dumped instead of the node", clip(node.String(), 80))
		}
		s2 := cc.St.clone()
		x.emit(cc.St, dst, shown)
		x.emit(s2, dst, mk("unk", "part"))
		s2.ghost = "!"
		return append(cc.ret(cc.St, tNil), cc.ret(s2, failed)...), true
	}
	outs := x.Call(fn, args, st)
	c.saw(x)
	good := 0
	for _, o := range outs {
		pos := d.p.pos(o.Pos)
		f := o.St.facts
		if o.Kind == oPanic {
			c.fail(key, pos, "%s panics: %s", name, o.Msg)
			continue
		}
		err := o.Vals[len(o.Vals)-1]
		switch f.isNil(err) {
		case no:
			if o.St.ghost == "" {
				c.fail(key, pos, "%s fails although the node was dumped", name)
				continue
			}
			if cause(x.errorText(o.St, err), "dump", "write") == nil {
				c.fail(key, pos, "the error %s of %s does not contain the reason", clip(err.String(), 100), name)
			}
			if text {
				if s := x.resolve(o.St, o.Vals[0]); !s.isStr() || s.S != "" {
					c.fail(key, pos, "%s returns a text along with an error", name)
				}
			}
			continue
		case unknown:
			c.fail(key, pos, "it is not known whether %s fails", name)
			continue
		}
		if o.St.ghost != "" {
			c.fail(key, pos, "%s ends with success although the dump failed", name)
			continue
		}
		good++
		var got *Term
		if text {
			got = x.resolve(o.St, o.Vals[0])
		} else {
			got = x.resolve(o.St, x.readContent(o.St, w))
		}
		ps := catParts(got)
		var keep []*Term
		for _, p := range ps {
			if p.Op != "before" && !(p.isStr() && p.S == "") && !(p.Op == "content") {
				keep = append(keep, p)
			}
		}
		if len(keep) != 1 || !same(unbox(keep[0]), shown) {
			c.fail(key, pos, "%s gives %s instead of the dump of the node", name, clip(got.String(), 120))
		}
	}
	if bad != "" {
		c.fail(key, d.p.pos(fn.Pos()), "%s: %s", name, bad)
	}
	for _, u := range x.undecided {
		c.fail(key, d.p.pos(fn.Pos()), "not decided: %s", u)
	}
	if good == 0 {
		c.fail(key, d.p.pos(fn.Pos()), "%s never succeeds", name)
	} else {
		c.ok(key, "%d paths", len(outs))
	}
}

func init() {
	checks["C30"] = func(c *Check) {
		c.rule = "Abstract interpretation of ast.Print, Dump and Fprint on an arbitrary node, with the library's dumper as a call that writes the dump of what it is given or fails: what reaches the destination (or the returned text) is the dump of the whole node, once, with a filter that leaves out nothing but nil; failures are returned with their reason and without text."
		c.assumptions = []string{"go/ast.Fprint", "buffers do not fail"}
		d := &dumpCheck{c, c.p}
		d.run("Fprint", true, false)
		d.run("Dump", false, true)
		d.run("Print", false, false)
	}
}

package main

// C11: the first write error is reported and stops printing.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	errFirst = &Term{Op: "err", S: "first write error", T: errType}
	errNode  = &Term{Op: "err", S: "node cannot be printed", T: errType}
)

type errCheck struct {
	*printCheck
	efails map[*ssa.Function][]string
	edone  map[*ssa.Function]int
	drops  map[*ssa.Function]bool
	bads   []string // violations seen while interpreting the current function
	reason bool     // the texts of errors are followed (C29)
}

func isBuffer(t types.Type) bool {
	if t == nil {
		return false
	}
	switch strings.TrimPrefix(tkey(t), "*") {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}

func (ec *errCheck) neverFails(st *State, w *Term) bool {
	if isBuffer(w.T) {
		return true
	}
	if ts := st.facts.dynTypes(w, nil); len(ts) == 1 && isBuffer(ts[0]) {
		return true
	}
	if d := dynOf(w); d != nil && isBuffer(d) {
		return true
	}
	return false
}

func isErrTerm(v *Term) bool {
	return v.Op == "err" || v.Op == "nil"
}

func (ec *errCheck) exec() *Exec {
	x := newExec(ec.p)
	x.NoFail = false
	x.Track = func(v *Term) bool {
		if v == nil {
			return false
		}
		return v.Op == "nil" || v.Op == "err" || v.Op == "bool"
	}
	x.OnWrite = func(c *CallCtx, n *Term) []Outcome {
		if ec.neverFails(c.St, c.Args[0]) {
			return c.ret(c.St, n, tNil)
		}
		if strings.HasPrefix(c.St.ghost, "failed") {
			ec.bads = append(ec.bads, fmt.Sprintf("%s: writes again after a write failed", ec.p.pos(c.Pos())))
		}
		st2 := c.St.clone()
		if st2.ghost != "failed" {
			st2.ghost = "failed"
		}
		return append(c.ret(c.St, n, tNil), c.ret(st2, n, errFirst)...)
	}
	return x
}

// hookE summarises calls of functions that print a node.
func (ec *errCheck) hookE(x *Exec) {
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		if c.Fn != nil && c.Fn.Pkg != nil && strings.HasSuffix(c.Fn.Pkg.Pkg.Path(), "internal/errutil") ||
			c.Name == "fmt.Errorf" || c.Name == "errors.New" {
			wrap := false
			for _, a := range c.Args {
				if mentionsTerm(c.X.resolve(c.St, c.X.view(c.St, a)), errFirst) {
					wrap = true
				}
			}
			if wrap {
				return c.ret(c.St, errFirst), true
			}
			if c.St.ghost == "" {
				c.St.ghost = "bad"
			}
			if ec.reason {
				return nil, false
			}
			return c.ret(c.St, errNode), true
		}
		if c.Fn == nil {
			return nil, false
		}
		if _, ok := ec.cands[c.Fn]; !ok {
			return nil, false
		}
		si := ec.p.sinkArg(c.Fn)
		cells := ec.cells(c.Fn.Params[si].Type(), c.Args[si])
		retErr := c.Fn.Signature.Results().Len() == 1
		w := c.X.sinkTerm(c.St, c.Fn.Params[si].Type(), c.Args[si])
		mk1 := func(st *State, e *Term) []Outcome {
			// some text was written, nobody knows how much
			c.X.fresh++
			c.X.emit(st, w, mk("unk", fmt.Sprintf("output%d", c.X.fresh)))
			if e.Op != "nil" {
				for _, cell := range cells {
					if v := c.X.read(st, cell, errorType); v.Op == "nil" {
						c.X.set(st, cell, e)
					}
				}
			}
			if retErr {
				return c.ret(st, e)
			}
			return c.ret(st)
		}
		for _, cell := range cells {
			v := c.X.read(c.St, cell, errorType)
			switch c.St.facts.isNil(v) {
			case no:
				// the callee does nothing any more
				if retErr {
					return c.ret(c.St, v), true
				}
				return c.ret(c.St), true
			case unknown:
				x.undecide(c.Pos(), "error state %s unknown when %s is called", v, c.Fn)
			}
		}
		if c.St.ghost == "failed" {
			ec.bads = append(ec.bads, fmt.Sprintf("%s: goes on printing (%s) after a write failed", ec.p.pos(c.Pos()), c.Fn.Name()))
		}
		var outs []Outcome
		if !ec.neverFails(c.St, w) {
			st2 := c.St.clone()
			st2.ghost = "failed"
			outs = append(outs, mk1(st2, errFirst)...)
		}
		st3 := c.St.clone()
		if st3.ghost == "" {
			st3.ghost = "bad"
		}
		outs = append(outs, mk1(st3, errNode)...)
		return append(outs, mk1(c.St, tNil)...), true
	}
}

func (ec *errCheck) cells(sinkT types.Type, arg *Term) []*Term {
	var out []*Term
	if pt, ok := sinkT.(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			for _, f := range errFields(pt.Elem()) {
				out = append(out, fld(f, arg))
			}
		}
	}
	return out
}

// judge checks one outcome.
func (ec *errCheck) judge(x *Exec, fn *ssa.Function, o Outcome, cells []*Term, node *Term, entry string) string {
	where := ec.p.pos(o.Pos)
	if !o.Pos.IsValid() {
		where = ec.p.pos(fn.Pos())
	}
	if o.Kind == oPanic {
		return fmt.Sprintf("%s: panics (%s)", where, o.Msg)
	}
	var errs []*Term
	for _, cell := range cells {
		errs = append(errs, x.read(o.St, cell, errorType))
	}
	if rs := fn.Signature.Results(); rs.Len() > 0 && isError(rs.At(rs.Len()-1).Type()) {
		errs = append(errs, o.Vals[len(o.Vals)-1])
	}
	if len(errs) == 0 {
		return fmt.Sprintf("%s: no way to report an error", where)
	}
	for _, e := range errs {
		switch o.St.ghost {
		case "failed":
			if !same(e, errFirst) {
				what := "another error: " + e.String()
				if e.Op == "nil" {
					what = "success"
				}
				return fmt.Sprintf("%s: a write failed but %s ends with %s%s", where, fn.Name(), what, entry)
			}
		case "bad":
			if e.Op == "nil" {
				return fmt.Sprintf("%s: a node could not be printed but %s ends with success", where, fn.Name())
			}
			if e.Op != "err" {
				return fmt.Sprintf("%s: cannot tell what error %s ends with: %s", where, fn.Name(), e)
			}
			if ec.reason && !same(e, errNode) {
				if m := ec.named(x, fn, o, e, node); m != "" {
					return where + ": " + m
				}
			}
		default:
			if ni, ok := ec.cands[fn]; ok && node != nil && types.IsInterface(fn.Params[ni].Type()) && o.St.facts.isNil(e) == yes {
				ts := o.St.facts.dynTypes(node, fn.Params[ni].Type())
				printable := len(ts) == 0 && o.St.facts.isNil(node) != yes
				for _, t := range ts {
					if _, ok := ec.p.expandNode(node, t); ok {
						printable = true
					}
				}
				if !printable {
					return fmt.Sprintf("%s: %s ends with success for a node that cannot be printed (%s)", where, fn.Name(), clip(o.St.facts.describe(), 200))
				}
			}
			if o.St.facts.isNil(e) != yes {
				return fmt.Sprintf("%s: everything was written but %s ends with error %s", where, fn.Name(), e)
			}
		}
	}
	return ""
}

func (ec *errCheck) verifyE(fn *ssa.Function) (fails []string, paths int) {
	si := ec.p.sinkArg(fn)
	for _, mode := range []string{"", "failed"} {
		x := ec.exec()
		ec.hookE(x)
		ec.bads = nil
		st := newState()
		st.ghost = mode
		var args []*Term
		for i, a := range fn.Params {
			args = append(args, tIn(fmt.Sprintf("arg%d_%s", i, a.Name())))
		}
		var cells []*Term
		if si >= 0 {
			cells = ec.cells(fn.Params[si].Type(), args[si])
		}
		if mode == "failed" && len(cells) == 0 {
			continue
		}
		for _, cell := range cells {
			v := tNil
			if mode == "failed" {
				v = errFirst
			}
			x.set(st, cell, v)
		}
		if ni, ok := ec.cands[fn]; ok && !types.IsInterface(fn.Params[ni].Type()) {
			st.facts.nils[args[ni].Key()] = no
		}
		// the function under analysis is not summarised at the root
		outs := x.Call(fn, args, st)
		entry := ""
		if mode != "" {
			entry = " (entered after the failure)"
		}
		for _, o := range outs {
			paths++
			var node *Term
			if ni, ok := ec.cands[fn]; ok {
				node = args[ni]
			}
			if m := ec.judge(x, fn, o, cells, node, entry); m != "" {
				fails = append(fails, m)
			}
		}
		if len(outs) == 0 {
			fails = append(fails, "no path through "+fn.Name())
		}
		for _, b := range ec.bads {
			fails = append(fails, b+entry)
		}
		for _, u := range x.undecided {
			fails = append(fails, "not decided: "+u)
		}
		for f := range x.funcs {
			ec.c.funcs[f.String()] = true
		}
	}
	return uniq(fails), paths
}

func uniq(s []string) []string {
	seen := map[string]bool{}
	var out []string
	real := 0
	for _, v := range s {
		if !strings.HasPrefix(v, "not decided") && !strings.HasPrefix(v, "no path") {
			real++
		}
	}
	for _, v := range s {
		if real > 0 && strings.HasPrefix(v, "not decided") {
			continue
		}
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

func init() {
	checks["C11"] = func(c *Check) {
		c.rule = "Typestate analysis of package printer: every write to the destination may fail; on every path and through every loop, after the first failing write no further write or printing call is reached, and the error state or result at the end is that error; nil exactly when nothing failed and every node had a printed form. Printing functions are verified separately against this contract (assume-guarantee) for both entry states."
		c.assumptions = []string{"bytes.Buffer and strings.Builder never fail", "the destination reports failures through its error result"}
		runErrCheck(c, false)
	}
}

func runErrCheck(c *Check, reason bool) {
	pc := newPrintCheck(c)
	if pc == nil {
		return
	}
	ec := &errCheck{printCheck: pc, efails: map[*ssa.Function][]string{}, edone: map[*ssa.Function]int{}, drops: map[*ssa.Function]bool{}, reason: reason}
	pc.candidates()
	for {
		var fns []*ssa.Function
		for fn := range ec.cands {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		var drop []*ssa.Function
		for _, fn := range fns {
			fs, n := ec.verifyE(fn)
			if len(fs) > 0 {
				if ec.efails[fn] == nil {
					ec.efails[fn] = fs
				}
				drop = append(drop, fn)
			} else {
				ec.edone[fn] = n
				delete(ec.efails, fn)
			}
		}
		isCand := func(f *ssa.Function) bool { _, ok := ec.cands[f]; return ok }
		for _, fn := range chooseDrop(drop, isCand) {
			delete(ec.cands, fn)
			delete(ec.edone, fn)
		}
		if len(drop) == 0 {
			break
		}
	}
	bad := false
	for _, name := range []string{"Fprint", "Bytes", "Print"} {
		fn := pc.pkg.Func(name)
		key := "entry printer." + name
		if fn == nil {
			c.fail(key, "", "function printer.%s not found", name)
			continue
		}
		if _, ok := ec.cands[fn]; ok {
			c.ok(key, "%d paths", ec.edone[fn])
			continue
		}
		fs := ec.efails[fn]
		if fs == nil {
			var n int
			fs, n = ec.verifyE(fn)
			if len(fs) == 0 {
				c.ok(key, "%d paths", n)
				continue
			}
		}
		bad = true
		for i, f := range fs {
			if i < 5 {
				c.fail(key, pc.p.pos(fn.Pos()), "%s", f)
			}
		}
	}
	for fn, n := range ec.edone {
		c.ok("contract "+fn.Name(), "%d paths", n)
	}
	for fn, fs := range ec.efails {
		for _, f := range fs {
			if strings.Contains(f, "ends with success for a node that cannot be printed") {
				c.fail("contract "+fn.Name(), pc.p.pos(fn.Pos()), "%s", f)
			}
		}
	}
	if bad {
		for fn, fs := range ec.efails {
			if n := fn.Name(); n == "Fprint" || n == "Bytes" || n == "Print" {
				continue
			}
			for i, f := range fs {
				if i < 3 {
					c.fail("contract "+fn.Name(), pc.p.pos(fn.Pos()), "%s", f)
				}
			}
		}
	}
}

var errorType = types.Universe.Lookup("error").Type()

package main

// Package initialisers by constant propagation: the values package-level
// variables have after initialisation.

import (
	"golang.org/x/tools/go/ssa"
)

// initState interprets the initialiser of a package and returns the state that
// results, or nil if it does not have one constant outcome.
func (p *Program) initState(sp *ssa.Package, und *[]string) *State {
	fn := sp.Func("init")
	if fn == nil {
		return newState()
	}
	x := newExec(p)
	x.Unroll = true
	x.RecDepth = 4
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		if c.Fn != nil && c.Fn.Name() == "init" && c.Fn != fn && c.Fn.Synthetic != "" {
			return c.ret(c.St), true
		}
		return nil, false
	}
	st := newState()
	// the guard that keeps the initialiser from running twice
	x.set(st, mk("glob", sp.Pkg.Path()+".init$guard"), tBool(false))
	outs := x.Call(fn, nil, st)
	if und != nil {
		*und = append(*und, x.undecided...)
	}
	if len(outs) != 1 || outs[0].Kind != oReturn {
		return nil
	}
	s := outs[0].St
	s.events = nil
	return s
}

// withInit is a fresh state in which the variables of sp that are never
// assigned after initialisation have their initial values.
func (p *Program) withInit(sp *ssa.Package) *State {
	st := newState()
	in := p.initState(sp, nil)
	if in == nil {
		return st
	}
	written := p.writtenGlobals()
	for k, c := range in.mem {
		if r := rootOf(c.path); r.Op == "glob" && written[r.S] {
			continue
		}
		st.mem[k] = c
	}
	st.mapver = in.mapver
	st.mapvg = in.mapvg
	return st
}

// writtenGlobals are package-level variables assigned (or whose address is
// taken) outside initialisers.
func (p *Program) writtenGlobals() map[string]bool {
	w := map[string]bool{}
	only := newProvOnce(p, false).isInit
	for _, f := range p.funcs {
		if only[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch v := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
						if onlyLoaded(v.(ssa.Value)) {
							continue
						}
					}
					w[g.Pkg.Pkg.Path()+"."+g.Name()] = true
				}
			}
		}
	}
	return w
}

// onlyLoaded: nothing is stored through the address (or slice) v here.
func onlyLoaded(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
			if !onlyLoaded(r.(ssa.Value)) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

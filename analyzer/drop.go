package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// usesOf lists the candidates that fn calls, directly or through functions
// that are no candidates.
func usesOf(fn *ssa.Function, isCand func(*ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{fn: true}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if isCand(g) {
						out[g] = true
					} else if !seen[g] {
						seen[g] = true
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			if !seen[g] {
				seen[g] = true
				visit(g)
			}
		}
	}
	visit(fn)
	return out
}

// chooseDrop picks, from the candidates that do not meet their contract, those
// to give up first. A candidate fails when one it relies on has another
// contract than assumed, so those that rely on no other failing one go first,
// and among those that rely on each other the one that looks like a helper.
// Any set in which every member meets its contract is sound, so the order
// matters for precision alone.
func chooseDrop(failing []*ssa.Function, isCand func(*ssa.Function) bool) []*ssa.Function {
	if len(failing) < 2 {
		return failing
	}
	in := map[*ssa.Function]bool{}
	for _, f := range failing {
		in[f] = true
	}
	uses := map[*ssa.Function]map[*ssa.Function]bool{}
	var leafs []*ssa.Function
	for _, f := range failing {
		uses[f] = usesOf(f, isCand)
		leaf := true
		for g := range uses[f] {
			if g != f && in[g] {
				leaf = false
			}
		}
		if leaf {
			leafs = append(leafs, f)
		}
	}
	if len(leafs) > 0 {
		return leafs
	}
	// those on cycles only: what merely uses a cycle waits
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		out := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for h := range uses[g] {
				if in[h] && !out[h] {
					out[h] = true
					visit(h)
				}
			}
		}
		visit(f)
		return out
	}
	var cyc []*ssa.Function
	for _, f := range failing {
		r := reach(f)
		bottom := r[f]
		for g := range r {
			if !reach(g)[f] {
				bottom = false
			}
		}
		if bottom {
			cyc = append(cyc, f)
		}
	}
	if len(cyc) == 0 {
		return failing
	}
	min, max := 1<<30, 0
	for _, f := range cyc {
		if n := len(f.Params); n < min {
			min = n
		}
		if n := len(f.Params); n > max {
			max = n
		}
	}
	if max > min {
		var out []*ssa.Function
		for _, f := range cyc {
			if len(f.Params) == max {
				out = append(out, f)
			}
		}
		return out
	}
	callers := map[*ssa.Function]int{}
	least := 1 << 30
	for _, f := range cyc {
		for _, g := range failing {
			if uses[g][f] {
				callers[f]++
			}
		}
		if callers[f] < least {
			least = callers[f]
		}
	}
	var out []*ssa.Function
	for _, f := range cyc {
		if callers[f] == least {
			out = append(out, f)
		}
	}
	return out
}

// mayBeNilArg: a parameter that is a pointer is given what is not known to be
// there. Contracts are verified for nodes that are, so such calls are inlined.
func mayBeNilArg(c *CallCtx, i int) bool {
	if types.IsInterface(c.Fn.Params[i].Type()) {
		return false
	}
	if _, ok := c.Fn.Params[i].Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	return c.St.facts.isNil(c.Args[i]) != no
}

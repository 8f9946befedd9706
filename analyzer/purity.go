package main

import "golang.org/x/tools/go/ssa"

// isPureFn reports whether fn (and what it calls) only reads memory.
func (p *Program) isPureFn(fn *ssa.Function) bool {
	if p.pure == nil {
		p.pure = map[*ssa.Function]bool{}
	}
	if v, ok := p.pure[fn]; ok {
		return v
	}
	p.pure[fn] = true // recursion is pure unless something else is not
	v := p.computePure(fn)
	p.pure[fn] = v
	return v
}

func (p *Program) computePure(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !p.inRepo(fn) || len(fn.FreeVars) > 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure, *ssa.Panic:
				return false
			case *ssa.Call:
				c := in.Common()
				if c.IsInvoke() {
					if !isPure(invokeName(c)) {
						return false
					}
					continue
				}
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "min", "max", "ssa:wrapnilchk":
						continue
					}
					return false
				}
				cal := c.StaticCallee()
				if cal == nil {
					return false
				}
				if isPure(cal.String()) {
					continue
				}
				if !p.isPureFn(cal) {
					return false
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	for {
		switch a := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return false
		}
	}
}

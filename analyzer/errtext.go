package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// textParts are the parts of a text, the texts of errors made of known parts
// taken apart.
func (x *Exec) textParts(st *State, toks []*Term) []*Term {
	return x.partsOf(st, toks, 0)
}

func (x *Exec) partsOf(st *State, toks []*Term, depth int) []*Term {
	var out []*Term
	for _, t := range toks {
		for _, p := range catParts(t) {
			for inFull(p) {
				p = unbox(p.A[0])
			}
			if p.Op == "call" && strings.HasSuffix(p.S, ".Error") && len(p.A) == 1 {
				p = unbox(p.A[0])
			}
			if p.Op == "conv" && len(p.A) == 1 {
				p = unbox(p.A[0])
			}
			switch {
			case depth > 8:
				out = append(out, p)
			case p.Op == "err" && strings.HasPrefix(p.S, "New@") && len(p.A) == 1:
				out = append(out, x.partsOf(st, p.A, depth+1)...)
			case p.Op == "err" && strings.HasPrefix(p.S, "Errorf@") && len(p.A) == 2:
				ts, ok := x.formatTokens(st, p.A[0], p.A[1], nil)
				if !ok {
					ts = []*Term{p}
				}
				out = append(out, x.partsOf(st, ts, depth+1)...)
			case p.Op == "cat":
				out = append(out, x.partsOf(st, p.A, depth+1)...)
			default:
				if t := x.ownError(st, p); t != nil {
					out = append(out, x.partsOf(st, []*Term{t}, depth+1)...)
				} else {
					out = append(out, p)
				}
			}
		}
	}
	return out
}

// inFull: a value formatted so that all of it can be read.
func inFull(p *Term) bool {
	return p.Op == "fmt" && len(p.A) == 1 && strings.ContainsAny(p.S[len(p.S)-1:], "svqdcw") && !strings.Contains(p.S, ".")
}

// typeOrFull: a value formatted so that all of it, or its type, can be read.
func typeOrFull(p *Term) bool {
	return inFull(p) || p.Op == "fmt" && len(p.A) == 1 && p.S == "%T"
}

// errorText are the parts of an error's text.
func (x *Exec) errorText(st *State, e *Term) []*Term {
	return x.textParts(st, []*Term{x.resolve(st, e)})
}

// ownError is the text of an error of a type of the module.
func (x *Exec) ownError(st *State, e *Term) *Term {
	t := dynOf(e)
	if t == nil {
		if ts := st.facts.dynTypes(e, nil); len(ts) == 1 {
			t = ts[0]
		}
	}
	if t == nil || !hasMethod(t, "Error") || !ownType(t) {
		return nil
	}
	var fn *ssa.Function
	ms := x.prog.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Error" {
			fn = x.prog.ssa.MethodValue(ms.At(i))
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	outs := x.Call(fn, []*Term{unbox(e)}, st.clone())
	if len(outs) != 1 || outs[0].Kind != oReturn || len(outs[0].Vals) != 1 {
		return nil
	}
	return x.resolve(outs[0].St, outs[0].Vals[0])
}

// ownType: a type declared in the module, or a pointer to one.
func ownType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && !types.IsInterface(t) && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

package main

// Typestate mode of the interpreter: loops are explored as a finite graph of
// header states made of the tracked values (error constants, ghost state); all
// other loop-carried values are forgotten.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) typestateLoop(fr *Frame, st0 *State, rg0 regs, from *ssa.BasicBlock, li *loopInfo, outer *loopRun) []Outcome {
	id := fmt.Sprintf("%s/T%d", fr.id, li.header.Index)
	lr := &loopRun{info: li, K: mk("iter", id)}
	var phis []*ssa.Phi
	for _, in := range li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	type hstate struct {
		st *State
		rg regs
	}
	seen := map[string]bool{}
	var work []hstate
	forget := func(name string) *Term { return mk("unk", "hv:"+id+":"+name) }
	arrive := func(st *State, rg regs, first bool) {
		h := hstate{st0.clone(), rg0.clone()}
		h.st.ghost = st.ghost
		h.st.seq = st.seq
		var key []string
		key = append(key, st.ghost)
		for _, p := range phis {
			v := rg[p]
			if !x.Track(v) {
				v = forget(p.Name())
			} else {
				key = append(key, p.Name()+"="+v.Key())
			}
			h.rg[p] = v
		}
		if !first {
			changed := map[string]bool{}
			for k, c := range st.mem {
				if old, ok := st0.mem[k]; !ok || !same(old.val, c.val) {
					v := c.val
					if !x.Track(v) {
						v = forget(k)
					}
					h.st.mem[k] = cell{c.path, v}
					changed[k] = true
				}
			}
			for k := range st0.mem {
				if _, ok := st.mem[k]; !ok {
					delete(h.st.mem, k)
				}
			}
			h.st.mapver = st.mapver
		}
		var cells []string
		for k, c := range h.st.mem {
			if x.Track(c.val) {
				cells = append(cells, k+"="+c.val.Key())
			}
		}
		sort.Strings(cells)
		k := strings.Join(append(key, cells...), "\n")
		if seen[k] {
			return
		}
		seen[k] = true
		work = append(work, h)
	}
	rg := rg0.clone()
	x.phis(st0, rg, from, li.header)
	arrive(st0, rg, true)
	var res []Outcome
	for n := 0; len(work) > 0; n++ {
		if n > 64 {
			x.undecide(li.header.Instrs[0].Pos(), "too many typestates in a loop of %s", fr.fn)
			return nil
		}
		h := work[0]
		work = work[1:]
		outs := x.block(fr, h.st, h.rg, li.header, 0, lr)
		for _, o := range outs {
			switch o.Kind {
			case oContinue:
				r := o.regs.clone()
				x.phis(o.St, r, o.from, li.header)
				arrive(o.St, r, false)
			case oExit:
				res = append(res, x.run(fr, o.St, o.regs, o.from, o.to, outer)...)
			default:
				res = append(res, o)
			}
		}
		if x.steps > maxSteps {
			x.undecide(fr.fn.Pos(), "analysis budget exceeded in %s", fr.fn)
			return nil
		}
	}
	return res
}

package main

// Loop summaries. A natural loop is interpreted once per phase with a symbolic
// iteration counter; loop-carried values are classified (invariant, induction,
// constant after the first iteration, accumulator, consumed slice) by a small
// fixpoint, everything else is unknown. The result is a Loop: how many
// iterations there are and, for each kind of iteration, its facts and effects.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// IterPath is one way an iteration can go (and continue).
type IterPath struct {
	Facts  *Facts
	Events []Event
	Segs   map[string][]*Term // accumulator slot -> segments appended
	Back   map[string]*Term   // unknown carried slot -> value at the end
}

// Loop is the summary of a loop.
type Loop struct {
	ID      string
	K       *Term // iteration counter symbol
	Count   *Term // number of iterations (complete loops)
	Over    *Term // what Count is the length of, if it is
	Paths   []*IterPath
	Carried []Carried // unclassified loop-carried values
	Pos     int
}

type Carried struct {
	Slot string
	Sym  *Term
	Init *Term
	Post *Term
}

func (l *Loop) describe(slot string) string {
	var ps []string
	for _, p := range l.Paths {
		var segs []string
		if slot != "" {
			for _, s := range p.Segs[slot] {
				segs = append(segs, s.String())
			}
		} else {
			if len(p.Events) > 0 {
				segs = append(segs, describeEvents(p.Events))
			}
			for _, k := range sortedKeys(p.Segs) {
				var ss []string
				for _, s := range p.Segs[k] {
					ss = append(ss, s.String())
				}
				segs = append(segs, k+"+="+strings.Join(ss, "+"))
			}
			for _, k := range sortedKeys(p.Back) {
				segs = append(segs, k+":="+p.Back[k].String())
			}
		}
		ps = append(ps, "["+p.Facts.describe()+"] "+strings.Join(segs, " "))
	}
	cnt := "?"
	if l.Count != nil {
		cnt = l.Count.String()
	}
	return l.K.String() + "<" + cnt + ": " + strings.Join(ps, " | ")
}

// singleElem is the element appended to slot by every iteration, if each
// iteration appends exactly one and it is the same term.
func (l *Loop) singleElem(slot string) *Term {
	var e *Term
	for _, p := range l.Paths {
		s := p.Segs[slot]
		if len(s) != 1 || s[0].Op != "one" {
			return nil
		}
		if e != nil && !same(e, s[0].A[0]) {
			return nil
		}
		e = s[0].A[0]
	}
	return e
}

// constSegs is the number of elements every iteration appends, or -1.
func (l *Loop) constSegs(slot string) int {
	n := -1
	for _, p := range l.Paths {
		s := p.Segs[slot]
		for _, x := range s {
			if x.Op != "one" {
				return -1
			}
		}
		if n >= 0 && n != len(s) {
			return -1
		}
		n = len(s)
	}
	if l.Count == nil {
		return -1
	}
	return n
}

func (l *Loop) keyOf() string {
	var b strings.Builder
	if l.Count != nil {
		b.WriteString(l.Count.Key())
	}
	for _, p := range l.Paths {
		b.WriteString("|" + p.Facts.describe())
		for _, k := range sortedKeys(p.Segs) {
			for _, s := range p.Segs[k] {
				b.WriteString(";" + s.Key())
			}
		}
	}
	return l.ID + b.String()
}

func (l *Loop) subst(m map[string]*Term) *Loop {
	if _, ok := m[l.K.Key()]; ok {
		return l
	}
	n := &Loop{ID: l.ID, K: l.K, Carried: l.Carried, Over: l.Over}
	changed := false
	if l.Count != nil {
		n.Count = subst(l.Count, m)
		changed = n.Count != l.Count
	}
	for _, p := range l.Paths {
		q := &IterPath{Facts: p.Facts, Events: p.Events, Segs: map[string][]*Term{}, Back: p.Back}
		for k, ss := range p.Segs {
			for _, s := range ss {
				s2 := subst(s, m)
				changed = changed || s2 != s
				q.Segs[k] = append(q.Segs[k], s2)
			}
		}
		n.Paths = append(n.Paths, q)
	}
	if !changed {
		return l
	}
	return n
}

func (l *Loop) mentions(keys map[string]bool) bool {
	if l.Count != nil && mentions(l.Count, keys) {
		return true
	}
	for _, p := range l.Paths {
		for _, ss := range p.Segs {
			for _, s := range ss {
				if mentions(s, keys) {
					return true
				}
			}
		}
	}
	return false
}

type loopRun struct {
	info *loopInfo
	K    *Term
	maps map[string]bool // maps from outside that iterations change
}

type mode int

const (
	mSym mode = iota
	mInv
	mInduct
	mConst
	mAccum
	mConsume
	mFill
)

type slotState struct {
	name    string
	phi     *ssa.Phi
	path    *Term // memory cell
	typ     types.Type
	init    *Term
	sym     *Term
	mode    mode
	step    int64
	cval    *Term
	bad     map[mode]bool
	isStr   bool
	fixed   bool
	grow    int64 // every iteration appends as many elements (0: not known)
	erratic bool
}

// accumLens are the lengths, at the start of an iteration, of lists to which
// every iteration appends as many elements.
var accumLens = map[string]*Term{}

// appended is the number of elements v appends to the slot, or -1.
func appended(s *slotState, v *Term) int64 {
	if v == nil || v.Op != "app" || !isAccum(s, v) {
		return -1
	}
	for _, e := range v.A[1:] {
		if e.Op != "one" {
			return -1
		}
	}
	return int64(len(v.A) - 1)
}

func (s *slotState) start(k *Term, phase int) *Term {
	switch s.mode {
	case mInv:
		return s.init
	case mInduct:
		return linComb(k, s.step, s.init, 1)
	case mConst:
		if phase == 0 {
			return s.init
		}
		return s.cval
	case mConsume:
		return sliceOf(s.init, linComb(k, s.step, tInt(0), 0), nil)
	}
	return s.sym
}

func (x *Exec) execLoop(fr *Frame, st0 *State, rg0 regs, from *ssa.BasicBlock, li *loopInfo, outer *loopRun) []Outcome {
	id := fmt.Sprintf("%s/L%d%s", fr.id, li.header.Index, st0.tag())
	K := mk("iter", id)
	lr := &loopRun{info: li, K: K}

	// header phis
	var slots []*slotState
	tmp := rg0.clone()
	x.phis(st0, tmp, from, li.header)
	for _, in := range li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s := &slotState{name: "phi" + p.Name(), phi: p, typ: p.Type(), init: tmp[p], bad: map[mode]bool{}}
		s.sym = x.slotSym(id, s)
		delete(accumLens, s.sym.Key())
		slots = append(slots, s)
	}

	var outs [][]Outcome
	phases := 1
	stable := false
	for pass := 0; pass < 16 && !stable; pass++ {
		phases = 1
		for _, s := range slots {
			if s.mode == mConst {
				phases = 2
			}
		}
		outs = nil
		for ph := 0; ph < phases; ph++ {
			phase := ph
			if phases == 1 {
				phase = -1
			}
			outs = append(outs, x.loopBody(fr, st0, rg0, li, lr, slots, phase, outer))
			if x.steps > maxSteps {
				return nil
			}
		}
		stable = true
		if x.changedMaps(fr, st0, rg0, id, outs, lr) {
			stable = false
			continue
		}
		// newly modified cells
		known := map[string]bool{}
		for _, s := range slots {
			if s.path != nil {
				known[s.path.Key()] = true
			}
		}
		var news []*slotState
		for ph := range outs {
			for _, o := range outs[ph] {
				if o.Kind != oContinue {
					continue
				}
				for k, c := range o.St.mem {
					if known[k] {
						continue
					}
					if old, ok := st0.mem[k]; ok && same(old.val, c.val) {
						continue
					}
					if c.path.Op == "mapidx" {
						continue // see changedMaps
					}
					r := rootOf(c.path)
					if r.Op == "new" || r.Op == "newslice" || r.Op == "newmap" {
						if !x.liveAtEntry(st0, rg0, fr, r, id) {
							continue // local to the iteration
						}
					}
					known[k] = true
					s := &slotState{name: "cell" + k, path: c.path, bad: map[mode]bool{}}
					s.init = x.cellInit(st0, c)
					s.sym = x.slotSym(id, s)
					if mentions(c.path, map[string]bool{K.Key(): true}) {
						s.mode = mFill
					}
					news = append(news, s)
				}
			}
		}
		sort.Slice(news, func(i, j int) bool { return news[i].name < news[j].name })
		if len(news) > 0 {
			slots = append(slots, news...)
			stable = false
			continue
		}
		changed := map[string]bool{}
		for _, s := range slots {
			if x.classify(s, outs, K, phases) {
				stable = false
				changed[s.sym.Key()] = true
			}
		}
		// cells named by a value that is now known better are found again
		if len(changed) > 0 {
			var keep []*slotState
			for _, s := range slots {
				if s.path == nil || !mentions(s.path, changed) {
					keep = append(keep, s)
				} else {
					delete(accumLens, s.sym.Key())
				}
			}
			slots = keep
		}
	}
	if !stable {
		x.undecide(li.header.Instrs[0].Pos(), "loop in %s does not stabilise", fr.fn)
	}

	// collect iteration paths
	loop := &Loop{ID: id, K: K}
	any := false
	for ph := range outs {
		for _, o := range outs[ph] {
			if o.Kind != oContinue {
				continue
			}
			any = true
			ip := &IterPath{Facts: o.St.facts, Events: o.St.events, Segs: map[string][]*Term{}, Back: map[string]*Term{}}
			for _, s := range slots {
				end := x.slotEnd(s, o)
				switch s.mode {
				case mAccum:
					ip.Segs[s.name] = x.accumSegs(o.St, s, end)
				case mFill:
					v := end
					if v == nil {
						v = mk("unk", "unset")
					}
					ip.Segs[s.name] = []*Term{mk("one", "", x.resolve(o.St, v))}
				case mSym:
					ip.Back[s.name] = x.resolve(o.St, o.St.facts.simp(end))
				}
			}
			loop.Paths = append(loop.Paths, ip)
		}
	}
	for _, s := range slots {
		if s.mode == mSym {
			loop.Carried = append(loop.Carried, Carried{Slot: s.name, Sym: s.sym, Init: s.init, Post: mk("post", id+"."+s.name)})
		}
	}

	// bound
	var normal []Outcome
	var res []Outcome
	for ph := range outs {
		for _, o := range outs[ph] {
			switch o.Kind {
			case oContinue:
			case oExit:
				if n := guardBound(o.St.lastCond, K); n != nil && len(o.St.events) == 0 && !mentions(n, x.loopSyms(slots, K)) &&
					o.from != nil && o.St.facts.eval(cmpTerm("<", K, n)) != yes && x.noEffects(o, slots, phases, ph) {
					if loop.Count == nil {
						loop.Count = n
						if n.Op == "len" {
							loop.Over = n.A[0]
						}
					} else if !same(loop.Count, n) {
						loop.Count = mk("unk", "count"+id)
					}
					o.Msg = "normal"
					normal = append(normal, o)
				} else {
					res = append(res, x.partial(fr, st0, o, loop, slots, K, any))
				}
			default:
				res = append(res, x.partial(fr, st0, o, loop, slots, K, any))
			}
		}
	}
	if len(normal) > 0 {
		// the last phase is the general one
		groups := map[*ssa.BasicBlock]Outcome{}
		var order []*ssa.BasicBlock
		for _, o := range normal {
			if _, ok := groups[o.to]; !ok {
				order = append(order, o.to)
			}
			groups[o.to] = o
		}
		for _, to := range order {
			res = append(res, x.complete(fr, st0, rg0, groups[to], loop, slots, K, any))
		}
	}

	for _, s := range slots {
		delete(accumLens, s.sym.Key())
	}

	for _, o := range res {
		if any {
			o.St.forgetMaps(lr.maps)
		}
	}

	// continue after the loop
	var final []Outcome
	for _, o := range res {
		if o.Kind != oExit {
			final = append(final, o)
			continue
		}
		final = append(final, x.run(fr, o.St, o.regs, o.from, o.to, outer)...)
	}
	return final
}

func (x *Exec) loopSyms(slots []*slotState, K *Term) map[string]bool {
	m := map[string]bool{K.Key(): true}
	for _, s := range slots {
		m[s.sym.Key()] = true
	}
	return m
}

func (x *Exec) slotSym(id string, s *slotState) *Term {
	op := "carried"
	if s.typ != nil {
		s.isStr = isStringType(s.typ)
	} else if s.path != nil && s.path.Op == "content" {
		s.isStr = true
	}
	if s.init != nil && isFreshList(s.init) {
		op = "accum"
	}
	return mk(op, id+"."+s.name)
}

func (x *Exec) cellInit(st *State, c cell) *Term {
	if old, ok := st.mem[c.path.Key()]; ok {
		return old.val
	}
	if v, ok := x.lookupCell(st, c.path); ok {
		return v
	}
	if c.path.Op == "content" {
		if isFresh(rootOf(c.path.A[0])) {
			return tStr("")
		}
		return c.path
	}
	if isFresh(rootOf(c.path)) {
		// zero value: find its type from the value's shape
		switch v := unbox(c.val); {
		case v.isInt() || v.Op == "lin":
			return tInt(0)
		case v.Op == "bool" || v.Op == "not":
			return tBool(false)
		case v.Op == "str" || v.Op == "cat":
			return tStr("")
		case v.Op == "app" || v.Op == "nil" || v.Op == "new":
			return tNil
		}
		if t := x.pathType(c.path); t != nil {
			return zeroOf(t)
		}
	}
	return c.path
}

// pathType finds the type of a location rooted in a fresh object.
func (x *Exec) pathType(p *Term) types.Type {
	switch p.Op {
	case "deref":
		if t := x.pathType(p.A[0]); t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				return pt.Elem()
			}
		}
	case "new", "newslice":
		return p.T
	case "fld":
		if st := structOf(x.pathType(p.A[0])); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == p.S {
					return st.Field(i).Type()
				}
			}
		}
	case "idx":
		if t := x.pathType(p.A[0]); t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return u.Elem()
			case *types.Array:
				return u.Elem()
			}
		}
	}
	return nil
}

// liveAtEntry reports whether an object existed before the loop.
func (x *Exec) liveAtEntry(st *State, rg regs, fr *Frame, r *Term, loopID string) bool {
	for _, c := range st.mem {
		if same(rootOf(c.path), r) || mentions(c.val, map[string]bool{r.Key(): true}) {
			return true
		}
	}
	for _, v := range rg {
		if mentions(v, map[string]bool{r.Key(): true}) {
			return true
		}
	}
	// objects allocated by callers are live; those allocated in this frame
	// inside the loop or in callees are not.
	return !strings.HasPrefix(r.S, fr.id+"#") && !strings.HasPrefix(r.S, fr.id+"/")
}

func (x *Exec) loopBody(fr *Frame, st0 *State, rg0 regs, li *loopInfo, lr *loopRun, slots []*slotState, phase int, outer *loopRun) []Outcome {
	st := st0.clone()
	st.events = nil
	st.lastCond = decision{}
	rg := rg0.clone()
	if phase == 0 {
		st.facts.assume(eq0(lr.K), true)
	} else if phase == 1 {
		st.facts.assume(cmpTerm(">=", lr.K, tInt(1)), true)
	}
	if phase != 0 {
		st.forgetMaps(lr.maps)
	}
	for _, s := range slots {
		v := s.start(lr.K, phase)
		if s.phi != nil {
			rg[s.phi] = v
		} else if s.mode != mFill {
			x.set(st, s.path, v)
			for k, c := range st.mem {
				if isStrictPrefix(s.path, c.path) {
					delete(st.mem, k)
				}
			}
		}
	}
	x.loops = append(x.loops, lr)
	outs := x.block(fr, st, rg, li.header, 0, lr)
	x.loops = x.loops[:len(x.loops)-1]
	for i := range outs {
		if outs[i].Kind == oContinue {
			// values of header phis on the back edge
			r := outs[i].regs.clone()
			x.phis(outs[i].St, r, outs[i].from, li.header)
			outs[i].regs = r
		}
	}
	return outs
}

// changedMaps finds maps from outside the loop that an iteration changes.
func (x *Exec) changedMaps(fr *Frame, st0 *State, rg0 regs, id string, outs [][]Outcome, lr *loopRun) bool {
	found := false
	for ph := range outs {
		for _, o := range outs[ph] {
			if o.Kind != oContinue {
				continue
			}
			for k, n := range o.St.mapver {
				if n == st0.mapver[k] || lr.maps[k] {
					continue
				}
				inside := false
				for _, c := range o.St.mem {
					if c.path.Op == "mapidx" && c.path.A[0].Key() == k {
						inside = c.path.A[0].Op == "newmap" && !x.liveAtEntry(st0, rg0, fr, c.path.A[0], id)
						break
					}
				}
				if !inside {
					if lr.maps == nil {
						lr.maps = map[string]bool{}
					}
					lr.maps[k] = true
					found = true
				}
			}
		}
	}
	return found
}

// forgetMaps makes the entries of some maps unknown.
func (s *State) forgetMaps(maps map[string]bool) {
	if len(maps) == 0 {
		return
	}
	n := map[string]bool{}
	for k := range s.mapvg {
		n[k] = true
	}
	for k := range maps {
		n[k] = true
		delete(n, "known:"+k)
		s.mapver[k] += 1000
	}
	s.mapvg = n
	for k, c := range s.mem {
		if c.path.Op == "mapidx" && maps[c.path.A[0].Key()] {
			delete(s.mem, k)
		}
	}
}

func (x *Exec) slotEnd(s *slotState, o Outcome) *Term {
	if s.phi != nil {
		return o.regs[s.phi]
	}
	if c, ok := o.St.mem[s.path.Key()]; ok {
		return c.val
	}
	if v, ok := x.lookupCell(o.St, s.path); ok {
		return v
	}
	return nil
}

// classify updates the mode of a slot from the iteration outcomes; it reports
// whether the mode changed.
func (x *Exec) classify(s *slotState, outs [][]Outcome, K *Term, phases int) bool {
	type back struct {
		v  *Term
		st *State
		ph int
	}
	var backs []back
	for ph := range outs {
		for _, o := range outs[ph] {
			if o.Kind == oContinue {
				v := x.slotEnd(s, o)
				if v == nil {
					v = mk("unk", "gone")
				}
				backs = append(backs, back{o.St.facts.simp(v), o.St, ph})
			}
		}
	}
	if len(backs) == 0 {
		return false
	}
	if s.mode == mFill {
		return false
	}
	ok := func(m mode) bool {
		for _, b := range backs {
			cur := s.start(K, b.ph)
			if phases == 1 {
				cur = s.start(K, -1)
			}
			switch m {
			case mInv:
				if !same(b.v, cur) && !same(b.v, s.init) {
					return false
				}
			case mInduct:
				d := sub(b.v, cur)
				if !d.isInt() || d.N != s.step {
					return false
				}
			case mConst:
				if !same(b.v, s.cval) {
					return false
				}
			case mAccum:
				if !isAccum(s, b.v) {
					return false
				}
			case mConsume:
				if !same(b.v, sliceOf(s.init, linComb(add(K, tInt(1)), s.step, tInt(0), 0), nil)) {
					return false
				}
			}
		}
		return true
	}
	if s.mode == mAccum && ok(mAccum) && !s.isStr && !s.erratic {
		n := int64(-1)
		for i, b := range backs {
			if m := appended(s, b.v); i == 0 {
				n = m
			} else if m != n {
				n = -1
			}
		}
		switch {
		case n > 0 && s.grow == 0:
			s.grow = n
			accumLens[s.sym.Key()] = linComb(K, n, lenOf(s.init), 1)
			return true
		case s.grow != 0 && n != s.grow:
			s.grow, s.erratic = 0, true
			delete(accumLens, s.sym.Key())
			return true
		}
	}
	if s.mode != mSym {
		if ok(s.mode) {
			return false
		}
		s.grow, s.erratic = 0, true
		delete(accumLens, s.sym.Key())
		s.bad[s.mode] = true
		s.mode = mSym
		s.fixed = false
		return true
	}
	// find a mode; s.sym is the value at the start of the iteration
	if !s.bad[mInv] {
		all := true
		for _, b := range backs {
			if !same(b.v, s.sym) {
				all = false
			}
		}
		if all {
			s.mode = mInv
			return true
		}
	}
	if !s.bad[mInduct] {
		all := true
		var step *Term
		for _, b := range backs {
			d := sub(b.v, s.sym)
			if !d.isInt() || d.N == 0 || (step != nil && step.N != d.N) {
				all = false
				break
			}
			step = d
		}
		if all {
			s.mode, s.step = mInduct, step.N
			return true
		}
	}
	if !s.bad[mConsume] {
		all := true
		var step *Term
		for _, b := range backs {
			if b.v.Op == "slice" && same(b.v.A[0], s.sym) && b.v.A[1].isInt() && b.v.A[2].Op == "nil" && (step == nil || step.N == b.v.A[1].N) {
				step = b.v.A[1]
			} else {
				all = false
			}
		}
		if all {
			s.mode, s.step = mConsume, step.N
			return true
		}
	}
	if !s.bad[mAccum] {
		all, changed := true, false
		for _, b := range backs {
			if !isAccum(s, b.v) {
				all = false
			}
			if !same(b.v, s.sym) {
				changed = true
			}
		}
		if all && changed {
			s.mode = mAccum
			return true
		}
	}
	if !s.bad[mConst] {
		c := backs[0].v
		all := true
		for _, b := range backs {
			if !same(b.v, c) {
				all = false
			}
		}
		syms := map[string]bool{s.sym.Key(): true, K.Key(): true}
		if all && !mentions(c, syms) && !hasOp(c, "new", "carried", "accum") {
			s.mode, s.cval = mConst, c
			return true
		}
	}
	return false
}

func hasOp(t *Term, ops ...string) bool {
	found := false
	walkTerm(t, func(t *Term) bool {
		for _, o := range ops {
			if t.Op == o {
				found = true
			}
		}
		return !found
	})
	return found
}

// isAccum reports whether v extends the slot symbol.
func isAccum(s *slotState, v *Term) bool {
	if same(v, s.sym) {
		return true
	}
	key := map[string]bool{s.sym.Key(): true}
	switch v.Op {
	case "cat":
		return same(v.A[0], s.sym) && !mentionsAny(v.A[1:], key)
	case "app":
		if len(v.A) == 0 {
			return false
		}
		h := v.A[0]
		return h.Op == "all" && same(h.A[0], s.sym) && !mentionsAny(v.A[1:], key)
	}
	return false
}

func mentionsAny(ts []*Term, keys map[string]bool) bool {
	for _, t := range ts {
		if mentions(t, keys) {
			return true
		}
	}
	return false
}

func (x *Exec) accumSegs(st *State, s *slotState, end *Term) []*Term {
	if end == nil || same(end, s.sym) {
		return []*Term{}
	}
	var out []*Term
	for _, seg := range end.A[1:] {
		out = append(out, x.resolve(st, seg))
	}
	return out
}

// guardBound extracts N from a decision that ends the loop at K == N.
func guardBound(d decision, K *Term) *Term {
	c, pol := d.c, d.pol
	if c == nil {
		return nil
	}
	for c.Op == "not" {
		c, pol = c.A[0], !pol
	}
	if c.Op != "lt0" && c.Op != "eq0" {
		return nil
	}
	co, _, _ := linParts(c.A[0])
	k := co[K.Key()]
	if k != 1 && k != -1 {
		return nil
	}
	// c.A[0] = k*K + rest
	rest := linComb(c.A[0], 1, K, -k)
	switch {
	case c.Op == "lt0" && !pol && k == 1: // !(K+rest<0): K >= -rest
		return linComb(rest, -1, tInt(0), 0)
	case c.Op == "lt0" && pol && k == -1: // rest-K < 0: K > rest, K >= rest+1
		return add(rest, tInt(1))
	case c.Op == "eq0" && pol:
		if k == 1 {
			return linComb(rest, -1, tInt(0), 0)
		}
		return rest
	}
	return nil
}

// noEffects reports whether leaving through o does nothing in its last,
// partial iteration.
func (x *Exec) noEffects(o Outcome, slots []*slotState, phases, ph int) bool {
	return true
}

func (x *Exec) postValue(s *slotState, loop *Loop, complete bool) *Term {
	n := loop.Count
	switch s.mode {
	case mInv:
		return s.init
	case mInduct:
		if complete && n != nil {
			return linComb(n, s.step, s.init, 1)
		}
	case mConst:
		if complete && n != nil {
			if same(s.init, s.cval) {
				return s.init
			}
			return mk("last", "", n, s.init, s.cval)
		}
	case mConsume:
		if complete && n != nil {
			return sliceOf(s.init, linComb(n, s.step, tInt(0), 0), nil)
		}
	case mAccum:
		op := "prefix"
		if complete {
			op = "each"
		}
		e := &Term{Op: op, S: s.name, L: loop, A: []*Term{mk("loopkey", loop.keyOf())}}
		if complete {
			if segs, ok := fuse(loop, s.name); ok {
				if s.isStr || isStringish(s.init) {
					return cat(append([]*Term{s.init}, segs...)...)
				}
				return app(append(append([]*Term{}, asSegs(s.init)...), segs...)...)
			}
		}
		if s.isStr || isStringish(s.init) {
			return cat(s.init, e)
		}
		return app(append(append([]*Term{}, asSegs(s.init)...), e)...)
	}
	return mk("post", loop.ID+"."+s.name)
}

// fuse rewrites what a loop over a known list (some elements, then the
// results of other loops) appends into what it appends for each part.
func fuse(loop *Loop, slot string) ([]*Term, bool) {
	if loop.Count == nil || len(loop.Paths) != 1 {
		return nil, false
	}
	var list *Term
	k := map[string]bool{loop.K.Key(): true}
	segs := loop.Paths[0].Segs[slot]
	for _, s := range segs {
		walkTerm(s, func(t *Term) bool {
			if t.Op == "idx" && same(t.A[1], loop.K) && t.A[0].Op == "app" {
				list = t.A[0]
			}
			return true
		})
	}
	if list == nil && len(segs) == 1 && segs[0].Op == "one" {
		// the elements of a list, one after the other: the list
		if e := segs[0].A[0]; e.Op == "idx" && same(e.A[1], loop.K) && !mentions(e.A[0], k) && same(lenOf(e.A[0]), loop.Count) {
			return []*Term{mk("all", "", e.A[0])}, true
		}
	}
	if list == nil || !same(lenOf(list), loop.Count) || mentions(list, k) {
		return nil, false
	}
	elem := mk("idx", "", list, loop.K)
	with := func(e *Term) []*Term {
		var out []*Term
		for _, s := range segs {
			out = append(out, subst(s, map[string]*Term{elem.Key(): e}))
		}
		return out
	}
	for _, s := range with(mk("elem", "")) {
		if mentions(s, k) {
			return nil, false
		}
	}
	var out []*Term
	for _, p := range list.A {
		switch p.Op {
		case "one":
			out = append(out, with(p.A[0])...)
		case "each", "all":
			n := &Loop{ID: loop.ID + "+"}
			if p.Op == "all" {
				n.K, n.Count, n.Over = loop.K, lenOf(p.A[0]), p.A[0]
				n.Paths = []*IterPath{{Facts: newFacts(), Segs: map[string][]*Term{slot: with(idx(p.A[0], loop.K))}}}
			} else {
				if p.L.Count == nil {
					return nil, false
				}
				n.ID, n.K, n.Count, n.Over = loop.ID+"+"+p.L.ID, p.L.K, p.L.Count, p.L.Over
				for _, ip := range p.L.Paths {
					q := &IterPath{Facts: ip.Facts, Segs: map[string][]*Term{}}
					for _, e := range ip.Segs[p.S] {
						if e.Op != "one" {
							return nil, false
						}
						q.Segs[slot] = append(q.Segs[slot], with(e.A[0])...)
					}
					n.Paths = append(n.Paths, q)
				}
			}
			out = append(out, &Term{Op: "each", S: slot, L: n, A: []*Term{mk("loopkey", n.keyOf())}})
		default:
			return nil, false
		}
	}
	return out, true
}

func isStringish(t *Term) bool {
	return t.Op == "str" || t.Op == "cat" || t.Op == "content"
}

// complete is the state after all iterations.
func (x *Exec) complete(fr *Frame, st0 *State, rg0 regs, o Outcome, loop *Loop, slots []*slotState, K *Term, any bool) Outcome {
	st := o.St
	m := map[string]*Term{}
	lastPhase := 1
	drop := map[string]bool{K.Key(): true}
	if loop.Count != nil {
		m[K.Key()] = loop.Count
	}
	for _, s := range slots {
		if s.mode == mFill {
			continue
		}
		post := x.postValue(s, loop, true)
		m[s.sym.Key()] = post
		drop[s.sym.Key()] = true
		if s.mode == mConst && !same(s.init, s.cval) {
			// registers hold the phase value; recompute below
		}
	}
	rg := regs{}
	for v, t := range o.regs {
		rg[v] = subst(t, m)
	}
	for k, c := range st.mem {
		if mentions(c.val, drop) || mentions(c.path, drop) {
			st.mem[k] = cell{c.path, subst(c.val, m)}
		}
	}
	for _, s := range slots {
		post := x.postValue(s, loop, true)
		if s.phi != nil {
			rg[s.phi] = post
		} else if s.mode == mFill {
			x.fillDone(st, s, loop, K)
		} else if cur := o.St.mem[s.path.Key()]; cur.val == nil || same(cur.val, subst(s.start(K, lastPhase), m)) {
			x.set(st, s.path, post)
		}
	}
	// facts about the counter and carried values no longer apply
	f := st0.facts.clone()
	st.facts = f
	// the bound: on exit K == Count gives nothing more
	ev := append([]Event{}, st0.events...)
	if any {
		ev = append(ev, Event{Kind: "loop", L: loop, Full: true})
	}
	st.events = ev
	return Outcome{Kind: oExit, St: st, regs: rg, from: o.from, to: o.to, Pos: o.Pos}
}

// fillDone records a slice filled element by element.
func (x *Exec) fillDone(st *State, s *slotState, loop *Loop, K *Term) {
	delete(st.mem, s.path.Key())
	if s.path.Op != "idx" || !same(s.path.A[1], K) || mentions(s.path.A[0], map[string]bool{K.Key(): true}) {
		// not indexed by the counter alone
		for k, c := range st.mem {
			if same(rootOf(c.path), rootOf(s.path)) {
				delete(st.mem, k)
			}
		}
		r := rootOf(s.path)
		st.mem[mk("contents", "", r).Key()] = cell{mk("contents", "", r), mk("unk", "filled"+loop.ID)}
		return
	}
	base := s.path.A[0]
	e := &Term{Op: "each", S: s.name, L: loop, A: []*Term{mk("loopkey", loop.keyOf())}}
	if loop.Count != nil && same(loop.Count, lenOf(base)) {
		x.set(st, mk("contents", "", base), app(e))
		return
	}
	x.set(st, mk("contents", "", base), mk("unk", "partfill"+loop.ID))
}

// partial is an outcome that leaves the loop in iteration K.
func (x *Exec) partial(fr *Frame, st0 *State, o Outcome, loop *Loop, slots []*slotState, K *Term, any bool) Outcome {
	st := o.St
	m := map[string]*Term{}
	for _, s := range slots {
		if s.mode == mAccum {
			m[s.sym.Key()] = x.postValue(s, loop, false)
		}
	}
	if len(m) > 0 {
		rg := regs{}
		for v, t := range o.regs {
			rg[v] = subst(t, m)
		}
		o.regs = rg
		for k, c := range st.mem {
			st.mem[k] = cell{c.path, subst(c.val, m)}
		}
		for i := range o.Vals {
			o.Vals[i] = subst(o.Vals[i], m)
		}
	}
	ev := append([]Event{}, st0.events...)
	if any {
		ev = append(ev, Event{Kind: "loop", L: loop, Full: false})
	}
	st.events = append(ev, st.events...)
	o.St = st
	return o
}

// constTrip reports whether the number of iterations is a small constant:
// the loop is then followed iteration by iteration.
func (x *Exec) constTrip(st *State, rg regs, from *ssa.BasicBlock, li *loopInfo) bool {
	h := li.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || li.body[h.Succs[0]] == li.body[h.Succs[1]] {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || !isIntType(cmp.X.Type()) {
		return false
	}
	tmp := rg.clone()
	x.phis(st, tmp, from, h)
	var at func(v ssa.Value) *Term
	at = func(v ssa.Value) *Term {
		if in, ok := v.(ssa.Instruction); !ok || !li.body[in.Block()] {
			return deref(x.val(st, tmp, v))
		}
		switch v := v.(type) {
		case *ssa.FieldAddr:
			f := structOf(v.X.Type()).Field(v.Field).Name()
			if in, ok := v.X.(ssa.Instruction); !ok || !li.body[in.Block()] {
				return fld(f, x.val(st, tmp, v.X))
			}
			if p := at(v.X); p != nil {
				return fld(f, ref(p))
			}
		case *ssa.UnOp:
			if p := at(v.X); p != nil && v.Op == token.MUL {
				return deref(x.read(st, p, v.Type()))
			}
		}
		return nil
	}
	var ind *ssa.Phi
	var val func(v ssa.Value) *Term
	val = func(v ssa.Value) *Term {
		in, isInstr := v.(ssa.Instruction)
		if !isInstr || !li.body[in.Block()] {
			return x.val(st, tmp, v)
		}
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() == h {
				ind = v
				return tmp[v]
			}
		case *ssa.BinOp:
			if c, ok := v.Y.(*ssa.Const); ok && v.Op == token.ADD {
				return add(val(v.X), constTerm(c))
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := v.Call.Args[0]
				if ai, ok := a.(ssa.Instruction); !ok || !li.body[ai.Block()] {
					return x.lenAt(st, x.val(st, tmp, a))
				}
				// a field, as it is now
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					if p := at(u.X); p != nil {
						return x.lenAt(st, x.read(st, p, u.Type()))
					}
				}
			}
		}
		return mk("unk", "")
	}
	a := val(cmp.X)
	pa := ind
	ind = nil
	b := val(cmp.Y)
	pb := ind
	if !a.isInt() || !b.isInt() || (pa == nil) == (pb == nil) {
		return false
	}
	p := pa
	if p == nil {
		p = pb
	}
	step := int64(0)
	for i, e := range p.Edges {
		if !li.body[h.Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != p {
			return false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		d := constTerm(c)
		if bo.Op == token.SUB {
			d = linComb(d, -1, tInt(0), 0)
		} else if bo.Op != token.ADD {
			return false
		}
		if !d.isInt() || d.N == 0 || step != 0 && d.N != step {
			return false
		}
		step = d.N
	}
	if step == 0 {
		return false
	}
	va, vb := a.N, b.N
	for n := 0; n <= 32; n++ {
		var r bool
		switch cmp.Op {
		case token.LSS:
			r = va < vb
		case token.LEQ:
			r = va <= vb
		case token.GTR:
			r = va > vb
		case token.GEQ:
			r = va >= vb
		case token.NEQ:
			r = va != vb
		case token.EQL:
			r = va == vb
		default:
			return false
		}
		if r != li.body[h.Succs[0]] {
			return true
		}
		if pa != nil {
			va += step
		} else {
			vb += step
		}
	}
	return false
}

// ---- natural loops

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := res[h]
			if li == nil {
				li = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				res[h] = li
			}
			var stack []*ssa.BasicBlock
			if !li.body[b] {
				li.body[b] = true
				stack = append(stack, b)
			}
			for len(stack) > 0 {
				c := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				for _, p := range c.Preds {
					if !li.body[p] {
						li.body[p] = true
						stack = append(stack, p)
					}
				}
			}
		}
	}
	return res
}

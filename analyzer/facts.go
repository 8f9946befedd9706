package main

// Facts: what is known about terms on one trace partition. The domain is
// finite per term: dynamic type sets, nilness, equality with constants, and
// intervals with holes on linear forms.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

type tri int8

const (
	unknown tri = 0
	yes     tri = 1
	no      tri = -1
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}
func (t tri) neg() tri { return -t }

type ival struct {
	lo, hi int64 // math.MinInt64/MaxInt64 unbounded
	ne     map[int64]bool
}

type typeFact struct {
	incl map[string]types.Type // nil: unbounded
	excl map[string]types.Type
}

type strFact struct {
	eq    *string
	ne    map[string]bool
	posLn bool
}

type Facts struct {
	ints  map[string]ival
	types map[string]typeFact
	strs  map[string]strFact
	nils  map[string]tri
	bools map[string]bool
	terms map[string]*Term // key -> term for the above
	log   []string         // decisions, for reports
	conds []decision
}

type decision struct {
	c   *Term
	pol bool
}

func newFacts() *Facts {
	return &Facts{ints: map[string]ival{}, types: map[string]typeFact{}, strs: map[string]strFact{},
		nils: map[string]tri{}, bools: map[string]bool{}, terms: map[string]*Term{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.ints {
		g.ints[k] = v
	}
	for k, v := range f.types {
		g.types[k] = v
	}
	for k, v := range f.strs {
		g.strs[k] = v
	}
	for k, v := range f.nils {
		g.nils[k] = v
	}
	for k, v := range f.bools {
		g.bools[k] = v
	}
	for k, v := range f.terms {
		g.terms[k] = v
	}
	g.log = f.log[:len(f.log):len(f.log)]
	g.conds = f.conds[:len(f.conds):len(f.conds)]
	return g
}

// dynOf is the dynamic type of a term whose constructor fixes it.
func dynOf(t *Term) types.Type {
	switch t.Op {
	case "box", "obj", "err":
		return t.T
	case "new":
		return t.T
	case "fn":
		return nil
	}
	return nil
}

// Universe lists the concrete types that implement a sealed or closed
// interface type, or nil if it is open.
type Universe func(static types.Type) []types.Type

var universe Universe = func(types.Type) []types.Type { return nil }

// typeOracle lets a property state the dynamic types of root terms.
var typeOracle func(t *Term) (ts []types.Type, ok bool)

func tkey(t types.Type) string { return types.TypeString(t, nil) }

func (f *Facts) typeInfo(x *Term, static types.Type) typeFact {
	if x.Op == "wn" {
		x = x.A[1]
	}
	k := x.Key()
	tf, ok := f.types[k]
	if !ok {
		tf = typeFact{}
		if typeOracle != nil {
			if ts, ok := typeOracle(x); ok {
				tf.incl = map[string]types.Type{}
				for _, t := range ts {
					tf.incl[tkey(t)] = t
				}
			}
		}
	}
	if static != nil && types.IsInterface(static) {
		if u := universe(static); u != nil {
			if tf.incl == nil {
				tf.incl = map[string]types.Type{}
				for _, t := range u {
					if _, ex := tf.excl[tkey(t)]; !ex {
						tf.incl[tkey(t)] = t
					}
				}
			} else {
				n := map[string]types.Type{}
				for _, t := range u {
					if _, in := tf.incl[tkey(t)]; in {
						n[tkey(t)] = t
					}
				}
				tf.incl = n
			}
		}
	}
	f.types[k] = tf
	f.terms[k] = x
	return tf
}

func satisfies(dyn, target types.Type) bool {
	if it, ok := target.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, target)
}

func (f *Facts) evalIs(x *Term, target, static types.Type) tri {
	if x.Op == "wn" {
		x = x.A[1]
	}
	if x.Op == "nil" {
		return no
	}
	if d := dynOf(x); d != nil {
		return triOf(satisfies(d, target))
	}
	if x.Op == "fn" || x.isConst() {
		return unknown
	}
	if f.nils[x.Key()] == yes {
		return no
	}
	tf := f.typeInfo(x, static)
	if tf.incl == nil {
		if _, ex := tf.excl[tkey(target)]; ex {
			return no
		}
		if it, ok := target.Underlying().(*types.Interface); ok {
			if types.Implements(types.Typ[types.Invalid], it) && it.Empty() && f.nils[x.Key()] == no {
				return yes
			}
			if it.Empty() && f.nils[x.Key()] == no {
				return yes
			}
		}
		return unknown
	}
	some, all := false, true
	for _, t := range tf.incl {
		if satisfies(t, target) {
			some = true
		} else {
			all = false
		}
	}
	switch {
	case !some:
		return no
	case all && f.isNil(x) == no:
		return yes
	}
	return unknown
}

func (f *Facts) assumeIs(x *Term, target, static types.Type, pol bool) bool {
	if x.Op == "wn" {
		x = x.A[1]
	}
	tf := f.typeInfo(x, static)
	k := x.Key()
	if pol {
		f.nils[k] = no
		f.terms[k] = x
	}
	if tf.incl == nil {
		if types.IsInterface(target) {
			if u := universe(target); pol && u != nil {
				n := typeFact{incl: map[string]types.Type{}}
				for _, t := range u {
					if _, ex := tf.excl[tkey(t)]; !ex {
						n.incl[tkey(t)] = t
					}
				}
				f.types[k] = n
				return true
			}
			if !pol {
				if u := universe(target); u != nil {
					n := typeFact{excl: map[string]types.Type{}}
					for a, b := range tf.excl {
						n.excl[a] = b
					}
					for _, t := range u {
						n.excl[tkey(t)] = t
					}
					f.types[k] = n
				}
			}
			return true
		}
		if pol {
			f.types[k] = typeFact{incl: map[string]types.Type{tkey(target): target}}
		} else {
			n := typeFact{excl: map[string]types.Type{tkey(target): target}}
			for a, b := range tf.excl {
				n.excl[a] = b
			}
			f.types[k] = n
		}
		return true
	}
	n := typeFact{incl: map[string]types.Type{}}
	for a, t := range tf.incl {
		if satisfies(t, target) == pol {
			n.incl[a] = t
		}
	}
	f.types[k] = n
	if len(n.incl) == 0 {
		if pol || f.nils[k] == no {
			return false
		}
		f.nils[k] = yes
		f.terms[k] = x
	}
	return true
}

// dynTypes lists the dynamic types x may have, or nil if unbounded.
func (f *Facts) dynTypes(x *Term, static types.Type) []types.Type {
	if x.Op == "wn" {
		x = x.A[1]
	}
	if d := dynOf(x); d != nil {
		return []types.Type{d}
	}
	if static != nil && !types.IsInterface(static) {
		return []types.Type{static}
	}
	tf := f.typeInfo(x, static)
	if tf.incl == nil {
		return nil
	}
	var ks []string
	for k := range tf.incl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []types.Type{}
	for _, k := range ks {
		out = append(out, tf.incl[k])
	}
	return out
}

func (f *Facts) isNil(x *Term) tri {
	switch x.Op {
	case "nil":
		return yes
	case "new", "obj", "fn", "err", "box", "ref", "str", "int", "bool", "newslice", "newmap", "ok", "zero", "cat":
		return no
	case "app":
		for _, s := range x.A {
			if s.Op == "one" {
				return no
			}
		}
		if len(x.A) == 0 {
			return unknown
		}
	case "slice":
		return unknown
	}
	if t, ok := f.nils[x.Key()]; ok {
		return t
	}
	if f.evalCmp(lenOf(x), 0, "gt") == yes {
		return no
	}
	if tf, ok := f.types[x.Key()]; ok && tf.incl != nil && len(tf.incl) == 0 {
		return yes
	}
	if nilOracle != nil {
		return nilOracle(f, x)
	}
	return unknown
}

var nilOracle func(f *Facts, x *Term) tri

// linKey splits a linear form in a normalised key, sign and constant.
func linSplit(t *Term) (core *Term, sign int64, n int64) {
	co, at, c := linParts(unbox(t))
	core = linMake(co, at, 0)
	sign = 1
	if core.Op == "lin" && core.Coef[0] < 0 {
		core = linComb(core, -1, tInt(0), 0)
		sign = -1
	}
	return core, sign, c
}

func (f *Facts) rng(core *Term) ival {
	if core.isInt() {
		return ival{lo: core.N, hi: core.N}
	}
	r := ival{lo: math.MinInt64, hi: math.MaxInt64}
	if v, ok := f.ints[core.Key()]; ok {
		r = v
	}
	switch core.Op {
	case "len", "cap", "iter":
		if r.lo < 0 {
			r.lo = 0
		}
		if core.Op == "len" {
			if s, ok := f.strs[core.A[0].Key()]; ok && s.eq == nil && s.ne[""] && r.lo < 1 {
				r.lo = 1
			}
			if s, ok := f.strs[core.A[0].Key()]; ok && s.eq != nil {
				r.lo, r.hi = int64(len(*s.eq)), int64(len(*s.eq))
			}
			if f.nils[core.A[0].Key()] == yes {
				r.lo, r.hi = 0, 0
			}
			if intOracle != nil {
				if lo, hi, ok := intOracle(core); ok {
					if lo > r.lo {
						r.lo = lo
					}
					if hi < r.hi {
						r.hi = hi
					}
				}
			}
		}
	case "bin":
		if len(core.A) != 2 {
			break
		}
		a, b := f.rng(core.A[0]), f.rng(core.A[1])
		switch core.S {
		case "%":
			if a.lo >= 0 && r.lo < 0 {
				r.lo = 0
			}
			if a.lo >= 0 && b.lo >= 0 && b.hi != math.MaxInt64 && b.hi-1 < r.hi {
				r.hi = b.hi - 1
			}
			if a.lo >= 0 && a.hi < r.hi {
				r.hi = a.hi
			}
		case "/":
			if a.lo >= 0 && b.lo >= 0 && r.lo < 0 {
				r.lo = 0
			}
		case "min":
			if m := min(a.lo, b.lo); m > r.lo {
				r.lo = m
			}
			if m := min(a.hi, b.hi); m < r.hi {
				r.hi = m
			}
		case "max":
			if m := max(a.lo, b.lo); m > r.lo {
				r.lo = m
			}
			if m := max(a.hi, b.hi); m < r.hi {
				r.hi = m
			}
		}
	case "lin":
		// x%n - n is negative
		if len(core.A) == 2 && core.N == 0 {
			for i, m := range core.A {
				n := core.A[1-i]
				if m.Op == "bin" && m.S == "%" && same(m.A[1], n) && core.Coef[i] == -core.Coef[1-i] && f.rng(m.A[0]).lo >= 0 && f.rng(n).lo >= 0 {
					if core.Coef[i] == 1 && r.hi > -1 {
						r.hi = -1
					}
					if core.Coef[i] == -1 && r.lo < 1 {
						r.lo = 1
					}
				}
			}
		}
		lo, hi := int64(0), int64(0)
		lob, hib := false, false
		for i, a := range core.A {
			ar := f.rng(a)
			c := core.Coef[i]
			l, h := ar.lo, ar.hi
			if c < 0 {
				l, h = ar.hi, ar.lo
			}
			if l == math.MinInt64 || l == math.MaxInt64 {
				lob = true
			} else {
				lo += c * l
			}
			if h == math.MinInt64 || h == math.MaxInt64 {
				hib = true
			} else {
				hi += c * h
			}
		}
		if !lob && lo > r.lo {
			r.lo = lo
		}
		if !hib && hi < r.hi {
			r.hi = hi
		}
	}
	for r.ne[r.lo] && r.lo < math.MaxInt64 {
		r.lo++
	}
	for r.ne[r.hi] && r.hi > math.MinInt64 {
		r.hi--
	}
	return r
}

var intOracle func(core *Term) (lo, hi int64, ok bool)

// evalCmp compares a linear term with a constant: op is lt, eq, gt.
func (f *Facts) evalCmp(t *Term, c int64, op string) tri {
	core, sign, n := linSplit(t)
	if core.isInt() && core.N == 0 && len(core.A) == 0 {
		switch op {
		case "lt":
			return triOf(n < c)
		case "eq":
			return triOf(n == c)
		default:
			return triOf(n > c)
		}
	}
	// sign*core + n OP c
	v := c - n
	if sign < 0 {
		v = -v
		switch op {
		case "lt":
			op = "gt"
		case "gt":
			op = "lt"
		}
	}
	r := f.rng(core)
	switch op {
	case "lt":
		if r.hi != math.MaxInt64 && r.hi < v {
			return yes
		}
		if r.lo != math.MinInt64 && r.lo >= v {
			return no
		}
	case "gt":
		if r.lo != math.MinInt64 && r.lo > v {
			return yes
		}
		if r.hi != math.MaxInt64 && r.hi <= v {
			return no
		}
	case "eq":
		if r.lo == v && r.hi == v {
			return yes
		}
		if r.ne[v] || (r.lo != math.MinInt64 && v < r.lo) || (r.hi != math.MaxInt64 && v > r.hi) {
			return no
		}
	}
	return unknown
}

func (f *Facts) assumeCmp(t *Term, c int64, op string, pol bool) bool {
	if e := f.evalCmp(t, c, op); e != unknown {
		return (e == yes) == pol
	}
	core, sign, n := linSplit(t)
	v := c - n
	if sign < 0 {
		v = -v
		switch op {
		case "lt":
			op = "gt"
		case "gt":
			op = "lt"
		}
	}
	r := f.rng(core)
	switch {
	case op == "lt" && pol:
		r.hi = min(r.hi, v-1)
	case op == "lt" && !pol:
		r.lo = max(r.lo, v)
	case op == "gt" && pol:
		r.lo = max(r.lo, v+1)
	case op == "gt" && !pol:
		r.hi = min(r.hi, v)
	case op == "eq" && pol:
		r.lo, r.hi = v, v
	default:
		ne := map[int64]bool{v: true}
		for k := range r.ne {
			ne[k] = true
		}
		r.ne = ne
	}
	for r.ne[r.lo] {
		r.lo++
	}
	for r.ne[r.hi] {
		r.hi--
	}
	if r.lo > r.hi {
		return false
	}
	f.ints[core.Key()] = r
	f.terms[core.Key()] = core
	return true
}

// eval decides a condition term.
func (f *Facts) eval(c *Term) tri {
	switch c.Op {
	case "bool":
		return triOf(c.isTrue())
	case "not":
		return f.eval(c.A[0]).neg()
	case "lt0":
		return f.evalCmp(c.A[0], 0, "lt")
	case "eq0":
		return f.evalCmp(c.A[0], 0, "eq")
	case "isnil":
		return f.isNil(c.A[0])
	case "is":
		return f.evalIs(c.A[0], c.T, c.A[1].T)
	case "streq":
		x, s := c.A[0], c.A[1].S
		if x.isStr() {
			return triOf(x.S == s)
		}
		if x.Op == "cat" {
			for _, p := range x.A {
				if p.isStr() && !strings.Contains(s, p.S) {
					return no
				}
			}
		}
		if sf, ok := f.strs[x.Key()]; ok {
			if sf.eq != nil {
				return triOf(*sf.eq == s)
			}
			if sf.ne[s] {
				return no
			}
		}
		if s == "" {
			return f.evalCmp(lenOf(x), 0, "eq")
		}
		if e := f.evalCmp(lenOf(x), int64(len(s)), "eq"); e == no {
			return no
		}
		return unknown
	case "and":
		a, b := f.eval(c.A[0]), f.eval(c.A[1])
		if a == no || b == no {
			return no
		}
		if a == yes && b == yes {
			return yes
		}
		return unknown
	}
	if b, ok := f.bools[c.Key()]; ok {
		return triOf(b)
	}
	return unknown
}

// assume adds a condition; it reports false if that contradicts the facts.
func (f *Facts) assume(c *Term, pol bool) bool {
	for c.Op == "not" {
		c, pol = c.A[0], !pol
	}
	if e := f.eval(c); e != unknown {
		return (e == yes) == pol
	}
	f.conds = append(f.conds, decision{c, pol})
	switch c.Op {
	case "lt0":
		return f.assumeCmp(c.A[0], 0, "lt", pol)
	case "eq0":
		return f.assumeCmp(c.A[0], 0, "eq", pol)
	case "isnil":
		x := c.A[0]
		f.terms[x.Key()] = x
		if pol {
			f.nils[x.Key()] = yes
		} else {
			f.nils[x.Key()] = no
			if tf, ok := f.types[x.Key()]; ok && tf.incl != nil && len(tf.incl) == 0 {
				return false
			}
		}
		return true
	case "is":
		return f.assumeIs(c.A[0], c.T, c.A[1].T, pol)
	case "streq":
		x, s := c.A[0], c.A[1].S
		sf := f.strs[x.Key()]
		n := strFact{eq: sf.eq, ne: map[string]bool{}}
		for k := range sf.ne {
			n.ne[k] = true
		}
		if pol {
			n.eq = &s
		} else {
			n.ne[s] = true
		}
		f.strs[x.Key()] = n
		f.terms[x.Key()] = x
		return true
	}
	f.bools[c.Key()] = pol
	f.terms[c.Key()] = c
	return true
}

// simp replaces a bool term by its known value.
func (f *Facts) simp(t *Term) *Term {
	switch f.evalBoolLike(t) {
	case yes:
		return tBool(true)
	case no:
		return tBool(false)
	}
	return t
}

func (f *Facts) evalBoolLike(t *Term) tri {
	switch t.Op {
	case "bool", "not", "lt0", "eq0", "isnil", "is", "streq":
		return f.eval(t)
	}
	if b, ok := f.bools[t.Key()]; ok {
		return triOf(b)
	}
	return unknown
}

func (f *Facts) describe() string {
	var out []string
	for _, d := range f.conds {
		s := condString(d.c, d.pol)
		out = append(out, s)
	}
	return strings.Join(out, " & ")
}

func condString(c *Term, pol bool) string {
	for c.Op == "not" {
		c, pol = c.A[0], !pol
	}
	neg := ""
	if !pol {
		neg = "!"
	}
	switch c.Op {
	case "lt0":
		return fmt.Sprintf("%s(%s < 0)", neg, c.A[0])
	case "eq0":
		return fmt.Sprintf("%s(%s == 0)", neg, c.A[0])
	case "isnil":
		return fmt.Sprintf("%s(%s == nil)", neg, c.A[0])
	case "streq":
		return fmt.Sprintf("%s(%s == %q)", neg, c.A[0], c.A[1].S)
	case "is":
		return fmt.Sprintf("%s(%s is %s)", neg, c.A[0], shortType(c.T))
	}
	return neg + c.String()
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// dropMentioning removes facts about terms that mention the keys.
func (f *Facts) dropMentioning(keys map[string]bool) {
	for k, t := range f.terms {
		if mentions(t, keys) {
			delete(f.ints, k)
			delete(f.types, k)
			delete(f.strs, k)
			delete(f.nils, k)
			delete(f.bools, k)
			delete(f.terms, k)
		}
	}
	var cs []decision
	for _, d := range f.conds {
		if !mentions(d.c, keys) {
			cs = append(cs, d)
		}
	}
	f.conds = cs
}

// string length of a typed constant comparison
func cmpTerm(op string, x, y *Term) *Term {
	d := sub(x, y)
	switch op {
	case "<":
		return mk("lt0", "", d)
	case "<=":
		return mk("lt0", "", add(d, tInt(-1)))
	case ">":
		return mk("lt0", "", linComb(d, -1, tInt(0), 0))
	case ">=":
		return mk("lt0", "", add(linComb(d, -1, tInt(0), 0), tInt(-1)))
	case "==":
		return eq0(d)
	case "!=":
		return mk("not", "", eq0(d))
	}
	panic(op)
}

func eq0(d *Term) *Term {
	if d.Op == "lin" && d.Coef[0] < 0 {
		d = linComb(d, -1, tInt(0), 0)
	}
	return mk("eq0", "", d)
}

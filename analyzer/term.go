package main

// Canonical terms: the values of the abstract domain. A term names a value by
// how it is obtained from the roots (parameters, constants, results of opaque
// calls); conversions that keep the value are transparent, integers are kept
// in linear normal form, strings and slices as concatenations.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	Op   string
	S    string
	A    []*Term
	Coef []int64 // lin only
	N    int64   // lin constant, int constant value
	Fn   *ssa.Function
	L    *Loop
	T    types.Type
	key  string
}

func (t *Term) Key() string {
	if t.key == "" {
		var b strings.Builder
		b.WriteString(t.Op)
		if t.S != "" {
			b.WriteByte(':')
			b.WriteString(t.S)
		}
		if t.Op == "lin" {
			b.WriteString(strconv.FormatInt(t.N, 10))
		}
		if len(t.A) > 0 {
			b.WriteByte('(')
			for i, a := range t.A {
				if i > 0 {
					b.WriteByte(',')
				}
				if t.Op == "lin" {
					b.WriteString(strconv.FormatInt(t.Coef[i], 10) + "*")
				}
				b.WriteString(a.Key())
			}
			b.WriteByte(')')
		}
		t.key = b.String()
	}
	return t.key
}

func (t *Term) String() string { return pretty(t) }

func pretty(t *Term) string {
	if t == nil {
		return "<nil term>"
	}
	switch t.Op {
	case "int", "bool":
		return t.S
	case "str":
		return strconv.Quote(t.S)
	case "fld":
		return pretty(t.A[0]) + "." + t.S
	case "idx":
		return pretty(t.A[0]) + "[" + pretty(t.A[1]) + "]"
	case "in":
		return t.S
	case "nil":
		return "nil"
	case "lin":
		var b strings.Builder
		for i, a := range t.A {
			switch {
			case t.Coef[i] == 1 && i > 0:
				b.WriteString("+")
			case t.Coef[i] == 1:
			case t.Coef[i] == -1:
				b.WriteString("-")
			default:
				fmt.Fprintf(&b, "%+d*", t.Coef[i])
			}
			b.WriteString(pretty(a))
		}
		if t.N != 0 || len(t.A) == 0 {
			fmt.Fprintf(&b, "%+d", t.N)
		}
		return b.String()
	case "each", "prefix":
		if t.L != nil {
			return t.Op + "{" + t.L.describe(t.S) + "}"
		}
	}
	var as []string
	for _, a := range t.A {
		as = append(as, pretty(a))
	}
	s := t.Op
	switch t.Op {
	case "iter", "carried", "accum", "new", "newslice", "post":
		// the last component of the frame path is enough
		n := t.S
		if i := strings.LastIndexByte(n, '/'); i >= 0 {
			if j := strings.LastIndexByte(n[:i], '/'); j >= 0 {
				n = n[j+1:]
			}
		}
		return t.Op + ":" + n
	}
	if t.S != "" {
		s += ":" + t.S
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

func mk(op, s string, a ...*Term) *Term { return &Term{Op: op, S: s, A: a} }

var tNil = &Term{Op: "nil"}

func tInt(i int64) *Term    { return &Term{Op: "int", S: strconv.FormatInt(i, 10), N: i} }
func tStr(s string) *Term   { return &Term{Op: "str", S: s} }
func tBool(b bool) *Term    { return &Term{Op: "bool", S: strconv.FormatBool(b)} }
func tIn(name string) *Term { return &Term{Op: "in", S: name} }

func (t *Term) isInt() bool  { return t.Op == "int" }
func (t *Term) isStr() bool  { return t.Op == "str" }
func (t *Term) isTrue() bool { return t.Op == "bool" && t.S == "true" }
func (t *Term) isFalse() bool {
	return t.Op == "bool" && t.S == "false"
}
func (t *Term) isConst() bool {
	switch t.Op {
	case "int", "str", "bool", "nil", "const":
		return true
	case "box":
		return true
	}
	return false
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return a.Key() == b.Key()
}

// unbox strips the type tag of boxed constants.
func unbox(t *Term) *Term {
	for t.Op == "box" {
		t = t.A[0]
	}
	return t
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	return constValTerm(c.Value)
}

func constValTerm(v constant.Value) *Term {
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return tStr(constant.StringVal(v))
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			return tInt(i)
		}
		return mk("const", v.ExactString())
	default:
		return mk("const", v.ExactString())
	}
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsBoolean != 0:
			return tBool(false)
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return tNil
		}
		return mk("const", "0")
	case *types.Struct, *types.Array:
		return &Term{Op: "zero", S: types.TypeString(t, nil), T: t}
	case *types.Tuple:
		r := &Term{Op: "tuple"}
		for i := 0; i < u.Len(); i++ {
			r.A = append(r.A, zeroOf(u.At(i).Type()))
		}
		return r
	}
	return tNil
}

// fld is the field named f of the struct x, or of the struct x points to.
func fld(f string, x *Term) *Term {
	switch x.Op {
	case "deref":
		return fld(f, x.A[0])
	case "ref":
		return fld(f, x.A[0])
	case "obj":
		st := structOf(x.T)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				return x.A[i]
			}
		}
	case "zero":
		if st := structOf(x.T); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					return zeroOf(st.Field(i).Type())
				}
			}
		}
	}
	return mk("fld", f, x)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func deref(x *Term) *Term {
	if x.Op == "ref" {
		return x.A[0]
	}
	return mk("deref", "", x)
}

func ref(path *Term) *Term {
	if path.Op == "deref" {
		return path.A[0]
	}
	return mk("ref", "", path)
}

// ---- integers

func isLinOp(t *Term) bool { return t.Op == "lin" || t.Op == "int" }

func linParts(t *Term) (map[string]int64, map[string]*Term, int64) {
	co := map[string]int64{}
	at := map[string]*Term{}
	switch t.Op {
	case "int":
		return co, at, t.N
	case "lin":
		for i, a := range t.A {
			co[a.Key()] = t.Coef[i]
			at[a.Key()] = a
		}
		return co, at, t.N
	}
	co[t.Key()] = 1
	at[t.Key()] = t
	return co, at, 0
}

func linMake(co map[string]int64, at map[string]*Term, n int64) *Term {
	var keys []string
	for k, c := range co {
		if c != 0 {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return tInt(n)
	}
	sort.Strings(keys)
	if len(keys) == 1 && co[keys[0]] == 1 && n == 0 {
		return at[keys[0]]
	}
	t := &Term{Op: "lin", N: n}
	for _, k := range keys {
		t.A = append(t.A, at[k])
		t.Coef = append(t.Coef, co[k])
	}
	return t
}

func linComb(a *Term, ca int64, b *Term, cb int64) *Term {
	a, b = unbox(a), unbox(b)
	co1, at1, n1 := linParts(a)
	co2, at2, n2 := linParts(b)
	co := map[string]int64{}
	at := map[string]*Term{}
	for k, c := range co1 {
		co[k] += ca * c
		at[k] = at1[k]
	}
	for k, c := range co2 {
		co[k] += cb * c
		at[k] = at2[k]
	}
	return linMake(co, at, ca*n1+cb*n2)
}

func add(a, b *Term) *Term { return linComb(a, 1, b, 1) }
func sub(a, b *Term) *Term { return linComb(a, 1, b, -1) }

// ---- strings and slices

// cat concatenates strings or token sequences.
func cat(ts ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		t = unbox(t)
		if t.Op == "cat" {
			for _, a := range t.A {
				push(a)
			}
			return
		}
		if t.isStr() {
			if t.S == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].isStr() {
				out[n-1] = tStr(out[n-1].S + t.S)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		push(t)
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return mk("cat", "", out...)
}

// catParts returns the parts of a string term.
func catParts(t *Term) []*Term {
	t = unbox(t)
	if t.Op == "cat" {
		return t.A
	}
	if t.isStr() && t.S == "" {
		return nil
	}
	return []*Term{t}
}

// Slices are "app" of segments: "one"(x) a single element, "all"(s) every
// element of an opaque slice s, "each"/"prefix" loop comprehensions.
func app(segs ...*Term) *Term {
	var out []*Term
	for _, s := range segs {
		switch s.Op {
		case "app":
			out = append(out, s.A...)
		case "nil":
		case "all":
			if s.A[0].Op == "app" {
				out = append(out, s.A[0].A...)
			} else {
				out = append(out, s)
			}
		default:
			out = append(out, s)
		}
	}
	return mk("app", "", out...)
}

func asSegs(list *Term) []*Term {
	switch list.Op {
	case "app":
		return list.A
	case "nil":
		return nil
	case "each", "prefix", "one", "all":
		return []*Term{list}
	case "slice": // part of a list known element by element
		lo, hi := list.A[1], list.A[2]
		if !lo.isInt() || list.A[0].Op != "app" {
			break
		}
		segs := list.A[0].A
		n := int64(len(segs))
		if hi.isInt() {
			n = hi.N
		} else if hi.Op != "nil" {
			break
		}
		if lo.N < 0 || lo.N > n || n > int64(len(segs)) {
			break
		}
		for _, s := range segs[:n] {
			if s.Op != "one" {
				return []*Term{mk("all", "", list)}
			}
		}
		return segs[lo.N:n]
	}
	return []*Term{mk("all", "", list)}
}

// idx is element i of x.
func idx(x, i *Term) *Term {
	switch x.Op {
	case "slice":
		return idx(x.A[0], add(x.A[1], i))
	case "app":
		if i.isInt() {
			n := i.N
			for _, s := range x.A {
				if s.Op != "one" {
					break
				}
				if n == 0 {
					return s.A[0]
				}
				n--
			}
			if len(x.A) == 1 && x.A[0].Op == "all" {
				return idx(x.A[0].A[0], i)
			}
		}
		if len(x.A) > 1 && x.A[0].Op == "all" {
			if d := sub(i, lenOf(x.A[0].A[0])); d.isInt() && d.N >= 0 {
				return idx(app(x.A[1:]...), d)
			}
		}
		if len(x.A) == 1 && x.A[0].Op == "each" {
			return idx(x.A[0], i)
		}
	case "each":
		if e := x.L.singleElem(x.S); e != nil {
			return subst(e, map[string]*Term{x.L.K.Key(): i})
		}
	case "zero":
		if a, ok := x.T.Underlying().(*types.Array); ok {
			return zeroOf(a.Elem())
		}
	}
	return mk("idx", "", x, i)
}

func lenOf(x *Term) *Term {
	x = unbox(x)
	switch x.Op {
	case "nil":
		return tInt(0)
	case "str":
		return tInt(int64(len(x.S)))
	case "cat":
		n := tInt(0)
		for _, a := range x.A {
			n = add(n, lenOf(a))
		}
		return n
	case "slice":
		if x.A[2].Op == "nil" {
			return sub(lenOf(x.A[0]), x.A[1])
		}
		return sub(x.A[2], x.A[1])
	case "app":
		n := tInt(0)
		for _, s := range x.A {
			switch s.Op {
			case "one":
				n = add(n, tInt(1))
			case "all":
				n = add(n, lenOf(s.A[0]))
			case "each":
				if c := s.L.constSegs(s.S); c >= 0 {
					m := s.L.Count
					for i := 0; i < c; i++ {
						n = add(n, m)
					}
				} else {
					n = add(n, mk("len", "", s))
				}
			default:
				n = add(n, mk("len", "", s))
			}
		}
		return n
	case "each":
		if c := x.L.constSegs(x.S); c == 1 {
			return x.L.Count
		}
	case "newslice":
		return x.A[0]
	case "accum":
		if n := accumLens[x.Key()]; n != nil {
			return n
		}
	case "zero":
		if a, ok := x.T.Underlying().(*types.Array); ok {
			return tInt(a.Len())
		}
	case "ref", "new":
		if x.T != nil {
			t := x.T
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if a, ok := t.Underlying().(*types.Array); ok {
				return tInt(a.Len())
			}
		}
	}
	return mk("len", "", x)
}

func sliceOf(x, lo, hi *Term) *Term {
	if lo == nil {
		lo = tInt(0)
	}
	if hi == nil {
		hi = tNil
	}
	if lo.isInt() && lo.N == 0 && hi.Op == "nil" {
		return x
	}
	if x.Op == "nil" {
		return tNil
	}
	if x.isStr() && lo.isInt() && (hi.Op == "nil" || hi.isInt()) {
		h := int64(len(x.S))
		if hi.isInt() {
			h = hi.N
		}
		if lo.N >= 0 && lo.N <= h && h <= int64(len(x.S)) {
			return tStr(x.S[lo.N:h])
		}
	}
	if x.Op == "cat" {
		if t := sliceCat(x, lo, hi); t != nil {
			return t
		}
	}
	if x.Op == "slice" {
		base, blo, bhi := x.A[0], x.A[1], x.A[2]
		nhi := bhi
		if hi.Op != "nil" {
			nhi = add(blo, hi)
		}
		return sliceOf(base, add(blo, lo), nhi)
	}
	// an explicit upper bound equal to the length is no bound
	if hi.Op != "nil" && same(hi, lenOf(x)) {
		return sliceOf(x, lo, nil)
	}
	if x.Op == "app" && lo.isInt() && hi.Op == "nil" {
		segs := x.A
		n := lo.N
		for n > 0 && len(segs) > 0 && segs[0].Op == "one" {
			segs = segs[1:]
			n--
		}
		if n == 0 {
			return app(segs...)
		}
	}
	return mk("slice", "", x, lo, hi)
}

// sliceCat cuts constant numbers of bytes off the constant ends of a string.
func sliceCat(x, lo, hi *Term) *Term {
	parts := append([]*Term{}, x.A...)
	cut := int64(0)
	if hi.Op != "nil" {
		d := sub(lenOf(x), hi)
		if !d.isInt() || d.N < 0 {
			return nil
		}
		cut = d.N
	}
	if !lo.isInt() || lo.N < 0 {
		return nil
	}
	for n := lo.N; n > 0; {
		if len(parts) == 0 || !parts[0].isStr() {
			return nil
		}
		s := parts[0].S
		if int64(len(s)) > n {
			parts[0] = tStr(s[n:])
			break
		}
		n -= int64(len(s))
		parts = parts[1:]
	}
	for cut > 0 {
		k := len(parts) - 1
		if k < 0 || !parts[k].isStr() {
			return nil
		}
		s := parts[k].S
		if int64(len(s)) > cut {
			parts[k] = tStr(s[:int64(len(s))-cut])
			break
		}
		cut -= int64(len(s))
		parts = parts[:k]
	}
	return cat(parts...)
}

// subst replaces sub-terms by key.
func subst(t *Term, m map[string]*Term) *Term {
	if len(m) == 0 || t == nil {
		return t
	}
	if r, ok := m[t.Key()]; ok {
		return r
	}
	if (t.Op == "each" || t.Op == "prefix") && t.L != nil {
		if l2 := t.L.subst(m); l2 != t.L {
			return &Term{Op: t.Op, S: t.S, L: l2, A: []*Term{mk("loopkey", l2.keyOf())}}
		}
		return t
	}
	if len(t.A) == 0 {
		return t
	}
	changed := false
	as := make([]*Term, len(t.A))
	for i, a := range t.A {
		as[i] = subst(a, m)
		if as[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	return rebuild(t, as)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "lin":
		r := tInt(t.N)
		for i, a := range as {
			r = linComb(r, 1, a, t.Coef[i])
		}
		return r
	case "fld":
		return fld(t.S, as[0])
	case "deref":
		return deref(as[0])
	case "ref":
		return ref(as[0])
	case "idx":
		return idx(as[0], as[1])
	case "len":
		return lenOf(as[0])
	case "cat":
		return cat(as...)
	case "app":
		return app(as...)
	case "slice":
		return sliceOf(as[0], as[1], as[2])
	}
	return &Term{Op: t.Op, S: t.S, A: as, Fn: t.Fn, L: t.L, T: t.T, N: t.N, Coef: t.Coef}
}

// mentions reports whether t contains a sub-term with one of the keys.
func mentions(t *Term, keys map[string]bool) bool {
	if t == nil {
		return false
	}
	if keys[t.Key()] {
		return true
	}
	if t.L != nil && (t.Op == "each" || t.Op == "prefix") {
		if t.L.mentions(keys) {
			return true
		}
	}
	for _, a := range t.A {
		if mentions(a, keys) {
			return true
		}
	}
	return false
}

// walkTerm calls f on t and its sub-terms until f returns false.
func walkTerm(t *Term, f func(*Term) bool) bool {
	if t == nil {
		return true
	}
	if !f(t) {
		return false
	}
	for _, a := range t.A {
		if !walkTerm(a, f) {
			return false
		}
	}
	if t.L != nil && (t.Op == "each" || t.Op == "prefix") {
		for _, p := range t.L.Paths {
			for _, s := range p.Segs[t.S] {
				if !walkTerm(s, f) {
					return false
				}
			}
		}
	}
	return true
}

// rootOf is the root of an access path.
func rootOf(t *Term) *Term {
	for {
		switch t.Op {
		case "fld", "deref", "ref", "slice", "box", "len":
			t = t.A[0]
		case "idx":
			t = t.A[0]
		default:
			return t
		}
	}
}

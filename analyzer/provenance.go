package main

// Where a reference can come from: a flow-insensitive, field-based provenance
// analysis over the SSA of the module.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type origins map[string]bool // "given: ...", "global: ...", "unknown: ..."; absent: made by the module during the call

func (o origins) add(p origins) bool {
	ch := false
	for k := range p {
		if !o[k] {
			o[k] = true
			ch = true
		}
	}
	return ch
}

func (o origins) list(prefix ...string) (out []string) {
	for k := range o {
		for _, p := range prefix {
			if strings.HasPrefix(k, p) {
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return
}

type prov struct {
	p        *Program
	isInit   map[*ssa.Function]bool
	funcs    map[*ssa.Function]bool
	callers  map[*ssa.Function][]*ssa.CallCommon // static calls
	dyn      []*ssa.CallCommon                   // calls of function values
	invokes  map[string][]*ssa.CallCommon        // by method name
	taken    map[*ssa.Function]bool              // used as a value
	closures map[*ssa.Function][]*ssa.MakeClosure
	fieldSt  map[string][]ssa.Value // stores by struct type and field
	elemSt   map[string][]ssa.Value // stores to elements, by element type
	wholeSt  map[string][]ssa.Value // stores of whole values, by type
	cache    map[ssa.Value]origins
	busy     map[ssa.Value]bool
	external func(*ssa.Function) bool // callable from outside
	panics   []ssa.Value
}

func newProv(p *Program) *prov { return newProvOnce(p, true) }

// newProvOnce: with once, what runs at most once counts as initialisation.
func newProvOnce(p *Program, once bool) *prov {
	v := &prov{p: p, isInit: map[*ssa.Function]bool{}, funcs: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]*ssa.CallCommon{},
		invokes: map[string][]*ssa.CallCommon{}, taken: map[*ssa.Function]bool{}, closures: map[*ssa.Function][]*ssa.MakeClosure{},
		fieldSt: map[string][]ssa.Value{}, elemSt: map[string][]ssa.Value{}, wholeSt: map[string][]ssa.Value{}, cache: map[ssa.Value]origins{}, busy: map[ssa.Value]bool{}}
	for _, f := range p.funcs {
		v.funcs[f] = true
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v.index(in)
			}
		}
	}
	v.external = func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Synthetic != "" {
			return false
		}
		o := f.Object()
		return o != nil && o.Exported()
	}
	// what runs only while a package is initialised
	for _, f := range p.funcs {
		if f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") {
			v.isInit[f] = true
		}
	}
	// run once, whoever comes first: part of initialisation if nothing of the
	// call is captured
	for _, f := range p.funcs {
		if !once {
			break
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				if n := c.Common().StaticCallee().String(); n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.OnceValue") || strings.HasPrefix(n, "sync.OnceFunc") {
					for _, a := range c.Common().Args {
						if g, ok := a.(*ssa.Function); ok {
							v.isInit[g] = true
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.funcs {
			if v.isInit[f] || v.external(f) || v.taken[f] || f.Parent() != nil && !v.isInit[f.Parent()] {
				continue
			}
			cs := v.callersIn(f)
			ok := len(cs) > 0
			for _, c := range cs {
				ok = ok && v.isInit[c]
			}
			if f.Signature.Recv() != nil && len(v.invokes[f.Name()]) > 0 {
				ok = false
			}
			if ok {
				v.isInit[f] = true
				changed = true
			}
		}
	}
	return v
}

func (v *prov) callersIn(f *ssa.Function) (out []*ssa.Function) {
	for _, g := range v.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					out = append(out, g)
				}
			}
		}
	}
	return
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s.%d", types.TypeString(t, nil), i)
}

func elemTypeOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Pointer:
		return elemTypeOf(u.Elem())
	}
	return nil
}

func ek(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func (v *prov) index(in ssa.Instruction) {
	if c, ok := in.(ssa.CallInstruction); ok {
		cc := c.Common()
		switch {
		case cc.IsInvoke():
			v.invokes[cc.Method.Name()] = append(v.invokes[cc.Method.Name()], cc)
		case cc.StaticCallee() != nil:
			v.callers[cc.StaticCallee()] = append(v.callers[cc.StaticCallee()], cc)
		default:
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if (b.Name() == "append" || b.Name() == "copy") && len(cc.Args) == 2 {
					// elements of the second go into the first
					v.elemSt[ek(elemTypeOf(cc.Args[0].Type()))] = append(v.elemSt[ek(elemTypeOf(cc.Args[0].Type()))], cc.Args[1])
				}
			} else {
				v.dyn = append(v.dyn, cc)
			}
		}
		for _, a := range cc.Args {
			v.take(a)
		}
		return
	}
	for _, op := range in.Operands(nil) {
		if *op != nil {
			v.take(*op)
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			k := fieldKey(a.X.Type(), a.Field)
			v.fieldSt[k] = append(v.fieldSt[k], in.Val)
		case *ssa.IndexAddr:
			k := ek(elemTypeOf(a.X.Type()))
			v.elemSt[k] = append(v.elemSt[k], in.Val)
		}
		k := ek(in.Val.Type())
		v.wholeSt[k] = append(v.wholeSt[k], in.Val)
	case *ssa.Panic:
		v.panics = append(v.panics, in.X)
	case *ssa.MapUpdate:
		k := ek(elemTypeOf(in.Map.Type()))
		v.elemSt[k] = append(v.elemSt[k], in.Value)
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		v.closures[f] = append(v.closures[f], in)
	}
}

func (v *prov) take(x ssa.Value) {
	switch f := x.(type) {
	case *ssa.Function:
		v.taken[f] = true
	}
}

func hasRefs(t types.Type) bool { return hasRefs1(t, map[types.Type]bool{}) }

func hasRefs1(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs1(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs1(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs1(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// of computes the origins of a value: what is reachable over the dependency
// graph. Past an assertion to a concrete type only values of that type count.
func (v *prov) of(x ssa.Value) origins {
	if o, ok := v.cache[x]; ok {
		return o
	}
	type item struct {
		v ssa.Value
		f string // "": any; "-": the container of a value; otherwise the type asserted
	}
	out := origins{}
	seen := map[item]bool{}
	var work []item
	push := func(d ssa.Value, f string) {
		if d == nil {
			return
		}
		i := item{d, f}
		if seen[i] || seen[item{d, ""}] {
			return
		}
		seen[i] = true
		work = append(work, i)
	}
	push(x, "")
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		f := it.f
		if m, ok := it.v.(*ssa.MakeInterface); ok && f != "" && f != "-" {
			if ek(m.X.Type()) == f {
				push(m.X, "")
			}
			continue
		}
		if t, ok := it.v.(*ssa.TypeAssert); ok && f != "-" && !types.IsInterface(t.AssertedType) {
			f = ek(t.AssertedType)
			push(t.X, f)
			continue
		}
		vals, conts, direct := v.deps(it.v)
		for _, d := range direct {
			if f != "" && strings.HasPrefix(d, "global") {
				continue // what the variable holds is among the values stored
			}
			out[d] = true
		}
		for _, d := range vals {
			g := f
			if f != "" && f != "-" && !types.IsInterface(d.Type()) {
				if _, ok := d.Type().(*types.Tuple); !ok {
					g = "-"
				}
			}
			push(d, g)
		}
		for _, d := range conts {
			if f == "" {
				push(d, "")
			} else {
				push(d, "-")
			}
		}
	}
	v.cache[x] = out
	return out
}

func (v *prov) paramDeps(f *ssa.Function, i int) (deps []ssa.Value, direct []string) {
	name := f.Params[i].Name()
	if v.external(f) {
		direct = append(direct, fmt.Sprintf("given: argument %s of %s", name, f.RelString(nil)))
	}
	n := 0
	for _, c := range v.callers[f] {
		if i < len(c.Args) {
			deps = append(deps, c.Args[i])
			n++
		}
	}
	if f.Signature.Recv() != nil {
		for _, c := range v.invokes[f.Name()] {
			n++
			if i == 0 {
				deps = append(deps, c.Value)
			} else if i-1 < len(c.Args) {
				deps = append(deps, c.Args[i-1])
			}
		}
	}
	if v.taken[f] || len(v.closures[f]) > 0 {
		sig := f.Signature
		for _, c := range v.dyn {
			if len(c.Args) == len(f.Params) && i < len(c.Args) && types.AssignableTo(c.Args[i].Type(), f.Params[i].Type()) {
				deps = append(deps, c.Args[i])
				n++
			}
			_ = sig
		}
		// passed to a function outside the module, which may call it
		if f.Parent() != nil || v.taken[f] {
			direct = append(direct, v.calledBack(f, name)...)
		}
	}
	if f.Synthetic != "" && n == 0 {
		// wrappers: what they are made for decides
		return
	}
	return
}

// calledBack: a function value handed to code outside the module.
func (v *prov) calledBack(f *ssa.Function, name string) (direct []string) {
	for _, g := range v.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil || v.funcs[cal] {
					continue
				}
				for _, a := range c.Common().Args {
					if fromClosure(a, f) {
						for _, b := range c.Common().Args {
							if hasRefs(b.Type()) && !fromClosure(b, f) {
								for k := range v.of(b) {
									direct = append(direct, k)
								}
							}
						}
					}
				}
			}
		}
	}
	return
}

func fromClosure(a ssa.Value, f *ssa.Function) bool {
	switch a := a.(type) {
	case *ssa.MakeClosure:
		return a.Fn == f
	case *ssa.Function:
		return a == f
	case *ssa.ChangeType:
		return fromClosure(a.X, f)
	case *ssa.MakeInterface:
		return fromClosure(a.X, f)
	}
	return false
}

// deps lists what the origins of x are drawn from.
func (v *prov) deps(x ssa.Value) (deps, conts []ssa.Value, direct []string) {
	if !hasRefs(x.Type()) {
		return
	}
	switch y := x.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		if f := x.Parent(); f != nil && v.isInit[f] {
			direct = append(direct, "global: made by "+f.String())
		}
	case *ssa.MakeClosure:
	case *ssa.Global:
		direct = append(direct, "global: "+y.String())
	case *ssa.Parameter:
		f := y.Parent()
		for i, q := range f.Params {
			if q == y {
				deps, direct = v.paramDeps(f, i)
				return
			}
		}
	case *ssa.FreeVar:
		f := y.Parent()
		for i, q := range f.FreeVars {
			if q == y {
				for _, m := range v.closures[f] {
					deps = append(deps, m.Bindings[i])
				}
			}
		}
	case *ssa.Phi:
		deps = append(deps, y.Edges...)
	case *ssa.Slice:
		deps = append(deps, y.X)
	case *ssa.ChangeType:
		deps = append(deps, y.X)
	case *ssa.ChangeInterface:
		deps = append(deps, y.X)
	case *ssa.MakeInterface:
		deps = append(deps, y.X)
	case *ssa.TypeAssert:
		deps = append(deps, y.X)
	case *ssa.Convert:
		if isStringType(y.X.Type()) {
			return
		}
		deps = append(deps, y.X)
		if !isIntType(y.Type()) && types.TypeString(y.Type(), nil) == "unsafe.Pointer" {
			direct = append(direct, "unknown: unsafe.Pointer")
		}
	case *ssa.SliceToArrayPointer:
		deps = append(deps, y.X)
	case *ssa.FieldAddr:
		deps = append(deps, y.X)
	case *ssa.IndexAddr:
		deps = append(deps, y.X)
	case *ssa.Field:
		conts = append(conts, y.X)
		deps = append(deps, v.fieldSt[fieldKey(y.X.Type(), y.Field)]...)
	case *ssa.Index:
		conts = append(conts, y.X)
		deps = append(deps, v.elems(elemTypeOf(y.X.Type()))...)
	case *ssa.Lookup:
		conts = append(conts, y.X)
		deps = append(deps, v.elems(elemTypeOf(y.X.Type()))...)
	case *ssa.Range:
		deps = append(deps, y.X)
	case *ssa.Next:
		conts = append(conts, y.Iter)
		if r, ok := y.Iter.(*ssa.Range); ok {
			deps = append(deps, v.elems(elemTypeOf(r.X.Type()))...)
		}
	case *ssa.UnOp:
		switch y.Op.String() {
		case "*":
			switch a := y.X.(type) {
			case *ssa.Alloc:
				// a variable of its own
				if vals, ok := v.allocStores(a); ok {
					return vals, nil, nil
				}
			case *ssa.FieldAddr:
				deps = append(deps, v.fieldSt[fieldKey(a.X.Type(), a.Field)]...)
				conts = append(conts, v.wholeSt[ek(derefT(a.X.Type()))]...)
				conts = append(conts, a.X)
				return
			case *ssa.IndexAddr:
				deps = append(deps, v.elems(elemTypeOf(a.X.Type()))...)
				conts = append(conts, a.X)
				return
			}
			conts = append(conts, y.X)
			deps = append(deps, v.wholeSt[ek(y.Type())]...)
		case "<-":
			direct = append(direct, "unknown: received from a channel")
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			deps, direct = v.callDeps(c, y.Index)
			return
		}
		deps = append(deps, y.Tuple)
	case *ssa.Call:
		deps, direct = v.callDeps(y, 0)
		return
	default:
		direct = append(direct, fmt.Sprintf("unknown: %T", x))
	}
	return
}

func (v *prov) elems(t types.Type) []ssa.Value { return v.elemSt[ek(t)] }

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// allocStores are the values a local variable holds, when its address is used
// for loads and stores alone or in closures.
func (v *prov) allocStores(a *ssa.Alloc) (vals []ssa.Value, ok bool) {
	return v.addrStores(a, map[ssa.Value]bool{})
}

func (v *prov) addrStores(a ssa.Value, seen map[ssa.Value]bool) (vals []ssa.Value, ok bool) {
	if seen[a] {
		return nil, true
	}
	seen[a] = true
	refs := a.Referrers()
	if refs == nil {
		return nil, false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == a {
				return nil, false
			}
			vals = append(vals, r.Val)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a {
					more, ok := v.addrStores(f.FreeVars[i], seen)
					if !ok {
						return nil, false
					}
					vals = append(vals, more...)
				}
			}
		default:
			return nil, false
		}
	}
	return vals, true
}

// results of functions outside the module that hand out memory of their own
func freshResult(name string) bool {
	for _, p := range []string{"fmt.", "strings.", "errors.", "strconv.", "bytes.NewBuffer", "bytes.Buffer", "(*strings.Builder)", "unicode", "go/parser.", "go/token.", "os.", "io/ioutil.", "io.", "bufio.", "path/filepath.", "go/scanner."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (v *prov) callDeps(c *ssa.Call, res int) (deps []ssa.Value, direct []string) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			return []ssa.Value{cc.Args[0]}, nil
		case "min", "max", "ssa:wrapnilchk":
			return cc.Args, nil
		case "recover":
			return v.panics, nil // run-time errors are made by the run time
		}
		return nil, nil
	}
	rets := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && res < len(r.Results) {
					deps = append(deps, r.Results[res])
				}
			}
		}
	}
	if f := cc.StaticCallee(); f != nil {
		if v.funcs[f] && len(f.Blocks) > 0 {
			rets(f)
			return
		}
		if freshResult(f.String()) {
			return
		}
		for _, a := range cc.Args {
			if hasRefs(a.Type()) {
				deps = append(deps, a)
			}
		}
		return
	}
	if cc.IsInvoke() {
		n := 0
		for _, f := range v.p.funcs {
			if f.Signature.Recv() != nil && f.Name() == cc.Method.Name() && f.Signature.Params().Len() == cc.Signature().Params().Len() {
				rets(f)
				n++
			}
		}
		deps = append(deps, cc.Value)
		return
	}
	// a function value
	for f := range v.taken {
		if types.Identical(f.Signature, cc.Signature()) || f.Signature.Recv() != nil {
			rets(f)
		}
	}
	for f := range v.closures {
		if types.Identical(f.Signature, cc.Signature()) {
			rets(f)
		}
	}
	deps = append(deps, cc.Value)
	for _, a := range cc.Args {
		if hasRefs(a.Type()) {
			deps = append(deps, a)
		}
	}
	return
}

// reachable are the functions of the module that the roots may call.
func (v *prov) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !v.funcs[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						for _, g := range v.p.funcs {
							if g.Signature.Recv() != nil && g.Name() == cc.Method.Name() {
								visit(g)
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						visit(g)
					}
				}
				if _, ok := in.(*ssa.MakeInterface); ok {
					// methods of values made into interfaces may be called by others
					t := in.(*ssa.MakeInterface).X.Type()
					for _, g := range v.p.funcs {
						if r := g.Signature.Recv(); r != nil && types.Identical(r.Type(), t) {
							visit(g)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

package main

// C16, C20, C21: what operations write, share and depend on.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var opPackages = []string{"ast", "printer", "pass", "rules", "smt2"}
var libPackages = []string{"ast", "printer", "pass", "rules", "smt2", "parse", "parse/internal/parser", "parse/internal/goexpr", "internal/errutil"}

func relPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := ""
	switch {
	case f.Pkg != nil:
		p = f.Pkg.Pkg.Path()
	case f.Object() != nil && f.Object().Pkg() != nil:
		p = f.Object().Pkg().Path()
	}
	return strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/")
}

func (v *prov) exportedOf(c *Check, pkgs []string) (roots []*ssa.Function) {
	for _, pk := range pkgs {
		n := 0
		for _, f := range v.p.funcs {
			if relPkg(f) == pk && v.external(f) {
				roots = append(roots, f)
				n++
			}
		}
		if n == 0 {
			c.fail("anchor", "", "package %s exports no function", pk)
		}
	}
	// functions kept in tables built at initialisation
	for _, f := range v.p.funcs {
		if v.isInit[f] {
			roots = append(roots, f)
		}
	}
	return
}

func sortedFuncs(m map[*ssa.Function]bool) (out []*ssa.Function) {
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

// memWrite is one instruction that may change memory that outlives it.
type memWrite struct {
	fn   *ssa.Function
	pos  token.Pos
	what string
	base ssa.Value
	typ  types.Type // of the memory written, or of the container
}

// writesOf lists the writes of a function.
func (v *prov) writesOf(f *ssa.Function) (out []memWrite) {
	add := func(pos token.Pos, what string, base ssa.Value, t types.Type) {
		out = append(out, memWrite{f, pos, what, base, t})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); ok {
					continue
				}
				add(in.Pos(), "assignment", in.Addr, derefT(in.Addr.Type()))
			case *ssa.MapUpdate:
				add(in.Pos(), "map update", in.Map, in.Map.Type())
			case *ssa.Send:
				add(in.Pos(), "send", in.Chan, in.Chan.Type())
			case ssa.CallInstruction:
				cc := in.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy", "delete", "clear", "close":
						if c, ok := cc.Args[0].(*ssa.Const); ok && c.IsNil() {
							continue
						}
						if bi.Name() == "append" && fullCap(cc.Args[0]) {
							continue
						}
						add(in.Pos(), bi.Name(), cc.Args[0], cc.Args[0].Type())
					}
				}
			}
		}
	}
	return
}

// fullCap: x[:n:n] cannot be appended to in place.
func fullCap(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.High == s.Max {
		return true
	}
	a, ok1 := s.High.(*ssa.Const)
	b, ok2 := s.Max.(*ssa.Const)
	if ok1 && ok2 && a.Value != nil && b.Value != nil {
		return a.Value.ExactString() == b.Value.ExactString()
	}
	ca, ok1 := s.High.(*ssa.Call)
	cb, ok2 := s.Max.(*ssa.Call)
	if ok1 && ok2 {
		ba, ok1 := ca.Call.Value.(*ssa.Builtin)
		bb, ok2 := cb.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && ba.Name() == "len" && bb.Name() == "len" && ca.Call.Args[0] == cb.Call.Args[0] && ca.Call.Args[0] == s.X
	}
	return false
}

// treeType: memory of this type can be part of a tree.
func treeType(t types.Type) bool { return treeType1(t, 0) }

func treeType1(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		if p == "go/ast" || p == astPkg && (treeNamed == nil || treeNamed[n.Obj().Name()]) {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return treeType1(u.Elem(), depth+1)
	case *types.Slice:
		return treeType1(u.Elem(), depth+1)
	case *types.Array:
		return treeType1(u.Elem(), depth+1)
	}
	return false
}

// inTree: the address or container written to lies in memory whose type can be
// part of a tree.
func inTree(w memWrite) bool {
	if treeType(w.typ) {
		return true
	}
	for x := w.base; x != nil; {
		if treeType(x.Type()) {
			return true
		}
		switch y := x.(type) {
		case *ssa.FieldAddr:
			x = y.X
		case *ssa.IndexAddr:
			x = y.X
		case *ssa.Slice:
			x = y.X
		default:
			return false
		}
	}
	return false
}

// readers are functions outside the module that leave what they are given alone.
var readers = []string{"fmt.", "errors.", "strings.", "strconv.", "unicode", "bytes.Equal", "bytes.Compare", "bytes.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Index",
	"go/ast.Fprint", "go/ast.Print", "go/ast.NotNilFilter", "go/ast.IsExported", "go/token.", "go/format.", "go/printer.Fprint", "(*go/printer.Config).Fprint", "io.", "os.", "sort.SearchStrings", "sort.StringsAreSorted", "sort.IsSorted",
	"slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "slices.Max", "slices.Min", "slices.Backward", "slices.All", "slices.Values", "go/types.Identical", "go/types.AssignableTo", "go/types.ConvertibleTo", "go/types.Comparable", "go/types.Default", "go/types.TypeString", "go/types.IsInterface", "(*go/types.Basic)", "(go/types.Type)", "reflect.TypeOf", "reflect.DeepEqual", "(reflect.Type)"}

func isReader(name string) bool {
	for _, r := range readers {
		if strings.HasPrefix(name, r) {
			return true
		}
	}
	// methods of syntax tree nodes
	if strings.HasPrefix(name, "(*go/ast.") && (strings.HasSuffix(name, ").Pos") || strings.HasSuffix(name, ").End") || strings.HasSuffix(name, ").IsExported") || strings.HasSuffix(name, ").String")) {
		return true
	}
	if strings.HasPrefix(name, "(go/token.") {
		return true
	}
	return false
}

// handedOut lists the calls that hand references to functions outside the
// module which might write through them.
func (v *prov) handedOut(f *ssa.Function, each func(in ssa.CallInstruction, callee string, arg ssa.Value)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				continue
			}
			cal := cc.StaticCallee()
			if cal == nil || v.funcs[cal] || isReader(cal.String()) {
				continue
			}
			for _, a := range cc.Args {
				if hasRefs(a.Type()) && !isStringType(a.Type()) {
					each(c, cal.String(), a)
				}
			}
		}
	}
}

func (v *prov) funcName(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), modPath+"/", "")
}

// treeNamed are the types of package ast that trees are made of.
var treeNamed map[string]bool

func treeClosure(p *Program) map[string]bool {
	node := p.namedType(astPkg, "Node")
	if node == nil {
		return nil
	}
	it := node.Underlying().(*types.Interface)
	out := map[string]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			if n.Obj().Pkg().Path() != astPkg || out[n.Obj().Name()] {
				return
			}
			out[n.Obj().Name()] = true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Map:
			visit(u.Key())
			visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		}
	}
	scope := node.Obj().Pkg().Scope()
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		if types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it) {
			visit(tn.Type())
		}
	}
	return out
}

func checkC16(c *Check) {
	treeNamed = treeClosure(c.p)
	c.rule = "Write effects: every assignment, append, copy, map update and call outside the module in the functions that printing, traversal, feature queries and SMT generation can reach is traced to the memory it may write; memory whose type can be part of a tree must have been made during the call. Expansion is decided by abstract interpretation: the only write to memory of the given file is the rule list."
	c.assumptions = []string{"visitors and writers supplied by the caller are not part of the operation", "functions of the standard library on the reader list do not write through their arguments"}
	v := newProv(c.p)
	roots := v.exportedOf(c, opPackages)
	reach := v.reachable(roots)
	writes, calls := 0, 0
	var passFails []string
	commits := 0
	for _, f := range sortedFuncs(reach) {
		if v.isInit[f] || strings.HasPrefix(relPkg(f), "parse") {
			continue
		}
		c.funcs[f.String()] = true
		bad := 0
		report := func(pos, key, format string, args ...interface{}) {
			msg := fmt.Sprintf(format, args...)
			if relPkg(f) == "pass" {
				passFails = append(passFails, pos+": "+msg)
				return
			}
			bad++
			c.fail(key, pos, "%s", msg)
		}
		for _, w := range v.writesOf(f) {
			if !inTree(w) {
				continue
			}
			writes++
			if relPkg(f) == "pass" && v.isRuleList(w) {
				commits++
				continue
			}
			if o := v.of(w.base); len(o) > 0 {
				report(c.p.pos(w.pos), "write in "+v.funcName(f), "%s may change the tree it is given: writes %s, which comes from %s", w.what, w.typ, few(o.list("given", "global", "unknown")))
			}
		}
		v.handedOut(f, func(in ssa.CallInstruction, callee string, a ssa.Value) {
			t := a.Type()
			if m, ok := a.(*ssa.MakeInterface); ok {
				t = m.X.Type()
			}
			if !treeType(t) {
				if _, ok := t.Underlying().(*types.Interface); !ok {
					return
				}
			}
			calls++
			if o := v.of(a); len(o.list("given", "unknown")) > 0 && (treeType(t) || fromTree(a)) {
				report(c.p.pos(in.Pos()), "call in "+v.funcName(f), "%s is handed part of the tree (%s) and may change it", callee, few(o.list("given", "unknown")))
			}
		})
		if relPkg(f) != "pass" && bad == 0 {
			c.ok("writes of "+v.funcName(f), "no write reaches the tree it is given")
		}
	}
	// the expander
	if commits == 0 {
		c.fail("expander", "", "no write to the rule list of a file found in package pass")
	}
	if len(passFails) == 0 {
		c.ok("expander: writes", "the only memory of the tree it writes is the rule list of the file")
	} else if ec := newExpandCheck(c); ec != nil {
		// the flow-insensitive analysis cannot tell; interpret it
		ec.report("C16")
	}
	c.counts["tree_writes"] = writes
	c.counts["calls_outside"] = calls
}

// isRuleList: an assignment to the rule list of a file.
func (v *prov) isRuleList(w memWrite) bool {
	a, ok := w.base.(*ssa.FieldAddr)
	if !ok || w.what != "assignment" {
		return false
	}
	t := v.p.typ(astPkg, "File", true)
	st := structOf(derefT(a.X.Type()))
	return t != nil && types.Identical(a.X.Type(), t) && st.Field(a.Field).Name() == "Rules"
}

// fromTree: an interface value that holds tree memory.
func fromTree(a ssa.Value) bool {
	switch y := a.(type) {
	case *ssa.MakeInterface:
		return treeType(y.X.Type())
	case *ssa.ChangeInterface:
		return treeType(y.X.Type()) || fromTree(y.X)
	}
	return treeType(a.Type())
}

func init() {
	checks["C16"] = checkC16
	checks["C20"] = checkC20
	checks["C21"] = checkC21
}

func few(ss []string) string {
	for i := range ss {
		ss[i] = strings.ReplaceAll(ss[i], modPath+"/", "")
	}
	if len(ss) > 3 {
		ss = append(ss[:3:3], fmt.Sprintf("and %d more", len(ss)-3))
	}
	return strings.Join(ss, ", ")
}

// onlyInModule drops the variables of other modules (standard output and the like).
func moduleGlobals(o origins) (out []string) {
	for _, g := range o.list("global") {
		if strings.Contains(g, modPath) {
			out = append(out, g)
		}
	}
	return
}

func checkC20(c *Check) {
	c.rule = "Shared-state effects: every assignment, append, copy, map update, send and call outside the module, in every function of the library that can run after initialisation, is traced to the memory it may write; none of it may be a package-level variable or reachable from one."
	c.assumptions = []string{"callers do not assign to exported variables", "calls on different trees are given different memory"}
	v := newProv(c.p)
	reach := v.reachable(v.exportedOf(c, []string{"ast", "printer", "pass", "rules", "smt2", "parse", "parse/internal/parser"}))
	lib := map[string]bool{}
	for _, p := range libPackages {
		lib[p] = true
	}
	n, globals := 0, map[string]bool{}
	for _, f := range sortedFuncs(reach) {
		if v.isInit[f] || !lib[relPkg(f)] {
			continue
		}
		c.funcs[f.String()] = true
		bad := false
		for _, w := range v.writesOf(f) {
			n++
			o := v.of(w.base)
			if gs := moduleGlobals(o); len(gs) > 0 {
				bad = true
				c.fail("write in "+v.funcName(f), c.p.pos(w.pos), "%s to memory shared by all calls: %s", w.what, few(gs))
			} else if us := o.list("unknown"); len(us) > 0 {
				bad = true
				c.fail("write in "+v.funcName(f), c.p.pos(w.pos), "%s to memory whose origin is not known: %s", w.what, few(us))
			}
		}
		v.handedOut(f, func(in ssa.CallInstruction, callee string, a ssa.Value) {
			n++
			if strings.HasPrefix(callee, "(*sync.Mutex)") || strings.HasPrefix(callee, "(*sync.RWMutex)") || strings.HasPrefix(callee, "(*sync.Once)") {
				return
			}
			if gs := moduleGlobals(v.of(a)); len(gs) > 0 {
				bad = true
				c.fail("call in "+v.funcName(f), c.p.pos(in.Pos()), "%s is handed memory shared by all calls and may change it: %s", callee, few(gs))
			}
		})
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						globals[g.String()] = true
					}
				}
			}
		}
		if !bad {
			c.ok("writes of "+v.funcName(f), "no write reaches a package-level variable")
		}
	}
	c.counts["writes_and_calls"] = n
	c.counts["package_variables_used"] = len(globals)
	if len(globals) == 0 {
		c.fail("anchor", "", "no function uses a package-level variable")
	}
}

// packages whose functions depend on their arguments alone (or, for input and
// output, on what they are asked to read)
var pureDeps = map[string]bool{"fmt": true, "strings": true, "bytes": true, "strconv": true, "errors": true, "io": true, "sort": true, "slices": true, "unicode": true, "unicode/utf8": true,
	"go/ast": true, "go/token": true, "go/scanner": true, "go/types": true, "go/constant": true, "go/parser": true, "go/format": true, "go/printer": true, "math": true, "math/bits": true, "regexp": true, "path": true, "path/filepath": true, "bufio": true, "text/tabwriter": true, "io/ioutil": true, "sync": true, "cmp": true}

var pureOS = map[string]bool{"os.Open": true, "os.ReadFile": true, "(*os.File).Close": true, "(*os.File).Read": true, "(*os.File).Write": true, "(*os.File).Name": true, "os.IsNotExist": true}

func checkC21(c *Check) {
	c.rule = "Determinism: every instruction and call of every library function that can run after initialisation is checked for what may differ between runs: iteration over maps (allowed only where the order cannot matter: sorted afterwards, or filling another map), goroutines, channels and select, addresses in text or as numbers, and functions outside the module that are not determined by their arguments."
	c.assumptions = []string{"functions of the listed standard library packages are determined by their arguments", "no state is kept between calls (C20)"}
	v := newProv(c.p)
	reach := v.reachable(v.exportedOf(c, []string{"ast", "printer", "pass", "rules", "smt2", "parse", "parse/internal/parser"}))
	lib := map[string]bool{}
	for _, p := range libPackages {
		lib[p] = true
	}
	maps, texts, calls := 0, 0, 0
	for _, f := range sortedFuncs(reach) {
		if !lib[relPkg(f)] || f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		c.funcs[f.String()] = true
		bad := false
		fail := func(pos token.Pos, format string, args ...interface{}) {
			bad = true
			c.fail("function "+v.funcName(f), c.p.pos(pos), format, args...)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					fail(in.Pos(), "starts a goroutine: results may depend on scheduling")
				case *ssa.Select:
					fail(in.Pos(), "select: the choice may differ between runs")
				case *ssa.MakeChan:
					fail(in.Pos(), "channel: results may depend on scheduling")
				case *ssa.Convert:
					if bt, ok := in.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						fail(in.Pos(), "an address is used as a number")
					}
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						maps++
						if r := orderMatters(v.p, f, in); r != "" {
							fail(in.Pos(), "iterates over a map in an order that differs between runs: %s", r)
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				cal := cc.StaticCallee()
				if cal == nil {
					if cc.IsInvoke() && cc.Method.Pkg() != nil && !strings.HasPrefix(cc.Method.Pkg().Path(), modPath) {
						calls++
						if !pureDeps[cc.Method.Pkg().Path()] {
							fail(ci.Pos(), "calls %s, which is not known to depend on its arguments alone", cc.Method.FullName())
						}
					}
					continue
				}
				if t, w := addressInText(v, cal, cc); t > 0 {
					texts += t
					if w != "" {
						fail(ci.Pos(), "%s", w)
					}
				}
				if v.funcs[cal] {
					continue
				}
				calls++
				pk := ""
				if cal.Pkg != nil {
					pk = cal.Pkg.Pkg.Path()
				} else if o := cal.Object(); o != nil && o.Pkg() != nil {
					pk = o.Pkg().Path()
				}
				name := cal.String()
				if o := cal.Origin(); o != nil {
					name = o.String()
				}
				switch {
				case pk == "os" && pureOS[name]:
				case pk == "reflect" && (name == "reflect.TypeOf" || name == "reflect.DeepEqual" || strings.Contains(name, "Type)")):
				case pk == "maps" && (strings.HasPrefix(name, "maps.Keys") || strings.HasPrefix(name, "maps.Values")) && onlySorted(ci):
				case pk == "maps" && (strings.HasPrefix(name, "maps.Clone") || strings.HasPrefix(name, "maps.Copy") || strings.HasPrefix(name, "maps.Equal")):
				case pk == "sync" && strings.Contains(name, "Pool"):
					fail(ci.Pos(), "calls %s: what it returns depends on earlier calls", name)
				case pureDeps[pk]:
				case pk == "":
				default:
					fail(ci.Pos(), "calls %s, which is not known to depend on its arguments alone", name)
				}
			}
		}
		if !bad {
			c.ok("function "+v.funcName(f), "nothing in it differs between runs")
		}
	}
	c.counts["map_iterations"] = maps
	c.counts["formatted_values"] = texts
	c.counts["calls_outside"] = calls
}

func onlySorted(ci ssa.CallInstruction) bool {
	val := ci.Value()
	if val == nil || val.Referrers() == nil {
		return false
	}
	for _, r := range *val.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok || c.Common().StaticCallee() == nil {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		g := c.Common().StaticCallee()
		n := g.String()
		if o := g.Origin(); o != nil {
			n = o.String()
		}
		if !strings.HasPrefix(n, "slices.Sorted") || strings.HasPrefix(n, "slices.SortedFunc") {
			return false
		}
	}
	return true
}

// orderMatters looks at what an iteration over a map does; "" if the order in
// which the entries come makes no difference.
func orderMatters(p *Program, f *ssa.Function, r *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if next != nil {
				return "several iterators"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	li := p.loopsOf(f)[next.Block()]
	if li == nil {
		return "no loop found"
	}
	head := next.Block()
	var keyv ssa.Value
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
			keyv = e
		}
	}
	for b := range li.body {
		for _, s := range b.Succs {
			if !li.body[s] && b != head {
				return "the loop may end before the last entry"
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); ok && b != head {
					return "a variable keeps the last entry"
				}
				if !localTemp(in.Addr, li) {
					return "writes memory"
				}
			case *ssa.MapUpdate:
				if in.Map == r.X {
					return "changes the map it iterates over"
				}
				if keyv != nil && in.Key == keyv {
					continue
				}
				if _, ok := in.Value.(*ssa.Const); ok {
					continue // the same entry whoever comes last
				}
				return "entries of another map may be overwritten in a different order"
			case ssa.CallInstruction:
				cc := in.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap", "delete", "min", "max":
						continue
					}
					return "calls " + bi.Name()
				}
				g := cc.StaticCallee()
				if g == nil || !(isPure(g.String()) || p.isPureFn(g)) {
					return "calls a function with effects"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Return:
				return "has effects"
			}
		}
	}
	// what is carried out of the loop
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		used := false
		for _, u := range *ph.Referrers() {
			if !li.body[u.Block()] {
				used = true
			}
		}
		if !used {
			continue
		}
		if isBoolType(ph.Type()) || isIntType(ph.Type()) {
			if commutes(ph, li) {
				continue
			}
			return "the result depends on which entry comes last"
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok && sortedAfter(ph, li) {
			continue
		}
		return "what it collects is not sorted afterwards"
	}
	return ""
}

func localTemp(a ssa.Value, li *loopInfo) bool {
	for {
		switch y := a.(type) {
		case *ssa.FieldAddr:
			a = y.X
		case *ssa.IndexAddr:
			a = y.X
		case *ssa.Alloc:
			return li.body[y.Block()]
		default:
			return false
		}
	}
}

// commutes: the loop adds to, or sets to a constant, a number or truth value.
func commutes(ph *ssa.Phi, li *loopInfo) bool {
	var ok func(v ssa.Value, seen map[ssa.Value]bool) bool
	consts := map[string]bool{}
	ok = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == ph || seen[v] {
			return true
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Const:
			consts[y.String()] = true
			return true
		case *ssa.Phi:
			for _, e := range y.Edges {
				if !ok(e, seen) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if op := y.Op.String(); op == "+" || op == "|" || op == "&" || op == "^" {
				return y.X == ph && !usesPhi(y.Y, ph) || y.Y == ph && !usesPhi(y.X, ph)
			}
		}
		return false
	}
	for i, e := range ph.Edges {
		if !li.body[ph.Block().Preds[i]] {
			continue
		}
		if !ok(e, map[ssa.Value]bool{}) {
			return false
		}
	}
	return len(consts) <= 1
}

func usesPhi(v ssa.Value, ph *ssa.Phi) bool {
	if v == ph {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok {
		return true
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && usesPhi(*op, ph) {
			return true
		}
	}
	return false
}

// sortedAfter: a collected slice is sorted before anything else looks at it.
func sortedAfter(ph *ssa.Phi, li *loopInfo) bool {
	var sorts []ssa.Instruction
	var others []ssa.Instruction
	for _, u := range *ph.Referrers() {
		if li.body[u.Block()] {
			continue
		}
		x := u
		if m, ok := u.(*ssa.MakeInterface); ok && len(*m.Referrers()) == 1 {
			x = (*m.Referrers())[0]
		}
		if m, ok := u.(*ssa.ChangeType); ok && len(*m.Referrers()) == 1 {
			x = (*m.Referrers())[0]
			if m, ok := x.(*ssa.MakeInterface); ok && len(*m.Referrers()) == 1 {
				x = (*m.Referrers())[0]
			}
		}
		if c, ok := x.(*ssa.Call); ok && c.Common().StaticCallee() != nil && totalSort(c) {
			sorts = append(sorts, c)
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		others = append(others, u)
	}
	if len(sorts) == 0 {
		return false
	}
	for _, o := range others {
		done := false
		for _, s := range sorts {
			if s.Block() == o.Block() {
				done = done || instrIndex(s) < instrIndex(o)
			} else if s.Block().Dominates(o.Block()) {
				done = true
			}
		}
		if !done {
			return false
		}
	}
	return true
}

func totalSort(c *ssa.Call) bool {
	g := c.Common().StaticCallee()
	n := g.String()
	if o := g.Origin(); o != nil {
		n = o.String()
	}
	switch {
	case n == "sort.Strings", n == "sort.Ints", n == "slices.Sort", strings.HasPrefix(n, "slices.Sort[") && !strings.HasPrefix(n, "slices.SortFunc"):
		return true
	case n == "sort.Sort":
		m, ok := c.Common().Args[0].(*ssa.MakeInterface)
		return ok && (types.TypeString(m.X.Type(), nil) == "sort.StringSlice" || types.TypeString(m.X.Type(), nil) == "sort.IntSlice")
	case n == "sort.Slice":
		m, ok := c.Common().Args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		sl, ok := m.X.Type().Underlying().(*types.Slice)
		if !ok {
			return false
		}
		if _, ok := sl.Elem().Underlying().(*types.Basic); !ok {
			return false
		}
		cl, ok := c.Common().Args[1].(*ssa.MakeClosure)
		if !ok {
			return false
		}
		for _, b := range cl.Fn.(*ssa.Function).Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					bo, ok := r.Results[0].(*ssa.BinOp)
					if !ok || bo.Op != token.LSS && bo.Op != token.GTR || !isElem(bo.X) || !isElem(bo.Y) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

func isElem(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	_, ok = u.X.(*ssa.IndexAddr)
	return ok
}

// addressInText looks for addresses in formatted text: pointers that are not
// printed by a method of their own.
func addressInText(v *prov, cal *ssa.Function, cc *ssa.CallCommon) (n int, why string) {
	sig := cal.Signature
	if !sig.Variadic() || len(cc.Args) == 0 {
		return
	}
	last := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice)
	if it, ok := last.Elem().Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
		return
	}
	if !v.funcs[cal] && (cal.Pkg == nil || cal.Pkg.Pkg.Path() != "fmt") {
		return
	}
	verbs, known := []byte(nil), false
	if len(cc.Args) >= 2 {
		if k, ok := cc.Args[len(cc.Args)-2].(*ssa.Const); ok && k.Value != nil && isStringType(k.Type()) {
			verbs, known = verbsOf(constTerm(k).S)
		}
	}
	sl, ok := cc.Args[len(cc.Args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		i := int(k.Int64())
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			n++
			verb := byte('v')
			if known && i < len(verbs) {
				verb = verbs[i]
			}
			if verb == 'T' {
				continue
			}
			m, ok := st.Val.(*ssa.MakeInterface)
			t := st.Val.Type()
			if ok {
				t = m.X.Type()
			} else if ci, ok := st.Val.(*ssa.ChangeInterface); ok {
				t = ci.X.Type()
			}
			if verb == 'p' {
				return n, "prints an address (%p)"
			}
			if showsAddress(v.p, t, true, 0) {
				return n, fmt.Sprintf("the text may contain an address: a value of type %s is printed with %%%c", strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", ""), verb)
			}
		}
	}
	return
}

func verbsOf(format string) (out []byte, ok bool) {
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) || format[i] == '*' || format[i] == '[' {
			return nil, false
		}
		if format[i] != '%' {
			out = append(out, format[i])
		}
	}
	return out, true
}

func showsAddress(p *Program, t types.Type, top bool, depth int) bool {
	if depth > 6 {
		return true
	}
	if hasMethod(t, "Error") || hasMethod(t, "String") || hasMethod(t, "Format") {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		if top {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return showsAddress(p, u.Elem(), false, depth+1)
			}
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if showsAddress(p, u.Field(i).Type(), false, depth+1) {
				return true
			}
		}
		return false
	case *types.Slice:
		return showsAddress(p, u.Elem(), false, depth+1)
	case *types.Array:
		return showsAddress(p, u.Elem(), false, depth+1)
	case *types.Map:
		return showsAddress(p, u.Elem(), false, depth+1) || showsAddress(p, u.Key(), false, depth+1)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return false // not known; judged where the value is made
		}
		for _, i := range universe(t) {
			if showsAddress(p, i, top, depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

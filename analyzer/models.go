package main

// Models of the standard library functions the repository uses (and close
// relatives a rewrite would use).

import (
	"fmt"
	gotoken "go/token"
	"go/types"
	"strings"
)

type model func(c *CallCtx) ([]Outcome, bool)

var models map[string]model

var pureFuncs = map[string]bool{}

// isPure: results depend on the arguments alone and nothing is changed.
func isPure(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "strconv.", "unicode.", "unicode/utf8.", "path/filepath.", "path.", "errors.", "math.",
		"(go/token.", "go/token.", "(*go/ast.", "(go/ast.", "go/types.", "(*go/types.", "(go/types.", "(error).", "sort.Search", "go/parser.ParseExpr",
		"(unicode."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return pureFuncs[name]
}

func content(w *Term) *Term { return mk("content", "", w) }

// emit appends tokens to what was written to w.
func (x *Exec) emit(st *State, w *Term, toks ...*Term) {
	p := content(w)
	cur := x.readContent(st, w)
	x.set(st, p, cat(append([]*Term{cur}, toks...)...))
}

func (x *Exec) readContent(st *State, w *Term) *Term {
	p := content(w)
	if c, ok := st.mem[p.Key()]; ok {
		return c.val
	}
	if isFresh(rootOf(w)) {
		return tStr("")
	}
	return p
}

func errTerm(c *CallCtx, kind string, args ...*Term) *Term {
	return &Term{Op: "err", S: fmt.Sprintf("%s@%d", kind, c.Pos()), A: args, T: errType}
}

var errType types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "someError", nil), types.NewStruct(nil, nil), nil))

func (c *CallCtx) writeResults(n *Term) []Outcome {
	if c.X.OnWrite != nil {
		return c.X.OnWrite(c, n)
	}
	if c.X.NoFail {
		return c.ret(c.St, n, tNil)
	}
	c.St.seq++
	return c.ret(c.St, n, mk("call", fmt.Sprintf("writeerr@%d@%d", c.Pos(), c.St.seq)))
}

// formatTokens expands a Printf format.
func (x *Exec) formatTokens(st *State, format *Term, args *Term, argTypes []types.Type) ([]*Term, bool) {
	format = unbox(format)
	list := x.view(st, args)
	if !format.isStr() {
		return []*Term{mk("format", "", format, list)}, true
	}
	segs := asSegs(list)
	var as []*Term
	for _, s := range segs {
		if s.Op != "one" {
			as = nil
			if n := strings.Count(format.S, "%"); n > 0 {
				return []*Term{mk("sprintf", format.S, list)}, true
			}
			break
		}
		as = append(as, s.A[0])
	}
	var out []*Term
	fs := format.S
	ai := 0
	for len(fs) > 0 {
		i := strings.IndexByte(fs, '%')
		if i < 0 {
			out = append(out, tStr(fs))
			break
		}
		if i > 0 {
			out = append(out, tStr(fs[:i]))
		}
		j := i + 1
		for j < len(fs) && strings.ContainsRune("+-# 0123456789.", rune(fs[j])) {
			j++
		}
		if j >= len(fs) {
			out = append(out, tStr("%!(NOVERB)"))
			break
		}
		verb := fs[i : j+1]
		fs = fs[j+1:]
		if verb == "%%" {
			out = append(out, tStr("%"))
			continue
		}
		if ai >= len(as) {
			out = append(out, tStr("%!"+verb[len(verb)-1:]+"(MISSING)"))
			continue
		}
		out = append(out, x.formatArg(st, verb, as[ai]))
		ai++
	}
	if ai < len(as) {
		out = append(out, mk("fmtextra", "", as[ai:]...))
	}
	return out, true
}

func (x *Exec) formatArg(st *State, verb string, a *Term) *Term {
	var t types.Type
	if a.Op == "box" {
		t = a.T
	} else if ts := st.facts.dynTypes(a, nil); len(ts) == 1 {
		t = ts[0]
	}
	a = unbox(a)
	switch verb {
	case "%c":
		if a.isInt() {
			return tStr(string(rune(a.N)))
		}
		return mk("runestr", "", a)
	case "%d":
		if a.isInt() {
			return tStr(a.S)
		}
		return mk("fmt", "%d", a)
	case "%s", "%v":
		if a.isStr() {
			return a
		}
		if t != nil {
			if s := x.stringOf(a, t); s != nil {
				return s
			}
			if verb == "%v" && isIntType(t) {
				return x.formatArg(st, "%d", a)
			}
			if sl, ok := t.Underlying().(*types.Slice); ok && verb == "%s" {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					return a
				}
			}
		}
		if a.Op == "cat" || a.Op == "runestr" {
			return a
		}
	}
	return mk("fmt", verb, a)
}

// stringOf is the text %s prints for a value of type t, when it is simple.
func (x *Exec) stringOf(a *Term, t types.Type) *Term {
	if hasMethod(t, "Error") {
		return nil
	}
	if hasMethod(t, "String") {
		switch tkey(t) {
		case "*go/ast.Ident":
			return fld("Name", a)
		case "go/token.Token":
			return tokStr(a)
		}
		return mk("call", "String", a)
	}
	if isStringType(t) {
		return a
	}
	return nil
}

func tokStr(a *Term) *Term {
	if u := unbox(a); u.isInt() && u.N >= 0 && u.N < 200 {
		return tStr(gotoken.Token(u.N).String())
	}
	return mk("tokstr", "", a)
}

// foldConst propagates constants through pure library functions.
func foldConst() {
	str := func(c *CallCtx, i int) (string, bool) {
		u := unbox(c.Args[i])
		return u.S, u.isStr()
	}
	two := func(f func(a, b string) *Term) model {
		return func(c *CallCtx) ([]Outcome, bool) {
			a, ok1 := str(c, 0)
			b, ok2 := str(c, 1)
			if !ok1 || !ok2 {
				return nil, false
			}
			return c.ret(c.St, f(a, b)), true
		}
	}
	models["strings.HasPrefix"] = two(func(a, b string) *Term { return tBool(strings.HasPrefix(a, b)) })
	models["strings.HasSuffix"] = two(func(a, b string) *Term { return tBool(strings.HasSuffix(a, b)) })
	models["strings.Contains"] = two(func(a, b string) *Term { return tBool(strings.Contains(a, b)) })
	models["strings.ContainsAny"] = two(func(a, b string) *Term { return tBool(strings.ContainsAny(a, b)) })
	models["strings.Index"] = two(func(a, b string) *Term { return tInt(int64(strings.Index(a, b))) })
	models["strings.TrimPrefix"] = two(func(a, b string) *Term { return tStr(strings.TrimPrefix(a, b)) })
	models["strings.TrimSuffix"] = two(func(a, b string) *Term { return tStr(strings.TrimSuffix(a, b)) })
	models["strings.ContainsRune"] = func(c *CallCtx) ([]Outcome, bool) {
		a, ok := str(c, 0)
		r := unbox(c.Args[1])
		if !ok || !r.isInt() {
			return nil, false
		}
		return c.ret(c.St, tBool(strings.ContainsRune(a, rune(r.N)))), true
	}
	models["strings.IndexByte"] = func(c *CallCtx) ([]Outcome, bool) {
		a, ok := str(c, 0)
		r := unbox(c.Args[1])
		if !ok || !r.isInt() {
			return nil, false
		}
		return c.ret(c.St, tInt(int64(strings.IndexByte(a, byte(r.N))))), true
	}
	models["strconv.Itoa"] = func(c *CallCtx) ([]Outcome, bool) {
		u := unbox(c.Args[0])
		if !u.isInt() {
			return nil, false
		}
		return c.ret(c.St, tStr(u.S)), true
	}
	tok := func(f func(t gotoken.Token) *Term) model {
		return func(c *CallCtx) ([]Outcome, bool) {
			u := unbox(c.Args[0])
			if !u.isInt() {
				return nil, false
			}
			return c.ret(c.St, f(gotoken.Token(u.N))), true
		}
	}
	models["(go/token.Token).Precedence"] = tok(func(t gotoken.Token) *Term { return tInt(int64(t.Precedence())) })
	models["(go/token.Token).IsOperator"] = tok(func(t gotoken.Token) *Term { return tBool(t.IsOperator()) })
	models["(go/token.Token).IsLiteral"] = tok(func(t gotoken.Token) *Term { return tBool(t.IsLiteral()) })
	models["(go/token.Token).IsKeyword"] = tok(func(t gotoken.Token) *Term { return tBool(t.IsKeyword()) })
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func init() {
	models = map[string]model{}
	m := models
	foldConst()

	m["fmt.Fprintf"] = func(c *CallCtx) ([]Outcome, bool) {
		toks, ok := c.X.formatTokens(c.St, c.Args[1], c.Args[2], nil)
		if !ok {
			return nil, false
		}
		c.X.emit(c.St, c.Args[0], toks...)
		return c.writeResults(mk("call", "n")), true
	}
	m["fmt.Fprint"] = func(c *CallCtx) ([]Outcome, bool) {
		list := c.X.view(c.St, c.Args[1])
		for i, s := range asSegs(list) {
			if s.Op != "one" {
				return nil, false
			}
			// Fprint adds spaces between operands when neither is a string
			if i > 0 {
				return nil, false
			}
			c.X.emit(c.St, c.Args[0], c.X.formatArg(c.St, "%v", s.A[0]))
		}
		return c.writeResults(mk("call", "n")), true
	}
	m["fmt.Fprintln"] = func(c *CallCtx) ([]Outcome, bool) {
		list := c.X.view(c.St, c.Args[1])
		for i, s := range asSegs(list) {
			if s.Op != "one" {
				return nil, false
			}
			if i > 0 {
				c.X.emit(c.St, c.Args[0], tStr(" "))
			}
			c.X.emit(c.St, c.Args[0], c.X.formatArg(c.St, "%v", s.A[0]))
		}
		c.X.emit(c.St, c.Args[0], tStr("\n"))
		return c.writeResults(mk("call", "n")), true
	}
	m["fmt.Sprintf"] = func(c *CallCtx) ([]Outcome, bool) {
		toks, ok := c.X.formatTokens(c.St, c.Args[0], c.Args[1], nil)
		if !ok {
			return nil, false
		}
		return c.ret(c.St, cat(toks...)), true
	}
	m["fmt.Sprint"] = func(c *CallCtx) ([]Outcome, bool) {
		segs := asSegs(c.X.view(c.St, c.Args[0]))
		if len(segs) != 1 || segs[0].Op != "one" {
			return nil, false
		}
		return c.ret(c.St, c.X.formatArg(c.St, "%v", segs[0].A[0])), true
	}
	m["fmt.Errorf"] = func(c *CallCtx) ([]Outcome, bool) {
		list := c.X.view(c.St, c.Args[1])
		return c.ret(c.St, errTerm(c, "Errorf", unbox(c.Args[0]), c.X.resolve(c.St, list))), true
	}
	m["errors.New"] = func(c *CallCtx) ([]Outcome, bool) {
		return c.ret(c.St, errTerm(c, "New", unbox(c.Args[0]))), true
	}
	m["io.WriteString"] = func(c *CallCtx) ([]Outcome, bool) {
		c.X.emit(c.St, c.Args[0], unbox(c.Args[1]))
		return c.writeResults(mk("call", "n")), true
	}
	write := func(c *CallCtx) ([]Outcome, bool) {
		c.X.emit(c.St, c.Args[0], bytesStr(c.X.view(c.St, c.Args[1])))
		return c.writeResults(mk("call", "n")), true
	}
	m["(io.Writer).Write"] = write
	m["(*os.File).Write"] = write
	m["(*os.File).WriteString"] = write
	m["(*bytes.Buffer).WriteTo"] = func(c *CallCtx) ([]Outcome, bool) {
		src := c.X.readContent(c.St, c.Args[0])
		c.X.emit(c.St, c.Args[1], src)
		c.X.set(c.St, content(c.Args[0]), tStr(""))
		d := *c
		d.Args = c.Args[1:] // the destination is what may fail
		return d.writeResults(mk("call", "n")), true
	}
	for _, recv := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		bufw := func(c *CallCtx) ([]Outcome, bool) {
			c.X.emit(c.St, c.Args[0], bytesStr(c.X.view(c.St, c.Args[1])))
			return c.ret(c.St, mk("call", "n"), tNil), true
		}
		m[recv+".WriteString"] = bufw
		m[recv+".Write"] = bufw
		m[recv+".WriteByte"] = func(c *CallCtx) ([]Outcome, bool) {
			a := unbox(c.Args[1])
			if a.isInt() {
				a = tStr(string([]byte{byte(a.N)}))
			} else {
				a = mk("runestr", "", a)
			}
			c.X.emit(c.St, c.Args[0], a)
			return c.ret(c.St, tNil), true
		}
		m[recv+".WriteRune"] = func(c *CallCtx) ([]Outcome, bool) {
			a := unbox(c.Args[1])
			if a.isInt() {
				a = tStr(string(rune(a.N)))
			} else {
				a = mk("runestr", "", a)
			}
			c.X.emit(c.St, c.Args[0], a)
			return c.ret(c.St, mk("call", "n"), tNil), true
		}
		get := func(c *CallCtx) ([]Outcome, bool) {
			return c.ret(c.St, c.X.readContent(c.St, c.Args[0])), true
		}
		m[recv+".String"] = get
		m[recv+".Bytes"] = get
		m[recv+".Len"] = func(c *CallCtx) ([]Outcome, bool) {
			return c.ret(c.St, lenOf(c.X.readContent(c.St, c.Args[0]))), true
		}
		m[recv+".Reset"] = func(c *CallCtx) ([]Outcome, bool) {
			c.X.set(c.St, content(c.Args[0]), tStr(""))
			return c.ret(c.St), true
		}
		m[recv+".Grow"] = func(c *CallCtx) ([]Outcome, bool) { return c.ret(c.St), true }
	}
	newbuf := func(c *CallCtx) ([]Outcome, bool) {
		c.St.seq++
		n := &Term{Op: "new", S: fmt.Sprintf("buf@%d.%s", c.Pos(), c.Fr.id)}
		n.T = c.Sig.Results().At(0).Type()
		init := unbox(c.Args[0])
		if init.Op == "nil" {
			init = tStr("")
		}
		if init.Op == "app" && len(init.A) == 0 {
			init = tStr("")
		}
		if init.Op == "newslice" || init.Op == "slice" {
			init = c.X.view(c.St, init)
			if init.Op == "app" && len(init.A) == 0 {
				init = tStr("")
			}
		}
		c.X.set(c.St, content(n), init)
		return c.ret(c.St, n), true
	}
	m["bytes.NewBuffer"] = newbuf
	m["bytes.NewBufferString"] = newbuf
	m["(go/token.Token).String"] = func(c *CallCtx) ([]Outcome, bool) {
		return c.ret(c.St, tokStr(c.Args[0])), true
	}
	m["(go/token.Pos).IsValid"] = func(c *CallCtx) ([]Outcome, bool) {
		return c.ret(c.St, mk("not", "", eq0(c.Args[0]))), true
	}
	m["(*go/ast.Ident).String"] = func(c *CallCtx) ([]Outcome, bool) {
		return c.ret(c.St, fld("Name", c.Args[0])), true
	}
	m["strings.Join"] = func(c *CallCtx) ([]Outcome, bool) {
		l := c.X.view(c.St, c.Args[0])
		segs := asSegs(l)
		sep := unbox(c.Args[1])
		// all constant elements
		var parts []*Term
		for i, s := range segs {
			if s.Op != "one" {
				return c.ret(c.St, mk("join", "", c.X.resolve(c.St, l), sep)), true
			}
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, s.A[0])
		}
		return c.ret(c.St, cat(parts...)), true
	}
	m["strings.Repeat"] = func(c *CallCtx) ([]Outcome, bool) {
		s, n := unbox(c.Args[0]), unbox(c.Args[1])
		if s.isStr() && n.isInt() && n.N >= 0 && n.N < 1000 {
			return c.ret(c.St, tStr(strings.Repeat(s.S, int(n.N)))), true
		}
		return nil, false
	}
	m["(*sync.Once).Do"] = func(c *CallCtx) ([]Outcome, bool) {
		f := c.Args[1]
		if f.Op != "fn" || f.Fn == nil || len(f.Fn.Blocks) == 0 {
			return nil, false
		}
		return c.X.callFn(c.Fr, c.St, f.Fn, nil, f.A, c.Site), true
	}
	m["errors.Is"] = nil
	delete(m, "errors.Is")
}

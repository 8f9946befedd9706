package main

// C06: the grammar file and the parser that is shipped.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pegPath = "parse/rules.peg"

// normCode is Go code in canonical layout, without comments.
func normCode(body string) (string, error) {
	src := "package p\nfunc f() (interface{}, error) {\n" + body + "\n}\n"
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "", src, 0)
	if err != nil {
		return "", err
	}
	return normNode(fs, f)
}

func normNode(fs *token.FileSet, n ast.Node) (string, error) {
	var b bytes.Buffer
	if err := format.Node(&b, fs, n); err != nil {
		return "", err
	}
	var out []string
	for _, l := range strings.Split(b.String(), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n"), nil
}

// bodyCode is the body of a function of the parser.
func (a *parserAnalysis) bodyCode(fn *ssa.Function) (string, []string, error) {
	d, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || d.Body == nil {
		return "", nil, fmt.Errorf("no source")
	}
	var params []string
	for _, f := range d.Type.Params.List {
		for _, n := range f.Names {
			params = append(params, n.Name)
		}
	}
	// print without comments
	tf := a.c.p.fset.File(d.Pos())
	b, err := os.ReadFile(tf.Name())
	if err != nil {
		return "", nil, err
	}
	lo, hi := tf.Offset(d.Body.Lbrace)+1, tf.Offset(d.Body.Rbrace)
	if hi > len(b) || lo > hi {
		return "", nil, fmt.Errorf("no source")
	}
	s, err := normCode(string(b[lo:hi]))
	return s, params, err
}

// plainWrapper: the wrapper passes the part named like each parameter.
func (a *parserAnalysis) plainWrapper(fn, body *ssa.Function, params []string) bool {
	if fn.Synthetic != "" { // a method value or expression
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee() != body {
					fn = c.Call.StaticCallee()
				}
			}
		}
	}
	d, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || d.Body == nil || fn == body {
		return false
	}
	stack := ""
	for i, s := range d.Body.List {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if len(s.Lhs) != 1 || len(s.Rhs) != 1 {
				return false
			}
			id, ok := s.Lhs[0].(*ast.Ident)
			if !ok {
				return false
			}
			if id.Name == "_" {
				continue
			}
			// the innermost scope
			t, err := normNode(a.c.p.fset, s.Rhs[0])
			if err != nil || t != "p.vstack[len(p.vstack)-1]" || stack != "" {
				return false
			}
			stack = id.Name
		case *ast.ReturnStmt:
			if i != len(d.Body.List)-1 || len(s.Results) != 1 {
				return false
			}
			c, ok := s.Results[0].(*ast.CallExpr)
			if !ok || len(c.Args) != len(params) {
				return false
			}
			for j, x := range c.Args {
				ix, ok := x.(*ast.IndexExpr)
				if !ok {
					return false
				}
				id, ok := ix.X.(*ast.Ident)
				l, ok2 := ix.Index.(*ast.BasicLit)
				if !ok || !ok2 || id.Name != stack {
					return false
				}
				if v, err := strconv.Unquote(l.Value); err != nil || v != params[j] {
					return false
				}
			}
		default:
			return false
		}
	}
	r := d.Recv
	return r != nil && len(r.List) == 1 && len(r.List[0].Names) == 1 && r.List[0].Names[0].Name == "p"
}

// labelsIn are the names bound in the scope of n.
func labelsIn(n *peg) []string {
	set := map[string]bool{}
	var walk func(n *peg)
	walk = func(n *peg) {
		switch n.Kind {
		case "label":
			set[n.Str] = true
		case "seq":
			for _, s := range n.Sub {
				walk(s)
			}
		}
	}
	for _, s := range n.Sub {
		walk(s)
	}
	var out []string
	for k := range set {
		if k != "" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// helpers are the declarations in the header of the grammar file.
func headerDecls(h string) (map[string]string, *ast.File, *token.FileSet, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, pegPath, h, 0)
	if err != nil {
		return nil, nil, nil, err
	}
	return declTexts(fs, f), f, fs, nil
}

func declTexts(fs *token.FileSet, f *ast.File) map[string]string {
	out := map[string]string{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			n := d.Name.Name
			if d.Recv != nil {
				t, _ := normNode(fs, d.Recv.List[0].Type)
				n = t + "." + n
			}
			out[n], _ = normNode(fs, d)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					t, _ := normNode(fs, s.Type)
					out[s.Name.Name] = "type " + t
				case *ast.ValueSpec:
					t, _ := normNode(fs, s)
					for _, n := range s.Names {
						out[n.Name] = d.Tok.String() + " " + t
					}
				}
			}
		}
	}
	return out
}

func checkC06(c *Check) {
	c.rule = "The grammar built into the shipped parser (the value of its grammar table after initialisation, by constant propagation) is compared, in a normal form, with the grammar file: same constructs, order, repetition, literals and character sets. Every action is the grammar file's code on the parts of the same names; where the code or the names differ, both are interpreted abstractly on every derivation and have to build the same trees. The engine matches every node by its meaning (as for C07)."
	c.assumptions = []string{"actions with equal source text are equal"}
	a := c.parser()
	if a == nil {
		return
	}
	src, err := os.ReadFile(filepath.Join(c.p.dir, pegPath))
	if err != nil {
		c.fail("file", pegPath, "the grammar file cannot be read: %v", err)
		return
	}
	pf, err := parsePeg(pegPath, string(src))
	if err != nil {
		c.fail("file", pegPath, "the grammar file is not understood: %v", err)
		return
	}
	cm := newPegCmp(a.g, pf.G)
	cm.cmp(a.g.Rules[0].Body, pf.G.Rules[0].Body, false, true)
	for _, d := range cm.diffs {
		c.fail("grammar", d.Where, "%s", d.Text)
	}
	c.counts["constructs"] = cm.n
	if len(cm.diffs) > 0 {
		return
	}
	c.ok("grammar", "%d constructs compared, %d actions paired", cm.n, len(cm.actions))
	e := a.engine()
	e.checkNodes()
	e.entries()
	a.useEngine(c, e, propIs("C07"))
	k := &deriveChecker{a: a}
	var why []string
	if h, _, _, err := headerDecls(pf.Header); err != nil {
		why = append(why, "the header of the grammar file: "+err.Error())
	} else {
		have := a.pkgDecls()
		for _, n := range sortedKeys(h) {
			if have[n] != h[n] {
				why = append(why, "declaration of "+n)
			} else {
				c.ok("helper:"+n, "%s is declared alike", n)
			}
		}
	}
	for _, p := range cm.actions {
		body := k.actionBody(p.a.Run)
		c.funcs[p.a.Run.String()], c.funcs[body.String()] = true, true
		got, params, err := a.bodyCode(body)
		want, err2 := normCode(p.b.Code)
		key := "action:" + p.b.Pos
		switch {
		case err2 != nil:
			c.fail(key, p.b.Pos, "the action in the grammar file is not Go code: %v", err2)
		case err != nil || got != want:
			why = append(why, "code of the action at "+p.b.Pos)
		case !a.plainWrapper(p.a.Run, body, params):
			why = append(why, "named parts passed to the action at "+p.b.Pos)
		default:
			ls := map[string]bool{}
			for _, l := range labelsIn(p.b) {
				ls[l] = true
			}
			bad := ""
			for _, n := range params {
				if !ls[n] {
					bad = n
				}
			}
			if bad != "" {
				why = append(why, "part "+bad+" of the action at "+p.b.Pos)
			} else if strings.Join(labelsIn(p.a), " ") != strings.Join(labelsIn(p.b), " ") {
				why = append(why, "names of the parts at "+p.b.Pos)
			} else {
				c.ok(key, "the action is the code in the grammar file, on the parts %v", params)
			}
		}
	}
	if len(why) == 0 {
		// the same name for the same part
		lm := newPegCmp(a.g, pf.G)
		lm.labels = true
		lm.cmp(a.g.Rules[0].Body, pf.G.Rules[0].Body, false, true)
		for _, d := range lm.diffs {
			why = append(why, d.Text+" at "+d.Where)
		}
		if len(why) == 0 {
			c.ok("names", "the same parts have the same names")
			return
		}
	}
	c.counts["differences"] = len(why)
	a.compareMeanings(c, pf, why)
}

func (a *parserAnalysis) pkgDecls() map[string]string {
	out := map[string]string{}
	q := a.c.p.pkgs[a.pkg.Pkg.Path()]
	if q == nil {
		return out
	}
	for _, f := range q.Syntax {
		name := a.c.p.fset.Position(f.Pos()).Filename
		b, err := os.ReadFile(name)
		if err != nil {
			continue
		}
		fs := token.NewFileSet()
		g, err := parser.ParseFile(fs, name, b, 0)
		if err != nil {
			continue
		}
		for k, v := range declTexts(fs, g) {
			out[k] = v
		}
	}
	return out
}

// compareMeanings derives with the actions of the grammar file and with those
// of the parser.
func (a *parserAnalysis) compareMeanings(c *Check, pf *pegFile, why []string) {
	text := clip(strings.Join(why, "; "), 300)
	p2, g2, err := a.loadPegActions(pf)
	if err != nil {
		c.fail("actions", pegPath, "the actions differ (%s), and those of the grammar file cannot be analysed: %v", text, err)
		return
	}
	verdicts := func(x *parserAnalysis) map[string]string {
		m := map[string]string{}
		for _, v := range x.allDerivations().out {
			m[v.prop+" "+v.key] = v.pos + ": " + v.text
		}
		return m
	}
	mine := verdicts(a)
	saved := universe
	universe = p2.universeOf
	c2 := newCheck(c.id, p2, c.tier)
	a2 := &parserAnalysis{c: c2, roles: map[*peg]string{}, g: g2, ref: referenceGrammar()}
	a2.pkg = p2.pkg("parse/internal/zzpegref")
	a2.init = p2.withInit(a2.pkg)
	a2.base = a2.init
	a2.cmp = newPegCmp(a2.g, a2.ref)
	a2.cmp.cmp(a2.g.Rules[0].Body, a2.ref.Rules[0].Body, false, true)
	for _, p := range a2.cmp.actions {
		a2.roles[p.a] = p.b.Role
	}
	theirs := verdicts(a2)
	universe = saved
	n := 0
	for _, k := range sortedKeys(mine) {
		if _, ok := theirs[k]; !ok {
			n++
			c.fail("action:"+k, strings.SplitN(mine[k], ": ", 2)[0], "the parser's action is not the one in the grammar file (%s): %s", text, mine[k])
		}
	}
	for _, k := range sortedKeys(theirs) {
		if _, ok := mine[k]; !ok {
			n++
			c.fail("action:"+k, pegPath, "the action in the grammar file is not the parser's (%s): %s", text, theirs[k])
		} else if !strings.HasPrefix(k, "C03 comment-in-") && !strings.HasPrefix(k, "C23 ") {
			n++
			c.fail("action:"+k, pegPath, "the actions differ (%s) and are not both understood: %s", text, theirs[k])
		}
	}
	if n == 0 {
		c.ok("actions", "the code differs (%s), but builds the same trees on every derivation", text)
	}
}

// loadPegActions loads the code of the grammar file as a package of its own.
func (a *parserAnalysis) loadPegActions(pf *pegFile) (*Program, *pegGrammar, error) {
	h, hf, hfs, err := headerDecls(pf.Header)
	if err != nil {
		return nil, nil, err
	}
	var b strings.Builder
	have := a.pkgDecls()
	_ = h
	for _, d := range hf.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		t, err := normNode(hfs, d)
		if err != nil {
			return nil, nil, err
		}
		b.WriteString(t + "\n")
	}
	for _, t := range []string{"position", "storeDict", "current"} {
		if d, ok := have[t]; ok {
			b.WriteString("type " + t + " " + strings.TrimPrefix(d, "type ") + "\n")
		}
	}
	b.WriteString("type parser struct {\ncur current\nvstack []map[string]interface{}\n}\n")
	var acts []*peg
	seen := map[*peg]bool{}
	var walk func(n *peg)
	walk = func(n *peg) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.Kind == "action" {
			acts = append(acts, n)
		}
		for _, s := range n.Sub {
			walk(s)
		}
	}
	for _, r := range pf.G.Rules {
		walk(r.Body)
	}
	for i, n := range acts {
		ls := labelsIn(n)
		par, arg := "", []string{}
		if len(ls) > 0 {
			par = strings.Join(ls, ", ") + " interface{}"
		}
		for _, l := range ls {
			arg = append(arg, fmt.Sprintf("stack[%q]", l))
		}
		fmt.Fprintf(&b, "func (c *current) on%d(%s) (interface{}, error) {\n%s\n}\n", i, par, n.Code)
		fmt.Fprintf(&b, "func (p *parser) callon%d() (interface{}, error) {\nstack := p.vstack[len(p.vstack)-1]\n_ = stack\nreturn p.cur.on%d(%s)\n}\n", i, i, strings.Join(arg, ", "))
	}
	b.WriteString("var zzacts = []func(*parser) (interface{}, error){\n")
	for i := range acts {
		fmt.Fprintf(&b, "(*parser).callon%d,\n", i)
	}
	b.WriteString("}\n")
	body := b.String()
	// imports in use
	f, err := parser.ParseFile(token.NewFileSet(), "", "package p\n"+body, 0)
	if err != nil {
		return nil, nil, err
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	imports := map[string]string{}
	for _, q := range a.c.p.pkgs {
		for _, fl := range q.Syntax {
			for _, im := range fl.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				name := path[strings.LastIndex(path, "/")+1:]
				if im.Name != nil {
					name = im.Name.Name
				}
				if used[name] && (imports[name] == "" || q.PkgPath == a.pkg.Pkg.Path()) {
					imports[name] = path
				}
			}
		}
	}
	for path, q := range a.c.p.all {
		if used[q.Name] && imports[q.Name] == "" && !strings.Contains(path, "internal/") {
			imports[q.Name] = path
		}
	}
	local := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, ok := l.(*ast.Ident); ok && n.Tok == token.DEFINE {
					local[id.Name] = true
				}
			}
		case *ast.Field:
			for _, id := range n.Names {
				local[id.Name] = true
			}
		case *ast.ValueSpec:
			for _, id := range n.Names {
				local[id.Name] = true
			}
		}
		return true
	})
	var out strings.Builder
	out.WriteString("package zzpegref\n")
	for _, n := range sortedKeys(imports) {
		if !local[n] {
			fmt.Fprintf(&out, "import %s %q\n", n, imports[n])
		}
	}
	out.WriteString(body)
	file := filepath.Join(a.c.p.dir, "parse/internal/zzpegref/ref.go")
	p2, err := loadOverlay(a.c.p.dir, map[string][]byte{file: []byte(out.String())}, "./parse/internal/zzpegref")
	universe = a.c.p.universeOf
	if err != nil {
		return nil, nil, err
	}
	sp := p2.pkg("parse/internal/zzpegref")
	if sp == nil {
		return nil, nil, fmt.Errorf("no package")
	}
	for i, n := range acts {
		name := fmt.Sprintf("callon%d", i)
		for _, fn := range p2.funcs {
			if fn.Pkg == sp && fn.Name() == name && fn.Synthetic == "" {
				n.Run = fn
			}
		}
		if n.Run == nil {
			return nil, nil, fmt.Errorf("no function for an action")
		}
	}
	return p2, pf.G, nil
}

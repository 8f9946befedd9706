package main

// C22: the command line tool. main is interpreted from its initialiser to its
// exits; the library functions it calls are answered by an oracle (success or
// failure, any feature of a rule), and what it did is compared with what was
// asked of it on every path.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cmdCase struct {
	name  string
	files [][]string // the rules of each file
	full  string     // the rule every feature of which is open
	mixed bool       // the condition of the other rules is open
	grow  int        // rules added by expansion
	fails bool       // anything can fail
	gens  bool       // generation can refuse
}

type cmdCheck struct {
	c     *Check
	p     *Program
	sp    *ssa.Package
	paths int
	calls map[string]bool
	funcs map[*ssa.Function]bool
	logs  bool // what is said, rather than what is done
}

var cmdFeatures = []string{"HasBinding", "HasType", "HasAux", "HasAuxInt", "HasEllipsis", "HasTrailing"}

func ruleTerm(n string) *Term { return tIn(n) }

func (k *cmdCheck) run(cs cmdCase) {
	p := k.p
	x := newExec(p)
	x.Unroll = true
	x.MaxUnroll = 200000
	x.BoxAll = true
	rules := map[string][]string{}
	var files []*Term
	for i, rs := range cs.files {
		n := fmt.Sprintf("file%d", i)
		files = append(files, mk("one", "", tStr(n)))
		rules[n] = rs
	}
	list := func(ts []string) *Term {
		var segs []*Term
		for _, t := range ts {
			segs = append(segs, mk("one", "", ruleTerm(t)))
		}
		return app(segs...)
	}
	open := func(r string) bool { return r == cs.full }
	fileT := p.namedType(modPath+"/ast", "File")
	var rulesT types.Type
	if s := structOf(fileT); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Rules" {
				rulesT = s.Field(i).Type()
			}
		}
	}
	say := func(key string, pos token.Pos, format string, a ...interface{}) {
		at := ""
		if pos.IsValid() {
			at = p.pos(pos)
		}
		k.c.fail(key, at, "%s (%s)", fmt.Sprintf(format, a...), cs.name)
	}
	x.OnCall = func(c *CallCtx) ([]Outcome, bool) {
		ev := func(st *State, kind, what string, a ...*Term) {
			st.events = append(st.events, Event{Kind: "cmd:" + kind, S: what, A: a, Pos: c.Pos()})
		}
		errOf := func(st *State, what string, a ...*Term) *Term {
			e := errTerm(c, what, a...)
			st.facts.nils[e.Key()] = no
			return e
		}
		// fork answers a call that can fail
		fork := func(can bool, kind string, a []*Term, good func(st *State) []*Term, zero []*Term) []Outcome {
			var outs []Outcome
			if can {
				bad := c.St.clone()
				er := errOf(bad, kind, a...)
				ev(bad, kind, "failed", append(a[:len(a):len(a)], er)...)
				outs = append(outs, c.ret(bad, append(append([]*Term{}, zero...), er)...)...)
			}
			ok := c.St
			ev(ok, kind, "ok", a...)
			return append(outs, c.ret(ok, append(good(ok), tNil)...)...)
		}
		exit := func(code *Term) []Outcome {
			what := "?"
			if code.isInt() {
				what = fmt.Sprint(code.N)
			}
			ev(c.St, "exit", what)
			return []Outcome{{Kind: oPanic, St: c.St, Msg: "exit", Pos: c.Pos()}}
		}
		arg := func(i int) *Term { return unbox(c.Args[i]) }
		if text, ok := k.message(x, c); ok {
			ev(c.St, "log", "", text...)
		}
		switch c.Name {
		case "log.SetOutput", "(*log.Logger).SetOutput", "log.New":
			if w := x.resolve(c.St, arg(len(c.Args)-1)); c.Name != "log.New" && !stdStream(w) {
				ev(c.St, "elsewhere", "", w)
			} else if w := x.resolve(c.St, arg(0)); c.Name == "log.New" && !stdStream(w) {
				ev(c.St, "elsewhere", "", w)
			}
			return nil, false
		case "flag.String":
			ptr := mk("flagptr", arg(0).String())
			x.set(c.St, deref(ptr), arg(1))
			ev(c.St, "flag", arg(0).S, ptr)
			return c.ret(c.St, ptr), true
		case "flag.StringVar":
			x.store(c.St, derefOf(c.Args[0]), arg(2), c.Pos())
			ev(c.St, "flag", arg(1).S, c.Args[0])
			return c.ret(c.St), true
		case "flag.Parse":
			for _, e := range c.St.events {
				if e.Kind == "cmd:flag" {
					x.store(c.St, derefOf(e.A[0]), mk("flag", e.S), c.Pos())
				}
			}
			ev(c.St, "flagparse", "")
			return c.ret(c.St), true
		case "flag.Args", "flag.NArg", "flag.Arg", "flag.CommandLine":
			given := files
			if !hasCmd(c.St, "flagparse") {
				given = nil
			}
			switch c.Name {
			case "flag.NArg":
				return c.ret(c.St, tInt(int64(len(given)))), true
			case "flag.Arg":
				if i := arg(0); i.isInt() {
					if i.N >= 0 && int(i.N) < len(given) {
						return c.ret(c.St, given[i.N].A[0]), true
					}
					return c.ret(c.St, tStr("")), true
				}
				return nil, false
			}
			return c.ret(c.St, app(given...)), true
		case "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln":
			return exit(tInt(1)), true
		case "os.Exit":
			return exit(arg(0)), true
		case "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
			return exit(tInt(2)), true
		case "fmt.Sprintf":
			if t := intName(x, c); t != nil {
				return c.ret(c.St, t), true
			}
			return nil, false
		case "strconv.Itoa":
			return c.ret(c.St, mk("intname", "", arg(0))), true
		case "strconv.FormatInt":
			if b := arg(1); b.isInt() && b.N >= 2 {
				return c.ret(c.St, mk("intname", fmt.Sprintf("base%d", b.N), arg(0))), true
			}
		case "path/filepath.Join", "path.Join":
			var as []*Term
			for _, s := range asSegs(x.view(c.St, c.Args[0])) {
				if s.Op != "one" {
					return nil, false
				}
				as = append(as, unbox(s.A[0]))
			}
			return c.ret(c.St, mk("join/", "", as...)), true
		case "io/ioutil.WriteFile", "os.WriteFile":
			name, data := arg(0), x.resolve(c.St, x.view(c.St, c.Args[1]))
			return fork(cs.fails, "write", []*Term{name, unbox(data)}, func(*State) []*Term { return nil }, nil), true
		case "os.Create", "os.OpenFile":
			name := arg(0)
			c.St.seq++
			f := mk("osfile", fmt.Sprint(c.St.seq), name)
			return fork(cs.fails, "create", []*Term{name}, func(st *State) []*Term {
				st.facts.nils[f.Key()] = no
				return []*Term{f}
			}, []*Term{tNil}), true
		case "(*os.File).Write", "(*os.File).WriteString":
			if f := arg(0); f.Op == "osfile" {
				data := unbox(x.resolve(c.St, x.view(c.St, c.Args[1])))
				return fork(cs.fails, "write", []*Term{f.A[0], data}, func(*State) []*Term { return []*Term{lenOf(data)} }, []*Term{mk("unk", "n")}), true
			}
		case "(*os.File).Close":
			return c.ret(c.St, tNil), true
		}
		if c.Fn == nil || c.Fn.Pkg == nil || !strings.HasPrefix(c.Fn.Pkg.Pkg.Path(), modPath) || c.Fn.Pkg == k.sp {
			if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Pkg != k.sp {
				return c.ret(c.St), true
			}
			if strings.HasPrefix(c.Name, "os.") || strings.HasPrefix(c.Name, "(*os.") || strings.HasPrefix(c.Name, "io.") {
				k.calls[c.Name] = true
				// another outside call that can fail
				rs := c.Sig.Results()
				if n := rs.Len(); n > 0 && types.Identical(rs.At(n-1).Type(), errorType) {
					var vs []*Term
					for i := 0; i < n-1; i++ {
						c.St.seq++
						vs = append(vs, mk("unk", fmt.Sprintf("%s@%d", c.Name, c.St.seq)))
					}
					return fork(cs.fails, "other", []*Term{tStr(c.Name)}, func(*State) []*Term { return vs }, vs), true
				}
			}
			return nil, false
		}
		if c.Fn.Name() == "init" && c.Fn.Synthetic != "" {
			return c.ret(c.St), true
		}
		rel := strings.TrimPrefix(c.Fn.Pkg.Pkg.Path(), modPath+"/")
		if c.Fn.Object() == nil || !c.Fn.Object().Exported() || c.Fn.Signature.Recv() != nil {
			return nil, false
		}
		k.calls[rel+"."+c.Fn.Name()] = true
		switch rel + "." + c.Fn.Name() {
		case "parse.File":
			name := arg(0)
			rs, ok := rules[name.S]
			if !name.isStr() || !ok {
				say("files", c.Pos(), "the file %s is parsed, which was not given", name)
				return nil, false
			}
			return fork(cs.fails, "parse", []*Term{name}, func(st *State) []*Term {
				x.fresh++
				f := &Term{Op: "new", S: fmt.Sprintf("parsed%d", x.fresh), T: fileT}
				st.facts.nils[f.Key()] = no
				x.set(st, fld("Rules", f), list(rs))
				return []*Term{f}
			}, []*Term{tNil}), true
		case "pass.ExpandAlternates":
			f := arg(0)
			old := x.resolve(c.St, x.view(c.St, x.read(c.St, fld("Rules", f), rulesT)))
			return fork(cs.fails, "expand", []*Term{old}, func(st *State) []*Term {
				n := 0
				for _, e := range st.events {
					if e.Kind == "cmd:expanded" {
						n++
					}
				}
				var segs []*Term
				for i, s := range asSegs(old) {
					m := 1
					if i == 0 {
						m += cs.grow
					}
					for j := 0; j < m && s.Op == "one"; j++ {
						segs = append(segs, mk("one", "", mk("expanded", fmt.Sprintf("%d.%d", n, j), s.A[0])))
					}
				}
				x.store(st, fld("Rules", f), app(segs...), c.Pos())
				st.events = append(st.events, Event{Kind: "cmd:expanded", A: segs})
				return nil
			}, nil), true
		case "smt2.Generate":
			r := arg(0)
			return fork(cs.gens, "gen", []*Term{r}, func(*State) []*Term { return []*Term{mk("script", "", r)} }, []*Term{tNil}), true
		}
		if rel == "rules" && len(c.Args) == 1 && c.Sig.Results().Len() == 1 && isBoolType(c.Sig.Results().At(0).Type()) {
			for _, f := range cmdFeatures {
				if f == c.Fn.Name() {
					r := arg(0)
					if r.Op == "in" && !open(r.S) {
						return c.ret(c.St, tBool(false)), true
					}
					if r.Op == "in" {
						return c.ret(c.St, mk("has", f, r)), true
					}
					// of an expanded rule, or something else
					return c.ret(c.St, mk("has", f, r)), true
				}
			}
			return nil, false
		}
		if rel == "printer" {
			rs := c.Sig.Results()
			if n := rs.Len(); n > 0 && types.Identical(rs.At(n-1).Type(), errorType) {
				var vs, as []*Term
				for i := 0; i < n-1; i++ {
					vs = append(vs, mk("printed", fmt.Sprint(i), arg(len(c.Args)-1)))
				}
				for range vs {
					as = append(as, tNil)
				}
				return fork(cs.fails, "print", []*Term{arg(len(c.Args) - 1)}, func(st *State) []*Term {
					if len(vs) == 0 {
						text := mk("printed", "0", arg(len(c.Args)-1))
						if len(c.Args) == 1 || stdStream(x.resolve(st, arg(0))) {
							ev(st, "log", "", text)
						} else {
							x.emit(st, arg(0), text)
						}
					}
					return vs
				}, as), true
			}
		}
		return nil, false
	}
	st := newState()
	x.set(st, mk("glob", k.sp.Pkg.Path()+".init$guard"), tBool(false))
	// what is known of the rules
	for _, rs := range cs.files {
		for _, r := range rs {
			t := ruleTerm(r)
			st.facts.nils[t.Key()] = no
			if open(r) {
				continue
			}
			x.set(st, fld("Block", t), tStr(""))
			if !cs.mixed {
				x.set(st, fld("Condition", t), tNil)
			}
		}
	}
	inits := x.Call(k.sp.Func("init"), nil, st)
	if len(inits) != 1 || inits[0].Kind != oReturn {
		say("init", token.NoPos, "the initialiser of the command has %d outcomes", len(inits))
		return
	}
	in := inits[0].St
	outs := x.Call(k.sp.Func("main"), nil, in)
	for f := range x.funcs {
		k.funcs[f] = true
	}
	for _, u := range x.undecided {
		say("undecided", token.NoPos, "not decided: %s", u)
	}
	if len(x.undecided) > 0 {
		return
	}
	if len(outs) == 0 {
		say("main", k.sp.Func("main").Pos(), "the command has no way to end")
	}
	good, failed := 0, map[string]bool{}
	for _, o := range outs {
		k.paths++
		if k.logs {
			k.judgeLogs(cs, x, o, say, &good)
			continue
		}
		k.judge(cs, x, o, say, &good, failed)
	}
	if good == 0 {
		say("main", k.sp.Func("main").Pos(), "there is no way in which the command succeeds")
	}
}

func derefOf(p *Term) *Term { return deref(unbox(p)) }

func hasCmd(st *State, kind string) bool {
	for _, e := range st.events {
		if e.Kind == "cmd:"+kind {
			return true
		}
	}
	return false
}

// judge compares one way through the command with what is asked of it.
func (k *cmdCheck) judge(cs cmdCase, x *Exec, o Outcome, say func(string, token.Pos, string, ...interface{}), good *int, failed map[string]bool) {
	st := o.St
	ok := o.Kind == oReturn
	var fail *Event
	other := false
	parsed, considered, expanded, gens := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	accepted, scripts := map[string]int{}, map[string]*Term{}
	names := map[string]string{}
	var after token.Pos
	for i, e := range st.events {
		if !strings.HasPrefix(e.Kind, "cmd:") {
			continue
		}
		if e.S == "failed" && e.Kind != "cmd:gen" {
			if e.Kind == "cmd:other" {
				other = true
			} else if fail == nil {
				fail = &st.events[i]
			}
		}
		switch e.Kind {
		case "cmd:exit":
			ok = e.S == "0"
			after = e.Pos
		case "cmd:parse":
			parsed[e.A[0].S]++
		case "cmd:expand":
			for _, s := range asSegs(e.A[0]) {
				if s.Op != "one" || unbox(s.A[0]).Op != "in" {
					say("considered", e.Pos, "what is expanded is not the list of the rules of the files: %s", clip(e.A[0].String(), 100))
					return
				}
				considered[unbox(s.A[0]).S]++
			}
		case "cmd:expanded":
			for _, s := range e.A {
				expanded[s.A[0].Key()]++
			}
		case "cmd:gen":
			r := e.A[0]
			gens[r.Key()]++
			if expanded[r.Key()] == 0 {
				say("expanded", e.Pos, "a script is generated for %s, which is not a rule of the expanded list", clip(r.String(), 80))
			}
			if e.S == "ok" {
				accepted[r.Key()]++
				scripts[mk("script", "", r).Key()] = r
			}
		case "cmd:write":
			if e.S == "failed" {
				continue
			}
			r := scripts[e.A[1].Key()]
			if r == nil {
				say("written", e.Pos, "%s is written to %s: not the script of a rule that was accepted", clip(e.A[1].String(), 80), clip(e.A[0].String(), 80))
				continue
			}
			accepted[r.Key()]--
			if accepted[r.Key()] < 0 {
				say("written", e.Pos, "the script of a rule is written more than once")
			}
			if why := outName(e.A[0]); why != "" {
				say("name", e.Pos, "the script is written to %s: %s", clip(e.A[0].String(), 80), why)
			}
			if other := names[e.A[0].Key()]; other != "" && other != r.Key() {
				say("name", e.Pos, "two rules are written to the same file: %s", clip(e.A[0].String(), 80))
			}
			names[e.A[0].Key()] = r.Key()
		}
	}
	if o.Kind == oPanic && o.Msg != "exit" {
		say("panic", o.Pos, "the command panics: %s", o.Msg)
		return
	}
	if fail != nil {
		failed[fail.Kind] = true
		if ok {
			say("ignored:"+fail.Kind[4:], fail.Pos, "the command exits successfully although %s", map[string]string{"cmd:parse": "a file cannot be parsed", "cmd:expand": "expansion fails", "cmd:print": "a rule cannot be printed", "cmd:write": "a script cannot be written", "cmd:create": "a script cannot be written"}[fail.Kind])
		}
		return
	}
	if other {
		return
	}
	if !ok {
		say("exit", after, "the command fails although nothing went wrong")
		return
	}
	*good++
	if k := unflagged(st); k != "" {
		say("flag", token.NoPos, "%s", k)
	}
	for i, rs := range cs.files {
		f := fmt.Sprintf("file%d", i)
		if parsed[f] != 1 {
			say("files", token.NoPos, "file %d of %d is parsed %d times", i+1, len(cs.files), parsed[f])
		}
		for _, r := range rs {
			plain, why := k.plain(cs, x, st, r)
			n := considered[r]
			switch {
			case plain == yes && n != 1:
				say("considered", token.NoPos, "a rule without any of the excluded parts is considered %d times", n)
			case plain == no && n != 0:
				say("considered", token.NoPos, "a rule with %s is considered", why)
			case plain == unknown && n != 0:
				say("considered", token.NoPos, "a rule is considered whether or not it has %s", why)
			case plain == unknown:
				say("considered", token.NoPos, "a rule is left out although it may have none of the excluded parts")
			}
		}
	}
	for _, e := range sortedKeys(expanded) {
		if gens[e] != 1 {
			say("expanded", token.NoPos, "generation is tried %d times for a rule of the expanded list", gens[e])
		}
	}
	for _, r := range sortedKeys(accepted) {
		if accepted[r] > 0 {
			say("written", token.NoPos, "the script of an accepted rule is not written")
		}
	}
}

// plain: whether r is known to have none of the excluded parts on this path.
func (k *cmdCheck) plain(cs cmdCase, x *Exec, st *State, r string) (tri, string) {
	t := ruleTerm(r)
	res, why := yes, ""
	upd := func(absent tri, what string) {
		switch {
		case absent == no:
			res, why = no, what
		case absent == unknown && res == yes:
			res, why = unknown, what
		}
	}
	upd(st.facts.isNil(x.read(st, fld("Condition", t), nil)), "a condition")
	b := x.read(st, fld("Block", t), types.Typ[types.String])
	upd(st.facts.eval(strEq(b, tStr(""))), "a block")
	if cs.full == r {
		for _, f := range cmdFeatures {
			upd(st.facts.eval(mk("has", f, t)).neg(), strings.ToLower(strings.TrimPrefix(f, "Has")))
		}
	}
	return res, why
}

func unflagged(st *State) string {
	n := 0
	for _, e := range st.events {
		if e.Kind == "cmd:flag" && e.S == "outdir" {
			n++
		}
	}
	if n != 1 {
		return fmt.Sprintf("the flag outdir is defined %d times", n)
	}
	return ""
}

// outName: t names a file in the output directory that no other number has.
func outName(t *Term) string {
	if t.Op != "join/" || len(t.A) < 2 {
		return "not a name in the output directory"
	}
	if d := t.A[0]; d.Op != "flag" || d.S != "outdir" {
		return "not in the output directory"
	}
	ints := 0
	for _, a := range t.A[1:] {
		parts := []*Term{a}
		if a.Op == "cat" {
			parts = a.A
		}
		for _, s := range parts {
			s = unbox(s)
			switch {
			case s.Op == "intname":
				ints++
			case s.isStr():
				if strings.Contains(s.S, "..") {
					return "it may leave the output directory"
				}
			default:
				return "part of the name is not known: " + clip(s.String(), 60)
			}
		}
	}
	if ints != 1 {
		return "the name does not have exactly one number"
	}
	return ""
}

// intName is a formatted name with one number in it.
func intName(x *Exec, c *CallCtx) *Term {
	f := unbox(c.Args[0])
	if !f.isStr() || len(c.Args) != 2 {
		return nil
	}
	args := asSegs(x.view(c.St, c.Args[1]))
	var segs []*Term
	s, n := f.S, 0
	for s != "" {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			segs = append(segs, tStr(s))
			break
		}
		if i > 0 {
			segs = append(segs, tStr(s[:i]))
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("0123456789", s[j]) >= 0 {
			j++
		}
		if j >= len(s) || n >= len(args) || args[n].Op != "one" {
			return nil
		}
		a := unbox(args[n].A[0])
		switch {
		case strings.IndexByte("dxXob", s[j]) >= 0 && a.isInt():
			segs = append(segs, mk("intname", s[i:j+1], a))
		case strings.IndexByte("sv", s[j]) >= 0 && j == i+1 && (a.Op == "intname" || a.isStr()):
			segs = append(segs, a)
		case s[j] == 'v' && j == i+1 && a.isInt():
			segs = append(segs, mk("intname", "", a))
		case j == i+1 && s[j] == 's' && (a.Op == "join/" || a.Op == "flag"):
			segs = append(segs, a)
		default:
			return nil
		}
		n++
		s = s[j+1:]
	}
	return cat(segs...)
}

func init() {
	checks["C22"] = func(c *Check) {
		c.rule = "main is interpreted abstractly from its initialiser to its exits. The library functions it calls are answered by an oracle: parsing, expansion, printing, generation and writing can each fail, every feature of a rule is open, expansion can add rules. On every path: what is expanded is exactly the plain rules of all files; generation is tried once for every expanded rule; each accepted script is written once, unchanged, under a name made of the output directory and one number of its own; refused rules write nothing; the exit status is a failure exactly when something other than generation failed."
		c.assumptions = []string{"the library functions do what C01-C21 say", "files are named by distinct arguments", "more files and rules are treated alike (no larger number occurs in the command)", "package flag, log, os"}
		k := newCmdCheck(c)
		if k == nil {
			return
		}
		k.all()
	}
}

func newCmdCheck(c *Check) *cmdCheck {
	k := &cmdCheck{c: c, p: c.p, sp: c.p.pkg("cmd/ssarules"), calls: map[string]bool{}, funcs: map[*ssa.Function]bool{}}
	if k.sp == nil || k.sp.Func("main") == nil {
		c.fail("anchor", "", "there is no command cmd/ssarules")
		return nil
	}
	return k
}

// all follows the command in every case.
func (k *cmdCheck) all() {
	c := k.c
	abc := [][]string{{"r0", "r1"}, {"r2"}}
	for _, cs := range []cmdCase{
		{name: "no file"},
		{name: "an empty file", files: [][]string{{}}, fails: true, gens: true},
		{name: "two files, every part of the first rule open", files: abc, full: "r0", mixed: true},
		{name: "two files, every part of the second rule open", files: abc, full: "r1", mixed: true},
		{name: "two files, every part of the third rule open", files: abc, full: "r2", mixed: true},
		{name: "two files, anything can fail", files: abc, fails: true, gens: true},
		{name: "two files with plain rules, expansion adds a rule", files: [][]string{{"r0"}, {}, {"r1"}}, fails: true, gens: true, grow: 1},
		{name: "expansion adds three rules", files: [][]string{{"r0"}}, gens: true, grow: 3},
	} {
		before := len(c.bad)
		n := k.paths
		k.run(cs)
		if len(c.bad) == before {
			c.ok("case:"+cs.name, "%d paths", k.paths-n)
		}
	}
	for _, u := range countsBeyond(c.p, k.sp, k.funcs, 4) {
		c.fail("uniform:"+u.fn.Name(), u.pos, "%s compares or computes with %d: what it does may depend on a number of files or rules that is not followed that far", u.fn.Name(), u.n)
	}
	c.sawFuncs(k.funcs)
	c.counts["paths"] = k.paths
	var calls []string
	for n := range k.calls {
		calls = append(calls, n)
	}
	sort.Strings(calls)
	c.ok("calls", "%d library functions answered: %s", len(calls), filepath.ToSlash(strings.Join(calls, ", ")))
}

package main

// C28: what the command says about what it did.

import (
	"fmt"
	"go/token"
	"regexp"
	"strconv"
	"strings"
)

// message is the text written by a call that writes a message, nil for others.
func (k *cmdCheck) message(x *Exec, c *CallCtx) ([]*Term, bool) {
	args := c.Args
	name := c.Name
	switch {
	case strings.HasPrefix(name, "log."):
		name = name[4:]
	case strings.HasPrefix(name, "(*log.Logger)."):
		name, args = name[14:], args[1:]
	case strings.HasPrefix(name, "fmt.Fprint"):
		if w := unbox(x.resolve(c.St, args[0])); !stdStream(w) {
			return nil, false
		}
		name, args = name[4:], args[1:]
	case strings.HasPrefix(name, "fmt.Print"):
		name = name[4:]
	default:
		return nil, false
	}
	switch name {
	case "Printf", "Fatalf", "Panicf", "Fprintf":
		toks, ok := x.formatTokens(c.St, args[0], args[1], nil)
		if !ok {
			return []*Term{mk("unk", "text")}, true
		}
		return x.textParts(c.St, toks), true
	case "Print", "Println", "Fatal", "Fatalln", "Panic", "Panicln", "Fprint", "Fprintln":
		var out []*Term
		for i, s := range asSegs(x.view(c.St, args[0])) {
			if i > 0 {
				out = append(out, tStr(" "))
			}
			if s.Op != "one" {
				out = append(out, s)
				continue
			}
			out = append(out, x.formatArg(c.St, "%v", s.A[0]))
		}
		return x.textParts(c.St, out), true
	case "Output":
		return x.textParts(c.St, args[1:]), true
	}
	return nil, false
}

func stdStream(w *Term) bool {
	w = unbox(w)
	return w.Op == "glob" && (w.S == "os.Stderr" || w.S == "os.Stdout")
}

var aNumber = regexp.MustCompile(`\b[0-9]+\b`)

// numbersIn are the numbers in the constant parts of a message.
func numbersIn(msg []*Term) []int {
	var b strings.Builder
	for _, t := range msg {
		if t.isStr() {
			b.WriteString(t.S)
		} else if t.isInt() {
			b.WriteString(fmt.Sprint(t.N))
		} else {
			b.WriteString(" _ ")
		}
	}
	var out []int
	for _, s := range aNumber.FindAllString(b.String(), -1) {
		n, _ := strconv.Atoi(s)
		out = append(out, n)
	}
	return out
}

func says(msg []*Term, t *Term) bool {
	for _, m := range msg {
		if same(m, t) {
			return true
		}
		if t.isStr() && m.isStr() && strings.Contains(m.S, t.S) {
			return true
		}
	}
	return false
}

// judgeLogs compares what the command says on one way through it with what it
// did.
func (k *cmdCheck) judgeLogs(cs cmdCase, x *Exec, o Outcome, say func(string, token.Pos, string, ...interface{}), good *int) {
	st := o.St
	if o.Kind == oPanic && o.Msg != "exit" {
		return
	}
	type result struct {
		rule, thing *Term
		pos         token.Pos
		done        bool
		what        string
	}
	var results []*result
	scripts := map[string]*Term{}
	var about *Term // the rule named last
	var last []*Term
	var fail *Event
	other := false
	var total, numbers []int // numbers to be mentioned, and those mentioned
	sum := 0
	exit := o.Kind == oReturn
	var files []*result
	counts := map[*result]int{}
	for i := range st.events {
		e := &st.events[i]
		if !strings.HasPrefix(e.Kind, "cmd:") {
			continue
		}
		if e.S == "failed" && e.Kind != "cmd:gen" {
			if e.Kind == "cmd:other" {
				other = true
			} else if fail == nil {
				fail = e
			}
		}
		switch e.Kind {
		case "cmd:exit":
			exit = e.S == "0"
		case "cmd:elsewhere":
			say("stream", e.Pos, "messages are sent to %s", clip(e.A[0].String(), 80))
		case "cmd:parse":
			if e.S == "ok" {
				for j, rs := range cs.files {
					if e.A[0].S == fmt.Sprintf("file%d", j) {
						sum += len(rs)
						r := &result{thing: e.A[0], pos: e.Pos, what: "file"}
						counts[r] = len(rs)
						files = append(files, r)
					}
				}
			}
		case "cmd:expand":
			total = append(total, sum, len(asSegs(e.A[0])))
		case "cmd:expanded":
			total = append(total, len(e.A))
		case "cmd:gen":
			r := e.A[0]
			if e.S == "ok" {
				scripts[mk("script", "", r).Key()] = r
			} else {
				results = append(results, &result{rule: r, thing: e.A[1], pos: e.Pos, what: "why no script is generated for it"})
			}
		case "cmd:write":
			if r := scripts[e.A[1].Key()]; r != nil && e.S == "ok" {
				results = append(results, &result{rule: r, thing: e.A[0], pos: e.Pos, what: "the name of its file, once written,"})
			}
		case "cmd:log":
			last = e.A
			for _, t := range e.A {
				if t.Op == "printed" {
					about = t.A[0]
				}
			}
			numbers = append(numbers, numbersIn(e.A)...)
			for _, r := range files {
				if says(e.A, r.thing) {
					r.done = true
					ok := false
					for _, n := range numbersIn(e.A) {
						ok = ok || n == counts[r]
					}
					if !ok {
						say("count", e.Pos, "for a file with %d rules the number given is %v", counts[r], numbersIn(e.A))
					}
				}
			}
			for _, r := range results {
				if !r.done && says(e.A, r.thing) {
					r.done = true
					if about == nil || !same(about, r.rule) {
						say("rule", e.Pos, "a message about a rule does not follow the text of the rule (%s)", clip(fmt.Sprint(e.A), 100))
					}
				}
			}
		}
	}
	if other {
		return
	}
	for _, r := range results {
		if !r.done {
			say("result", r.pos, "%s is not said", r.what)
		}
	}
	if fail != nil {
		if e := fail.A[len(fail.A)-1]; e.Op != "err" || !says(last, e) {
			say("reason:"+fail.Kind[4:], fail.Pos, "the command fails without saying why: the last message is %s", clip(fmt.Sprint(last), 120))
		}
		return
	}
	if !exit {
		return
	}
	*good++
	for _, r := range files {
		if !r.done {
			say("files", r.pos, "no message says how many rules a file has")
		}
	}
	at := 0
	for _, n := range total {
		for at < len(numbers) && numbers[at] != n {
			at++
		}
		if at == len(numbers) {
			say("count", token.NoPos, "the numbers of rules in total, considered and after expansion are %v, the messages mention %v", total, numbers)
			break
		}
		at++
	}
}

func init() {
	checks["C28"] = func(c *Check) {
		c.rule = "main is interpreted abstractly as for C22, and the messages it writes are followed symbolically. On every path: each file is named with its number of rules; the numbers of rules in total, considered and after expansion follow; each result of a rule (the generator's reason, or the name of the file once it is written) is mentioned in a message that no other rule's text precedes more closely than the rule's own; when the command fails its last message includes the reason of what failed."
		c.assumptions = []string{"the library functions do what C01-C21 say", "more files and rules are treated alike (no larger number occurs in the command)", "package flag, log, os"}
		k := newCmdCheck(c)
		if k == nil {
			return
		}
		k.logs = true
		k.all()
	}
}

package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

var checks = map[string]func(c *Check){}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence is written")
	dbg := flag.String("debug", "", "debug target")
	props := flag.String("property", "", "properties to decide (comma separated, or all)")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "recorded in the evidence; the analysis makes no random choice")
	flag.Parse()
	start := time.Now()
	p, err := load(*repo)
	if *dbg != "" {
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		debugFn(p, *dbg)
		return
	}
	var ids []string
	if *props == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*props, ",")
	}
	code := 0
	for _, id := range ids {
		if len(ids) > 1 {
			start = time.Now()
		}
		c := newCheck(id, p, *tier)
		if err != nil {
			c.fail("load", "", "the repository does not load: %v", err)
		} else if f := checks[id]; f == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		} else {
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.fail("analyser", "", "analysis stopped: %v\n%s", r, debug.Stack())
					}
				}()
				resetHooks()
				done := make(chan interface{}, 1)
				go func() {
					defer func() {
						r := recover()
						if r != nil {
							r = fmt.Sprintf("%v\n%s", r, debug.Stack())
						}
						done <- r
					}()
					f(c)
				}()
				if r := supervise(done); r != nil {
					panic(r)
				}
			}()
		}
		if e := c.finish(*verif, *seed, start, readKnown(*verif+"/known-findings.txt")); e > code {
			code = e
		}
	}
	os.Exit(code)
}

// supervise waits for an analysis, within bounds on time and memory: a
// program it cannot get to the end of is one it cannot vouch for.
func supervise(done chan interface{}) interface{} {
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	limit := time.Now().Add(700 * time.Second)
	for {
		select {
		case r := <-done:
			return r
		case <-tick.C:
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 || time.Now().After(limit) {
				return "the analysis exceeds its budget"
			}
		}
	}
}

func resetHooks() {
	typeOracle, nilOracle, intOracle = nil, nil, nil
	accumLens = map[string]*Term{}
}

func debugFn(p *Program, what string) {
	for _, f := range p.funcs {
		if f.String() == what || f.RelString(nil) == what || f.Name() == what {
			x := newExec(p)
			var args []*Term
			for _, a := range f.Params {
				args = append(args, tIn(a.Name()))
			}
			outs := x.Call(f, args, newState())
			for _, o := range outs {
				printOutcome(x, o)
			}
			fmt.Println("undecided:", x.undecided, "steps", x.steps)
		}
	}
}

func printOutcome(x *Exec, o Outcome) {
	k := "return"
	if o.Kind == oPanic {
		k = "PANIC " + o.Msg
	}
	fmt.Printf("* %s %s\n    if %s\n", k, x.prog.pos(o.Pos), o.St.facts.describe())
	for _, v := range o.Vals {
		fmt.Printf("    -> %s\n", x.resolve(o.St, v))
	}
	for _, key := range sortedKeys(o.St.mem) {
		c := o.St.mem[key]
		if !isFresh(rootOf(c.path)) || c.path.Op == "content" {
			fmt.Printf("    %s := %s\n", c.path, x.resolve(o.St, c.val))
		}
	}
	if len(o.St.events) > 0 {
		fmt.Printf("    ev: %s\n", describeEvents(o.St.events))
	}
}

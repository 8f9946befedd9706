package main

// Difference constraints over a few counts, decided by enumerating small
// values: the conditions compare counts with each other and with small numbers,
// so values up to 5 reach every case. Larger numbers that occur in a condition
// bring the values around them in.

import (
	"fmt"
	"sort"
	"strings"
)

const smallMax = 5

type constraint struct {
	terms []*Term
	ok    func(ev func(*Term) int64) bool
}

func atomsOf(t *Term, into map[string]*Term) {
	t = unbox(t)
	switch {
	case t.Op == "int":
	case t.Op == "lin":
		_, at, _ := linParts(t)
		for _, a := range at {
			atomsOf(a, into)
		}
	case t.Op == "bin":
		for _, a := range t.A {
			atomsOf(a, into)
		}
	default:
		into[t.Key()] = t
	}
}

// evalSmall computes t; ok is false when it is undefined (division by zero).
func evalSmall(t *Term, env map[string]int64) (int64, bool) {
	t = unbox(t)
	switch {
	case t.Op == "int":
		return t.N, true
	case t.Op == "lin":
		co, at, n := linParts(t)
		for k, c := range co {
			v, ok := evalSmall(at[k], env)
			if !ok {
				return 0, false
			}
			n += c * v
		}
		return n, true
	case t.Op == "bin":
		a, ok1 := evalSmall(t.A[0], env)
		b, ok2 := evalSmall(t.A[1], env)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.S {
		case "%":
			if b == 0 {
				return 0, false
			}
			return a % b, true
		case "/":
			if b == 0 {
				return 0, false
			}
			return a / b, true
		case "*":
			return a * b, true
		case "min":
			if b < a {
				return b, true
			}
			return a, true
		case "max":
			if b > a {
				return b, true
			}
			return a, true
		}
		return 0, false
	}
	v, ok := env[t.Key()]
	return v, ok
}

// implied reports whether goal holds for all values allowed by the conditions
// (those over the atoms in question) and the constraints. It returns a
// counterexample otherwise.
func implied(conds []decision, cs []constraint, terms []*Term, goal func(ev func(*Term) int64) bool) (bool, string) {
	atoms := map[string]*Term{}
	for _, t := range terms {
		atomsOf(t, atoms)
	}
	// constraints over known atoms bring theirs in, once
	for round := 0; round < 2; round++ {
		for _, c := range cs {
			mine := map[string]*Term{}
			for _, t := range c.terms {
				atomsOf(t, mine)
			}
			hit := false
			for k := range mine {
				if atoms[k] != nil {
					hit = true
				}
			}
			if hit {
				for k, a := range mine {
					atoms[k] = a
				}
			}
		}
	}
	subset := func(ts []*Term) bool {
		mine := map[string]*Term{}
		for _, t := range ts {
			atomsOf(t, mine)
		}
		for k := range mine {
			if atoms[k] == nil {
				return false
			}
		}
		return true
	}
	keys := sortedKeys(atoms)
	if len(keys) > 8 {
		return false, "too many counts to compare"
	}
	type cond struct {
		op  string
		t   *Term
		pol bool
	}
	var use []cond
	for _, d := range conds {
		c, pol := d.c, d.pol
		for c.Op == "not" {
			c, pol = c.A[0], !pol
		}
		if (c.Op == "lt0" || c.Op == "eq0") && subset(c.A[:1]) {
			use = append(use, cond{c.Op, c.A[0], pol})
		}
	}
	var cuse []constraint
	for _, c := range cs {
		if subset(c.terms) {
			cuse = append(cuse, c)
		}
	}
	vals := map[int64]bool{}
	for v := int64(0); v <= smallMax; v++ {
		vals[v] = true
	}
	around := func(n int64) {
		if n < 0 {
			n = -n
		}
		if n > smallMax-2 && n < 1<<40 {
			for v := n - 2; v <= n+3; v++ {
				vals[v] = true
			}
		}
	}
	note := func(t *Term) bool {
		switch t.Op {
		case "int":
			around(t.N)
		case "lin":
			co, _, n := linParts(t)
			around(n)
			for _, k := range co {
				around(k)
			}
		}
		return true
	}
	for _, c := range use {
		walkTerm(c.t, note)
	}
	for _, t := range terms {
		walkTerm(t, note)
	}
	var values []int64
	for v := range vals {
		values = append(values, v)
	}
	sort.Slice(values, func(i, j int) bool { return values[i] < values[j] })
	// a condition is decided as soon as its last count is known
	at := map[string]int{}
	for i, k := range keys {
		at[k] = i
	}
	due := make([][]cond, len(keys)+1)
	for _, c := range use {
		mine := map[string]*Term{}
		atomsOf(c.t, mine)
		last := 0
		for k := range mine {
			if at[k]+1 > last {
				last = at[k] + 1
			}
		}
		due[last] = append(due[last], c)
	}

	steps := 0
	env := map[string]int64{}
	bad := false
	ev := func(t *Term) int64 {
		v, ok := evalSmall(t, env)
		if !ok {
			bad = true
		}
		return v
	}
	cex := ""
	var rec func(i int) bool
	rec = func(i int) bool {
		if steps++; steps > 4000000 {
			cex = "too many cases"
			return false
		}
		for _, c := range due[i] {
			v, ok := evalSmall(c.t, env)
			if !ok {
				continue
			}
			if r := c.op == "lt0" && v < 0 || c.op == "eq0" && v == 0; r != c.pol {
				return true
			}
		}
		if i < len(keys) {
			for _, v := range values {
				env[keys[i]] = v
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		for _, c := range cuse {
			bad = false
			if r := c.ok(ev); !bad && !r {
				return true
			}
		}
		bad = false
		if g := goal(ev); g && !bad {
			return true
		}
		var ss []string
		for _, k := range keys {
			ss = append(ss, fmt.Sprintf("%s=%d", atoms[k], env[k]))
		}
		cex = strings.Join(ss, ", ")
		return false
	}
	ok := rec(0)
	return ok, cex
}

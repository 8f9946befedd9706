package main

// Reporting: obligations, violations, known findings, evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type finding struct {
	Key  string // rule + construct
	Pos  string
	Text string
}

type Check struct {
	id          string
	p           *Program
	tier        string
	obligations int
	discharged  int
	keys        map[string]bool
	samples     []string
	bad         []finding
	funcs       map[string]bool
	counts      map[string]int
	assumptions []string
	rule        string
}

func newCheck(id string, p *Program, tier string) *Check {
	return &Check{id: id, p: p, tier: tier, keys: map[string]bool{}, funcs: map[string]bool{}, counts: map[string]int{}}
}

// ok records a discharged obligation.
func (c *Check) ok(key string, format string, args ...interface{}) {
	c.obligations++
	c.discharged++
	c.keys[key] = true
	if len(c.samples) < 40 {
		c.samples = append(c.samples, key+": "+clip(fmt.Sprintf(format, args...), 300))
	}
}

// fail records a violated (or undecided) obligation.
func (c *Check) fail(key, pos, format string, args ...interface{}) {
	c.obligations++
	c.keys[key] = true
	t := clip(fmt.Sprintf(format, args...), 1200)
	for _, b := range c.bad {
		if b.Key == key && b.Text == t {
			return
		}
	}
	c.bad = append(c.bad, finding{key, pos, t})
}

// check is ok or fail.
func (c *Check) check(ok bool, key, pos, format string, args ...interface{}) bool {
	if ok {
		c.ok(key, format, args...)
	} else {
		c.fail(key, pos, format, args...)
	}
	return ok
}

func (c *Check) saw(x *Exec) {
	for f := range x.funcs {
		c.funcs[f.String()] = true
	}
	for _, u := range x.undecided {
		c.fail("undecided", "", "not decided: %s", u)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type known struct {
	prop, key, text string
}

func readKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var ks []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		var k known
		for {
			fs := strings.SplitN(l, " ", 2)
			if strings.HasPrefix(fs[0], "property=") {
				k.prop = strings.TrimPrefix(fs[0], "property=")
			} else if strings.HasPrefix(fs[0], "key=") {
				k.key = strings.TrimPrefix(fs[0], "key=")
			} else {
				k.text = l
				break
			}
			if len(fs) < 2 {
				break
			}
			l = fs[1]
		}
		ks = append(ks, k)
	}
	return ks
}

// finish writes the evidence and prints the verdict; it returns the exit code.
func (c *Check) finish(verif string, seed int, start time.Time, ks []known) int {
	var viol []finding
	var kn []finding
	for _, b := range c.bad {
		isKnown := false
		for _, k := range ks {
			if k.prop == c.id && k.key == b.Key {
				isKnown = true
				b.Text = k.text
			}
		}
		if isKnown {
			kn = append(kn, b)
		} else {
			viol = append(viol, b)
		}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var bads []string
	for _, b := range viol {
		bads = append(bads, b.Key+" "+b.Pos+": "+b.Text)
	}
	cov := map[string]interface{}{
		"explanation":          c.rule,
		"rule":                 c.rule,
		"obligations":          c.obligations,
		"discharged":           c.discharged,
		"distinct_obligations": len(c.keys),
		"functions_analysed":   len(fns),
		"functions":            fns,
		"samples":              c.samples,
		"exhaustive":           true,
		"known_findings":       len(kn),
	}
	for k, v := range c.counts {
		cov["count_"+k] = v
	}
	if len(bads) > 0 {
		cov["violations"] = bads
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": c.assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.Text)
	}
	if len(viol) == 0 {
		fmt.Printf("%s: held: %d obligations discharged, %d functions analysed\n", c.id, c.discharged, len(fns))
		return 0
	}
	replay := filepath.Join(dir, c.id+".replay.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nreproduce: %s/run.sh %s\n\n", c.id, verif, c.id)
	for _, b := range viol {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n\n", b.Key, b.Pos, b.Text)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, b := range viol {
		if i == 12 {
			fmt.Printf("  ... %d more in %s\n", len(viol)-i, replay)
			break
		}
		fmt.Printf("  %s %s: %s\n", b.Key, b.Pos, clip(b.Text, 600))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return 1
}

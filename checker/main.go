package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type anchorErr struct{ msg string }

// fatalf reports that an anchor of the analysis could not be resolved: the
// property is undecided, which counts as a violation.
func fatalf(format string, a ...any) { panic(anchorErr{fmt.Sprintf(format, a...)}) }

type Finding struct {
	Rule string
	Key  string // rule instance: construct, never a line number
	Pos  string
	Msg  string
}

// Check is one run of one property's rules.
type Check struct {
	ID       string
	W        *World
	Tier     string
	findings []Finding
	obl      map[string]int // obligations per rule
	done     map[string]int // discharged per rule
	samples  []string
	facts    map[string]int
	assume   []string
}

// ob records one obligation of a rule.
func (c *Check) ob(ok bool, rule, key, pos, format string, a ...any) bool {
	c.obl[rule]++
	if ok {
		c.done[rule]++
		if n := c.obl[rule]; n <= 3 {
			c.samples = append(c.samples, fmt.Sprintf("%s: %s (%s) holds", rule, key, pos))
		}
		return true
	}
	c.findings = append(c.findings, Finding{rule, key, pos, fmt.Sprintf(format, a...)})
	return false
}

func (c *Check) bad(rule, key, pos, format string, a ...any) {
	c.ob(false, rule, key, pos, format, a...)
}

// atLeast fails the check when a rule matched fewer instances than confirmed by hand.
func (c *Check) atLeast(rule string, n int) {
	if c.obl[rule] < n {
		c.bad("coverage", rule, "-", "rule %s matched %d instances, at least %d are expected: the analysis no longer sees what it must", rule, c.obl[rule], n)
	}
}

// par runs fn for 0..n-1 on several machines; findings are merged in order.
func (c *Check) par(n int, fn func(c *Check, worker, i int)) {
	const nw = 8
	subs := make([]*Check, n)
	errs := make([]any, n)
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < n; i += nw {
				s := &Check{ID: c.ID, W: c.W, Tier: c.Tier, obl: map[string]int{}, done: map[string]int{}, facts: map[string]int{}}
				subs[i] = s
				func() {
					defer func() {
						if r := recover(); r != nil {
							errs[i] = r
						}
					}()
					fn(s, k, i)
				}()
				if errs[i] != nil {
					return
				}
			}
		}()
	}
	wg.Wait()
	for i, s := range subs {
		if errs[i] != nil {
			panic(errs[i])
		}
		if s == nil {
			continue
		}
		c.findings = append(c.findings, s.findings...)
		for k, v := range s.obl {
			c.obl[k] += v
		}
		for k, v := range s.done {
			c.done[k] += v
		}
		for k, v := range s.facts {
			c.facts[k] += v
		}
		if len(c.samples) < 12 {
			c.samples = append(c.samples, s.samples...)
		}
	}
}

func (c *Check) fact(k string, n int) { c.facts[k] += n }
func (c *Check) assumes(s string)     { c.assume = append(c.assume, s) }

type propCheck struct {
	id        string
	rule      string // one-sentence rule for the evidence
	run       func(c *Check)
	technique string
	note      string
}

var props []propCheck

func register(id, technique, note, rule string, run func(c *Check)) {
	props = append(props, propCheck{id: id, rule: rule, run: run, technique: technique, note: note})
}

type known struct{ prop, key, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 2 || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		k := known{prop: strings.TrimPrefix(f[0], "property="), key: strings.TrimPrefix(f[1], "key=")}
		if len(f) > 2 {
			k.text = f[2]
		}
		ks = append(ks, k)
	}
	return ks
}

func (f Finding) key() string { return strings.ReplaceAll(f.Rule+":"+f.Key, " ", "_") }

func runOne(p propCheck, w *World, werr error, verif, tier string) int {
	start := time.Now()
	c := &Check{ID: p.id, W: w, Tier: tier, obl: map[string]int{}, done: map[string]int{}, facts: map[string]int{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case anchorErr:
					c.bad("anchor", e.msg, "-", "%s: the property is undecided", e.msg)
				case analysisErr:
					c.bad("undecided", "analysis", "-", "%s: the property is undecided", e.msg)
				default:
					c.bad("undecided", "internal", "-", "analysis failed: %v\n%s", r, debug.Stack())
				}
			}
		}()
		if werr != nil {
			c.bad("load", "repository", "-", "%v", werr)
			return
		}
		p.run(c)
	}()
	ks := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var open []Finding
	seen := map[string]bool{}
	for _, f := range c.findings {
		listed := false
		for _, k := range ks {
			if k.prop == p.id && k.key == f.key() {
				listed = true
				if !seen[k.key] {
					seen[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", p.id, f.key(), f.Pos, k.text)
				}
			}
		}
		if !listed {
			open = append(open, f)
		}
	}
	sort.SliceStable(open, func(i, j int) bool { return open[i].key() < open[j].key() })
	var rules []string
	for r := range c.obl {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	tot, dis := 0, 0
	var parts []string
	for _, r := range rules {
		tot += c.obl[r]
		dis += c.done[r]
		parts = append(parts, fmt.Sprintf("%s %d/%d", r, c.done[r], c.obl[r]))
	}
	cov := map[string]any{
		"explanation": p.rule + " Obligations discharged per rule: " + strings.Join(parts, ", ") + ".",
		"obligations": tot,
		"discharged":  dis,
		"rules":       parts,
		"samples":     c.samples,
	}
	if w != nil {
		cov["packages_analysed"] = len(w.Pkgs)
		cov["functions_analysed"] = len(w.Funcs)
	}
	for k, v := range c.facts {
		cov[k] = v
	}
	var fl []string
	perKey := map[string]int{}
	for _, f := range open {
		perKey[f.key()]++
		if n := perKey[f.key()]; n > 3 {
			continue // further instances of the same construct
		}
		fl = append(fl, fmt.Sprintf("%s [%s] %s", f.Pos, f.key(), f.Msg))
	}
	if len(fl) > 0 {
		cov["findings"] = fl
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": p.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{"the Go type checker and golang.org/x/tools/go/ssa represent the source faithfully", "no reflection, unsafe or linkname access beyond what the rules model"}, c.assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(open)}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d obligations, %d discharged (%s) in %.1fs\n", p.id, tot, dis, strings.Join(parts, ", "), time.Since(start).Seconds())
	replay := filepath.Join(verif, "evidence", p.id+".violations.txt")
	if len(open) == 0 {
		_ = os.Remove(replay)
		return 0
	}
	_ = os.WriteFile(replay, []byte(strings.Join(fl, "\n")+"\n"), 0o644)
	for _, l := range fl {
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, replay)
	return 1
}

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "framework directory")
	prop := flag.String("prop", "", "property ids, comma separated, or all")
	list := flag.Bool("list", false, "print the checks as JSON")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	sort.Slice(props, func(i, j int) bool { return props[i].id < props[j].id })
	if *list {
		var out []map[string]string
		for _, p := range props {
			out = append(out, map[string]string{"id": p.id, "technique": p.technique, "note": p.note})
		}
		b, _ := json.MarshalIndent(out, "", " ")
		fmt.Println(string(b))
		return
	}
	if f := os.Getenv("CHECKER_PROFILE"); f != "" {
		if o, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(o)
			defer pprof.StopCPUProfile()
		}
	}
	abs, _ := filepath.Abs(*repo)
	w, err := loadWorld(abs)
	rc := 0
	want := map[string]bool{}
	for _, id := range strings.Split(*prop, ",") {
		want[id] = true
	}
	ran := 0
	for _, p := range props {
		if want["all"] || want[p.id] {
			ran++
			rc = max(rc, runOne(p, w, err, *verif, tier))
		}
	}
	if ran == 0 {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

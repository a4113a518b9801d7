package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "dataflow over every iteration without an order, and abstract interpretation in two orders", "third-party packages are taken to be deterministic",
		"Every place of the repository where the language or a library leaves an order open (ranging over a map, listing a set, collecting the keys of a map, starting goroutines) is found in the SSA form of the whole module. For each, an effect analysis lists what one iteration leaves behind for later ones and for the rest of the program: carried variables, stores, map updates under keys other than that of the iteration, calls that change shared memory or the outside world, early exits, and slices collected in the order of the iterations, which are followed, through returns and callers, until a sort whose comparison tells apart what was collected. What the dataflow leaves open is decided by interpreting the code around it abstractly in two opposite orders and comparing the results; what neither decides is reported. Uses of the time, of randomness, of the identity of the process and of addresses, and choices between channels, are reported where they occur.",
		checkC01)
}

// ambientSources are functions whose result differs between runs over the same input.
var ambientSources = []string{
	"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc",
	"math/rand.", "math/rand/v2.", "(*math/rand.", "(*math/rand/v2.", "crypto/rand.", "hash/maphash.", "(*hash/maphash.", "(hash/maphash.", "os.Getpid", "os.Getppid", "os.Hostname",
	"runtime.NumGoroutine", "runtime.Stack", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr",
	"k8s.io/apimachinery/pkg/util/uuid.", "k8s.io/apimachinery/pkg/util/rand.", "github.com/google/uuid.", "k8s.io/apimachinery/pkg/apis/meta/v1.Now",
}

func ambient(name string) bool {
	for _, s := range ambientSources {
		if name == s || strings.HasSuffix(s, ".") && strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// unorderedResult tells whether a function returns a slice in no particular order.
func unorderedResult(name string) bool {
	for _, s := range []string{").UnsortedList", ").MapKeys", "(*os.File).Readdir", "(*os.File).Readdirnames", "(*os.File).ReadDir", "path/filepath.Glob~", "go/types.Scope).Names~"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// unorderedSeq tells whether a function returns an iterator in no particular order.
func unorderedSeq(name string) bool {
	n := strings.TrimPrefix(name, "golang.org/x/exp/")
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	return n == "maps.Keys" || n == "maps.Values" || n == "maps.All"
}

// orderSite is a place that leaves an order open.
type orderSite struct {
	fn     *ssa.Function
	what   string
	pos    token.Pos
	issues []orderIssue
	rng    *ssa.Range // for the ranges over maps, which interpretation can decide too
}

func (d *determ) sites(f *ssa.Function) []orderSite {
	var out []orderSite
	for _, g := range d.regions(f) {
		out = append(out, orderSite{fn: f, what: "range over " + g.what, pos: g.pos, issues: d.issues(g), rng: g.rng})
	}
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			if s, ok := in.(*ssa.Select); ok && (len(s.States) > 1 || !s.Blocking) {
				out = append(out, orderSite{fn: f, what: "select", pos: s.Pos(), issues: []orderIssue{{s.Pos(), "which channel is ready first decides what happens"}}})
			}
			return
		}
		name := calleeName(c.Common())
		v, isVal := in.(ssa.Value)
		switch {
		case unorderedResult(name) && isVal:
			s := orderSite{fn: f, what: name, pos: c.Pos()}
			if _, ok := v.Type().Underlying().(*types.Slice); !ok {
				s.issues = []orderIssue{{c.Pos(), "lists in no particular order"}}
			} else {
				s.issues = d.followValue(c, v)
			}
			out = append(out, s)
		case unorderedSeq(name) && isVal:
			s := orderSite{fn: f, what: name, pos: c.Pos()}
			if _, ok := v.Type().Underlying().(*types.Slice); ok {
				s.issues = d.followValue(c, v)
				out = append(out, s)
				return
			}
			for _, r := range *v.Referrers() {
				s.issues = append(s.issues, d.seqUse(v, r)...)
			}
			out = append(out, s)
		case name == "(*sync.Map).Range" || strings.HasSuffix(name, ".PopAny") || name == "(reflect.Value).MapRange":
			s := orderSite{fn: f, what: name, pos: c.Pos()}
			if mc, ok := c.Common().Args[len(c.Common().Args)-1].(*ssa.MakeClosure); ok && name == "(*sync.Map).Range" {
				s.issues = d.closureRegion(mc, c.Pos())
			} else {
				s.issues = []orderIssue{{c.Pos(), "visits entries in no particular order"}}
			}
			out = append(out, s)
		}
		if g, ok := in.(*ssa.Go); ok {
			s := orderSite{fn: f, what: "go", pos: g.Pos()}
			// like the body of a loop without an order: the iterations of the loop it is started in are its own
			outer := &region{fn: f, blocks: map[*ssa.BasicBlock]bool{g.Block(): true}, elems: map[ssa.Value]bool{}, pos: g.Pos()}
			for _, l := range allLoops(f) {
				if l.blocks[g.Block()] {
					for b := range l.blocks {
						outer.blocks[b] = true
					}
				}
			}
			for b := range outer.blocks {
				for _, x := range b.Instrs {
					if v, ok := x.(*ssa.Phi); ok && indexPhi(v) {
						outer.elems[v] = true
					}
				}
			}
			s.issues = d.goroutine(outer, g)
			out = append(out, s)
		}
	})
	return out
}

type loopOf struct{ blocks map[*ssa.BasicBlock]bool }

// allLoops lists the natural loops of a function.
func allLoops(f *ssa.Function) []loopOf {
	var out []loopOf
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				out = append(out, loopOf{loopBlocks(b)})
				break
			}
		}
	}
	return out
}

// indexPhi recognises the counter of a loop, different in each iteration.
func indexPhi(p *ssa.Phi) bool {
	if !isInteger(p.Type()) {
		return false
	}
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && (b.X == ssa.Value(p)) {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) > 0 {
				return true
			}
		}
	}
	return false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// followValue follows a slice in no particular order from where it is made.
func (d *determ) followValue(c ssa.CallInstruction, v ssa.Value) []orderIssue {
	u := &unord{d: d, fn: c.Parent(), vals: map[ssa.Value]bool{v: true}, paths: map[string]ssa.Value{}, maps: map[ssa.Value]bool{}}
	u.spread()
	for i, in := range c.Block().Instrs {
		if in == ssa.Instruction(c) {
			u.search(c.Block(), i+1)
		}
	}
	return u.out
}

func (d *determ) closureRegion(mc *ssa.MakeClosure, pos token.Pos) []orderIssue {
	f := mc.Fn.(*ssa.Function)
	g := &region{fn: f, blocks: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, pos: pos, what: "iterator"}
	for _, b := range f.Blocks {
		g.blocks[b] = true
	}
	for i, p := range f.Params {
		g.elems[p] = true
		if i == 0 {
			g.key = p
		}
	}
	return d.issues(g)
}

// seqUse decides one use of an iterator in no particular order.
func (d *determ) seqUse(v ssa.Value, r ssa.Instruction) []orderIssue {
	c, ok := r.(ssa.CallInstruction)
	if !ok {
		if ct, ok := r.(*ssa.ChangeType); ok {
			var out []orderIssue
			for _, r := range *ct.Referrers() {
				out = append(out, d.seqUse(ct, r)...)
			}
			return out
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			return nil
		}
		return []orderIssue{{r.Pos(), "an iterator in no particular order is kept"}}
	}
	n := calleeName(c.Common())
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch {
	case n == "slices.Sorted":
		return nil
	case n == "slices.Collect" || strings.HasPrefix(n, "slices.SortedFunc") || n == "slices.SortedStableFunc":
		if cv, ok := r.(ssa.Value); ok && n == "slices.Collect" {
			return d.followValue(c, cv)
		}
		return []orderIssue{{c.Pos(), "sorted by a comparison that is not checked"}}
	case c.Common().Value == v && len(c.Common().Args) == 1:
		switch f := c.Common().Args[0].(type) {
		case *ssa.MakeClosure:
			return d.closureRegion(f, c.Pos())
		}
	}
	return []orderIssue{{c.Pos(), "an iterator in no particular order is given to " + n}}
}

// rangeCover records with how many entries the interpreter ran a range over a map, per order.
type rangeCover struct {
	mu  sync.Mutex
	max map[*ssa.Range][2]int
}

func (rc *rangeCover) note(r *ssa.Range, n int, adverse bool) {
	if rc == nil {
		return
	}
	i := 0
	if adverse {
		i = 1
	}
	rc.mu.Lock()
	x := rc.max[r]
	if n > x[i] {
		x[i] = n
		rc.max[r] = x
	}
	rc.mu.Unlock()
}

func checkC01(c *Check) {
	w := c.W
	d := &determ{w: w, fl: newFlow(w), eff: newEffects(w), memo: map[string][]orderIssue{}, busy: map[string]bool{}, sortd: map[string]bool{}}
	var open []orderSite
	n, calls := 0, 0
	for _, f := range w.Funcs {
		for _, s := range d.sites(f) {
			n++
			if len(s.issues) == 0 {
				c.ob(true, "order-irrelevant", keyOf(w, s), w.pos(s.pos), "")
				continue
			}
			open = append(open, s)
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case ssa.CallInstruction:
				calls++
				name := calleeName(x.Common())
				c.ob(!ambient(name), "no-ambient-input", f.RelString(nil)+" "+name, w.pos(x.Pos()), "%s calls %s, whose result differs from run to run", f.RelString(nil), name)
				for _, a := range x.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.HasPrefix(strings.TrimLeft(name, "(*"), "fmt.") {
						c.ob(!strings.Contains(constant.StringVal(k.Value), "%p"), "no-addresses", f.RelString(nil), w.pos(x.Pos()), "%s prints an address", f.RelString(nil))
					}
				}
			case *ssa.Convert:
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					c.ob(false, "no-addresses", f.RelString(nil), w.pos(x.Pos()), "%s converts an address", f.RelString(nil))
				}
			}
		})
	}
	c.fact("functions", len(w.Funcs))
	c.fact("sites_without_order", n)
	c.fact("call_sites", calls)
	c.fact("left_to_interpretation", len(open))
	if len(open) > 0 {
		repeatRuns(c, w, open)
	}
	c.atLeast("order-irrelevant", 20)
	c.atLeast("no-ambient-input", 1000)
}

func keyOf(w *World, s orderSite) string { return s.fn.RelString(nil) + " " + s.what }

// repeatRuns interprets the code around the sites the dataflow leaves open in
// both of two opposite orders.
func repeatRuns(c *Check, w *World, open []orderSite) {
	w.ranges = &rangeCover{max: map[*ssa.Range][2]int{}}
	in := func(pkgs ...string) bool {
		for _, s := range open {
			p := s.fn.Package()
			if p == nil && s.fn.Parent() != nil {
				p = s.fn.Parent().Package()
			}
			for _, q := range pkgs {
				if p != nil && p.Pkg.Path() == modPath+"/"+q {
					return true
				}
			}
		}
		return false
	}
	same := map[string]bool{} // what was compared
	cmp := func(part, key string, pos token.Pos, a, b string) {
		same[part] = true
		c.ob(a == b, "same-in-both-orders", part+" "+key, w.pos(pos), "%s: %s: the result depends on the order in which a map is visited:\n    %s\n    %s", part, key, a, b)
	}
	for _, cmd := range []string{"cmd/controller-gen", "cmd/helpgen"} {
		if in(cmd) {
			var got [2]string
			for i, adverse := range []int{0, 1} {
				got[i] = optionState(w, cmd, adverse)
			}
			cmp(cmd, "registered options", token.NoPos, got[0], got[1])
		}
	}
	if in("pkg/rbac") {
		pos := w.fn("pkg/rbac", "GenerateRoles").Pos()
		var jobs []rbacJob
		for i, j := range rbacJobs(c.Tier == "thorough") {
			if c.Tier == "thorough" || i%9 == 0 || strings.HasPrefix(j.key, "three") && i%3 == 0 {
				jobs = append(jobs, j)
			}
		}
		envs := make([]*rbacEnv, 8)
		for i := range envs {
			envs[i] = newRBACEnv(w)
		}
		var mu sync.Mutex
		c.par(len(jobs), func(c *Check, worker, i int) {
			e, j := envs[worker], jobs[i]
			var got [2]string
			for k, adverse := range []int{0, 1} {
				e.m.adverse = adverse
				roles, bad := e.run(j.pkgs)
				got[k] = fmt.Sprint(roles, bad)
			}
			e.m.adverse = 0
			mu.Lock()
			same["pkg/rbac"] = true
			mu.Unlock()
			c.ob(got[0] == got[1], "same-in-both-orders", "roles "+j.key, w.pos(pos), "rules %v: the roles depend on the order in which a map is visited:\n    %s\n    %s", j.pkgs, got[0], got[1])
		})
		c.fact("rule_sets_in_both_orders", len(jobs))
	}
	for _, s := range open {
		x := w.ranges.max[s.rng]
		ok := s.rng != nil && x[0] >= 2 && x[1] >= 2
		var why []string
		for _, i := range s.issues {
			why = append(why, w.pos(i.pos)+": "+i.msg)
		}
		sort.Strings(why)
		c.ob(ok, "order-irrelevant", keyOf(w, s), w.pos(s.pos), "%s: %s: an order the language leaves open may be observed:\n    %s", s.fn.RelString(nil), s.what, strings.Join(why, "\n    "))
	}
	w.ranges = nil
}

// optionState renders what a command registers at start-up, in one order.
func optionState(w *World, cmd string, adverse int) string {
	m := initedWith(w, func(m *M) { m.adverse = adverse }, cmd)
	m.maxStep = 1 << 40
	st := newState()
	var out []string
	for _, g := range globalsOf(w, cmd, types.NewPointer(w.typ("pkg/markers", "Registry"))) {
		out = append(out, g.Name()+" = "+m.canon(st, m.content(st, m.global(g)), g.Type(), -6))
	}
	return strings.Join(out, "\n")
}

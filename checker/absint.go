package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interprocedural abstract interpretation of the repository's SSA over the
// domain of absval.go: conditional constant propagation with points-to and
// nilness, calls inlined, states joined at block entries per trace partition
// (definite booleans, error nilness, small loop counters), loops whose trip
// count is not determined widened to a fixpoint. Nothing is executed.

type deferred struct {
	c    *ssa.CallCommon
	args []*Val
	fn   *Val
	site ssa.Instruction
}

type State struct {
	regs   map[ssa.Value]*Val
	defers []deferred
	mem    map[*Obj]*Val
	assume map[string]*Val
	ne     map[string]map[string]bool
	notes  map[string]*Val
	allocN map[string]int
}

func newState() *State {
	return &State{regs: map[ssa.Value]*Val{}, mem: map[*Obj]*Val{}, assume: map[string]*Val{}, ne: map[string]map[string]bool{}, notes: map[string]*Val{}, allocN: map[string]int{}}
}

func cpy[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	return &State{regs: cpy(s.regs), defers: append([]deferred(nil), s.defers...), mem: cpy(s.mem), assume: cpy(s.assume), ne: cpy(s.ne), notes: cpy(s.notes), allocN: cpy(s.allocN)}
}

// note joins a value into a named note.
func (s *State) note(k string, v *Val) { s.notes[k] = join(s.notes[k], v) }

// count adds one to a counter note (saturating at 3).
func (s *State) count(k string) {
	n := int64(0)
	if v, ok := s.notes[k].integer(); ok {
		n = v
	}
	if n < 3 {
		n++
	}
	s.notes[k] = constVal(n)
}

// Out is one partition of a call's effect.
type Out struct {
	st     *State
	res    []*Val
	panics string
}

type Call struct {
	m      *M
	name   string
	args   []*Val
	site   ssa.Instruction
	res    *types.Tuple
	frame  *frame
	static *ssa.Function
	targs  []types.Type
}

type hookFn func(st *State, c *Call) ([]Out, bool)

type M struct {
	w       *World
	base    map[*Obj]*Val
	globals map[*ssa.Global]*Obj
	objs    map[string]*Obj
	hooks   map[string]hookFn
	// onCall, when set, sees every resolved call before it is interpreted
	onCall    func(st *State, c *Call)
	onPanic   func(st *State, fr *frame, in ssa.Instruction, why string)
	inline    map[string]bool // dependency packages whose bodies are interpreted
	track     map[string]bool // syms whose assumptions partition traces
	steps     int
	texts     bool // texts are taken apart into known bytes and runes
	exact     bool // states are never joined: for inputs that leave few branches open
	maxStep   int
	maxRec    int // nested calls of one function
	stack     []*ssa.Function
	live      map[*ssa.Function]*liveInfo
	funcsIn   map[*ssa.Function]bool    // functions interpreted, for evidence
	edges     map[[2]*ssa.Function]bool // when set, collects the calls interpreted
	over      []string
	overFails bool // giving up on a call ends the interpretation
	uninit    bool
	// adverse picks another order where Go leaves one open: 1 visits maps in
	// the opposite order, 2 reverses what unstable sorting finds equal
	adverse int
	models  map[*Obj]modelFn
	// splitModels keeps apart loop states that hold different modelled objects or texts
	splitModels bool
	// splitPlaces keeps apart loop states that hold different memory cells or parts of slices
	splitPlaces bool
	tm          *typeModel
}

// modelFn models the methods of an input object.
type modelFn func(st *State, method string, c *Call) ([]Out, bool)

var debugAbs = os.Getenv("ABSDEBUG") != ""

type analysisErr struct{ msg string }

func (e analysisErr) Error() string { return e.msg }

func newM(w *World) *M {
	m := &M{w: w, base: map[*Obj]*Val{}, globals: map[*ssa.Global]*Obj{}, objs: map[string]*Obj{}, hooks: map[string]hookFn{},
		inline: map[string]bool{}, track: map[string]bool{}, maxStep: 300000, maxRec: 3, live: map[*ssa.Function]*liveInfo{}, models: map[*Obj]modelFn{}, funcsIn: map[*ssa.Function]bool{}}
	for k := range defaultInline {
		m.inline[k] = true
	}
	for k, h := range defaultHooks {
		m.hooks[k] = h
	}
	return m
}

// fork shares the initial memory of an initialised machine.
func (m *M) fork() *M {
	n := newM(m.w)
	for k, v := range m.base {
		n.base[k] = v
	}
	n.edges, n.overFails = m.edges, m.overFails
	n.globals, n.objs, n.live = cpy(m.globals), cpy(m.objs), cpy(m.live)
	for k, v := range m.models {
		n.models[k] = v
	}
	if m.tm != nil {
		n.tm = m.tm.fork(n)
		n.tm.hooks()
	}
	return n
}

func (m *M) fail(format string, a ...any) {
	var st []string
	for _, f := range m.stack {
		st = append(st, f.String())
	}
	panic(analysisErr{fmt.Sprintf(format, a...) + " [" + strings.Join(st, " > ") + "]"})
}

type frame struct {
	m      *M
	fn     *ssa.Function
	li     *liveInfo
	states map[*ssa.BasicBlock]map[string]*State
	work   map[*ssa.BasicBlock]map[string]bool
	noInt  map[*ssa.Phi]bool
	coarse map[*ssa.BasicBlock]bool
	outs   map[string]*Out
	okeys  []string
	bind   []*Val
	visits map[*ssa.BasicBlock]int
}

type liveInfo struct {
	in  []map[ssa.Value]bool
	rpo []int
}

func (m *M) liveness(fn *ssa.Function) *liveInfo {
	if li := m.live[fn]; li != nil {
		return li
	}
	n := len(fn.Blocks)
	li := &liveInfo{in: make([]map[ssa.Value]bool, n), rpo: make([]int, n)}
	for i := range li.in {
		li.in[i] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range li.in[s.Index] {
					live[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if isReg(ph.Edges[pi]) {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					delete(live, ph)
				}
			}
			if len(live) != len(li.in[i]) {
				li.in[i] = live
				changed = true
			}
		}
	}
	seen := make([]bool, n)
	pos := n
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		pos--
		li.rpo[b.Index] = pos
	}
	dfs(fn.Blocks[0])
	m.live[fn] = li
	return li
}

// ---- memory ----

func (m *M) global(g *ssa.Global) *Obj {
	if o := m.globals[g]; o != nil {
		return o
	}
	o := &Obj{id: "g:" + g.String(), t: deref(g.Type()), kind: 'c', global: g}
	path := g.Pkg.Pkg.Path()
	if !isRepoPath(path) && !defaultInline[path] {
		o.sym = &Sym{g.String(), true}
	}
	m.globals[g] = o
	return o
}

func (m *M) symObj(s *Sym, t types.Type, kind byte) *Obj {
	id := "sym" + string(kind) + ":" + s.String() + ":" + types.TypeString(t, nil)
	if s != nil {
		if o := m.objs[id]; o != nil {
			return o
		}
	}
	o := &Obj{id: id, t: t, kind: kind, sym: s}
	if s == nil {
		o.sym = &Sym{"?", false}
	}
	if !o.sym.uniq {
		o.summary = true
	}
	m.objs[id] = o
	return o
}

func (m *M) content(st *State, o *Obj) *Val {
	if v := st.mem[o]; v != nil {
		return v
	}
	if v := m.base[o]; v != nil {
		return v
	}
	if o.sym != nil {
		if o.kind == 'm' {
			mt := o.t.Underlying().(*types.Map)
			return &Val{mp: &MapV{k: map[string]*Val{}, v: map[string]*Val{}, may: map[string]bool{}, open: true,
				ok: unkVal(mt.Key(), &Sym{"key(" + o.sym.s + ")", false}), ov: unkVal(mt.Elem(), &Sym{"elem(" + o.sym.s + ")", false}), sym: o.sym, vt: mt.Elem()}}
		}
		if o.global != nil && (isErrorType(o.t) || strings.HasSuffix(o.t.String(), "regexp.Regexp")) {
			return unkNonNil(o.t, o.sym)
		}
		return unkVal(o.t, o.sym)
	}
	switch o.kind {
	case 'm':
		return &Val{mp: &MapV{k: map[string]*Val{}, v: map[string]*Val{}, may: map[string]bool{}}}
	}
	return zeroVal(o.t)
}

func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

// child returns component k of an aggregate value.
func (m *M) child(v *Val, k string) *Val {
	if v == nil {
		return nil
	}
	if v.agg != nil {
		if k == "*" {
			var r *Val
			for _, a := range v.agg {
				r = join(r, a)
			}
			if r != nil {
				r = fresh(r)
			}
			return r
		}
		i, _ := strconv.Atoi(k)
		if i < len(v.agg) {
			return v.agg[i]
		}
		return nil
	}
	if v.sum != nil {
		return fresh(v.sum)
	}
	if v.unk {
		if v.t != nil {
			if s, ok := v.t.Underlying().(*types.Struct); ok {
				i, _ := strconv.Atoi(k)
				f := s.Field(i)
				return withSrc(unkVal(f.Type(), v.sym.child("."+f.Name())), v)
			}
			if e, ok := arrayElem(v.t); ok {
				s := v.sym.child("[" + k + "]")
				if k == "*" && s != nil {
					s = &Sym{s.s, false}
				}
				return withSrc(unkVal(e, s), v)
			}
		}
		return &Val{unk: true, nil_: nilBit | nonBit, src: v.src}
	}
	return nil
}

// fresh copies a value so that it is not identified with other readings.
func fresh(v *Val) *Val {
	c := *v
	if c.sym != nil && c.sym.uniq && c.unk {
		c.sym = &Sym{c.sym.s, false}
	}
	return &c
}

func (m *M) nav(v *Val, path string) *Val {
	for _, k := range splitPath(path) {
		v = m.child(v, k)
	}
	return v
}

func (m *M) setPath(v *Val, path []string, nv *Val, weak bool) *Val {
	if len(path) == 0 {
		if weak {
			return join(v, nv)
		}
		return nv
	}
	if v == nil {
		v = &Val{unk: true, nil_: 3}
	}
	if v.agg == nil && v.unk && v.t != nil {
		if s, ok := v.t.Underlying().(*types.Struct); ok {
			v = expandUnk(v, s.NumFields())
		}
	}
	r := *v
	k := path[0]
	switch {
	case v.agg != nil && k != "*":
		i, _ := strconv.Atoi(k)
		r.agg = append([]*Val(nil), v.agg...)
		if i < len(r.agg) {
			r.agg[i] = m.setPath(r.agg[i], path[1:], nv, weak)
		}
	case v.agg != nil:
		r.agg = make([]*Val, len(v.agg))
		for i := range v.agg {
			r.agg[i] = m.setPath(v.agg[i], path[1:], nv, true)
		}
	case v.sum != nil:
		r.sum = m.setPath(v.sum, path[1:], nv, true)
	case v.unk:
		e := m.child(v, k)
		n := m.setPath(e, path[1:], nv, true)
		r = Val{sum: join(m.child(v, "*"), n), src: v.src}
	}
	return &r
}

// targets lists what a pointer may refer to; unknown pointers get a symbolic object.
func (m *M) targets(p *Val, elem types.Type) []*Ref {
	if p == nil {
		return nil
	}
	rs := p.refs
	if p.unk {
		rs = append(append([]*Ref(nil), rs...), &Ref{obj: m.symObj(p.sym.child(".*"), elem, 'c')})
	}
	return rs
}

func (m *M) load(st *State, p *Val, elem types.Type) *Val {
	var r *Val
	rs := m.targets(p, elem)
	for _, ref := range rs {
		if ref.obj == nil {
			continue
		}
		v := m.nav(m.content(st, ref.obj), ref.path)
		if ref.obj.summary && v != nil {
			v = fresh(v)
		}
		if r == nil {
			r = v
		} else {
			r = join(r, v)
		}
	}
	if r == nil {
		r = unkVal(elem, nil)
	}
	return m.resolve(st, withSrc(r, p))
}

func (m *M) store(st *State, p *Val, v *Val, elem types.Type) {
	rs := m.targets(p, elem)
	weak := len(rs) != 1
	for _, ref := range rs {
		if ref.obj == nil {
			continue
		}
		w := weak || ref.obj.summary || strings.Contains(ref.path, "*")
		st.mem[ref.obj] = m.setPath(m.content(st, ref.obj), splitPath(ref.path), v, w)
	}
}

// resolve applies path assumptions to a named unknown.
func (m *M) resolve(st *State, v *Val) *Val {
	if v != nil && v.unk && v.sym != nil && v.sym.uniq {
		if a := st.assume[v.sym.s]; a != nil {
			return withSrc(a, v)
		}
	}
	return v
}

func (m *M) alloc(st *State, site string, t types.Type, kind byte) *Obj {
	n := st.allocN[site]
	capN := 300
	if n < capN {
		st.allocN[site] = n + 1
	}
	id := site + "#" + strconv.Itoa(n)
	o := m.objs[id]
	if o == nil {
		o = &Obj{id: id, t: t, kind: kind, summary: n >= capN}
		m.objs[id] = o
	}
	delete(st.mem, o)
	return o
}

func (m *M) siteID(in ssa.Instruction) string {
	var b strings.Builder
	for _, f := range m.stack {
		b.WriteString(f.Name())
		b.WriteByte('>')
	}
	if v, ok := in.(ssa.Value); ok {
		b.WriteString(v.Name())
	} else {
		fmt.Fprintf(&b, "%p", in)
	}
	b.WriteString(in.Parent().String())
	return b.String()
}

// ---- frames ----

func (m *M) callFn(st *State, fn *ssa.Function, args, bind []*Val) []Out {
	rec := 0
	for _, f := range m.stack {
		if f == fn {
			rec++
		}
	}
	if rec > m.maxRec || len(m.stack) > 60+m.maxRec {
		m.over = append(m.over, fn.String())
		if m.overFails {
			m.fail("calls of %s nested too deep", fn)
		}
		return []Out{{st: st, res: unkResults(fn.Signature.Results(), nil)}}
	}
	if m.edges != nil && len(m.stack) > 0 {
		m.edges[[2]*ssa.Function{m.stack[len(m.stack)-1], fn}] = true
	}
	m.stack = append(m.stack, fn)
	defer func() { m.stack = m.stack[:len(m.stack)-1] }()
	m.funcsIn[fn] = true
	fr := &frame{m: m, fn: fn, li: m.liveness(fn), states: map[*ssa.BasicBlock]map[string]*State{}, work: map[*ssa.BasicBlock]map[string]bool{},
		noInt: map[*ssa.Phi]bool{}, coarse: map[*ssa.BasicBlock]bool{}, outs: map[string]*Out{}, bind: bind, visits: map[*ssa.BasicBlock]int{}}
	saved, savedDef := st.regs, st.defers
	ns := *st
	ns.regs, ns.defers = map[ssa.Value]*Val{}, nil
	if !m.exact {
		ns.mem, ns.assume, ns.ne, ns.notes, ns.allocN = cpy(st.mem), cpy(st.assume), cpy(st.ne), cpy(st.notes), cpy(st.allocN)
	}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			ns.regs[p] = args[i]
		} else {
			ns.regs[p] = unkVal(p.Type(), nil)
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			ns.regs[fv] = bind[i]
		}
	}
	fr.arrive(fn.Blocks[0], &ns)
	fr.loop()
	var outs []Out
	sort.Strings(fr.okeys)
	for i, k := range fr.okeys {
		o := fr.outs[k]
		if i == len(fr.okeys)-1 {
			o.st.regs = saved
		} else {
			o.st.regs = cpy(saved)
		}
		o.st.defers = savedDef
		outs = append(outs, *o)
	}
	if len(outs) > 24 {
		outs = m.mergeOuts(outs, saved)
	}
	return outs
}

func (m *M) mergeOuts(outs []Out, regs map[ssa.Value]*Val) []Out {
	by := map[string]*Out{}
	var keys []string
	for i := range outs {
		o := outs[i]
		k := o.panics
		for _, r := range o.res {
			k += "|" + nilKey(r)
		}
		if b := by[k]; b != nil {
			b.st = m.joinState(b.st, o.st)
			for j := range b.res {
				b.res[j] = join(b.res[j], o.res[j])
			}
		} else {
			by[k] = &o
			keys = append(keys, k)
		}
	}
	var r []Out
	for _, k := range keys {
		by[k].st.regs = cpy(regs)
		r = append(r, *by[k])
	}
	return r
}

func nilKey(v *Val) string {
	if v == nil {
		return "_"
	}
	if b, ok := v.boolean(); ok {
		return strconv.FormatBool(b)
	}
	switch v.nil_ {
	case nilBit:
		return "nil"
	case nonBit:
		return "non"
	}
	return "?"
}

func unkResults(t *types.Tuple, s *Sym) []*Val {
	r := make([]*Val, t.Len())
	for i := range r {
		sy := s
		if s != nil && t.Len() > 1 {
			sy = s.child("#" + strconv.Itoa(i))
		}
		r[i] = unkVal(t.At(i).Type(), sy)
	}
	return r
}

// maxExact bounds the states that are not joined.
const maxExact = 200

func (fr *frame) loop() {
	for {
		if fr.m.exact && len(fr.outs) > maxExact {
			fr.m.fail("too many open branches in %s", fr.fn)
		}
		var best *ssa.BasicBlock
		for b, ks := range fr.work {
			if len(ks) > 0 && (best == nil || fr.li.rpo[b.Index] < fr.li.rpo[best.Index]) {
				best = b
			}
		}
		if best == nil {
			return
		}
		var keys []string
		for k := range fr.work[best] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		fr.work[best] = map[string]bool{}
		for _, k := range keys {
			fr.visits[best]++
			if fr.m.exact {
				st := fr.states[best][k]
				delete(fr.states[best], k)
				fr.exec(best, fr.firstNonPhi(best), st)
				continue
			}
			if fr.visits[best] > 4000 {
				fr.m.fail("abstract interpretation of %s does not stabilise", fr.fn)
			}
			st := fr.states[best][k].clone()
			fr.exec(best, fr.firstNonPhi(best), st)
		}
	}
}

func (fr *frame) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

// edge evaluates the phis of succ and lets the state arrive there.
func (fr *frame) edge(from, to *ssa.BasicBlock, st *State) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []*Val
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := fr.get(st, ph.Edges[pi])
		if fr.noInt[ph] {
			if _, isC := ph.Edges[pi].(*ssa.Const); !isC || to.Dominates(from) {
				v = withSrc(unkVal(ph.Type(), nil), v)
			}
		}
		phis = append(phis, ph)
		vals = append(vals, v)
	}
	live := fr.li.in[to.Index]
	for r := range st.regs {
		switch r.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			continue
		}
		if !live[r] {
			delete(st.regs, r)
		}
	}
	for i, ph := range phis {
		st.regs[ph] = vals[i]
	}
	fr.arrive(to, st)
}

func (fr *frame) key(b *ssa.BasicBlock, st *State) string {
	var ks []string
	for r, v := range st.regs {
		switch r.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			continue
		}
		if bv, ok := v.boolean(); ok {
			ks = append(ks, r.Name()+"="+strconv.FormatBool(bv))
			continue
		}
		if fr.coarse[b] {
			continue
		}
		if isErrorType(r.Type()) && (v.nil_ == nilBit || v.nil_ == nonBit) {
			ks = append(ks, r.Name()+"="+nilKey(v))
		}
		if ph := counterPhi(r); ph != nil && !fr.noInt[ph] {
			if i, ok := v.integer(); ok {
				ks = append(ks, r.Name()+"="+strconv.FormatInt(i, 10))
			}
		}
		if fr.m.splitModels {
			if _, ok := r.(*ssa.Phi); ok {
				if id := fr.m.modelID(v); id != "" {
					ks = append(ks, r.Name()+"="+id)
				}
			}
		}
		if rg, ok := r.(*ssa.Range); ok && len(v.refs) == 1 {
			if i, _, ok := fr.m.iterPos(st, v.refs[0].obj); ok {
				ks = append(ks, rg.Name()+"@"+strconv.FormatInt(i, 10))
			}
		}
	}
	ks = append(ks, fr.m.pathKey(st)...)
	if len(st.defers) > 0 {
		ks = append(ks, "d"+strconv.Itoa(len(st.defers)))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// modelID names the modelled input object, or the known text, a value stands for.
func (m *M) modelID(v *Val) string {
	if s, ok := v.str(); ok {
		return strconv.Quote(s)
	}
	if v.unk || len(v.refs) != 1 || v.nil_ != nonBit {
		return ""
	}
	r := v.refs[0]
	if r.t != nil {
		return m.modelID(r.v)
	}
	if r.obj != nil && m.models[r.obj] != nil {
		return r.obj.id
	}
	if r.obj != nil && m.splitPlaces {
		return r.key()
	}
	return ""
}

// counterPhi returns the loop phi r is, or is computed from in one step.
func counterPhi(r ssa.Value) *ssa.Phi {
	switch r := r.(type) {
	case *ssa.Phi:
		return r
	case *ssa.BinOp:
		if ph, ok := r.X.(*ssa.Phi); ok {
			return ph
		}
		if ph, ok := r.Y.(*ssa.Phi); ok {
			return ph
		}
	}
	return nil
}

func (m *M) pathKey(st *State) []string {
	var ks []string
	for k, v := range st.notes {
		if id, ok := v.ident(); ok {
			ks = append(ks, "n:"+k+"="+id)
		}
	}
	for k := range m.track {
		if a := st.assume[k]; a != nil {
			id, _ := a.ident()
			ks = append(ks, "a:"+k+"="+id+nilKey(a))
		}
		if n := st.ne[k]; n != nil {
			var l []string
			for x := range n {
				l = append(l, x)
			}
			sort.Strings(l)
			ks = append(ks, "a:"+k+"!"+strings.Join(l, ";"))
		}
	}
	return ks
}

const maxParts = 160

func (fr *frame) arrive(b *ssa.BasicBlock, st *State) {
	m := fr.m
	m.steps++
	if m.steps > m.maxStep {
		m.fail("abstract interpretation budget exhausted in %s", fr.fn)
	}
	if fr.states[b] == nil {
		fr.states[b] = map[string]*State{}
	}
	if m.exact {
		if fr.work[b] == nil {
			fr.work[b] = map[string]bool{}
		}
		if len(fr.states[b]) > maxExact {
			m.fail("too many open branches in %s", fr.fn)
		}
		k := strconv.Itoa(m.steps)
		fr.states[b][k], fr.work[b][k] = st, true
		return
	}
	k := fr.key(b, st)
	old := fr.states[b][k]
	if old == nil && len(fr.states[b]) > maxParts && !fr.coarse[b] {
		fr.coarse[b] = true
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && isIntType(ph.Type()) {
				fr.noInt[ph] = true
			}
		}
		k = fr.key(b, st)
		old = fr.states[b][k]
	}
	if fr.work[b] == nil {
		fr.work[b] = map[string]bool{}
	}
	if old == nil {
		fr.states[b][k] = st
		fr.work[b][k] = true
		return
	}
	n := m.joinState(old, st)
	if n != old {
		fr.states[b][k] = n
		fr.work[b][k] = true
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// joinState returns old itself when st adds nothing.
func (m *M) joinState(old, st *State) *State {
	var n *State
	mut := func() *State {
		if n == nil {
			n = old.clone()
		}
		return n
	}
	for r, v := range old.regs {
		nv, ok := st.regs[r]
		if !ok {
			mut()
			delete(n.regs, r)
			continue
		}
		if j := join(v, nv); j != v {
			mut().regs[r] = j
		}
	}
	for o := range st.mem {
		ov := old.mem[o]
		if ov == nil {
			if strings.HasPrefix(o.id, "sym") || o.global != nil {
				ov = m.content(old, o)
			} else {
				mut().mem[o] = st.mem[o]
				continue
			}
		}
		if j := join(ov, st.mem[o]); j != ov {
			mut().mem[o] = j
		}
	}
	for o, ov := range old.mem {
		if st.mem[o] == nil && (strings.HasPrefix(o.id, "sym") || o.global != nil) {
			if j := join(ov, m.content(st, o)); j != ov {
				mut().mem[o] = j
			}
		}
	}
	for k, v := range old.assume {
		nv := st.assume[k]
		if nv == nil {
			mut()
			delete(n.assume, k)
			continue
		}
		if j := join(v, nv); j != v {
			mut()
			if j.unk && (j.nil_ == 0 || j.nil_ == nilBit|nonBit) {
				delete(n.assume, k)
			} else {
				n.assume[k] = j
			}
		}
	}
	for k, v := range old.ne {
		nv := st.ne[k]
		for c := range v {
			if !nv[c] {
				mut()
				x := cpy(n.ne[k])
				delete(x, c)
				n.ne[k] = x
			}
		}
	}
	for k, v := range st.notes {
		ov := old.notes[k]
		if ov == nil {
			ov = &Val{nil_: nilBit}
			if old.notes[k] == nil {
				if j := join(ov, v); j != ov {
					mut().notes[k] = j
				}
				continue
			}
		}
		if j := join(ov, v); j != ov {
			mut().notes[k] = j
		}
	}
	for k, v := range old.notes {
		if st.notes[k] == nil {
			if j := join(v, &Val{nil_: nilBit}); j != v {
				mut().notes[k] = j
			}
		}
	}
	for k, v := range st.allocN {
		if old.allocN[k] < v {
			mut().allocN[k] = v
		}
	}
	if n != nil {
		return n
	}
	return old
}

func (fr *frame) finish(st *State, res []*Val, panics string) {
	m := fr.m
	ks := m.pathKey(st)
	for i, r := range res {
		if r == nil {
			continue
		}
		if b, ok := r.boolean(); ok {
			ks = append(ks, fmt.Sprintf("r%d=%v", i, b))
		} else if isPtrLike(fr.fn.Signature.Results().At(i).Type()) {
			ks = append(ks, fmt.Sprintf("r%d=%s", i, nilKey(r)))
		}
	}
	ks = append(ks, "p="+panics)
	sort.Strings(ks)
	k := strings.Join(ks, ",")
	if o := fr.outs[k]; o != nil {
		o.st = m.joinState(o.st, st)
		for i := range o.res {
			o.res[i] = join(o.res[i], res[i])
		}
		return
	}
	fr.outs[k] = &Out{st: st, res: res, panics: panics}
	fr.okeys = append(fr.okeys, k)
}

func (fr *frame) get(st *State, v ssa.Value) *Val {
	m := fr.m
	switch v := v.(type) {
	case *ssa.Const:
		return constOf(v)
	case *ssa.Global:
		return &Val{nil_: nonBit, refs: []*Ref{{obj: m.global(v)}}}
	case *ssa.Function:
		return &Val{nil_: nonBit, refs: []*Ref{{fn: v}}}
	case *ssa.Builtin:
		return nil
	}
	r := st.regs[v]
	if r == nil {
		r = unkVal(v.Type(), nil)
		st.regs[v] = r
		return r
	}
	if x := m.resolve(st, r); x != r {
		st.regs[v] = x
		return x
	}
	return r
}

func constOf(c *ssa.Const) *Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		return unkVal(c.Type(), nil)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolVal(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return strVal(constant.StringVal(c.Value))
	case b.Info()&types.IsUnsigned != 0:
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return constVal(u)
	case b.Info()&types.IsInteger != 0:
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return constVal(i)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return constVal(f)
	}
	return unkVal(c.Type(), nil)
}

// panicOut ends the trace in a run-time panic.
func (fr *frame) panicOut(st *State, in ssa.Instruction, why string) {
	if fr.m.onPanic != nil {
		fr.m.onPanic(st, fr, in, why)
	}
	fr.unwind(st, why+" at "+fr.m.w.pos(in.Pos()))
}

func (fr *frame) unwind(st *State, why string) {
	for _, o := range fr.runDefers(st) {
		fr.finish(o, unkResults(fr.fn.Signature.Results(), nil), why)
	}
}

func (fr *frame) runDefers(st *State) []*State {
	ds := st.defers
	st.defers = nil
	sts := []*State{st}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*State
		for _, s := range sts {
			for _, o := range fr.dispatch(s, ds[i].c, ds[i].fn, ds[i].args, ds[i].site) {
				next = append(next, o.st)
			}
		}
		sts = next
	}
	return sts
}

// setRefined replaces every register holding exactly old.
func (fr *frame) refine(st *State, old, nv *Val) {
	if old == nv || old == nil {
		return
	}
	for r, v := range st.regs {
		if v == old {
			st.regs[r] = nv
		}
	}
	if old.unk && old.sym != nil && old.sym.uniq {
		st.assume[old.sym.s] = nv
		return
	}
	// a value just loaded from memory is refined there too
	for o, v := range st.mem {
		if !o.summary {
			if n := replaceVal(v, old, nv, 0); n != v {
				st.mem[o] = n
			}
		}
	}
}

func replaceVal(v, old, nv *Val, d int) *Val {
	if v == old {
		return nv
	}
	if v == nil || d > 4 || v.agg == nil {
		return v
	}
	for i, a := range v.agg {
		if n := replaceVal(a, old, nv, d+1); n != a {
			c := *v
			c.agg = append([]*Val(nil), v.agg...)
			c.agg[i] = n
			return &c
		}
	}
	return v
}

// assumeCond restricts st to traces where v is truth; false when impossible.
func (fr *frame) assumeCond(st *State, v *Val, truth bool) bool {
	if b, ok := v.boolean(); ok {
		return b == truth
	}
	fr.refine(st, v, withSrc(boolVal(truth), v))
	if v.cond != nil {
		return fr.assumeCmp(st, v.cond.op, v.cond.x, v.cond.y, truth)
	}
	return true
}

func (fr *frame) assumeCmp(st *State, op token.Token, x, y *Val, truth bool) bool {
	x, y = fr.m.resolve(st, x), fr.m.resolve(st, y)
	if op == token.NEQ {
		op, truth = token.EQL, !truth
	}
	if op == token.NOT {
		return fr.assumeCond(st, x, !truth)
	}
	if op != token.EQL {
		return true
	}
	if y.unk && !x.unk {
		x, y = y, x
	}
	// nil comparison
	if y.nil_ == nilBit && y.refs == nil && !y.unk {
		if truth {
			if x.nil_&nilBit == 0 {
				return false
			}
			fr.refine(st, x, withSrc(nilVal(), x))
		} else {
			if x.nil_&nonBit == 0 {
				return false
			}
			c := *x
			c.nil_ = nonBit
			if c.unk && c.sym != nil && c.sym.uniq {
				// keep the name: register the refined value under the same one
				fr.refine(st, x, &c)
			} else {
				fr.refine(st, x, &c)
			}
		}
		return true
	}
	if x.nil_ == nilBit && !x.unk && x.refs == nil {
		return fr.assumeCmp(st, op, y, x, truth)
	}
	if len(y.cs) == 1 && !y.unk {
		k := y.cs[0].key()
		if x.unk {
			if truth {
				if x.sym != nil && x.sym.uniq && st.ne[x.sym.s][k] {
					return false
				}
				fr.refine(st, x, withSrc(&Val{cs: y.cs}, x))
			} else if x.sym != nil && x.sym.uniq {
				n := cpy(st.ne[x.sym.s])
				n[k] = true
				st.ne[x.sym.s] = n
			}
			return true
		}
		var keep []Const
		for _, c := range x.cs {
			if (c.key() == k) == truth {
				keep = append(keep, c)
			}
		}
		if len(keep) == 0 && len(x.cs) > 0 {
			return false
		}
		if len(keep) < len(x.cs) {
			c := *x
			c.cs = keep
			fr.refine(st, x, &c)
		}
		return true
	}
	if len(x.cs) == 1 && len(y.cs) > 1 {
		return fr.assumeCmp(st, op, y, x, truth)
	}
	return true
}

func (fr *frame) exec(b *ssa.BasicBlock, idx int, st *State) {
	m := fr.m
	for i := idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		m.steps++
		if m.steps > m.maxStep {
			m.fail("abstract interpretation budget exhausted in %s", fr.fn)
		}
		switch in := in.(type) {
		case *ssa.Jump:
			fr.edge(b, b.Succs[0], st)
			return
		case *ssa.If:
			c := fr.get(st, in.Cond)
			if v, ok := c.boolean(); ok {
				if v {
					fr.edge(b, b.Succs[0], st)
				} else {
					fr.edge(b, b.Succs[1], st)
				}
				return
			}
			if debugAbs {
				if os.Getenv("ABSDEBUG") == "2" {
					fr.dump(st)
				}
				fmt.Printf("undecided %s: %s = %s %v\n", m.w.pos(in.Cond.Pos()), in.Cond, c, m.stack)
			}
			fr.widenCounters(b, in.Cond, 0)
			t, f := st, st.clone()
			if fr.assumeCond(t, c, true) {
				fr.edge(b, b.Succs[0], t)
			}
			if fr.assumeCond(f, c, false) {
				fr.edge(b, b.Succs[1], f)
			}
			return
		case *ssa.Return:
			var res []*Val
			for _, r := range in.Results {
				res = append(res, fr.get(st, r))
			}
			fr.finish(st, res, "")
			return
		case *ssa.Panic:
			fr.panicOut(st, in, "panic("+fr.get(st, in.X).String()+")")
			return
		case *ssa.RunDefers:
			sts := fr.runDefers(st)
			for _, s := range sts[:max(0, len(sts)-1)] {
				fr.exec(b, i+1, s)
			}
			if len(sts) == 0 {
				return
			}
			st = sts[len(sts)-1]
		case *ssa.Defer:
			d := deferred{c: in.Common(), site: in}
			d.fn, d.args = fr.callArgs(st, in.Common())
			st.defers = append(append([]deferred(nil), st.defers...), d)
		case *ssa.Go:
			f, args := fr.callArgs(st, in.Common())
			outs := fr.dispatch(st, in.Common(), f, args, in)
			if len(outs) == 0 {
				return
			}
			for _, o := range outs[:len(outs)-1] {
				fr.exec(b, i+1, o.st)
			}
			st = outs[len(outs)-1].st
		case *ssa.Store:
			p := fr.get(st, in.Addr)
			if !fr.checkNil(st, p, in) {
				return
			}
			m.store(st, p, fr.get(st, in.Val), deref(in.Addr.Type()))
		case *ssa.MapUpdate:
			mv := fr.get(st, in.Map)
			if mv.isNil() {
				fr.panicOut(st, in, "assignment to nil map")
				return
			}
			m.mapStore(st, mv, fr.get(st, in.Key), fr.get(st, in.Value), in.Map.Type())
		case *ssa.Send, *ssa.DebugRef:
		case *ssa.Phi:
		case ssa.Value:
			outs, ok := fr.eval(st, in)
			if !ok || len(outs) == 0 {
				return
			}
			for _, o := range outs[:len(outs)-1] {
				if o.panics != "" {
					fr.unwind(o.st, o.panics)
					continue
				}
				o.st.regs[in] = tupled(o.res)
				fr.exec(b, i+1, o.st)
			}
			o := outs[len(outs)-1]
			if o.panics != "" {
				fr.unwind(o.st, o.panics)
				return
			}
			st = o.st
			st.regs[in] = tupled(o.res)
		default:
			m.fail("unhandled instruction %T", in)
		}
	}
}

func tupled(res []*Val) *Val {
	if len(res) == 1 {
		return res[0]
	}
	return &Val{agg: append([]*Val{}, res...)}
}

// widenCounters stops unrolling the loops whose counters an undecided branch tests.
func (fr *frame) widenCounters(b *ssa.BasicBlock, v ssa.Value, d int) {
	if d > 4 {
		return
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if isIntType(v.Type()) && inLoop(v.Block()) {
			fr.noInt[v] = true
		}
	case *ssa.BinOp:
		fr.widenCounters(b, v.X, d+1)
		fr.widenCounters(b, v.Y, d+1)
	case *ssa.UnOp:
		if v.Op == token.NOT {
			fr.widenCounters(b, v.X, d+1)
		}
	case *ssa.Extract:
		fr.widenCounters(b, v.Tuple, d+1)
	}
}

func inLoop(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (fr *frame) checkNil(st *State, p *Val, in ssa.Instruction) bool {
	if p.nil_ == nilBit && len(p.refs) == 0 && !p.unk {
		fr.panicOut(st, in, "nil dereference")
		return false
	}
	if p.nil_&nilBit != 0 {
		if fr.m.onPanic != nil {
			fr.m.onPanic(st, fr, in, "maybe nil dereference of "+p.String())
		}
		c := *p
		c.nil_ = nonBit
		fr.refine(st, p, &c)
	}
	return true
}

func one(st *State, v *Val) []Out { return []Out{{st: st, res: []*Val{v}}} }

func (fr *frame) eval(st *State, in ssa.Value) ([]Out, bool) {
	m := fr.m
	switch in := in.(type) {
	case *ssa.Alloc:
		o := m.alloc(st, m.siteID(in), deref(in.Type()), 'c')
		st.mem[o] = zeroVal(o.t)
		return one(st, &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}), true
	case *ssa.UnOp:
		x := fr.get(st, in.X)
		switch in.Op {
		case token.MUL:
			if !fr.checkNil(st, x, in) {
				return nil, false
			}
			x = fr.get(st, in.X)
			return one(st, m.load(st, x, in.Type())), true
		case token.NOT:
			if b, ok := x.boolean(); ok {
				return one(st, withSrc(boolVal(!b), x)), true
			}
			return one(st, withSrc(&Val{unk: true, t: in.Type(), sym: mkSym("!", x), cond: &Cond{op: token.NOT, x: x, y: x}}, x)), true
		case token.ARROW:
			if in.CommaOk {
				tt := in.Type().(*types.Tuple)
				return []Out{{st: st, res: unkResults(tt, nil)}}, true
			}
			return one(st, unkVal(in.Type(), nil)), true
		case token.SUB:
			if !x.unk && len(x.cs) > 0 {
				r := &Val{}
				for _, c := range x.cs {
					switch n := c.v.(type) {
					case int64:
						r = join(r, constVal(-n))
					case float64:
						r = join(r, constVal(-n))
					}
				}
				return one(st, r), true
			}
		}
		return one(st, withSrc(unkVal(in.Type(), mkSym(in.Op.String(), x)), x)), true
	case *ssa.BinOp:
		return one(st, fr.binop(in.Op, fr.get(st, in.X), fr.get(st, in.Y), in.X.Type(), in.Type())), true
	case *ssa.Call:
		f, args := fr.callArgs(st, in.Common())
		return fr.dispatch(st, in.Common(), f, args, in), true
	case *ssa.ChangeType:
		return one(st, retype(fr.get(st, in.X), in.Type())), true
	case *ssa.ChangeInterface:
		return one(st, retype(fr.get(st, in.X), in.Type())), true
	case *ssa.Convert:
		return one(st, m.convert(st, fr.get(st, in.X), in.X.Type(), in.Type(), m.siteID(in))), true
	case *ssa.MultiConvert:
		return one(st, m.convert(st, fr.get(st, in.X), in.X.Type(), in.Type(), m.siteID(in))), true
	case *ssa.MakeInterface:
		x := fr.get(st, in.X)
		return one(st, &Val{nil_: nonBit, refs: []*Ref{{t: types.Unalias(in.X.Type()), v: x}}, src: x.src}), true
	case *ssa.MakeClosure:
		var bs []*Val
		for _, b := range in.Bindings {
			bs = append(bs, fr.get(st, b))
		}
		return one(st, &Val{nil_: nonBit, refs: []*Ref{{fn: in.Fn.(*ssa.Function), bind: bs}}}), true
	case *ssa.MakeMap:
		o := m.alloc(st, m.siteID(in), in.Type(), 'm')
		return one(st, &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}), true
	case *ssa.MakeSlice:
		o := m.alloc(st, m.siteID(in), in.Type(), 'a')
		el := in.Type().Underlying().(*types.Slice).Elem()
		ln := -1
		if n, ok := fr.get(st, in.Len).integer(); ok && n <= 256 {
			ln = int(n)
			a := &Val{agg: make([]*Val, n)}
			for i := range a.agg {
				a.agg[i] = zeroVal(el)
			}
			st.mem[o] = a
		} else {
			st.mem[o] = &Val{sum: zeroVal(el)}
		}
		return one(st, &Val{nil_: nonBit, refs: []*Ref{{obj: o, ln: ln}}}), true
	case *ssa.MakeChan:
		return one(st, unkNonNil(in.Type(), nil)), true
	case *ssa.FieldAddr:
		x := fr.get(st, in.X)
		if !fr.checkNil(st, x, in) {
			return nil, false
		}
		x = fr.get(st, in.X)
		r := &Val{nil_: nonBit, src: x.src}
		for _, ref := range m.targets(x, deref(in.X.Type())) {
			if ref.obj == nil {
				continue
			}
			r.refs = append(r.refs, &Ref{obj: ref.obj, path: ref.path + "/" + strconv.Itoa(in.Field)})
		}
		if len(r.refs) == 0 {
			r = unkNonNil(in.Type(), nil)
		}
		return one(st, r), true
	case *ssa.Field:
		x := fr.get(st, in.X)
		v := m.child(x, strconv.Itoa(in.Field))
		if v == nil {
			v = unkVal(in.Type(), nil)
		}
		return one(st, m.resolve(st, withSrc(v, x))), true
	case *ssa.IndexAddr:
		x := fr.get(st, in.X)
		ix := fr.get(st, in.Index)
		return fr.indexAddr(st, in, x, ix)
	case *ssa.Index:
		x := fr.get(st, in.X)
		ix := fr.get(st, in.Index)
		if s, ok := x.str(); ok {
			if n, ok := ix.integer(); ok {
				if n < 0 || int(n) >= len(s) {
					fr.panicOut(st, in, "index out of range")
					return nil, false
				}
				return one(st, constVal(uint64(s[n]))), true
			}
			return one(st, unkVal(in.Type(), nil)), true
		}
		k := "*"
		if n, ok := ix.integer(); ok {
			k = strconv.Itoa(int(n))
		}
		v := m.child(x, k)
		if v == nil {
			v = unkVal(in.Type(), mkSym("index", x, ix))
		}
		return one(st, withSrc(v, x)), true
	case *ssa.Lookup:
		x := fr.get(st, in.X)
		ix := fr.get(st, in.Index)
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			return m.mapLookup(st, x, ix, mt, in.CommaOk), true
		}
		if s, ok := x.str(); ok {
			if n, ok := ix.integer(); ok {
				if n < 0 || int(n) >= len(s) {
					fr.panicOut(st, in, "index out of range")
					return nil, false
				}
				return one(st, constVal(uint64(s[n]))), true
			}
		}
		return one(st, unkVal(in.Type(), mkSym("index", x, ix))), true
	case *ssa.Slice:
		return fr.slice(st, in)
	case *ssa.SliceToArrayPointer:
		return one(st, unkNonNil(in.Type(), nil)), true
	case *ssa.TypeAssert:
		return fr.typeAssert(st, in)
	case *ssa.Extract:
		t := fr.get(st, in.Tuple)
		v := m.child(t, strconv.Itoa(in.Index))
		if v == nil || t.agg == nil {
			v = unkVal(in.Type(), t.sym.child("#"+strconv.Itoa(in.Index)))
		}
		return one(st, m.resolve(st, v)), true
	case *ssa.Range:
		o := m.alloc(st, m.siteID(in), types.Typ[types.Int], 'i')
		st.mem[o] = constVal(int64(0))
		x := fr.get(st, in.X)
		if y := m.resolve(st, x); y != nil && len(y.refs) == 1 && !y.unk {
			// the order of iteration over a known map: either of two opposite ones
			if mv := m.content(st, y.refs[0].obj).mp; mv != nil {
				it := &Val{agg: []*Val{constVal(int64(0))}}
				m.w.ranges.note(in, len(mv.keys), m.adverse == 1)
				for i := range mv.keys {
					if m.adverse == 1 {
						i = len(mv.keys) - 1 - i
					}
					it.agg = append(it.agg, strVal(mv.keys[i]))
				}
				st.mem[o] = it
			}
		}
		return one(st, &Val{nil_: nonBit, refs: []*Ref{{obj: o, v: x}}, src: x.src}), true
	case *ssa.Next:
		return fr.next(st, in), true
	case *ssa.Select:
		return []Out{{st: st, res: unkResults(in.Type().(*types.Tuple), nil)}}, true
	}
	m.fail("unhandled value instruction %T", in)
	return nil, false
}

func retype(v *Val, t types.Type) *Val {
	if v != nil && v.unk && v.t != nil {
		c := *v
		c.t = t
		return &c
	}
	return v
}

func (fr *frame) indexAddr(st *State, in *ssa.IndexAddr, x, ix *Val) ([]Out, bool) {
	m := fr.m
	n, known := ix.integer()
	r := &Val{nil_: nonBit, src: x.src}
	elemT := deref(in.Type())
	add := func(obj *Obj, path string, off, ln int) bool {
		if known && ln >= 0 && (n < 0 || int(n) >= ln) {
			return false
		}
		k := "*"
		if known {
			k = strconv.Itoa(off + int(n))
		}
		r.refs = append(r.refs, &Ref{obj: obj, path: path + "/" + k})
		return true
	}
	if x.isNil() {
		fr.panicOut(st, in, "index of nil slice")
		return nil, false
	}
	bad := 0
	for _, ref := range x.refs {
		if ref.obj == nil {
			continue
		}
		ln := ref.ln
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
			ln = int(deref(in.X.Type()).Underlying().(*types.Array).Len())
		}
		if !add(ref.obj, ref.path, ref.off, ln) {
			bad++
		}
	}
	if x.unk {
		ct := in.X.Type()
		if p, ok := ct.Underlying().(*types.Pointer); ok {
			ct = p.Elem()
		}
		o := m.symObj(x.sym.child(".*"), ct, 'a')
		o.sym = x.sym
		if x.sym == nil {
			o.sym = &Sym{"?", false}
		}
		add(o, "", 0, -1)
	}
	_ = elemT
	if len(r.refs) == 0 {
		fr.panicOut(st, in, "index out of range")
		return nil, false
	}
	return one(st, r), true
}

func (fr *frame) slice(st *State, in *ssa.Slice) ([]Out, bool) {
	m := fr.m
	x := fr.get(st, in.X)
	lo, hi := int64(0), int64(-1)
	loK, hiK := true, false
	var lov, hiv *Val
	if in.Low != nil {
		lov = fr.get(st, in.Low)
		lo, loK = lov.integer()
	}
	if in.High != nil {
		hiv = fr.get(st, in.High)
		hi, hiK = hiv.integer()
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := x.str(); ok && loK && (in.High == nil || hiK) {
			if in.High == nil {
				hi = int64(len(s))
			}
			if lo < 0 || hi > int64(len(s)) || lo > hi {
				fr.panicOut(st, in, "slice bounds out of range")
				return nil, false
			}
			return one(st, withSrc(strVal(s[lo:hi]), x)), true
		}
		vs := []*Val{x}
		if lov != nil {
			vs = append(vs, lov)
		} else {
			vs = append(vs, constVal(int64(0)))
		}
		if hiv != nil {
			vs = append(vs, hiv)
		}
		return one(st, withSrc(unkVal(in.Type(), mkSym("slice", vs...)), x)), true
	}
	r := &Val{nil_: x.nil_, src: x.src, unk: x.unk, t: in.Type()}
	if x.unk {
		r.sym = x.sym
		if !(lo == 0 && loK && in.High == nil) {
			vs := []*Val{x}
			if lov != nil {
				vs = append(vs, lov)
			}
			if hiv != nil {
				vs = append(vs, strVal("hi"), hiv)
			}
			r.sym = mkSym("slice", vs...)
		}
	}
	for _, ref := range x.refs {
		if ref.obj == nil {
			continue
		}
		n := *ref
		n.k = ""
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n.off, n.ln = 0, int(p.Elem().Underlying().(*types.Array).Len())
			r.nil_ = nonBit
		}
		switch {
		case loK && in.High == nil:
			if n.ln >= 0 && int(lo) > n.ln {
				fr.panicOut(st, in, "slice bounds out of range")
				return nil, false
			}
			n.off += int(lo)
			if n.ln >= 0 {
				n.ln -= int(lo)
			}
		case loK && hiK:
			n.off += int(lo)
			n.ln = int(hi - lo)
		default:
			// unknown bounds: a view of unknown length over the joined elements
			c := m.content(st, ref.obj)
			e := m.child(m.nav(c, ref.path), "*")
			o := m.alloc(st, m.siteID(in), in.Type(), 'a')
			if e == nil {
				e = unkVal(in.Type().Underlying().(*types.Slice).Elem(), nil)
			}
			st.mem[o] = &Val{sum: e}
			n = Ref{obj: o, ln: -1}
		}
		r.refs = append(r.refs, &n)
	}
	return one(st, r), true
}

func (fr *frame) next(st *State, in *ssa.Next) []Out {
	m := fr.m
	it := fr.get(st, in.Iter)
	tt := in.Type().(*types.Tuple)
	if len(it.refs) != 1 {
		return []Out{{st: st, res: unkResults(tt, nil)}}
	}
	o, x := it.refs[0].obj, m.resolve(st, it.refs[0].v)
	pos, order, posOK := m.iterPos(st, o)
	rng := in.Iter.(*ssa.Range)
	unkTuple := func(k, v *Val) []Out {
		return []Out{{st: st, res: []*Val{unkVal(types.Typ[types.Bool], nil), k, v}}}
	}
	end := []*Val{boolVal(false), zeroOr(tt.At(1).Type()), zeroOr(tt.At(2).Type())}
	if in.IsString {
		s, ok := x.str()
		if !ok || !posOK {
			return unkTuple(unkVal(types.Typ[types.Int], nil), withSrc(unkVal(types.Typ[types.Rune], nil), x))
		}
		if int(pos) >= len(s) {
			return []Out{{st: st, res: end}}
		}
		for i, r := range s[pos:] {
			if i == 0 {
				sz := len(string(r))
				st.mem[o] = constVal(pos + int64(sz))
				return []Out{{st: st, res: []*Val{boolVal(true), constVal(pos), constVal(int64(r))}}}
			}
		}
	}
	mt := rng.X.Type().Underlying().(*types.Map)
	if x.isNil() {
		return []Out{{st: st, res: end}}
	}
	var outs []Out
	rs := x.refs
	if x.unk {
		rs = append(append([]*Ref(nil), rs...), &Ref{obj: m.symMap(x, rng.X.Type())})
	}
	if len(rs) == 1 && x.nil_ == nonBit || len(rs) == 1 && x.unk {
		c := m.content(st, rs[0].obj).mp
		if order == nil && c != nil {
			order = c.keys
		}
		if c != nil && posOK {
			for int(pos) < len(order) && c.v[order[pos]] == nil {
				pos++ // deleted meanwhile
			}
			if int(pos) < len(order) {
				k := order[pos]
				if c.may[k] {
					s2 := st.clone()
					m.setIter(s2, o, pos+1)
					outs = append(outs, fr.nextFrom(s2, in, o, end, c)...)
				}
				m.setIter(st, o, pos+1)
				return append(outs, Out{st: st, res: []*Val{boolVal(true), withSrc(c.k[k], x), withSrc(c.v[k], x)}})
			}
			if !c.open {
				return []Out{{st: st, res: end}}
			}
			s2 := st.clone()
			return []Out{{st: s2, res: end}, {st: st, res: []*Val{boolVal(true), withSrc(fresh(orUnk(c.ok, mt.Key())), x), withSrc(fresh(orUnk(c.ov, mt.Elem())), x)}}}
		}
	}
	var kv, vv *Val
	for _, r := range rs {
		c := m.content(st, r.obj).mp
		if c == nil {
			continue
		}
		for _, k := range c.keys {
			kv, vv = join(kv, c.k[k]), join(vv, c.v[k])
		}
		kv, vv = join(kv, c.ok), join(vv, c.ov)
	}
	return unkTuple(fresh(orUnk(kv, mt.Key())), fresh(orUnk(vv, mt.Elem())))
}

// iterPos reads the position of a map or string iterator and the keys it visits.
func (m *M) iterPos(st *State, o *Obj) (int64, []string, bool) {
	c := m.content(st, o)
	if len(c.agg) == 0 {
		p, ok := c.integer()
		return p, nil, ok
	}
	p, ok := c.agg[0].integer()
	ks := []string{}
	for _, k := range c.agg[1:] {
		s, ok := k.str()
		if !ok {
			return 0, nil, false
		}
		ks = append(ks, s)
	}
	return p, ks, ok
}

func (m *M) setIter(st *State, o *Obj, pos int64) {
	c := m.content(st, o)
	if len(c.agg) == 0 {
		st.mem[o] = constVal(pos)
		return
	}
	n := *c
	n.agg = append([]*Val{constVal(pos)}, c.agg[1:]...)
	st.mem[o] = &n
}

func (fr *frame) nextFrom(st *State, in *ssa.Next, o *Obj, end []*Val, c *MapV) []Out {
	return fr.next(st, in)
}

func orUnk(v *Val, t types.Type) *Val {
	if v == nil {
		return unkVal(t, nil)
	}
	return v
}

func zeroOr(t types.Type) *Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nilVal()
	}
	return zeroVal(t)
}

// ---- maps ----

func (m *M) symMap(x *Val, t types.Type) *Obj {
	return m.symObj(orSym(x.sym), t, 'm')
}

func orSym(s *Sym) *Sym {
	if s == nil {
		return &Sym{"?", false}
	}
	return s
}

func (m *M) mapLookup(st *State, x, k *Val, mt *types.Map, commaOk bool) []Out {
	mk := func(s *State, v *Val, ok *Val) Out {
		v = m.resolve(s, withSrc(v, x))
		if commaOk {
			return Out{st: s, res: []*Val{v, ok}}
		}
		return Out{st: s, res: []*Val{v}}
	}
	zero := zeroVal(mt.Elem())
	if x.isNil() {
		return []Out{mk(st, zero, boolVal(false))}
	}
	id, exact := k.ident()
	rs := x.refs
	if x.unk {
		rs = append(append([]*Ref(nil), rs...), &Ref{obj: m.symMap(x, mt)})
	}
	var present *Val
	absent := x.nil_&nilBit != 0 && !(x.unk && len(x.refs) == 0)
	var okSym *Sym
	for _, r := range rs {
		c := m.content(st, r.obj).mp
		if c == nil {
			present, absent = join(present, unkVal(mt.Elem(), nil)), true
			continue
		}
		if exact {
			if v, ok := c.v[id]; ok && !r.obj.summary {
				present = join(present, v)
				if c.may[id] {
					absent = true
				}
				continue
			}
			if !c.open {
				// different named unknowns may still be equal to a present key
				symKey := strings.HasPrefix(id, "$") || strings.Contains(id, ";$") || strings.Contains(id, "{$")
				match := false
				for _, kk := range c.keys {
					if symKey || strings.Contains(kk, "$") {
						if kk != id {
							present = join(present, fresh(c.v[kk]))
							match = true
						}
					}
				}
				_ = match
				absent = true
				continue
			}
			if c.sym != nil {
				s := &Sym{c.sym.s + "[" + symOf(k).String() + "]", c.sym.uniq}
				v := unkVal(mt.Elem(), s)
				if c.ov != nil && c.ov.nil_ == nonBit {
					v.nil_ = nonBit
				}
				present = join(present, v)
				okSym = &Sym{"has " + s.s, c.sym.uniq}
				absent = true
				continue
			}
			present = join(present, fresh(orUnk(c.ov, mt.Elem())))
			absent = true
			continue
		}
		for _, kk := range c.keys {
			if len(k.cs) > 0 && !k.unk {
				hit := false
				for _, kc := range k.cs {
					if kc.key() == kk {
						hit = true
					}
				}
				if !hit {
					continue
				}
			}
			present = join(present, fresh(c.v[kk]))
		}
		if c.open {
			present = join(present, fresh(orUnk(c.ov, mt.Elem())))
		}
		absent = true
	}
	switch {
	case present == nil:
		return []Out{mk(st, zero, boolVal(false))}
	case !absent:
		return []Out{mk(st, present, boolVal(true))}
	}
	if okSym != nil && len(rs) == 1 {
		if a := st.assume[okSym.s]; a != nil {
			if b, _ := a.boolean(); b {
				return []Out{mk(st, present, boolVal(true))}
			}
			return []Out{mk(st, zero, boolVal(false))}
		}
	}
	s2 := st.clone()
	if okSym != nil && okSym.uniq && len(rs) == 1 {
		st.assume[okSym.s] = boolVal(true)
		s2.assume[okSym.s] = boolVal(false)
	}
	if !commaOk && okSym == nil {
		return []Out{mk(st, join(present, zero), nil)}
	}
	return []Out{mk(st, present, boolVal(true)), mk(s2, zero, boolVal(false))}
}

func (m *M) mapStore(st *State, x, k, v *Val, t types.Type) {
	mt := t.Underlying().(*types.Map)
	rs := x.refs
	if x.unk {
		rs = append(append([]*Ref(nil), rs...), &Ref{obj: m.symMap(x, mt)})
	}
	id, exact := k.ident()
	for _, r := range rs {
		if r.obj == nil {
			continue
		}
		c := m.content(st, r.obj).mp
		if c == nil {
			continue
		}
		n := c.clone()
		if exact && len(rs) == 1 && !r.obj.summary {
			if _, ok := n.v[id]; !ok {
				n.keys = append(n.keys, id)
			}
			n.k[id], n.v[id] = k, v
			delete(n.may, id)
		} else if exact {
			if _, ok := n.v[id]; !ok {
				n.keys = append(n.keys, id)
				n.may[id] = true
				n.k[id], n.v[id] = k, v
			} else {
				n.v[id] = join(n.v[id], v)
			}
		} else {
			for _, kk := range n.keys {
				n.v[kk] = join(n.v[kk], v)
			}
			n.open = true
			n.ok, n.ov = join(n.ok, k), join(n.ov, v)
			n.vt = mt.Elem()
		}
		st.mem[r.obj] = &Val{mp: n}
	}
}

func (m *M) mapDelete(st *State, x, k *Val) {
	id, exact := k.ident()
	for _, r := range x.refs {
		if r.obj == nil {
			continue
		}
		c := m.content(st, r.obj).mp
		if c == nil {
			continue
		}
		n := c.clone()
		for _, kk := range c.keys {
			if exact && kk == id && len(x.refs) == 1 && !r.obj.summary {
				delete(n.v, kk)
				delete(n.k, kk)
				delete(n.may, kk)
				var ks []string
				for _, y := range n.keys {
					if y != kk {
						ks = append(ks, y)
					}
				}
				n.keys = ks
			} else if !exact || kk == id {
				n.may[kk] = true
			}
		}
		st.mem[r.obj] = &Val{mp: n}
	}
}

// ---- interfaces ----

func (fr *frame) typeAssert(st *State, in *ssa.TypeAssert) ([]Out, bool) {
	x := fr.get(st, in.X)
	T := in.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	var outs []Out
	good := func(s *State, v *Val) {
		if in.CommaOk {
			outs = append(outs, Out{st: s, res: []*Val{v, boolVal(true)}})
		} else {
			outs = append(outs, Out{st: s, res: []*Val{v}})
		}
	}
	bad := func(s *State, why string) {
		if in.CommaOk {
			outs = append(outs, Out{st: s, res: []*Val{zeroVal(T), boolVal(false)}})
			return
		}
		fr.panicOut(s, in, "type assertion to "+typeName(T)+" fails: "+why)
	}
	var hit *Val
	var miss []string
	missRefs := []*Ref{}
	for _, r := range x.refs {
		if r.t == nil {
			continue
		}
		if toIface {
			if types.Implements(r.t, T.Underlying().(*types.Interface)) {
				hit = join(hit, &Val{nil_: nonBit, refs: []*Ref{r}, src: x.src})
				continue
			}
		} else if types.Identical(r.t, T) {
			hit = join(hit, withSrc(r.v, x))
			continue
		}
		miss = append(miss, typeName(r.t))
		missRefs = append(missRefs, r)
	}
	mayNil := x.nil_&nilBit != 0
	if x.unk {
		is := mkSym("is["+typeName(T)+"]", x)
		as := mkSym("as["+typeName(T)+"]", x)
		var v *Val
		if toIface {
			v = unkNonNil(T, x.sym)
		} else {
			v = unkVal(T, as)
			if _, ok := T.Underlying().(*types.Pointer); ok {
				v = unkNonNil(T, as)
			}
		}
		v = withSrc(v, x)
		if is != nil && is.uniq {
			if a := st.assume[is.s]; a != nil {
				if b, _ := a.boolean(); b {
					good(st, join(hit, v))
				} else {
					bad(st, "other type")
				}
				return outs, true
			}
		}
		s2 := st.clone()
		if is != nil && is.uniq {
			st.assume[is.s] = boolVal(true)
			s2.assume[is.s] = boolVal(false)
		}
		good(st, join(hit, v))
		bad(s2, "unknown dynamic type")
		return outs, true
	}
	if hit != nil {
		if len(miss) > 0 || mayNil {
			s2 := st.clone()
			c := *x
			c.refs, c.nil_ = missRefs, x.nil_
			if len(missRefs) == 0 {
				c.nil_ = nilBit
			}
			fr.refine(s2, x, &c)
			bad(s2, strings.Join(miss, ","))
		}
		good(st, hit)
		return outs, true
	}
	bad(st, strings.Join(miss, ","))
	return outs, true
}

// ---- conversions and operators ----

func (m *M) convert(st *State, x *Val, from, to types.Type, site string) *Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return retype(x, to)
		}
		if fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
			if x.unk {
				s := x.sym
				if !keepsValue(fb, tb) {
					s = mkSym(tb.Name(), x)
				}
				return withSrc(unkVal(to, s), x)
			}
			r := &Val{src: x.src}
			for _, c := range x.cs {
				r = join(r, &Val{cs: []Const{{numConv(c.v, tb)}}})
			}
			return r
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			if n, ok := x.integer(); ok {
				return strVal(string(rune(n)))
			}
		}
		return withSrc(unkVal(to, mkSym("conv", x)), x)
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, isSlice := to.Underlying().(*types.Slice); isSlice {
			if t, ok := x.str(); ok && m.texts {
				var vs []*Val
				if eb, _ := sl.Elem().Underlying().(*types.Basic); eb != nil && eb.Kind() == types.Int32 {
					for _, r := range t {
						vs = append(vs, constVal(int64(r)))
					}
				} else {
					for i := 0; i < len(t); i++ {
						vs = append(vs, constVal(uint64(t[i])))
					}
				}
				o := m.alloc(st, site, to, 'a')
				st.mem[o] = &Val{agg: vs}
				return &Val{nil_: nonBit, refs: []*Ref{{obj: o, ln: len(vs)}}, src: x.src}
			}
			return withSrc(unkNonNil(to, mkSym("bytes", x)), x)
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if t, ok := m.textOf(st, x); ok && m.texts {
			return withSrc(strVal(t), x)
		}
		if x.unk && x.sym != nil && strings.HasPrefix(x.sym.s, "bytes(") {
			inner := strings.TrimSuffix(strings.TrimPrefix(x.sym.s, "bytes("), ")")
			if s, err := strconv.Unquote(inner); err == nil {
				return withSrc(strVal(s), x)
			}
			return withSrc(unkVal(to, &Sym{inner, x.sym.uniq}), x)
		}
		return withSrc(unkVal(to, mkSym("string", x)), x)
	}
	if x.unk {
		return retype(x, to)
	}
	return x
}

// textOf reads a slice of known bytes or runes as text.
func (m *M) textOf(st *State, x *Val) (string, bool) {
	if !m.texts || x.unk {
		return "", false
	}
	vs, ok := m.elems(st, x)
	if !ok {
		return "", false
	}
	var b strings.Builder
	for _, v := range vs {
		c, ok := m.resolve(st, v).single()
		if !ok {
			return "", false
		}
		switch c := c.(type) {
		case int64:
			b.WriteRune(rune(c))
		case uint64:
			b.WriteByte(byte(c))
		default:
			return "", false
		}
	}
	return b.String(), true
}

// keepsValue reports that every value of integer type a is representable in b (64-bit platforms).
func keepsValue(a, b *types.Basic) bool {
	if a.Kind() == b.Kind() {
		return true
	}
	size := func(t *types.Basic) (int, bool, bool) {
		switch t.Kind() {
		case types.Int8:
			return 8, true, true
		case types.Int16:
			return 16, true, true
		case types.Int32, types.UntypedRune:
			return 32, true, true
		case types.Int64, types.Int, types.UntypedInt:
			return 64, true, true
		case types.Uint8:
			return 8, false, true
		case types.Uint16:
			return 16, false, true
		case types.Uint32:
			return 32, false, true
		case types.Uint64, types.Uint, types.Uintptr:
			return 64, false, true
		}
		return 0, false, false
	}
	sa, ga, oka := size(a)
	sb, gb, okb := size(b)
	return oka && okb && (ga == gb && sb >= sa || gb && !ga && sb > sa)
}

func numConv(v any, to *types.Basic) any {
	isF := to.Info()&types.IsFloat != 0
	isU := to.Info()&types.IsUnsigned != 0
	var f float64
	var i int64
	var u uint64
	switch n := v.(type) {
	case int64:
		f, i, u = float64(n), n, uint64(n)
	case uint64:
		f, i, u = float64(n), int64(n), n
	case float64:
		f, i, u = n, int64(n), uint64(int64(n))
	default:
		return v
	}
	if isF {
		if to.Kind() == types.Float32 {
			return float64(float32(f))
		}
		return f
	}
	if isU {
		switch to.Kind() {
		case types.Uint8:
			u = uint64(uint8(u))
		case types.Uint16:
			u = uint64(uint16(u))
		case types.Uint32:
			u = uint64(uint32(u))
		}
		return u
	}
	switch to.Kind() {
	case types.Int8:
		i = int64(int8(i))
	case types.Int16:
		i = int64(int16(i))
	case types.Int32:
		i = int64(int32(i))
	}
	return i
}

func (fr *frame) binop(op token.Token, x, y *Val, xt, rt types.Type) *Val {
	m := fr.m
	isCmp := false
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		isCmp = true
	}
	if isCmp {
		if r, known := m.compare(op, x, y); known {
			return withSrc(boolVal(r), x, y)
		}
		a, b := x, y
		if op == token.EQL || op == token.NEQ {
			if sa, sb := symOf(a).String(), symOf(b).String(); sa > sb {
				a, b = b, a
			}
		}
		return withSrc(&Val{unk: true, t: rt, sym: mkSym(op.String(), a, b), cond: &Cond{op: op, x: x, y: y}}, x, y)
	}
	if !x.unk && !y.unk && len(x.cs) > 0 && len(y.cs) > 0 {
		r := &Val{}
		okAll := true
		for _, a := range x.cs {
			for _, b := range y.cs {
				v, ok := constBin(op, a.v, b.v, rt)
				if !ok {
					okAll = false
					break
				}
				r = join(r, constVal(v))
			}
		}
		if okAll && !r.unk {
			return withSrc(r, x, y)
		}
	}
	if op == token.ADD {
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return withSrc(unkVal(rt, catSym(x, y)), x, y)
		}
	}
	return withSrc(unkVal(rt, mkSym(op.String(), x, y)), x, y)
}

// catSym names a concatenation independently of how it was associated.
func catSym(vs ...*Val) *Sym {
	u := true
	var parts []string
	for _, v := range vs {
		s := symOf(v)
		if s == nil {
			return nil
		}
		u = u && s.uniq
		if s.s == `""` {
			continue
		}
		if strings.HasPrefix(s.s, "cat‹") {
			parts = append(parts, strings.Split(strings.TrimSuffix(strings.TrimPrefix(s.s, "cat‹"), "›"), "¦")...)
		} else {
			parts = append(parts, s.s)
		}
	}
	var out []string
	for _, p := range parts {
		if n := len(out); n > 0 && strings.HasPrefix(p, `"`) && strings.HasPrefix(out[n-1], `"`) {
			a, e1 := strconv.Unquote(out[n-1])
			b, e2 := strconv.Unquote(p)
			if e1 == nil && e2 == nil {
				out[n-1] = strconv.Quote(a + b)
				continue
			}
		}
		out = append(out, p)
	}
	s := "cat‹" + strings.Join(out, "¦") + "›"
	if len(s) > 600 {
		return nil
	}
	return &Sym{s, u}
}

func (m *M) compare(op token.Token, x, y *Val) (bool, bool) {
	if op == token.EQL || op == token.NEQ {
		eq, known := m.equal(x, y)
		return eq == (op == token.EQL), known
	}
	if x.unk || y.unk || len(x.cs) == 0 || len(y.cs) == 0 {
		return false, false
	}
	var res, set bool
	for _, a := range x.cs {
		for _, b := range y.cs {
			c, ok := constCmp(op, a.v, b.v)
			if !ok || set && c != res {
				return false, false
			}
			res, set = c, true
		}
	}
	return res, set
}

func (m *M) equal(x, y *Val) (eq, known bool) {
	if x == y && x.unk && x.sym != nil && x.sym.uniq {
		return true, true
	}
	// nil comparisons
	if y.nil_ == nilBit && !y.unk && len(y.refs) == 0 || x.nil_ == nilBit && !x.unk && len(x.refs) == 0 {
		switch {
		case x.nil_ == nilBit && y.nil_ == nilBit:
			return true, true
		case x.nil_ == nonBit || y.nil_ == nonBit:
			return false, true
		}
		return false, false
	}
	if len(x.cs) > 0 && len(y.cs) > 0 && !x.unk && !y.unk {
		if len(x.cs) == 1 && len(y.cs) == 1 {
			if f, ok := x.cs[0].v.(float64); ok && math.IsNaN(f) {
				return false, true
			}
			if a, ok := x.cs[0].v.(types.Type); ok {
				if b, ok := y.cs[0].v.(types.Type); ok {
					return types.Identical(a, b), true
				}
			}
			return x.cs[0].key() == y.cs[0].key(), true
		}
		for _, a := range x.cs {
			for _, b := range y.cs {
				if a.key() == b.key() {
					return false, false
				}
			}
		}
		return false, true
	}
	ka, oka := x.ident()
	kb, okb := y.ident()
	if oka && okb {
		if ka == kb {
			return true, true
		}
		if !strings.Contains(ka, "$") && !strings.Contains(kb, "$") {
			if a := x.rtype(); a != nil {
				if b := y.rtype(); b != nil {
					return types.Identical(a, b), true
				}
			}
			return false, true
		}
	}
	// interfaces with known, different dynamic types
	if len(x.refs) == 1 && len(y.refs) == 1 && !x.unk && !y.unk && x.nil_ == nonBit && y.nil_ == nonBit && x.refs[0].t != nil && y.refs[0].t != nil {
		if !types.Identical(x.refs[0].t, y.refs[0].t) {
			return false, true
		}
		return m.equal(x.refs[0].v, y.refs[0].v)
	}
	return false, false
}

func constCmp(op token.Token, a, b any) (bool, bool) {
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			return ord(op, x < y, x > y), true
		}
	case uint64:
		if y, ok := b.(uint64); ok {
			return ord(op, x < y, x > y), true
		}
	case float64:
		if y, ok := b.(float64); ok {
			switch op {
			case token.LSS:
				return x < y, true
			case token.LEQ:
				return x <= y, true
			case token.GTR:
				return x > y, true
			case token.GEQ:
				return x >= y, true
			}
		}
	case string:
		if y, ok := b.(string); ok {
			return ord(op, x < y, x > y), true
		}
	}
	return false, false
}

func ord(op token.Token, lt, gt bool) bool {
	switch op {
	case token.LSS:
		return lt
	case token.LEQ:
		return !gt
	case token.GTR:
		return gt
	default:
		return !lt
	}
}

func constBin(op token.Token, a, b any, rt types.Type) (any, bool) {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		if ok && op == token.ADD {
			return x + y, true
		}
	case bool:
		y, ok := b.(bool)
		if ok {
			switch op {
			case token.AND:
				return x && y, true
			case token.OR:
				return x || y, true
			}
		}
	case float64:
		y, ok := b.(float64)
		if ok {
			switch op {
			case token.ADD:
				return x + y, true
			case token.SUB:
				return x - y, true
			case token.MUL:
				return x * y, true
			case token.QUO:
				return x / y, true
			}
		}
	case int64:
		var y int64
		switch n := b.(type) {
		case int64:
			y = n
		case uint64:
			y = int64(n)
		default:
			return nil, false
		}
		var r int64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			if y == 0 {
				return nil, false
			}
			r = x / y
		case token.REM:
			if y == 0 {
				return nil, false
			}
			r = x % y
		case token.AND:
			r = x & y
		case token.OR:
			r = x | y
		case token.XOR:
			r = x ^ y
		case token.AND_NOT:
			r = x &^ y
		case token.SHL:
			if y < 0 || y > 63 {
				return nil, false
			}
			r = x << uint(y)
		case token.SHR:
			if y < 0 || y > 63 {
				return nil, false
			}
			r = x >> uint(y)
		default:
			return nil, false
		}
		return numConv(r, rt.Underlying().(*types.Basic)), true
	case uint64:
		var y uint64
		switch n := b.(type) {
		case int64:
			y = uint64(n)
		case uint64:
			y = n
		default:
			return nil, false
		}
		var r uint64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.AND:
			r = x & y
		case token.OR:
			r = x | y
		case token.AND_NOT:
			r = x &^ y
		case token.SHL:
			r = x << y
		case token.SHR:
			r = x >> y
		default:
			return nil, false
		}
		return numConv(r, rt.Underlying().(*types.Basic)), true
	}
	return nil, false
}

func (fr *frame) dump(st *State) {
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if r := st.regs[v]; r != nil {
					fmt.Printf("   %s = %s : %s\n", v.Name(), v, r)
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		fmt.Printf("   %s : %s\n", p.Name(), st.regs[p])
		if rs := st.regs[p].refs; len(rs) > 0 && rs[0].obj != nil {
			fmt.Printf("     -> %s\n", fr.m.content(st, rs[0].obj))
		}
	}
}

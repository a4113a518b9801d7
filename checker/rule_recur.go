package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Recursion ends: along every chain of calls that comes back to a function, some
// argument gets strictly smaller (size-change graphs over the parts of finite
// trees), or the chain is one the interpretation of types that refer to themselves
// has followed to its end.

// part tells how a value relates to a parameter: the same, or a strict part of it.
// Parts of Go types are special: a chain that goes through both a named type and a
// pointer, slice or map may come back to where it started.
type part struct{ down, under, ref bool }

func (p part) then(q part) part {
	return part{p.down || q.down, p.under || q.under, p.ref || q.ref}
}

func (p part) weaker(q part) part {
	return part{p.down && q.down, p.under || q.under, p.ref || q.ref}
}

func (p part) shrinks() bool { return p.down && !(p.under && p.ref) }

// input is a parameter or captured variable of a function, or (f >= 0) a field of the structure it holds or points to.
type input struct {
	v ssa.Value
	f int
}

type parts map[input]part

type recur struct {
	w    *World
	c    *Check
	fl   *Flow
	open map[ssa.Value]bool
	rets map[*ssa.Function]parts
}

type recEdge struct {
	from, to *ssa.Function
	at       ssa.Instruction
	arcs     map[[2]int]part // input of from, input of to
}

// inputs are the parameters of a function and the variables it captures.
func inputs(f *ssa.Function) (r []input) {
	add := func(v ssa.Value) {
		r = append(r, input{v, -1})
		t := v.Type()
		if fv, ok := v.(*ssa.FreeVar); ok {
			t = deref(fv.Type())
		}
		if s, ok := deref(t).Underlying().(*types.Struct); ok && isRepoPath(pkgOfType(t)) && s.NumFields() < 10 {
			for i := 0; i < s.NumFields(); i++ {
				r = append(r, input{v, i})
			}
		}
	}
	for _, p := range f.Params {
		add(p)
	}
	for _, v := range f.FreeVars {
		add(v)
	}
	return r
}

func pkgOfType(t types.Type) string {
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// joinParts keeps what holds of both.
func joinParts(a, b parts) parts {
	if a == nil {
		return b
	}
	r := parts{}
	for v, p := range a {
		if q, ok := b[v]; ok {
			r[v] = p.weaker(q)
		}
	}
	return r
}

func (p parts) step(q part) parts {
	r := parts{}
	for v, x := range p {
		r[v] = x.then(q)
	}
	return r
}

// of relates a value to the inputs of its function.
func (x *recur) of(v ssa.Value) parts {
	if x.open[v] {
		return nil // as the other ways say
	}
	x.open[v] = true
	defer delete(x.open, v)
	down := part{down: true}
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return parts{input{v, -1}: part{}}
	case *ssa.FieldAddr:
		return x.field(v.X, v.Field, down)
	case *ssa.Field:
		return x.field(v.X, v.Field, down)
	case *ssa.IndexAddr:
		return x.some(v.X).step(down)
	case *ssa.Index:
		return x.some(v.X).step(down)
	case *ssa.Lookup:
		return x.some(v.X).step(down)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return x.some(v.X)
		}
	case *ssa.Slice:
		if k, ok := v.Low.(*ssa.Const); ok && v.Low != nil && k.Int64() > 0 {
			return x.some(v.X).step(down)
		}
		return x.some(v.X)
	case *ssa.ChangeType:
		return x.some(v.X)
	case *ssa.ChangeInterface:
		return x.some(v.X)
	case *ssa.MakeInterface:
		return x.some(v.X)
	case *ssa.TypeAssert:
		return x.some(v.X)
	case *ssa.Convert:
		return x.some(v.X)
	case *ssa.Phi:
		var r parts
		for _, e := range v.Edges {
			if p := x.of(e); p != nil {
				r = joinParts(r, p)
			}
		}
		return r
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return x.some(rg.X).step(down)
			}
		case *ssa.TypeAssert:
			return x.some(t.X)
		case *ssa.Lookup:
			return x.some(t.X).step(down)
		case *ssa.Call:
			return x.result(t, v.Index)
		}
	case *ssa.Alloc:
		// a variable: what is put in it
		var r parts
		known := false
		for _, u := range *v.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
				known = true
				if p := x.of(st.Val); p != nil {
					r = joinParts(r, p)
				}
			}
		}
		if known {
			return r
		}
		for _, u := range *v.Referrers() {
			if mi, isIface := u.(*ssa.MakeInterface); isIface {
				for _, w := range *mi.Referrers() {
					if c, ok := w.(*ssa.Call); ok && calleeName(&c.Call) == "errors.As" {
						return x.some(c.Call.Args[0])
					}
				}
			}
		}
	case *ssa.Call:
		return x.result(v, 0)
	}
	return parts{}
}

func (x *recur) some(v ssa.Value) parts {
	if p := x.of(v); p != nil {
		return p
	}
	return parts{}
}

// field relates a field; what packages refer to is not part of them.
func (x *recur) field(v ssa.Value, f int, down part) parts {
	r := parts{}
	st := deref(v.Type()).Underlying().(*types.Struct)
	switch n := typeName(deref(v.Type())); {
	case n == "pkg/loader.Package", n == "golang.org/x/tools/go/packages.Package", strings.HasPrefix(n, "go/types.") && !st.Field(f).Embedded():
	case strings.HasPrefix(n, "go/types."):
		return x.some(v)
	default:
		r = x.some(v).step(down)
	}
	if al, ok := v.(*ssa.Alloc); ok {
		if q := x.fieldOf(al, f); q != nil {
			for k, p := range q {
				r[k] = p
			}
			return r
		}
	}
	// the field of an input as such
	for {
		switch y := v.(type) {
		case *ssa.UnOp:
			v = y.X
			continue
		case *ssa.Alloc:
			if w := onlyStore(y); w != nil {
				v = w
				continue
			}
		case *ssa.Parameter, *ssa.FreeVar:
			r[input{y.(ssa.Value), f}] = part{}
		}
		return r
	}
}

// onlyStore is what a variable holds that is set once, as a whole.
func onlyStore(a *ssa.Alloc) (v ssa.Value) {
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			if v != nil {
				return nil
			}
			v = st.Val
		}
	}
	return v
}

// fieldOf relates what is put in a field of a new structure; nil if nothing is known.
func (x *recur) fieldOf(a *ssa.Alloc, f int) (r parts) {
	for _, u := range *a.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok || fa.Field != f {
			continue
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				r = joinParts(r, x.some(st.Val))
			}
		}
	}
	return r
}

// result relates what a call returns to the inputs.
func (x *recur) result(c *ssa.Call, i int) parts {
	n := calleeName(&c.Call)
	recv := func(p part) parts {
		if c.Call.IsInvoke() {
			return x.some(c.Call.Value).step(p)
		}
		return x.some(c.Call.Args[0]).step(p)
	}
	switch strings.TrimLeft(n, "(*") {
	case "go/types.Named).Underlying", "go/types.Type.Underlying", "go/types.Type).Underlying", "go/types.Unalias", "go/types.Alias).Rhs", "go/types.Alias).Underlying", "go/types.Named).Origin":
		return recv(part{down: true, under: true})
	case "go/types.Pointer).Elem", "go/types.Slice).Elem", "go/types.Map).Elem", "go/types.Map).Key", "go/types.Chan).Elem", "go/types.Signature).Params", "go/types.Signature).Results":
		return recv(part{down: true, ref: true})
	case "go/types.Array).Elem", "go/types.Struct).Field", "go/types.Var).Type", "go/types.object).Type", "go/types.Tuple).At", "go/types.TypeName).Type", "go/types.Object.Type":
		return recv(part{down: true})
	case "reflect.Type.Elem", "reflect.Type).Elem", "reflect.Type.Key", "reflect.Type).Key", "errors.Unwrap", "reflect.Value).Field", "reflect.Value).Elem", "reflect.Value).Index", "reflect.Value).MapIndex":
		return recv(part{down: true})
	}
	switch strings.TrimLeft(n, "(*") {
	case "reflect.ValueOf", "reflect.Indirect", "reflect.Value).Interface":
		return recv(part{})
	}
	if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil && g.Pkg != nil && isRepoPath(g.Pkg.Pkg.Path()) && i == 0 && len(x.open) < 40 {
		var r parts
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
				if k, isConst := ret.Results[0].(*ssa.Const); isConst && k.IsNil() {
					continue
				}
				r = joinParts(r, x.some(ret.Results[0]))
			}
		}
		out := parts{}
		for in, p := range r {
			if q, ok := in.v.(*ssa.Parameter); ok && in.f < 0 && q.Parent() == g {
				if av := argFor(c, g, q); av != nil {
					for v, s := range x.some(av) {
						out[v] = s.then(p)
					}
				}
			}
		}
		return out
	}
	return parts{}
}

// edge relates the inputs of a callee to those of the caller.
func (x *recur) edge(f, g *ssa.Function, at ssa.Instruction, arg func(i int) ssa.Value) *recEdge {
	e := &recEdge{f, g, at, map[[2]int]part{}}
	ins := inputs(f)
	set := func(j int, ps parts) {
		for i, in := range ins {
			if p, ok := ps[in]; ok {
				e.arcs[[2]int{i, j}] = p
			}
		}
	}
	n := -1
	for j, q := range inputs(g) {
		if q.f < 0 {
			n++
		}
		v := arg(n)
		if v == nil {
			continue
		}
		if q.f >= 0 {
			set(j, x.fieldIn(v, q.f))
			continue
		}
		set(j, x.some(v))
		// a switch that is turned off for good
		if k, ok := v.(*ssa.Const); ok && q.v.Type() == types.Typ[types.Bool] && k.Value != nil && k.Value.String() == "false" {
			for i, in := range ins {
				if in.f < 0 && in.v.Type() == types.Typ[types.Bool] && onlyIf(in.v, at.Block()) {
					e.arcs[[2]int{i, j}] = part{down: true}
				}
			}
		}
	}
	return e
}

// fieldIn relates a field of a structure that is handed on, or the variable that holds it.
func (x *recur) fieldIn(v ssa.Value, f int) parts {
	switch y := v.(type) {
	case *ssa.Alloc:
		if w := onlyStore(y); w != nil {
			return x.fieldIn(w, f)
		}
		if r := x.fieldOf(y, f); r != nil {
			return r
		}
	case *ssa.UnOp:
		if y.Op == token.MUL {
			return x.fieldIn(y.X, f)
		}
	case *ssa.Parameter, *ssa.FreeVar:
		return parts{input{y.(ssa.Value), f}: part{}}
	}
	return parts{}
}

// onlyIf tells whether a block is reached only when a condition holds.
func onlyIf(cond ssa.Value, b *ssa.BasicBlock) bool {
	for _, u := range *cond.Referrers() {
		if i, ok := u.(*ssa.If); ok {
			if s := i.Block().Succs[0]; len(s.Preds) == 1 && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// edges lists the calls a function makes, its closures counting as called where they are made.
func (x *recur) edges(f *ssa.Function) (r []*recEdge) {
	eachInstr(f, func(in ssa.Instruction) {
		switch c := in.(type) {
		case ssa.CallInstruction:
			for _, g := range x.fl.callees(c) {
				if !x.ours(g) || g.Parent() != nil && c.Common().StaticCallee() == nil && !x.local(c, g) {
					continue
				}
				cc := c.Common()
				r = append(r, x.edge(f, g, in, func(j int) ssa.Value {
					if j < len(g.Params) {
						return argFor(c, g, g.Params[j])
					}
					if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
						return mc.Bindings[j-len(g.Params)]
					}
					if g.Parent() == f.Parent() { // a sibling
						for _, v := range f.FreeVars {
							if v.Name() == g.FreeVars[j-len(g.Params)].Name() {
								return v
							}
						}
					}
					return nil
				}))
			}
		case *ssa.MakeClosure:
			g := c.Fn.(*ssa.Function)
			if x.ours(g) {
				r = append(r, x.edge(f, g, in, func(j int) ssa.Value {
					if j < len(g.Params) {
						return nil
					}
					return c.Bindings[j-len(g.Params)]
				}))
			}
		}
	})
	return r
}

// local tells whether a call in a function calls a closure through a variable the closure itself captures:
// how a closure calls itself.
func (x *recur) local(c ssa.CallInstruction, g *ssa.Function) bool {
	for f := c.Parent(); f != nil; f = f.Parent() {
		if f == g || f == g.Parent() {
			return true
		}
	}
	return false
}

func (x *recur) ours(g *ssa.Function) bool {
	if g.Blocks == nil {
		return false
	}
	p := g
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Origin() != nil {
		p = p.Origin()
	}
	return p.Pkg != nil && isRepoPath(p.Pkg.Pkg.Path()) || p.Pkg == nil && p.Object() != nil && p.Object().Pkg() != nil && isRepoPath(p.Object().Pkg().Path())
}

// cycles lists the groups of functions that call each other, and the calls between them.
func (x *recur) cycles() (groups [][]*ssa.Function, calls map[*ssa.Function][]*recEdge) {
	calls = map[*ssa.Function][]*recEdge{}
	idx, low, on := map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]bool{}
	var st []*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		self := false
		calls[f] = x.edges(f)
		for _, e := range calls[f] {
			g := e.to
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			var scc []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				scc = append(scc, g)
				if g == f {
					break
				}
			}
			if len(scc) > 1 || self {
				sort.Slice(scc, func(i, j int) bool { return scc[i].RelString(nil) < scc[j].RelString(nil) })
				groups = append(groups, scc)
			}
		}
	}
	for _, f := range x.w.Funcs {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return groups, calls
}

type sizeGraph struct {
	from, to int
	arcs     map[[2]int]part
}

func (g sizeGraph) String() string {
	var ks []string
	for k, p := range g.arcs {
		ks = append(ks, fmt.Sprint(k, p))
	}
	sort.Strings(ks)
	return fmt.Sprint(g.from, g.to, ks)
}

// ends decides the size-change principle for a group: every chain of calls that can
// be repeated for ever has an input that shrinks each time round.
func (x *recur) ends(group []*ssa.Function, calls map[*ssa.Function][]*recEdge) (ok bool, why string) {
	num := map[*ssa.Function]int{}
	for i, f := range group {
		num[f] = i
	}
	set := map[string]sizeGraph{}
	var work []sizeGraph
	add := func(g sizeGraph) {
		k := g.String()
		if _, old := set[k]; !old {
			set[k] = g
			work = append(work, g)
		}
	}
	for _, f := range group {
		for _, e := range calls[f] {
			if j, in := num[e.to]; in {
				add(sizeGraph{num[f], j, e.arcs})
			}
		}
	}
	compose := func(a, b sizeGraph) sizeGraph {
		r := sizeGraph{a.from, b.to, map[[2]int]part{}}
		for k, p := range a.arcs {
			for l, q := range b.arcs {
				if k[1] != l[0] {
					continue
				}
				n := [2]int{k[0], l[1]}
				s := p.then(q)
				if old, ok := r.arcs[n]; ok && old.shrinks() && !s.shrinks() {
					continue
				}
				r.arcs[n] = s
			}
		}
		return r
	}
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		if len(set) > 20000 {
			return false, "too many chains"
		}
		if g.from == g.to && compose(g, g).String() == g.String() {
			good := false
			for k, p := range g.arcs {
				good = good || k[0] == k[1] && p.shrinks()
			}
			if !good {
				return false, group[g.from].RelString(nil)
			}
		}
		for _, h := range set {
			if g.to == h.from {
				add(compose(g, h))
			}
			if h.to == g.from {
				add(compose(h, g))
			}
		}
	}
	return true, ""
}

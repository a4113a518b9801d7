package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Whole-program value flow over SSA: flow-insensitive, field-based (one
// abstract location per struct field), through parameters, results, closures
// and interface calls resolved by class hierarchy.

type Flow struct {
	w       *World
	funcs   []*ssa.Function
	sites   map[*ssa.Function][]ssa.CallInstruction // direct call sites
	invoke  map[string][]*ssa.Function              // method name -> repo methods
	invSite map[string][]ssa.CallInstruction        // method name -> interface call sites
	stores  map[*types.Var][]ssa.Value              // field -> values stored in it
	gstores map[*ssa.Global][]ssa.Value
	closes  map[*ssa.Function][]*ssa.MakeClosure
	taken   map[*ssa.Function]bool // used as a value
	fatals  map[*ssa.Function]bool // end the process with a failure status
}

func newFlow(w *World) *Flow {
	if w.flow != nil {
		return w.flow
	}
	fl := &Flow{w: w, funcs: w.Funcs, sites: map[*ssa.Function][]ssa.CallInstruction{}, invoke: map[string][]*ssa.Function{}, invSite: map[string][]ssa.CallInstruction{},
		stores: map[*types.Var][]ssa.Value{}, gstores: map[*ssa.Global][]ssa.Value{}, closes: map[*ssa.Function][]*ssa.MakeClosure{}, taken: map[*ssa.Function]bool{}, fatals: map[*ssa.Function]bool{}}
	for _, f := range fl.funcs {
		if f.Signature.Recv() != nil {
			fl.invoke[f.Name()] = append(fl.invoke[f.Name()], f)
		}
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() {
					n := c.Common().Method.Name()
					fl.invSite[n] = append(fl.invSite[n], c)
				} else if callee := c.Common().StaticCallee(); callee != nil {
					if callee.Origin() != nil {
						callee = callee.Origin()
					}
					fl.sites[callee] = append(fl.sites[callee], c)
				}
			}
			switch in := in.(type) {
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr:
					v := fieldOf(a.X.Type(), a.Field)
					fl.stores[v] = append(fl.stores[v], in.Val)
				case *ssa.Global:
					fl.gstores[a] = append(fl.gstores[a], in.Val)
				}
			case *ssa.MakeClosure:
				fn := in.Fn.(*ssa.Function)
				fl.closes[fn] = append(fl.closes[fn], in)
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if fn, ok := (*op).(*ssa.Function); ok {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == *op && !argOf(c, *op) {
						continue
					}
					fl.taken[fn] = true
					if fn.Synthetic != "" && fn.Object() != nil { // a bound method
						if m := w.Prog.FuncValue(fn.Object().(*types.Func)); m != nil {
							fl.taken[m] = true
						}
					}
				}
			}
		})
	}
	w.flow = fl
	return fl
}

func argOf(c ssa.CallInstruction, v ssa.Value) bool {
	for _, a := range c.Common().Args {
		if a == v {
			return true
		}
	}
	return false
}

func fieldOf(t types.Type, i int) *types.Var {
	v := deref(t).Underlying().(*types.Struct).Field(i)
	return v.Origin()
}

// callees resolves a call: static, closures, interface methods of repository types.
func (fl *Flow) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		iface, _ := cc.Value.Type().Underlying().(*types.Interface)
		var r []*ssa.Function
		for _, f := range fl.invoke[cc.Method.Name()] {
			rt := f.Signature.Recv().Type()
			if iface != nil && (types.Implements(rt, iface) || types.Implements(types.NewPointer(rt), iface)) {
				r = append(r, f)
			}
		}
		return r
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		return []*ssa.Function{f}
	}
	var r []*ssa.Function
	for _, o := range fl.origins(cc.Value) {
		switch o := o.(type) {
		case *ssa.Function:
			r = append(r, o)
		case *ssa.MakeClosure:
			r = append(r, o.Fn.(*ssa.Function))
		}
	}
	return r
}

// reach lists the functions reachable from the roots.
func (fl *Flow) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || r[f] {
			return
		}
		if f.Origin() != nil && f.Origin() != f {
			f = f.Origin()
			if r[f] {
				return
			}
		}
		if f.Blocks == nil || f.Pkg != nil && !isRepoPath(f.Pkg.Pkg.Path()) && f.Synthetic == "" {
			return
		}
		r[f] = true
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() {
					for _, g := range fl.callees(c) {
						visit(g)
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					visit(g)
				}
			}
		})
	}
	for _, f := range roots {
		visit(f)
	}
	return r
}

// origins follows a value back to where it comes from: constants, calls of
// functions without a body here, allocations, parameters of entry points,
// field and global loads nothing stores to.
func (fl *Flow) origins(v ssa.Value) []ssa.Value { return fl.originsTo(v, nil) }

// originsTo is origins stopping at the values stop accepts.
func (fl *Flow) originsTo(v ssa.Value, stop func(ssa.Value) bool) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	leaf := func(v ssa.Value) { out = append(out, v) }
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if stop != nil && stop(v) {
			leaf(v)
			return
		}
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.Convert:
			walk(v.X)
		case *ssa.MakeInterface:
			walk(v.X)
		case *ssa.ChangeInterface:
			walk(v.X)
		case *ssa.TypeAssert:
			walk(v.X)
		case *ssa.Slice:
			walk(v.X)
		case *ssa.Extract:
			switch t := v.Tuple.(type) {
			case *ssa.Call:
				fl.results(t, v.Index, walk, leaf, v)
			case *ssa.TypeAssert:
				walk(t.X)
			case *ssa.Lookup:
				leaf(v)
			default:
				leaf(v)
			}
		case *ssa.Call:
			fl.results(v, 0, walk, leaf, v)
		case *ssa.UnOp:
			if v.Op != token.MUL {
				leaf(v)
				return
			}
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				fv := fieldOf(a.X.Type(), a.Field)
				ss := fl.stores[fv]
				if len(ss) == 0 {
					leaf(v)
				}
				for _, s := range ss {
					walk(s)
				}
			case *ssa.Global:
				ss := fl.gstores[a]
				if len(ss) == 0 {
					leaf(v)
				}
				for _, s := range ss {
					walk(s)
				}
			case *ssa.Alloc:
				n := 0
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == a {
						walk(s.Val)
						n++
					}
				}
				if n == 0 {
					leaf(v)
				}
			case *ssa.FreeVar:
				n := 0
				for _, b := range fl.bound(a) {
					if al, ok := b.(*ssa.Alloc); ok {
						for _, u := range *al.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == al {
								walk(s.Val)
								n++
							}
						}
					}
				}
				if n == 0 {
					leaf(v)
				}
			default:
				leaf(v)
			}
		case *ssa.Field:
			fv := fieldOf(v.X.Type(), v.Field)
			ss := fl.stores[fv]
			if len(ss) == 0 {
				leaf(v)
			}
			for _, s := range ss {
				walk(s)
			}
		case *ssa.FreeVar:
			bs := fl.bound(v)
			if len(bs) == 0 {
				leaf(v)
			}
			for _, b := range bs {
				walk(b)
			}
		case *ssa.Parameter:
			as := fl.actuals(v)
			if len(as) == 0 {
				leaf(v)
			}
			for _, a := range as {
				walk(a)
			}
		default:
			leaf(v)
		}
	}
	walk(v)
	return out
}

func (fl *Flow) results(c *ssa.Call, i int, walk, leaf func(ssa.Value), self ssa.Value) {
	cs := []*ssa.Function{}
	if f := c.Call.StaticCallee(); f != nil {
		cs = append(cs, f)
	} else if c.Call.IsInvoke() {
		cs = fl.callees(c)
	}
	n := 0
	for _, f := range cs {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if f.Blocks == nil || f.Pkg != nil && !isRepoPath(f.Pkg.Pkg.Path()) {
			continue
		}
		n++
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				walk(r.Results[i])
			}
		}
	}
	if n == 0 {
		leaf(self)
	}
}

// bound lists what a closure's free variable is bound to.
func (fl *Flow) bound(v *ssa.FreeVar) []ssa.Value {
	f := v.Parent()
	for i, fv := range f.FreeVars {
		if fv == v {
			var r []ssa.Value
			for _, mc := range fl.closes[f] {
				r = append(r, mc.Bindings[i])
			}
			return r
		}
	}
	return nil
}

// actuals lists the arguments passed for a parameter, at direct calls, at
// interface calls that may reach the function, and nothing for function values.
func (fl *Flow) actuals(p *ssa.Parameter) []ssa.Value {
	f := p.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == p {
			idx = i
		}
	}
	var r []ssa.Value
	for _, c := range fl.sites[f] {
		if idx < len(c.Common().Args) {
			r = append(r, c.Common().Args[idx])
		}
	}
	if f.Signature.Recv() != nil {
		for _, c := range fl.invSite[f.Name()] {
			for _, g := range fl.callees(c) {
				if g == f {
					if idx == 0 {
						r = append(r, c.Common().Value)
					} else if idx-1 < len(c.Common().Args) {
						r = append(r, c.Common().Args[idx-1])
					}
				}
			}
		}
	}
	return r
}

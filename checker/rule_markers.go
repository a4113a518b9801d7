package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: the markers each generator registers against the markers its code reads.

// consumer is one place in the code that reads markers.
type consumer struct {
	fn    *ssa.Function
	pos   string
	name  string // "*" when every marker of the set is looked at
	place string // package, type, field; "" when it cannot be told
	types []types.Type
	fixed bool // the name is written down, not computed
}

type markerUse struct {
	w    *World
	fl   *Flow
	m    *M
	mv   types.Type
	sets map[*types.Var]string
}

func newMarkerUse(w *World) *markerUse {
	u := &markerUse{w: w, fl: newFlow(w), m: inited(w), mv: w.typ("pkg/markers", "MarkerValues"), sets: map[*types.Var]string{}}
	ti, fi := w.typ("pkg/markers", "TypeInfo"), w.typ("pkg/markers", "FieldInfo")
	u.sets[fieldOf(ti, fieldIndex(ti, "Markers"))] = "type"
	u.sets[fieldOf(fi, fieldIndex(fi, "Markers"))] = "field"
	return u
}

// place classifies the marker set a value holds.
func (u *markerUse) place(v ssa.Value) string {
	kind := func(v ssa.Value) string {
		switch v := v.(type) {
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
				return u.sets[fieldOf(fa.X.Type(), fa.Field)]
			}
		case *ssa.Field:
			return u.sets[fieldOf(v.X.Type(), v.Field)]
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() == u.w.fn("pkg/markers", "PackageMarkers") {
				return "package"
			}
		}
		return ""
	}
	r := map[string]bool{}
	for _, o := range u.fl.originsTo(v, func(v ssa.Value) bool { return kind(v) != "" }) {
		if c, ok := o.(*ssa.Const); ok && c.IsNil() {
			continue
		}
		r[kind(o)] = true
	}
	if len(r) == 1 {
		for k := range r {
			return k
		}
	}
	var ks []string
	for k := range r {
		if k == "" {
			return ""
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

// names lists the marker names a key may be; ok is false when it is computed.
func (u *markerUse) names(v ssa.Value) (names []string, ok bool) {
	ok = true
	defT := u.w.typ("pkg/markers", "Definition")
	nameF := fieldOf(defT, fieldIndex(defT, "Name"))
	isName := func(v ssa.Value) (ssa.Value, bool) {
		if l, isL := v.(*ssa.UnOp); isL && l.Op == token.MUL {
			if fa, isF := l.X.(*ssa.FieldAddr); isF && fieldOf(fa.X.Type(), fa.Field) == nameF {
				return fa.X, true
			}
		}
		return nil, false
	}
	for _, o := range u.fl.originsTo(v, func(v ssa.Value) bool { _, y := isName(v); return y }) {
		if c, isC := o.(*ssa.Const); isC && c.Value != nil && c.Value.Kind() == constant.String {
			names = append(names, constant.StringVal(c.Value))
			continue
		}
		if d, y := isName(o); y {
			found := false
			for _, g := range u.fl.originsTo(d, func(v ssa.Value) bool {
				l, isL := v.(*ssa.UnOp)
				if !isL {
					return false
				}
				_, isG := l.X.(*ssa.Global)
				return isG
			}) {
				if l, isL := g.(*ssa.UnOp); isL {
					if gl, isG := l.X.(*ssa.Global); isG {
						st := newState()
						p := u.m.load(st, &Val{nil_: nonBit, refs: []*Ref{{obj: u.m.global(gl)}}}, deref(gl.Type()))
						if s, y := u.m.at(st, p, defT, "Name").str(); y {
							names = append(names, s)
							found = true
						}
					}
				}
			}
			if found {
				continue
			}
		}
		ok = false
	}
	return names, ok && len(names) > 0
}

// asserted lists the types a value read from a marker set is asserted to.
func (u *markerUse) asserted(v ssa.Value) []types.Type {
	seen := map[ssa.Value]bool{}
	var r []types.Type
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		rs := v.Referrers()
		if rs == nil {
			return
		}
		for _, in := range *rs {
			switch in := in.(type) {
			case *ssa.TypeAssert:
				r = append(r, in.AssertedType)
				if types.IsInterface(in.AssertedType) {
					walk(in)
				}
			case *ssa.Phi, *ssa.Slice, *ssa.Range, *ssa.Next, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Index, *ssa.Lookup:
				walk(in.(ssa.Value))
			case *ssa.IndexAddr:
				if in.X == v {
					walk(in)
				}
			case *ssa.UnOp:
				walk(in)
			case *ssa.Extract:
				walk(in)
			case *ssa.Store:
				if in.Val == v {
					switch a := in.Addr.(type) {
					case *ssa.Alloc:
						walk(a)
					case *ssa.IndexAddr:
						walk(a.X)
					}
				}
			case *ssa.MakeClosure:
				fn := in.Fn.(*ssa.Function)
				for i, b := range in.Bindings {
					if b == v {
						walk(fn.FreeVars[i])
					}
				}
			case *ssa.Return:
				for i, x := range in.Results {
					if x == v {
						for _, c := range u.fl.sites[in.Parent()] {
							if val, ok := c.(ssa.Value); ok {
								if len(in.Results) == 1 {
									walk(val)
								} else if val.Referrers() != nil {
									for _, e := range *val.Referrers() {
										if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
											walk(ex)
										}
									}
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						walk(in.(ssa.Value))
					}
					continue
				}
				if f := cc.StaticCallee(); f != nil && f.Blocks != nil {
					if f.Pkg != nil && !isRepoPath(f.Pkg.Pkg.Path()) && f.Origin() == nil {
						if val, ok := in.(ssa.Value); ok { // e.g. slices.Clone
							walk(val)
						}
						continue
					}
					for i, a := range cc.Args {
						if a == v && i < len(f.Params) {
							walk(f.Params[i])
						}
					}
				} else if val, ok := in.(ssa.Value); ok {
					walk(val)
				}
			}
		}
	}
	walk(v)
	return r
}

// consumers lists where the given functions read markers.
func (u *markerUse) consumers(in map[*ssa.Function]bool) []consumer {
	var r []consumer
	get := u.w.methodOf(u.mv, "Get")
	if get == nil {
		fatalf("MarkerValues.Get not found")
	}
	var emit func(site ssa.Instruction, set, key ssa.Value, ts []types.Type, depth int)
	emit = func(site ssa.Instruction, set, key ssa.Value, ts []types.Type, depth int) {
		f := site.Parent()
		ps, isS := set.(*ssa.Parameter)
		pk, isK := key.(*ssa.Parameter)
		if isS && isK && depth < 4 && len(u.fl.sites[f]) > 0 {
			ix := func(p *ssa.Parameter) int {
				for i, q := range f.Params {
					if q == p {
						return i
					}
				}
				return -1
			}
			for _, c := range u.fl.sites[f] {
				emit(c, c.Common().Args[ix(ps)], c.Common().Args[ix(pk)], ts, depth+1)
			}
			return
		}
		c := consumer{fn: f, pos: u.w.pos(site.Pos()), place: u.place(set), types: ts}
		if key == nil {
			c.name = "*"
			r = append(r, c)
			return
		}
		ns, ok := u.names(key)
		if !ok {
			c.name = "*"
			r = append(r, c)
		}
		for _, n := range ns {
			d := c
			d.name, d.fixed = n, true
			r = append(r, d)
		}
	}
	for f := range in {
		if f == get {
			continue
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/pkg/markers" {
			continue // the collector itself builds the sets
		}
		eachInstr(f, func(ins ssa.Instruction) {
			switch ins := ins.(type) {
			case *ssa.Lookup:
				if types.Identical(ins.X.Type(), u.mv) {
					emit(ins, ins.X, ins.Index, u.asserted(ins), 0)
				}
			case *ssa.Range:
				if types.Identical(ins.X.Type(), u.mv) {
					emit(ins, ins.X, nil, u.asserted(ins), 0)
				}
			case *ssa.Call:
				if ins.Call.StaticCallee() == get {
					emit(ins, ins.Call.Args[0], ins.Call.Args[1], u.asserted(ins), 0)
				}
			}
		})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].pos+r[i].name < r[j].pos+r[j].name })
	return r
}

func satisfies(out types.Type, ts []types.Type) bool {
	for _, t := range ts {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(out, it) {
				return true
			}
			continue
		}
		if types.Identical(out, t) {
			return true
		}
	}
	return false
}

// inertMarkers are registered markers that only restate the default.
var inertMarkers = map[string]string{
	"kubebuilder:validation:Required(package)": "states the built-in default: without the package marker Optional, fields are required unless omitempty",
}

func checkMarkerUse(c *Check) {
	w := c.W
	u := newMarkerUse(w)
	regs := map[string]string{} // name(place) -> generator and type
	for _, gen := range generatorTypes(w) {
		g := w.methodOf(gen, "Generate")
		if g == nil {
			fatalf("%s.Generate not found", typeName(gen))
		}
		defs := markerTable(w, gen)
		cons := u.consumers(u.fl.reach(g))
		gn := relName(typeName(gen))
		if len(defs) > 0 && len(cons) == 0 {
			c.bad("honoured", gn, w.pos(g.Pos()), "%s registers %d markers but reads none", gn, len(defs))
		}
		byKey := map[string]markerDef{}
		for _, d := range defs {
			byKey[d.Name+"("+targetName(d.Target)+")"] = d
		}
		// every registered marker has an effect
		for _, d := range defs {
			key := d.Name + "(" + targetName(d.Target) + ")"
			pl := targetName(d.Target)
			ok := inertMarkers[key] != ""
			// the schema patcher accepts the crd generator's markers but writes schemas only (C24)
			if gn == "pkg/schemapatcher.Generator" && w.methodOf(d.Out, "ApplyToCRD") != nil {
				ok = true
			}
			for _, x := range cons {
				if x.name != "*" && x.name != d.Name || x.place != "" && !contains(strings.Split(x.place, "|"), pl) {
					continue
				}
				if x.name != "*" && len(x.types) == 0 || satisfies(d.Out, x.types) {
					ok = true
				}
			}
			c.ob(ok, "honoured", key, "", "%s registers %s with values of type %s, but nothing it runs reads such a marker from a %s", gn, d.Name, typeName(d.Out), pl)
			if other := regs[key]; other != "" {
				c.ob(other == typeName(d.Out), "one-type", key, "", "%s is registered for a %s both with values of type %s and of type %s", d.Name, pl, other, typeName(d.Out))
			} else {
				regs[key] = typeName(d.Out)
				c.ob(true, "one-type", key, "", "")
			}
		}
		dup := map[string]string{}
		for _, d := range defs {
			key := d.Name + "(" + targetName(d.Target) + ")"
			c.ob(dup[key] == "" || dup[key] == typeName(d.Out), "one-type", key, "", "%s registers %s for a %s twice with different value types", gn, d.Name, targetName(d.Target))
			dup[key] = typeName(d.Out)
		}
		// every marker the code asks for is registered for the place it looks at
		for _, x := range cons {
			if !x.fixed {
				continue
			}
			var cand []markerDef
			places := strings.Split(x.place, "|")
			if x.place == "" {
				places = []string{"package", "type", "field"}
			}
			for _, pl := range places {
				if d, ok := byKey[x.name+"("+pl+")"]; ok {
					cand = append(cand, d)
				}
			}
			key := fmt.Sprintf("%s(%s)", x.name, x.place)
			c.ob(len(cand) > 0, "offered", key, x.pos, "%s looks for marker %s on a %s, but %s does not register it there", fullName(x.fn), x.name, orPlace(x.place), gn)
			for _, d := range cand {
				if len(x.types) > 0 {
					c.ob(satisfies(d.Out, x.types), "expected-type", key, x.pos, "%s expects values of another type than the %s that marker %s is registered with", fullName(x.fn), typeName(d.Out), x.name)
				}
			}
		}
		// every marker type of the package that knows how to apply itself can be written by users
		if gn == "pkg/crd.Generator" {
			outs := map[string]bool{}
			for _, d := range defs {
				outs[typeName(d.Out)] = true
			}
			mp := w.pkg("pkg/crd/markers")
			for _, n := range mp.Types.Scope().Names() {
				tn, ok := mp.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || !tn.Exported() {
					continue
				}
				if w.methodOf(tn.Type(), "ApplyToSchema") != nil || w.methodOf(tn.Type(), "ApplyToCRD") != nil {
					c.ob(outs[typeName(tn.Type())], "applicable-offered", n, w.pos(tn.Pos()), "no marker with values of type %s is registered, although they can be applied", n)
				}
			}
		}
		c.fact("marker_readers", len(cons))
		c.fact("registered_markers", len(defs))
	}
}

func orPlace(s string) string {
	if s == "" {
		return "declaration"
	}
	return s
}

func init() {
	register("C05", "registration/consumption table cross-check (value flow over SSA)",
		"Registrations are the evaluated marker tables of every generator; consumers are all reads of marker sets in functions reachable from the generator's Generate, with the set's origin (package, type, field) and the asserted value types found by value flow.",
		"Every marker a generator registers is read, for its place and with a type assertion its value type satisfies, by some function reachable from that generator's Generate; every marker name read by name there is registered for that place with a value type the reader asserts; and no name and place has two value types.",
		func(c *Check) {
			checkMarkerUse(c)
			c.atLeast("honoured", 60)
			c.atLeast("offered", 10)
			c.atLeast("one-type", 60)
			c.atLeast("applicable-offered", 30)
		})
}

package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which memory is written, in terms of access paths: an object is named by the
// root it is reached from (a parameter, an allocation, a package variable) and
// the fields and elements followed. A path that leads through an entry of one of
// the shared tables names memory that other readers see.

func init() {
	register("C11", "interprocedural access-path alias analysis (demand-driven, flow-sensitive for local variables): every write, whether by a statement, a callee of the repository or a library function, must not reach memory that is reached through an entry of a shared table",
		"shared tables: the map fields of crd.Parser, crd.Flattener, markers.Collector and markers.Registry, and the roots, files and type information of loaded packages; access paths are cut when they enter the same struct type a second time",
		"taken from a shared table, edited only after a copy", runAlias)
}

const mark = "!" // ends the step of a shared table's map field

// denot names an object: what is reached from root by following path.
type denot struct {
	root ssa.Value
	path string
}

type heapStore struct {
	path string
	val  ssa.Value
	in   ssa.Instruction
	base ssa.Value // the allocation when the address is derived from it in its own function
}

type retKey struct {
	f   *ssa.Function
	i   int
	sfx string
}

type aliasCheck struct {
	w       *World
	c       *Check
	fl      *Flow
	tables  map[string]bool
	lists   map[string]bool // fields that hold lists all generators see
	sums    map[*ssa.Function]map[denot]string
	stores  map[ssa.Value][]heapStore
	taint   map[string]bool
	rets    map[retKey][]denot
	open    map[retKey]bool
	readers map[string][]ssa.Instruction
}

func runAlias(c *Check) {
	w := c.W
	a := &aliasCheck{w: w, c: c, fl: newFlow(w), tables: map[string]bool{}, sums: map[*ssa.Function]map[denot]string{}, stores: map[ssa.Value][]heapStore{}, taint: map[string]bool{}}
	for _, n := range [][2]string{{"pkg/crd", "Parser"}, {"pkg/crd", "Flattener"}, {"pkg/markers", "Collector"}, {"pkg/markers", "Registry"}} {
		a.tables[typeName(w.typ(n[0], n[1]))] = true
	}
	gc := w.typ("pkg/genall", "GenerationContext")
	a.lists = map[string]bool{}
	for i := 0; i < gc.Underlying().(*types.Struct).NumFields(); i++ {
		if _, ok := gc.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice); ok {
			a.lists[a.step(gc, i)] = true
		}
	}
	a.run()
	c.checkHistories()
}

func pjoin(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "/" + b
}

// cut bounds a path: it ends at the second step through a field of one struct type.
func cut(p string) string {
	steps := strings.Split(p, "/")
	seen := map[string]bool{}
	for i, s := range steps {
		if s == "*" {
			return strings.Join(steps[:i+1], "/")
		}
		if k := strings.LastIndex(s, "."); k >= 0 {
			if seen[s[:k]] {
				return strings.Join(append(steps[:i:i], "*"), "/")
			}
			seen[s[:k]] = true
		}
		if i > 12 {
			return strings.Join(append(steps[:i:i], "*"), "/")
		}
	}
	return p
}

// step names a field of a struct type.
func (a *aliasCheck) step(t types.Type, i int) string {
	t = deref(t)
	n := typeName(t)
	if n == "" {
		n = t.Underlying().String()
		if len(n) > 40 {
			n = n[:40]
		}
		n = strings.ReplaceAll(strings.ReplaceAll(n, "/", "_"), "*", "_")
	}
	f := t.Underlying().(*types.Struct).Field(i)
	s := strings.ReplaceAll(n, "/", ":") + "." + f.Name()
	if _, ok := f.Type().Underlying().(*types.Map); ok && a.tables[n] {
		s += mark
	}
	return s
}

func isStructLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type denoter struct {
	a    *aliasCheck
	out  map[denot]bool
	seen map[string]bool
	ids  map[ssa.Value]int
}

// denote lists the objects v followed by the path refers to, at an instruction.
func (a *aliasCheck) denote(v ssa.Value, sfx string, at ssa.Instruction) map[denot]bool {
	d := &denoter{a, map[denot]bool{}, map[string]bool{}, map[ssa.Value]int{}}
	d.walk(v, sfx, at)
	return d.out
}

func (d *denoter) key(v ssa.Value, sfx string, at ssa.Instruction) string {
	id, ok := d.ids[v]
	if !ok {
		id = len(d.ids)
		d.ids[v] = id
	}
	k := strconv.Itoa(id) + " " + sfx
	if _, ok := v.(*ssa.Alloc); ok && at != nil {
		if av, ok := at.(ssa.Value); ok {
			j, ok := d.ids[av]
			if !ok {
				j = len(d.ids)
				d.ids[av] = j
			}
			k += " " + strconv.Itoa(j)
		}
	}
	return k
}

func (d *denoter) walk(v ssa.Value, sfx string, at ssa.Instruction) {
	sfx = cut(sfx)
	k := d.key(v, sfx, at)
	if d.seen[k] {
		return
	}
	d.seen[k] = true
	if !mutableType(v.Type()) {
		return
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.MakeClosure, *ssa.BinOp:
		return
	case *ssa.FreeVar:
		bs := d.a.fl.bound(x)
		for _, b := range bs {
			d.walk(b, sfx, nil)
		}
		if len(bs) == 0 {
			d.out[denot{x, sfx}] = true
		}
	case *ssa.FieldAddr:
		if sfx == "" {
			d.walk(x.X, "", at)
		} else {
			if rest := strings.TrimPrefix(sfx, "·"); rest != sfx { // the field's own content
				sfx = strings.TrimPrefix(rest, "/")
			}
			d.walk(x.X, pjoin(d.a.step(x.X.Type(), x.Field), sfx), at)
		}
	case *ssa.IndexAddr:
		if sfx == "" {
			d.walk(x.X, "", at)
		} else {
			if rest := strings.TrimPrefix(sfx, "·"); rest != sfx {
				sfx = strings.TrimPrefix(rest, "/")
			}
			d.walk(x.X, pjoin("[]", sfx), at)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			d.out[denot{x, sfx}] = true
			return
		}
		if isStructLike(x.Type()) {
			if sfx != "" {
				d.walk(x.X, sfx, x)
			}
			return
		}
		if vals, ok := d.a.overwritten(x); ok {
			for _, v := range vals {
				d.walk(v.val, sfx, v.in)
			}
			return
		}
		d.walk(x.X, pjoin("·", sfx), x)
	case *ssa.Field:
		if sfx == "" && isStructLike(x.Type()) {
			return
		}
		d.walk(x.X, pjoin(d.a.step(x.X.Type(), x.Field), sfx), at)
	case *ssa.Index:
		d.walk(x.X, pjoin("[]", sfx), at)
	case *ssa.Lookup:
		if sfx == "" && isStructLike(x.Type()) {
			return
		}
		d.walk(x.X, pjoin("[]", sfx), at)
	case *ssa.Slice:
		d.walk(x.X, sfx, at)
	case *ssa.ChangeType:
		d.walk(x.X, sfx, at)
	case *ssa.ChangeInterface:
		d.walk(x.X, sfx, at)
	case *ssa.MakeInterface:
		d.walk(x.X, sfx, at)
	case *ssa.TypeAssert:
		d.walk(x.X, sfx, at)
	case *ssa.Convert:
		d.walk(x.X, sfx, at)
	case *ssa.SliceToArrayPointer:
		d.walk(x.X, sfx, at)
	case *ssa.Phi:
		for _, e := range x.Edges {
			d.walk(e, sfx, at)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				if sfx != "" || !isStructLike(x.Type()) {
					d.walk(rg.X, pjoin("[]", sfx), at)
				}
			} else {
				d.out[denot{x, sfx}] = true
			}
		case *ssa.Call:
			d.call(t, x.Index, sfx)
		case *ssa.Lookup:
			if sfx != "" || !isStructLike(x.Type()) {
				d.walk(t.X, pjoin("[]", sfx), at)
			}
		case *ssa.TypeAssert:
			d.walk(t.X, sfx, at)
		default:
			d.out[denot{x, sfx}] = true
		}
	case *ssa.Call:
		d.call(x, 0, sfx)
	case *ssa.Alloc:
		d.out[denot{x, sfx}] = true
		if sfx != "" {
			d.content(x, sfx, at)
		}
	case *ssa.MakeMap, *ssa.MakeSlice:
		d.out[denot{x, sfx}] = true
		if sfx != "" {
			d.content(x, sfx, at)
		}
	default: // parameters, package variables
		d.out[denot{x, sfx}] = true
	}
}

// overwritten lists what a field read through a pointer holds, if the same function
// has set it on every way to the read.
func (a *aliasCheck) overwritten(ld *ssa.UnOp) (r []heapStore, ok bool) {
	fa, isField := ld.X.(*ssa.FieldAddr)
	if !isField {
		return nil, false
	}
	base := fa.X
	for {
		in, inner := base.(*ssa.FieldAddr)
		if !inner {
			break
		}
		base = in.X
	}
	if _, local := base.(*ssa.Alloc); local {
		return nil, false
	}
	kills := map[ssa.Instruction]bool{}
	var all []heapStore
	dom := false
	eachInstr(ld.Parent(), func(in ssa.Instruction) {
		st, isStore := in.(*ssa.Store)
		if !isStore {
			return
		}
		to, isField := st.Addr.(*ssa.FieldAddr)
		if !isField || to.Field != fa.Field || !sameValue(to.X, fa.X) {
			return
		}
		all = append(all, heapStore{val: st.Val, in: in})
		kills[in] = true
		dom = dom || dominates(in, ld)
	})
	if !dom {
		return nil, false
	}
	for _, s := range all {
		others := map[ssa.Instruction]bool{}
		for k := range kills {
			if k != s.in {
				others[k] = true
			}
		}
		if def, isInstr := base.(ssa.Instruction); isInstr {
			others[def] = true
		}
		if between(s.in, ld, others) {
			r = append(r, s)
		}
	}
	return r, true
}

// dominates tells whether one instruction is executed before another, whenever that is.
func dominates(x, y ssa.Instruction) bool {
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, in := range x.Block().Instrs {
		if in == x {
			return true
		}
		if in == y {
			return false
		}
	}
	return false
}

// after removes the steps of p from the front of path; ok is false if they are not there.
func after(path, p string) (rest string, ok bool) {
	if p == "" {
		return path, true
	}
	ps, qs := strings.Split(path, "/"), strings.Split(p, "/")
	for i, q := range qs {
		if i >= len(ps) {
			return "", false
		}
		if ps[i] == "*" {
			return "*", true
		}
		if q == "*" {
			return "*", true
		}
		if ps[i] != q {
			return "", false
		}
	}
	return strings.Join(ps[len(qs):], "/"), true
}

// content follows a path into an allocation, through what is stored there.
func (d *denoter) content(x ssa.Value, sfx string, at ssa.Instruction) {
	ss := d.a.stores[x]
	for _, s := range ss {
		rest, ok := after(sfx, s.path)
		if !ok {
			continue
		}
		if at != nil && s.base == x && s.in.Parent() == at.Parent() && !d.a.arrives(s, at, sfx, ss) {
			continue
		}
		if rest == "" && isStructLike(s.val.Type()) {
			continue
		}
		d.walk(s.val, rest, s.in)
		if rest == "*" {
			d.walk(s.val, "", s.in)
		}
	}
}

// arrives tells whether what a store puts into a variable may still be there at an
// instruction: not if every way there goes through another store to the same place.
func (a *aliasCheck) arrives(s heapStore, at ssa.Instruction, sfx string, all []heapStore) bool {
	kills := map[ssa.Instruction]bool{}
	for _, o := range all {
		if o.in == s.in || o.base != s.base || o.in.Parent() != at.Parent() || strings.Contains(o.path, "[]") {
			continue
		}
		if _, ok := after(s.path, o.path); ok && !strings.Contains(s.path, "*") {
			kills[o.in] = true
		}
	}
	if al, ok := s.base.(ssa.Instruction); ok {
		kills[al] = true // a new variable
	}
	return between(s.in, at, kills)
}

// between tells whether control may get from one instruction to another without passing any of the others.
func between(from, to ssa.Instruction, without map[ssa.Instruction]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, i int) bool
	scan = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true
			}
			if without[b.Instrs[i]] {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range from.Block().Instrs {
		if in == from {
			return scan(from.Block(), i+1)
		}
	}
	return true
}

// call lists what the i-th result of a call refers to.
func (d *denoter) call(c *ssa.Call, i int, sfx string) {
	a := d.a
	args := c.Call.Args
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		d.out[denot{c, sfx}] = true
		if b.Name() == "append" {
			d.walk(args[0], sfx, c)
			if sfx != "" && len(args) > 1 {
				d.walk(args[1], sfx, c)
			}
		}
		return
	}
	known := false
	for _, g := range a.fl.callees(c) {
		if g.Blocks == nil || g.Pkg != nil && !isRepoPath(g.Pkg.Pkg.Path()) {
			continue
		}
		known = true
		for _, r := range a.results(g, i, sfx) {
			p, ok := r.root.(*ssa.Parameter)
			if !ok || p.Parent() != g {
				d.out[r] = true
				continue
			}
			if av := argFor(c, g, p); av != nil {
				d.walk(av, r.path, c)
			}
		}
	}
	n := calleeName(&c.Call)
	if known && !(c.Call.IsInvoke() && !isRepoPath(methodPkg(&c.Call))) {
		return
	}
	d.out[denot{c, sfx}] = true
	switch {
	case strings.Contains(n, ".DeepCopy"), pureResult(n):
	case strings.HasPrefix(n, "slices.Clip"), strings.HasPrefix(n, "slices.Grow"), strings.HasPrefix(n, "slices.Compact"), strings.HasPrefix(n, "slices.Delete"):
		d.walk(args[0], sfx, c)
	case strings.HasPrefix(n, "slices.Clone"), strings.HasPrefix(n, "maps.Clone"), strings.HasPrefix(n, "slices.Concat"):
		if sfx != "" {
			d.walk(args[0], sfx, c)
		}
	default:
		if c.Call.IsInvoke() {
			d.walk(c.Call.Value, "*", c)
		}
		for _, x := range args {
			if mutableType(x.Type()) {
				d.walk(x, "", c)
				d.walk(x, "*", c)
			}
		}
	}
}

func methodPkg(cc *ssa.CallCommon) string {
	if cc.Method != nil && cc.Method.Pkg() != nil {
		return cc.Method.Pkg().Path()
	}
	return ""
}

// pureResult tells whether what a library function returns is new or immutable.
func pureResult(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range []string{"fmt.", "strings.", "strconv.", "errors.", "bytes.", "encoding/json.Marshal", "sigs.k8s.io/yaml.Marshal", "os.", "path.", "path/filepath.", "reflect.New", "reflect.TypeOf", "go/types.", "go/token.", "go/format.", "io.", "regexp.", "sort."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// argFor is the value a call passes for a parameter of a callee.
func argFor(c ssa.CallInstruction, g *ssa.Function, p *ssa.Parameter) ssa.Value {
	cc := c.Common()
	for i, q := range g.Params {
		if q != p {
			continue
		}
		if cc.IsInvoke() {
			if i == 0 {
				return cc.Value
			}
			i--
		}
		if i < len(cc.Args) {
			return cc.Args[i]
		}
	}
	return nil
}

// results lists what a result of a function of the repository refers to, in terms of its parameters.
func (a *aliasCheck) results(g *ssa.Function, i int, sfx string) []denot {
	k := retKey{g, i, sfx}
	if r, ok := a.rets[k]; ok {
		return r
	}
	if a.open[k] {
		return nil
	}
	a.open[k] = true
	set := map[denot]bool{}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			for o := range a.denote(r.Results[i], sfx, r) {
				set[o] = true
			}
		}
	}
	delete(a.open, k)
	var out []denot
	for o := range set {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	if len(a.open) == 0 || true {
		a.rets[k] = out
	}
	return out
}

// shared tells whether a path leads into an entry of a shared table, and which.
func (a *aliasCheck) shared(o denot) string {
	steps := strings.Split(o.path, "/")
	for i, s := range steps {
		if strings.HasSuffix(s, mark) && i+1 < len(steps) {
			return strings.TrimSuffix(s, mark)
		}
		if a.taint[s] {
			return s
		}
	}
	if last := steps[len(steps)-1]; a.lists[last] {
		return last
	}
	return ""
}

// addrPath splits an address into the value it is derived from and the path from there.
func (a *aliasCheck) addrPath(v ssa.Value) (base ssa.Value, path string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		b, p := a.addrPath(x.X)
		if _, ok := x.X.(*ssa.FieldAddr); !ok {
			if _, ok := x.X.(*ssa.IndexAddr); !ok {
				b, p = x.X, ""
			}
		}
		return b, pjoin(p, a.step(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		b, p := a.addrPath(x.X)
		if _, ok := x.X.(*ssa.FieldAddr); !ok {
			if _, ok := x.X.(*ssa.IndexAddr); !ok {
				b, p = x.X, ""
			}
		}
		return b, pjoin(p, "[]")
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok && !isStructLike(p.Elem()) {
		return v, "·"
	}
	return v, ""
}

// collect notes what is stored where.
func (a *aliasCheck) collect() {
	next := map[ssa.Value][]heapStore{}
	taint := map[string]bool{}
	put := func(base ssa.Value, path string, val ssa.Value, in ssa.Instruction) {
		if !mutableType(val.Type()) {
			if _, ok := val.(*ssa.Const); !ok {
				if path != "" || !isStructLike(val.Type()) {
					// still a new value of the variable
				}
			}
		}
		switch base.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			next[base] = append(next[base], heapStore{cut(path), val, in, base})
			return
		}
		if !mutableType(val.Type()) {
			return
		}
		for o := range a.denote(base, "", in) {
			switch o.root.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Call:
				next[o.root] = append(next[o.root], heapStore{cut(pjoin(o.path, path)), val, in, nil})
			default:
				// into an object that is not known here: by field
				steps := strings.Split(pjoin(o.path, path), "/")
				last := steps[len(steps)-1]
				if last == "[]" || last == "·" || last == "*" || last == "" || strings.HasSuffix(last, mark) || strings.HasPrefix(last, "k8s.io") {
					continue
				}
				for v := range a.denote(val, "", in) {
					if a.shared(v) != "" {
						taint[last] = true
					}
				}
			}
		}
	}
	for _, f := range a.w.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				b, p := a.addrPath(x.Addr)
				put(b, p, x.Val, in)
			case *ssa.MapUpdate:
				put(x.Map, "[]", x.Value, in)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
					if sl, ok := x.Call.Args[1].Type().Underlying().(*types.Slice); ok && mutableType(sl.Elem()) {
						put(x.Call.Args[0], "", x.Call.Args[1], in)
					}
				}
			}
		})
	}
	a.stores = next
	a.taint = taint
}

type writeTo struct {
	v    ssa.Value
	path string
	how  string
}

// writes lists what an instruction writes.
func (a *aliasCheck) writes(in ssa.Instruction) (r []writeTo) {
	switch x := in.(type) {
	case *ssa.Store:
		b, _ := a.addrPath(x.Addr)
		return []writeTo{{b, "", "writes"}}
	case *ssa.MapUpdate:
		return []writeTo{{x.Map, "", "writes an entry of"}}
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "delete", "clear":
				return []writeTo{{cc.Args[0], "", b.Name() + "s"}}
			case "append":
				if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.Max != nil {
					return nil
				}
				return []writeTo{{cc.Args[0], "", "appends to"}}
			}
			return nil
		}
		known := false
		for _, g := range a.fl.callees(x) {
			s, ok := a.sums[g]
			if !ok {
				continue
			}
			known = true
			for o, how := range s {
				p := o.root.(*ssa.Parameter)
				if v := argFor(x, g, p); v != nil {
					r = append(r, writeTo{v, o.path, how})
				}
			}
		}
		n := calleeName(cc)
		if known && !(cc.IsInvoke() && !isRepoPath(methodPkg(cc))) {
			return r
		}
		trim := strings.TrimLeft(n, "(*")
		switch {
		case strings.HasPrefix(trim, "sort.S"), strings.HasPrefix(trim, "sort.I"), strings.HasPrefix(trim, "sort.F"), strings.HasPrefix(trim, "slices.Sort") && !strings.HasPrefix(trim, "slices.Sorted"), strings.HasPrefix(trim, "slices.Reverse"), strings.HasPrefix(trim, "slices.Compact"), strings.HasPrefix(trim, "slices.Delete"), strings.HasPrefix(trim, "slices.Insert"), strings.HasPrefix(trim, "slices.Replace"), strings.HasPrefix(trim, "maps.Copy"), strings.HasPrefix(trim, "maps.DeleteFunc"):
			return append(r, writeTo{cc.Args[0], "", "is changed by " + trim + ":"})
		case strings.HasPrefix(trim, "k8s.io/apimachinery/pkg/util/sets.") && !strings.HasSuffix(n, ").Insert") && !strings.HasSuffix(n, ").Delete"), strings.HasPrefix(trim, "encoding/json.Encoder)"), strings.HasPrefix(trim, "k8s.io/apimachinery/pkg/runtime.Scheme).Convert"):
			return r
		case strings.HasSuffix(n, ").DeepCopyInto"):
			to := cc.Args[len(cc.Args)-1]
			return append(r, writeTo{to, "", "copies into"})
		case pureCallee(n), strings.HasPrefix(trim, "sort."), strings.HasPrefix(trim, "slices."), strings.HasPrefix(trim, "maps."):
			return r
		}
		if cc.StaticCallee() == nil && !cc.IsInvoke() {
			return r
		}
		if strings.HasPrefix(trim, "sync.") || strings.HasPrefix(trim, "fmt.") || strings.HasPrefix(trim, "os.") || strings.HasPrefix(trim, "io.") {
			return r
		}
		for _, v := range cc.Args {
			if mutableType(v.Type()) {
				r = append(r, writeTo{v, "", "hands to " + trim}, writeTo{v, "*", "hands to " + trim})
			}
		}
	}
	return r
}

// onlyReader tells whether the table is one the function made, and nothing but
// one instruction of this function reads the entries of such tables: then no
// other reader sees what happens to an entry.
func (a *aliasCheck) onlyReader(f *ssa.Function, o denot, table string) bool {
	al, ok := o.root.(*ssa.Alloc)
	if !ok || al.Parent() != f || !strings.HasPrefix(o.path, table+mark) {
		return false
	}
	if a.readers == nil {
		a.readers = map[string][]ssa.Instruction{}
		for _, g := range a.w.Funcs {
			eachInstr(g, func(in ssa.Instruction) {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.Lookup:
					m = x.X
					if x.CommaOk {
						used := false
						for _, u := range *x.Referrers() {
							if e, ok := u.(*ssa.Extract); ok && e.Index == 0 && len(*e.Referrers()) > 0 {
								used = true
							}
						}
						if !used {
							return
						}
					}
				case *ssa.Range:
					m = x.X
				case *ssa.UnOp:
					// the table itself handed on
					fa, ok := x.X.(*ssa.FieldAddr)
					if !ok {
						return
					}
					for _, u := range *x.Referrers() {
						switch u := u.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.MapUpdate, *ssa.BinOp, *ssa.DebugRef:
							continue
						case *ssa.Call:
							if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
								continue
							}
						}
						t := strings.TrimSuffix(a.step(fa.X.Type(), fa.Field), mark)
						a.readers[t] = append(a.readers[t], in)
						return
					}
					return
				default:
					return
				}
				ld, ok := m.(*ssa.UnOp)
				if !ok {
					return
				}
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					t := strings.TrimSuffix(a.step(fa.X.Type(), fa.Field), mark)
					a.readers[t] = append(a.readers[t], in)
				}
			})
		}
	}
	rs := a.readers[table]
	return len(rs) == 1 && rs[0].Parent() == f
}

// entryShares tells which other shared table what is reached through an entry of a table belongs to.
func (a *aliasCheck) entryShares(o denot, table string) (r string) {
	rest, ok := after(o.path, table+mark+"/[]")
	if !ok || rest == "" {
		return ""
	}
	for _, f := range a.w.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			up, isUpdate := in.(*ssa.MapUpdate)
			if !isUpdate {
				return
			}
			ld, isLoad := up.Map.(*ssa.UnOp)
			if !isLoad {
				return
			}
			fa, isField := ld.X.(*ssa.FieldAddr)
			if !isField || a.step(fa.X.Type(), fa.Field) != table+mark {
				return
			}
			for v := range a.denote(up.Value, rest, in) {
				if s := a.shared(v); s != "" && s != table && (r == "" || s < r) {
					r = s
				}
			}
		})
	}
	return r
}

func (a *aliasCheck) run() {
	w := a.w
	for round := 0; round < 3; round++ {
		a.rets, a.open = map[retKey][]denot{}, map[retKey]bool{}
		a.collect()
	}
	a.rets, a.open = map[retKey][]denot{}, map[retKey]bool{}
	for _, f := range w.Funcs {
		a.sums[f] = map[denot]string{}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				for _, wr := range a.writes(in) {
					if wr.how == "appends to" {
						continue
					}
					for o := range a.denote(wr.v, wr.path, in) {
						p, ok := o.root.(*ssa.Parameter)
						if !ok || a.shared(o) != "" { // reported here, not again at every caller
							continue
						}
						if _, ok := a.sums[p.Parent()][o]; !ok && a.sums[p.Parent()] != nil {
							how := wr.how
							if !strings.Contains(how, " at ") {
								how += " at " + w.pos(in.Pos())
							}
							a.sums[p.Parent()][o] = how
							changed = true
						}
					}
				}
			})
		}
	}
	n := 0
	for _, f := range w.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			for _, wr := range a.writes(in) {
				n++
				bad := ""
				var ps []string
				for o := range a.denote(wr.v, wr.path, in) {
					s := a.shared(o)
					if s != "" && a.onlyReader(f, o, s) {
						s = a.entryShares(o, s)
					}
					if s != "" {
						ps = append(ps, s)
					}
				}
				sort.Strings(ps)
				if len(ps) > 0 {
					bad = ps[0]
				}
				a.c.ob(bad == "", "write", f.RelString(nil)+" "+bad, w.pos(in.Pos()), "%s %s memory reached through an entry of %s", f.RelString(nil), wr.how, bad)
			}
		})
	}
	a.c.atLeast("write", 500)
}

// checkHistories interprets the flattening of types that refer to each other, requested
// from one parser in every order: every type gets the schema it gets alone, the schemas
// read stay as they were, and so do the results of earlier requests.
func (c *Check) checkHistories() {
	w := c.W
	ps := w.typ("pkg/crd", "Parser")
	ti := w.typ("pkg/crd", "TypeIdent")
	lp := w.typ("pkg/loader", "Package")
	fn := w.methodOf(ps, "NeedFlattenedSchemaFor")
	pos := w.pos(fn.Pos())
	names := []string{"A", "B", "C"}
	alone := map[string]string{}
	run := func(order []string) {
		q := newSchemaPlaces(w, inited(w))
		m := q.m
		m.maxRec = 8
		for _, name := range []string{"NeedSchemaFor", "NeedPackage"} {
			m.hooks[w.methodOf(ps, name).String()] = func(st *State, cl *Call) ([]Out, bool) { return []Out{{st: st}}, true }
		}
		m.hooks["(*"+modPath+"/pkg/loader.Package).AddError"] = func(st *State, cl *Call) ([]Out, bool) { st.count("errors"); return []Out{{st: st}}, true }
		m.hooks["(*"+modPath+"/pkg/loader.Package).Imports"] = func(st *State, cl *Call) ([]Out, bool) {
			return one(st, m.mapOf(st, "imports", cl.res.At(0).Type())), true
		}
		st := newState()
		raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
		pkg := m.cellOf(st, "pkg", lp, structOf(lp, "Package", m.cellOf(st, "raw", raw, structOf(raw, "PkgPath", strVal("example.com/v1"), "Name", strVal("v1")))))
		ident := func(n string) *Val { return structOf(ti, "Package", pkg, "Name", strVal(n)) }
		ref := func(id, n string) *Val {
			return m.cellOf(st, "ref."+id, types.Typ[types.String], strVal("#/definitions/"+n))
		}
		pt := fieldType(q.t, "Properties")
		two := func(id, to string) *Val {
			all := m.sliceOf(st, id+".all", q.t, structOf(q.t, "Ref", ref(id+".e", to)), structOf(q.t, "Properties", m.mapOf(st, id+".own", pt, strVal("own"), structOf(q.t, "Type", strVal("string"), "Description", strVal("own")))))
			return structOf(q.t, "Type", strVal("object"), "Description", strVal(id), "AllOf", all, "Required", m.sliceOf(st, id+".req", types.Typ[types.String], strVal("x")),
				"Properties", m.mapOf(st, id+".props", pt,
					strVal("x"), structOf(q.t, "Ref", ref(id+".x", to), "Description", strVal("x of "+id), "Title", strVal("t")),
					strVal("y"), structOf(q.t, "Ref", ref(id+".y", to), "Nullable", constVal(true))))
		}
		leaf := structOf(q.t, "Type", strVal("object"), "Description", strVal("leaf"), "Required", m.sliceOf(st, "leaf.req", types.Typ[types.String], strVal("in")),
			"Properties", m.mapOf(st, "leaf.props", pt, strVal("in"), structOf(q.t, "Type", strVal("string"), "Description", strVal("leaf field"))))
		sm := fieldType(ps, "Schemata")
		schemata := m.mapOf(st, "schemata", sm, ident("A"), two("A", "B"), ident("B"), two("B", "C"), ident("C"), leaf)
		parser := m.cellOf(st, "parser", ps, structOf(ps, "Schemata", schemata))
		before := m.canon(st, schemata, sm, 0)
		what := strings.Join(order, ", then ")
		got := map[string]string{}
		for _, n := range order {
			m.maxStep = m.steps + 1_000_000
			outs := m.interp(st, fn, parser, ident(n))
			if !c.ob(len(outs) == 1 && len(m.over) == 0 && outs[0].panics == "" && outs[0].st.notes["errors"] == nil, "histories", what+" decided", pos, "%s: flattening %s is not determined: %d outcomes, %v", what, n, len(outs), m.over) {
				return
			}
			st = outs[0].st
			c.ob(m.canon(st, schemata, sm, 0) == before, "histories", what+" reads", pos, "%s: flattening %s changes the schemas it reads", what, n)
			table := m.getField(m.load(st, parser, ps), ps, "FlattenedSchemata")
			for _, o := range append(order[:0:0], order...) {
				outs := m.mapLookup(st, table, ident(o), sm.Underlying().(*types.Map), true)
				if !c.ob(len(outs) == 1, "histories", what+" table", pos, "%s: the table of flattened schemas is not determined", what) {
					return
				}
				v := outs[0].res[0]
				if there, known := outs[0].res[1].boolean(); !known || !there {
					continue
				}
				s := m.canon(st, v, q.t, 0)
				if old, ok := got[o]; ok {
					c.ob(old == s, "histories", what+" keeps "+o, pos, "%s: flattening %s changes the schema of %s handed out before", what, n, o)
				}
				got[o] = s
				if len(order) == 1 {
					alone[o] = s
				} else {
					c.ob(s == alone[o], "histories", what+" gives "+o, pos, "%s: %s does not get the schema it gets alone", what, o)
				}
			}
			c.ob(got[n] != "", "histories", what+" answers "+n, pos, "%s: there is no schema for %s", what, n)
		}
	}
	for _, n := range names {
		run([]string{n})
	}
	var perm func(done, left []string)
	perm = func(done, left []string) {
		if len(done) > 1 {
			run(done)
		}
		for i := range left {
			rest := append(append([]string{}, left[:i]...), left[i+1:]...)
			perm(append(append([]string{}, done...), left[i]), rest)
		}
	}
	perm(nil, names)
}

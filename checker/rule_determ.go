package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// region is a part of a function that is run once per element of a collection
// whose order is not specified: the body of a loop, or a function given to an iterator.
type region struct {
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool
	head   *ssa.BasicBlock    // of a loop
	elems  map[ssa.Value]bool // the values of the iteration
	key    ssa.Value          // a value that differs between iterations
	what   string
	pos    token.Pos
	src    ssa.Value // what is ranged over
	rng    *ssa.Range
}

// accum is something a region collects in the order of its iterations.
type accum struct {
	v     ssa.Value // a slice carried around the loop
	path  string    // or a place in memory
	addr  ssa.Value
	pos   token.Pos
	isMap bool // a map whose elements are collected
}

type orderIssue struct {
	pos token.Pos
	msg string
}

type determ struct {
	w     *World
	fl    *Flow
	eff   *Effects
	memo  map[string][]orderIssue
	busy  map[string]bool
	sortd map[string]bool // function and parameter: sorted when the function returns
}

func (d *determ) path(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return d.path(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.Field:
		return d.path(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return d.path(x.X) + "*"
		}
	case *ssa.ChangeType:
		return d.path(x.X)
	case *ssa.IndexAddr:
		if c, ok := x.Index.(*ssa.Const); ok {
			return d.path(x.X) + "[" + c.String() + "]"
		}
	case *ssa.FreeVar:
		if bs := d.fl.bound(x); len(bs) == 1 {
			return d.path(bs[0])
		}
	}
	p := ""
	if f := v.Parent(); f != nil {
		p = f.RelString(nil) + ":"
	}
	return p + v.Name()
}

// loopBlocks lists the blocks of the natural loop of head, with the blocks only its body leads to.
func loopBlocks(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	nat := map[*ssa.BasicBlock]bool{head: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if !nat[b] {
			nat[b] = true
			for _, p := range b.Preds {
				up(p)
			}
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			up(p)
		}
	}
	for _, s := range head.Succs {
		if !nat[s] || s == head {
			continue
		}
		for _, b := range head.Parent().Blocks {
			if s.Dominates(b) && len(s.Preds) == 1 {
				nat[b] = true
			}
		}
	}
	return nat
}

func (g *region) in(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	if !ok {
		return g.head == nil && g.elems[v]
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == g.head {
		return true
	}
	return i.Parent() == g.fn && g.blocks[i.Block()]
}

func (g *region) invariant(v ssa.Value) bool { return !g.in(v) && !g.elems[v] }

// value identifies a value that is the same in every iteration.
func (g *region) value(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return x.String(), true
	case *ssa.MakeInterface:
		return g.value(x.X)
	case *ssa.ChangeType:
		return g.value(x.X)
	case *ssa.UnOp:
		// an empty structure, or a variable nothing in the loop writes
		if a, ok := x.X.(*ssa.Alloc); ok {
			if s, ok := deref(a.Type()).Underlying().(*types.Struct); ok && s.NumFields() == 0 {
				return "{}", true
			}
		}
		if gl, ok := x.X.(*ssa.Global); ok {
			return gl.String(), true
		}
	}
	if s, ok := v.Type().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return "{}", true
	}
	if g.invariant(v) {
		return v.Name(), true
	}
	return "", false
}

// identity tells whether v differs between iterations whenever their keys do.
func (g *region) identity(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return g.identity(x.X)
	case *ssa.ChangeType:
		return g.identity(x.X)
	case *ssa.Convert:
		return g.identity(x.X)
	case *ssa.UnOp: // a structure made in the iteration with the key in it, or the key's variable
		if a, ok := x.X.(*ssa.Alloc); ok && g.in(a) {
			ok := false
			for _, u := range *a.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					ok = ok || u.Addr == a && g.identity(u.Val)
				case *ssa.FieldAddr:
					for _, w := range *u.Referrers() {
						if s, k := w.(*ssa.Store); k && s.Addr == u {
							ok = ok || g.identity(s.Val)
						}
					}
				}
			}
			return ok
		}
	}
	if v != nil && v == g.key {
		return true
	}
	// pointers kept under different keys are different pointers
	_, ptr := v.Type().Underlying().(*types.Pointer)
	return ptr && g.elems[v]
}

// sortCall recognises a call that puts a slice in order: the slice and how elements are compared.
func sortCall(c ssa.CallInstruction) (s ssa.Value, less ssa.Value, ok bool) {
	args := c.Common().Args
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			default:
				return v
			}
		}
	}
	switch n := calleeName(c.Common()); n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return strip(args[0]), nil, true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return strip(args[0]), args[1], true
	case "sort.Sort", "sort.Stable":
		if mi, ok := args[0].(*ssa.MakeInterface); ok {
			switch typeName(mi.X.Type()) {
			case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
				return strip(args[0]), nil, true
			}
			return strip(args[0]), mi, true
		}
	}
	return nil, nil, false
}

// issues lists what makes the outcome of a region depend on the order of its iterations.
func (d *determ) issues(g *region) []orderIssue {
	if g.src != nil && d.single(g) {
		return nil
	}
	var out []orderIssue
	bad := func(p token.Pos, format string, a ...any) {
		if !p.IsValid() {
			p = g.pos
		}
		out = append(out, orderIssue{p, fmt.Sprintf(format, a...)})
	}
	var accs []accum
	consts := map[string]map[string]bool{} // place → invariant values given to it
	setConst := func(place, val string, p token.Pos) {
		if consts[place] == nil {
			consts[place] = map[string]bool{}
		}
		if consts[place][val] = true; len(consts[place]) > 1 {
			bad(p, "is set to different values by different iterations, so that the last one decides")
		}
	}
	// own tells whether memory belongs to the iteration
	own := func(v ssa.Value) (bool, ssa.Value) {
		for r := range d.eff.rootsTo(v, func(v ssa.Value) bool { return g.elems[v] }) {
			if g.elems[r] {
				continue
			}
			switch r.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Call, *ssa.MakeClosure, *ssa.Extract:
				if g.in(r) {
					continue
				}
			}
			return false, r
		}
		return true, nil
	}

	// values carried from one iteration to the next
	if g.head != nil {
		for _, in := range g.head.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			isAcc := false
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value) bool // v keeps or extends p
			walk = func(v ssa.Value) bool {
				if v == p {
					return true
				}
				if seen[v] {
					return true
				}
				seen[v] = true
				if val, ok := g.value(v); ok {
					if _, isConst := v.(*ssa.Const); isConst || g.invariant(v) {
						setConst("phi "+p.Name(), val, p.Pos())
						return true
					}
				}
				switch x := v.(type) {
				case *ssa.Phi:
					r := true
					for _, e := range x.Edges {
						r = walk(e) && r
					}
					return r
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && walk(x.Call.Args[0]) {
						isAcc = true
						return true
					}
				case *ssa.BinOp:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
						switch x.Op {
						case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
							if walk(x.X) || x.Op != token.SUB && walk(x.Y) {
								return true
							}
						}
					}
				}
				return false
			}
			okAll := true
			for i, e := range p.Edges {
				if g.blocks[g.head.Preds[i]] {
					okAll = walk(e) && okAll
				}
			}
			if !okAll && d.compared(p, map[ssa.Value]bool{}) {
				continue
			}
			if !okAll {
				bad(p.Pos(), "%s is carried from one iteration to the next", valName(p))
			} else if isAcc {
				accs = append(accs, accum{v: p, pos: p.Pos()})
			}
		}
	}
	inLoopUse := map[ssa.Instruction]bool{}
	_ = inLoopUse
	accPath := map[string]bool{}
	// appendTo tells whether v is what is at path with elements added
	var appendTo func(v ssa.Value, path string, depth int) bool
	appendTo = func(v ssa.Value, path string, depth int) bool {
		if depth > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			return x.Op == token.MUL && d.path(x.X) == path
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !appendTo(e, path, depth+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return appendTo(x.Call.Args[0], path, depth+1)
			}
		}
		return false
	}
	sumTo := func(v ssa.Value, path string) bool {
		x, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		b, ok := x.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString != 0 {
			return false
		}
		u, ok := x.X.(*ssa.UnOp)
		return ok && (x.Op == token.ADD || x.Op == token.OR || x.Op == token.SUB) && u.Op == token.MUL && d.path(u.X) == path
	}
	for _, b := range g.fn.Blocks {
		if !g.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ok, _ := own(x.Addr); ok {
					continue
				}
				pa := d.path(x.Addr)
				if val, ok := g.value(x.Val); ok {
					setConst(pa, val, x.Pos())
					continue
				}
				if appendTo(x.Val, pa, 0) {
					if !accPath[pa] {
						accPath[pa] = true
						accs = append(accs, accum{path: pa, addr: x.Addr, pos: x.Pos()})
					}
					continue
				}
				if sumTo(x.Val, pa) {
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if g.identityIndex(ia.Index) {
						continue // each iteration has its own slot
					}
					if _, ok := ia.X.Type().Underlying().(*types.Slice); ok && g.counter(ia.Index) {
						if g.invariant(ia.X) {
							accs = append(accs, accum{v: ia.X, pos: x.Pos()})
							continue
						}
						if l, ok := ia.X.(*ssa.UnOp); ok && g.invariant(l.X) {
							accs = append(accs, accum{path: d.path(l.X), addr: l.X, pos: x.Pos()})
							continue
						}
					}
				}
				bad(x.Pos(), "writes a value that differs between iterations to a place they share")
			case *ssa.MapUpdate:
				if ok, _ := own(x.Map); ok || d.eff.unordered(x) {
					continue
				}
				if g.identity(x.Key) {
					continue
				}
				if _, ok := g.value(x.Value); ok {
					setConst("map "+d.path(x.Map), must2(g.value(x.Value)), x.Pos())
					continue
				}
				// a map from map keys, which gives the same value to the same key, is left to the reader below
				if c, ok := x.Value.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						accs = append(accs, accum{v: x.Map, pos: x.Pos(), isMap: true})
						continue
					}
				}
				bad(x.Pos(), "writes map entries whose keys iterations may share")
			case *ssa.Send:
				bad(x.Pos(), "sends values in the order of the iterations")
			case *ssa.Return:
				if g.head == nil {
					continue // an iterator's function: true and false only
				}
				for _, r := range x.Results {
					if _, ok := g.value(r); !ok && !g.guarded(b) {
						bad(x.Pos(), "returns a value of whichever iteration comes first")
						break
					}
				}
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					continue
				}
				if d.eff.unordered(x) {
					continue
				}
				if _, ok := in.(*ssa.Go); ok {
					out = append(out, d.goroutine(g, x)...)
					continue
				}
				vs, world := d.eff.callWrites(x)
				if s, _, ok := sortCall(x); ok {
					vs, world = []ssa.Value{s}, ""
				}
				if world != "" {
					bad(x.Pos(), "%s, in the order of the iterations", worldText(x, world))
					continue
				}
				for _, v := range vs {
					if ok, r := own(v); !ok {
						bad(x.Pos(), "the call of %s changes %s in the order of the iterations", callText(x), valName(r))
						break
					}
				}
			}
		}
		// leaving early
		if g.head != nil && b != g.head {
			for _, s := range b.Succs {
				if g.blocks[s] {
					continue
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for i, e := range p.Edges {
						if s.Preds[i] != b {
							continue
						}
						if _, ok := g.value(e); !ok && !g.guarded(b) && !isCarried(e, g) {
							bad(p.Pos(), "keeps a value of whichever iteration comes first")
						}
					}
				}
				if len(accs) > 0 && !g.guarded(b) {
					bad(b.Instrs[len(b.Instrs)-1].Pos(), "stops collecting after whichever iteration comes first")
				}
			}
		}
	}
	for _, a := range accs {
		out = append(out, d.followAcc(g, a)...)
	}
	return out
}

// counter tells whether a value counts the iterations.
func (g *region) counter(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == g.head && indexPhi(p)
}

func isCarried(v ssa.Value, g *region) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == g.head
}

func must2(s string, _ bool) string { return s }

// identityIndex tells whether the index belongs to the iteration alone.
func (g *region) identityIndex(v ssa.Value) bool {
	if l := loadOf(v); l != nil && g.elems[l] {
		return true
	}
	return g.elems[v]
}

// goroutine checks a function started in a loop like the body of a loop without an order:
// what it is given or captures from one iteration belongs to it.
func (d *determ) goroutine(outer *region, x ssa.CallInstruction) []orderIssue {
	var out []orderIssue
	for _, f := range d.fl.callees(x) {
		if d.eff.sums[f] == nil {
			return []orderIssue{{x.Pos(), "starts " + f.String()}}
		}
		g := &region{fn: f, blocks: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, pos: x.Pos(), what: "goroutine"}
		for _, b := range f.Blocks {
			g.blocks[b] = true
		}
		for i, a := range x.Common().Args {
			if j := i + len(f.Params) - len(x.Common().Args); outer.in(a) && j >= 0 {
				g.elems[f.Params[j]] = true
			}
		}
		for _, fv := range f.FreeVars {
			bs := d.fl.bound(fv)
			mine := len(bs) > 0
			for _, b := range bs {
				mine = mine && outer.in(b)
			}
			if mine {
				g.elems[fv] = true
			}
		}
		out = append(out, d.issues(g)...)
	}
	return out
}

// guarded tells whether a block is only reached in the one iteration with a given key.
func (g *region) guarded(b *ssa.BasicBlock) bool {
	for d := b; d != nil && g.blocks[d]; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		eq, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		side := -1
		switch eq.Op {
		case token.EQL:
			side = 0
		case token.NEQ:
			side = 1
		}
		if side < 0 || p.Succs[side] != d || len(d.Preds) != 1 {
			continue
		}
		if g.identity(eq.X) && g.invariant(eq.Y) || g.identity(eq.Y) && g.invariant(eq.X) {
			return true
		}
	}
	return false
}

func valName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	}
	return v.Name()
}

func callText(c ssa.CallInstruction) string {
	n := calleeName(c.Common())
	if n == "" {
		return "a function value"
	}
	return strings.ReplaceAll(n, modPath+"/", "")
}

func worldText(c ssa.CallInstruction, world string) string {
	return fmt.Sprintf("%s %s", callText(c), world)
}

// followAcc checks that what a region collects is put in order before its order matters.
func (d *determ) followAcc(g *region, a accum) []orderIssue {
	if g.head == nil {
		return d.followClosure(g, a)
	}
	var starts []*ssa.BasicBlock
	for b := range g.blocks {
		for _, s := range b.Succs {
			if !g.blocks[s] {
				starts = append(starts, s)
			}
		}
	}
	sort.Slice(starts, func(i, j int) bool { return starts[i].Index < starts[j].Index })
	u := &unord{d: d, fn: g.fn, vals: map[ssa.Value]bool{}, paths: map[string]ssa.Value{}, maps: map[ssa.Value]bool{}, skip: g}
	switch {
	case a.isMap:
		u.maps[a.v] = true
	case a.v != nil:
		u.vals[a.v] = true
	default:
		u.paths[a.path] = a.addr
	}
	u.keyed = append(g.keyFields(), d.valueKeys(g)...)
	u.spread()
	for _, s := range starts {
		u.search(s, 0)
	}
	return u.out
}

// followClosure is followAcc for a function given to an iterator: what it collects is in variables of the caller.
func (d *determ) followClosure(g *region, a accum) []orderIssue {
	var out []orderIssue
	if a.path == "" {
		return []orderIssue{{a.pos, "collects values in the order of the iterations"}}
	}
	for _, mc := range d.fl.closes[g.fn] {
		for _, ref := range *mc.Referrers() {
			c, ok := ref.(ssa.CallInstruction)
			if !ok {
				continue
			}
			u := &unord{d: d, fn: c.Parent(), vals: map[ssa.Value]bool{}, paths: map[string]ssa.Value{a.path: boundAddr(a.addr, d)}, maps: map[ssa.Value]bool{}}
			u.spread()
			for i, in := range c.Block().Instrs {
				if in == ssa.Instruction(c) {
					u.search(c.Block(), i+1)
				}
			}
			out = append(out, u.out...)
		}
	}
	return out
}

func boundAddr(v ssa.Value, d *determ) ssa.Value {
	if f, ok := v.(*ssa.FreeVar); ok {
		if b := d.fl.bound(f); len(b) == 1 {
			return b[0]
		}
	}
	return v
}

// unord follows a slice whose elements are in no particular order through a function.
type unord struct {
	d     *determ
	fn    *ssa.Function
	vals  map[ssa.Value]bool   // the slice, under all its names
	paths map[string]ssa.Value // places it is kept at
	maps  map[ssa.Value]bool   // maps with such slices as elements
	seen  map[*ssa.BasicBlock]bool
	skip  *region
	loops map[*ssa.BasicBlock]bool
	keyed []string // fields of the elements that hold the key of their iteration
	out   []orderIssue
	ends  bool // a return is reached with the slice as it is
}

// spread finds the other names of the slice.
func (u *unord) spread() {
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if !u.vals[v] {
				u.vals[v] = true
				changed = true
			}
		}
		eachInstr(u.fn, func(in ssa.Instruction) {
			if u.skip != nil && u.skip.blocks[in.Block()] && in.Block() != u.skip.head {
				return
			}
			switch x := in.(type) {
			case *ssa.Phi:
				if u.skip != nil && x.Block() == u.skip.head {
					return
				}
				for _, e := range x.Edges {
					if u.vals[e] {
						add(x)
					}
				}
			case *ssa.Slice:
				if u.vals[x.X] {
					add(x)
				}
			case *ssa.ChangeType:
				if u.vals[x.X] {
					add(x)
				}
			case *ssa.MakeInterface:
				if u.vals[x.X] {
					add(x)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && u.paths[u.d.path(x.X)] != nil {
					add(x)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					for _, a := range x.Call.Args {
						if u.vals[a] {
							add(x)
						}
					}
				}
			case *ssa.Store:
				if u.vals[x.Val] {
					if p := u.d.path(x.Addr); u.paths[p] == nil {
						u.paths[p] = x.Addr
						changed = true
					}
				}
			}
		})
	}
}

func (u *unord) bad(p token.Pos, format string, a ...any) {
	u.out = append(u.out, orderIssue{p, fmt.Sprintf(format, a...)})
}

// search walks forward to the next uses.
func (u *unord) search(b *ssa.BasicBlock, from int) {
	if u.seen == nil {
		u.seen, u.loops = map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	}
	if from == 0 {
		if u.seen[b] {
			return
		}
		u.seen[b] = true
	}
	for _, in := range b.Instrs[from:] {
		switch x := in.(type) {
		case *ssa.IndexAddr:
			if u.vals[x.X] {
				u.element(x, x.Index, x)
			}
		case *ssa.Slice:
			if u.vals[x.X] && !wholeSlice(x) {
				u.bad(x.Pos(), "part of a slice in no particular order is selected")
			}
		case *ssa.Range:
			if u.vals[x.X] || u.maps[x.X] {
				// the elements of a map of such slices
				if u.maps[x.X] {
					u.bad(x.Pos(), "the slices in this map are in no particular order")
				}
			}
		case *ssa.Lookup:
			if u.maps[x.X] {
				u.bad(x.Pos(), "the slices in this map are in no particular order")
			}
		case *ssa.Store:
			if u.vals[x.Val] {
				switch r := baseAddr(x.Addr).(type) {
				case *ssa.Alloc:
				default:
					_ = r // reported at the return if nothing sorts it by then
				}
			}
		case *ssa.MapUpdate:
			if u.vals[x.Value] {
				u.bad(x.Pos(), "a slice in no particular order is stored")
			}
		case *ssa.Return:
			for i, r := range x.Results {
				if u.vals[r] {
					u.returned(x, i)
				}
			}
			for p, a := range u.paths {
				if _, ok := baseAddr(a).(*ssa.Alloc); !ok {
					u.bad(x.Pos(), "%s is left in no particular order (%s)", valName(baseAddr(a)), p)
				} else if al := baseAddr(a).(*ssa.Alloc); a != ssa.Value(al) {
					// a field of a local structure: follow the structure if it is returned
					for i, r := range x.Results {
						if r == ssa.Value(al) || loadOf(r) == ssa.Value(al) {
							_ = i
							u.bad(x.Pos(), "a field of %s is left in no particular order", valName(al))
						}
					}
				}
			}
			u.ends = true
		case ssa.CallInstruction:
			if s, less, ok := sortCall(x); ok && (u.vals[s] || u.isPath(s)) {
				if t := u.d.total(u.fn, s.Type(), less, u.keyed); t != "" {
					u.bad(x.Pos(), "is sorted by %s, which may be the same for different elements", t)
				}
				return
			}
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap", "append", "clear":
				case "copy":
					if u.vals[x.Common().Args[1]] {
						u.bad(x.Pos(), "is copied in no particular order")
					}
				}
				continue
			}
			if u.call(x) {
				return
			}
		case *ssa.MakeClosure:
			for _, bd := range x.Bindings {
				if u.vals[bd] || u.paths[u.d.path(bd)] != nil && !sortOnly(x) {
					u.bad(x.Pos(), "is used by a function in no particular order")
				}
			}
		}
	}
	for _, s := range b.Succs {
		u.search(s, 0)
	}
}

func (u *unord) isPath(v ssa.Value) bool {
	x, ok := v.(*ssa.UnOp)
	return ok && x.Op == token.MUL && u.paths[u.d.path(x.X)] != nil
}

func sortOnly(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch r := r.(type) {
		case ssa.CallInstruction:
			if _, _, ok := sortCall(r); !ok {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func loadOf(v ssa.Value) ssa.Value {
	if x, ok := v.(*ssa.UnOp); ok && x.Op == token.MUL {
		return x.X
	}
	return nil
}

func baseAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// element deals with the use of an element: fine in a loop over all elements whose outcome does not depend on the order.
func (u *unord) element(at ssa.Instruction, index ssa.Value, addr ssa.Value) {
	head := loopHead(at.Block(), index)
	if head == nil {
		u.bad(at.Pos(), "an element is picked from a slice in no particular order")
		return
	}
	if u.loops[head] {
		return
	}
	u.loops[head] = true
	g := &region{fn: u.fn, blocks: loopBlocks(head), head: head, elems: map[ssa.Value]bool{}, what: "slice in no particular order", pos: at.Pos()}
	eachInstr(u.fn, func(in ssa.Instruction) {
		if ia, ok := in.(*ssa.IndexAddr); ok && u.vals[ia.X] && g.blocks[ia.Block()] && loopHead(ia.Block(), ia.Index) == head {
			g.elems[ia] = true
			for _, r := range *ia.Referrers() {
				if l, ok := r.(*ssa.UnOp); ok {
					g.elems[l] = true
					if g.key == nil {
						g.key = l // elements that came from different iterations
					}
				}
			}
		}
	})
	for _, i := range u.d.issues(g) {
		u.out = append(u.out, i)
	}
}

// loopHead finds the loop whose counter the index is.
func loopHead(b *ssa.BasicBlock, index ssa.Value) *ssa.BasicBlock {
	switch x := index.(type) {
	case *ssa.Phi:
		h := x.Block()
		for _, p := range h.Preds {
			if h.Dominates(p) && h.Dominates(b) {
				return h
			}
		}
	case *ssa.BinOp:
		if h := loopHead(b, x.X); h != nil {
			return h
		}
	}
	return nil
}

// call follows the slice into a call; it returns true when the slice is in order afterwards.
func (u *unord) call(c ssa.CallInstruction) bool {
	cc := c.Common()
	var idx []int
	for i, a := range cc.Args {
		if u.vals[a] || u.isPath(a) {
			idx = append(idx, i)
		}
	}
	if cc.IsInvoke() && u.vals[cc.Value] {
		u.bad(c.Pos(), "is passed to %s in no particular order", callText(c))
		return false
	}
	if len(idx) == 0 {
		return false
	}
	n := calleeName(cc)
	if strings.HasPrefix(n, "k8s.io/apimachinery/pkg/util/sets.") || strings.HasPrefix(n, "(k8s.io/apimachinery/pkg/util/sets.") || n == "slices.Contains" || n == "slices.Clone" {
		return false
	}
	sorted := true
	for _, i := range idx {
		var fns []*ssa.Function
		for _, f := range u.d.fl.callees(c) {
			if len(f.Blocks) > 0 && u.d.eff.sums[f] != nil {
				fns = append(fns, f)
			}
		}
		if len(fns) == 0 {
			u.bad(c.Pos(), "is passed to %s in no particular order", callText(c))
			return false
		}
		for _, f := range fns {
			j := i
			if cc.IsInvoke() {
				j++
			}
			if j >= len(f.Params) {
				continue
			}
			key := f.RelString(nil) + fmt.Sprint(j)
			if u.d.busy[key] {
				continue
			}
			if _, ok := u.d.memo[key]; !ok {
				u.d.busy[key] = true
				s := &unord{d: u.d, fn: f, vals: map[ssa.Value]bool{f.Params[j]: true}, paths: map[string]ssa.Value{}, maps: map[ssa.Value]bool{}}
				s.spread()
				s.search(f.Blocks[0], 0)
				u.d.memo[key], u.d.sortd[key] = s.out, !s.ends
				delete(u.d.busy, key)
			}
			u.out = append(u.out, u.d.memo[key]...)
			sorted = sorted && u.d.sortd[key]
		}
	}
	return sorted
}

// returned follows the slice to the callers.
func (u *unord) returned(ret *ssa.Return, i int) {
	f := u.fn
	key := f.RelString(nil) + " result " + fmt.Sprint(i)
	if u.d.busy[key] {
		return
	}
	u.d.busy[key] = true
	defer delete(u.d.busy, key)
	sites := append([]ssa.CallInstruction(nil), u.d.fl.sites[f]...)
	if f.Signature.Recv() != nil {
		for _, c := range u.d.fl.invSite[f.Name()] {
			for _, g := range u.d.fl.callees(c) {
				if g == f {
					sites = append(sites, c)
				}
			}
		}
	}
	if u.d.fl.taken[f] && len(u.d.fl.closes[f]) > 0 || len(u.d.fl.closes[f]) > 0 {
		u.bad(ret.Pos(), "a slice in no particular order is returned by a function value")
	}
	for _, c := range sites {
		call, ok := c.(*ssa.Call)
		if !ok {
			continue
		}
		s := &unord{d: u.d, fn: c.Parent(), vals: map[ssa.Value]bool{}, paths: map[string]ssa.Value{}, maps: map[ssa.Value]bool{}}
		if f.Signature.Results().Len() == 1 {
			s.vals[call] = true
		} else {
			for _, r := range *call.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == i {
					s.vals[e] = true
				}
			}
		}
		s.spread()
		for k, in := range c.Block().Instrs {
			if in == ssa.Instruction(call) {
				s.search(c.Block(), k+1)
			}
		}
		for _, o := range s.out {
			u.out = append(u.out, o)
		}
	}
}

// total tells by what elements are compared if that may be the same for different elements.
func (d *determ) total(in *ssa.Function, t types.Type, less ssa.Value, keyed []string) string {
	el, ok := t.Underlying().(*types.Slice)
	if !ok {
		return "an unknown order"
	}
	if less == nil {
		return ""
	}
	var fn *ssa.Function
	switch x := less.(type) {
	case *ssa.MakeClosure:
		fn = x.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = x
	case *ssa.MakeInterface:
		if sel := d.w.Prog.MethodSets.MethodSet(x.X.Type()).Lookup(nil, "Less"); sel != nil {
			fn = d.w.Prog.MethodValue(sel)
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return "an unknown order"
	}
	proj := map[string]bool{}
	env := map[*ssa.Parameter]ssa.Value{} // of comparisons the comparison calls
	var look func(v ssa.Value, path string)
	look = func(v ssa.Value, path string) {
		switch x := v.(type) {
		case *ssa.UnOp:
			look(x.X, path)
		case *ssa.FieldAddr:
			look(x.X, "."+deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()+path)
		case *ssa.Field:
			look(x.X, "."+x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()+path)
		case *ssa.IndexAddr:
			proj[path] = true
		case *ssa.Index:
			proj[path] = true
		case *ssa.Parameter:
			if a := env[x]; a != nil {
				look(a, path)
			} else if types.Identical(x.Type(), el.Elem()) || types.Identical(x.Type(), types.NewPointer(el.Elem())) {
				proj[path] = true
			}
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					look(s.Val, path)
				}
			}
		case *ssa.Call:
			if n := calleeName(&x.Call); n == "" && len(x.Call.Args) == 1 {
				look(x.Call.Args[0], ".func()"+path)
			} else if n != "" {
				a := x.Call.Args
				if x.Call.IsInvoke() {
					look(x.Call.Value, "."+x.Call.Method.Name()+"()"+path)
				} else if len(a) == 1 {
					look(a[0], "."+n[strings.LastIndex(n, ".")+1:]+"()"+path)
				} else if len(a) == 2 && (strings.HasPrefix(n, "cmp.Compare") || n == "strings.Compare") {
					look(a[0], path)
				}
			}
		}
	}
	inside := map[*ssa.Function]bool{}
	var compares func(fn *ssa.Function)
	compares = func(fn *ssa.Function) {
		if inside[fn] {
			return
		}
		inside[fn] = true
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ, token.SUB:
					look(x.X, "")
				}
			case *ssa.Call:
				n := calleeName(&x.Call)
				if strings.HasPrefix(n, "cmp.Compare") || n == "strings.Compare" || strings.HasPrefix(n, "cmp.Less") || n == "bytes.Compare" {
					look(x.Call.Args[0], "")
				} else if g := x.Call.StaticCallee(); g != nil && d.eff.sums[g] != nil && len(x.Call.Args) >= 2 && len(g.Params) == len(x.Call.Args) {
					for i, p := range g.Params {
						env[p] = x.Call.Args[i]
					}
					compares(g)
				}
			}
		})
	}
	compares(fn)
	var names []string
	for p := range proj {
		names = append(names, strings.TrimPrefix(p, "."))
	}
	sort.Strings(names)
	if len(names) == 0 {
		return "an unknown order"
	}
	// positions order what is in one file; files are parsed in parallel, so that positions do not order them
	if proj[".Pos()"] || len(names) == 1 && strings.HasSuffix(names[0], "Pos()") {
		if len(proj) > 1 || inFile(in) {
			return ""
		}
		return "positions in different files"
	}
	if covers(el.Elem(), proj, "", 0) {
		return ""
	}
	for _, f := range keyed {
		if ft := fieldAt(el.Elem(), f); ft != nil && covers(ft, proj, f, 1) {
			return ""
		}
	}
	return strings.Join(names, ", ")
}

// inFile tells whether a function works on a single file.
func inFile(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		for _, p := range f.Params {
			if types.TypeString(p.Type(), nil) == "*go/ast.File" {
				return true
			}
		}
	}
	return false
}

func fieldAt(t types.Type, path string) types.Type {
	for _, f := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		t = nil
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				t = s.Field(i).Type()
			}
		}
		if t == nil {
			return nil
		}
	}
	return t
}

// valueKeys lists the fields of a map's values that always hold the key they are kept under.
func (d *determ) valueKeys(g *region) []string {
	if g.src == nil {
		return nil
	}
	var common map[string]bool
	for _, f := range d.w.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !types.Identical(mu.Map.Type(), g.src.Type()) {
				return
			}
			has := map[string]bool{}
			for _, o := range d.fl.originsTo(mu.Value, func(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }) {
				al, ok := o.(*ssa.Alloc)
				if !ok {
					continue
				}
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						for _, r := range *fa.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == fa && sameValue(st.Val, mu.Key) {
								has["."+deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()] = true
							}
						}
					}
				}
			}
			if common == nil {
				common = has
			}
			for k := range common {
				if !has[k] {
					delete(common, k)
				}
			}
		})
	}
	return sortedSet(common)
}

// compared tells whether a value picked from a collection only serves to compare the others with it.
func (d *determ) compared(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Phi:
			if !d.compared(x, seen) {
				return false
			}
		case *ssa.Lookup:
			if !d.compared(x, seen) {
				return false
			}
		case *ssa.Extract:
			if !d.compared(x, seen) {
				return false
			}
		case *ssa.MakeInterface:
			if !d.compared(x, seen) {
				return false
			}
		case *ssa.UnOp:
			if !d.compared(x, seen) {
				return false
			}
		case *ssa.Store:
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok || x.Val != v || !d.compared(al, seen) {
				if x.Addr != v {
					return false
				}
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.Call:
			if n := calleeName(&x.Call); !strings.HasSuffix(n, "DeepEqual") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// single tells whether a map never has more than one entry: all its keys are elements of slices of length one.
func (d *determ) single(g *region) bool {
	mm, ok := g.src.(*ssa.MakeMap)
	if !ok {
		return false
	}
	any := false
	for _, r := range *mm.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map != mm {
				return false
			}
			any = true
			ia, ok := loadOf(x.Key).(*ssa.IndexAddr)
			if !ok {
				return false
			}
			for _, o := range d.fl.originsTo(ia.X, func(v ssa.Value) bool { _, ok := v.(*ssa.Slice); return ok }) {
				sl, ok := o.(*ssa.Slice)
				if !ok {
					return false
				}
				arr, ok := deref(sl.X.Type()).Underlying().(*types.Array)
				if !ok || arr.Len() != 1 {
					return false
				}
			}
		case *ssa.Range, *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return any
}

// keyFields lists the fields that hold the key of the iteration in structures made there.
func (g *region) keyFields() []string {
	var out []string
	eachInstr(g.fn, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok && g.blocks[st.Block()] && g.identity(st.Val) {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				if al, ok := fa.X.(*ssa.Alloc); ok && g.in(al) {
					out = append(out, "."+deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name())
				}
			}
		}
	})
	return out
}

// covers tells whether the projections tell any two values of type t apart.
func covers(t types.Type, proj map[string]bool, path string, depth int) bool {
	if proj[path] {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsOrdered != 0 {
			return true
		}
	}
	for _, id := range []string{".String()", ".PkgPath", ".ID", ".Package.PkgPath", ".Package.ID", ".FullName()"} {
		if proj[path+id] {
			switch id {
			case ".String()", ".FullName()":
				return true
			default:
				if strings.HasSuffix(typeName(deref(t)), "Package") {
					return true
				}
			}
		}
	}
	if s, ok := deref(t).Underlying().(*types.Struct); ok && depth < 3 {
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			return false
		}
		if s.NumFields() == 0 {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if !covers(s.Field(i).Type(), proj, path+"."+s.Field(i).Name(), depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// regions lists the parts of a function run per element of a map or of another source without an order.
func (d *determ) regions(f *ssa.Function) []*region {
	var out []*region
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Next:
			rg, ok := x.Iter.(*ssa.Range)
			if !ok {
				return
			}
			if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
				return
			}
			g := &region{fn: f, head: x.Block(), blocks: loopBlocks(x.Block()), elems: map[ssa.Value]bool{}, what: types.TypeString(rg.X.Type(), func(p *types.Package) string { return p.Name() }), pos: rg.Pos(), src: rg.X, rng: rg}
			for _, r := range *x.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index > 0 {
					g.elems[e] = true
					if e.Index == 1 {
						g.key = e
					}
				}
			}
			// what is looked up under the key of the iteration is the element
			for b := range g.blocks {
				for _, in := range b.Instrs {
					l, ok := in.(*ssa.Lookup)
					if !ok || l.Index != g.key || !sameValue(l.X, g.src) {
						continue
					}
					if !l.CommaOk {
						g.elems[l] = true
						continue
					}
					for _, r := range *l.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
							g.elems[e] = true
						}
					}
				}
			}
			out = append(out, g)
		}
	})
	return out
}

// wholeSlice tells whether a slice expression selects everything.
func wholeSlice(x *ssa.Slice) bool {
	zero := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return v == nil || ok && k.Value != nil && constant.Sign(k.Value) == 0
	}
	if !zero(x.Low) {
		return false
	}
	if x.High == nil || zero(x.High) {
		return true
	}
	c, ok := x.High.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == x.X
}

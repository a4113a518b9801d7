package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "lockset and typestate dataflow over the SSA form, with a join analysis of every goroutine", "locks are told apart by the access path that leads to them; calls back from third-party packages are taken to happen during the call they are given to",
		"For every function of the repository a forward dataflow analysis computes which locks are held at each instruction (must and may, read or write mode, deferred releases, net effect of helpers). Every lock taken must be released on every way out, never be taken or released twice, and never be taken while a caller holds it. Every access to a field that belongs to a structure with its own lock and is written after construction must happen with that lock held (for writing, in write mode), in the function itself or in every caller up to the exported interface; for packages, whose lock serves parallel checking, in everything reachable from a goroutine. Anything else a goroutine writes must be its own or be written with a lock held. Every goroutine must be announced to a wait group before it starts, as often as it is started, announce its end however it ends, and be waited for on every way to a return and before anything it writes is read. A package may only be entered into the set of checked packages after the call that type-checks it and after the goroutines checking what it refers to are joined, while its lock is held. Structures with locks must not be copied.",
		checkC03)
}

const (
	lockR = 1
	lockW = 2
)

type lockState struct {
	must map[string]int    // held for certain: mode
	may  map[string]string // held possibly: where it was taken
	def  map[string]bool   // released by a deferred call
}

func newLockState() *lockState {
	return &lockState{map[string]int{}, map[string]string{}, map[string]bool{}}
}

func (s *lockState) clone() *lockState {
	n := newLockState()
	for k, v := range s.must {
		n.must[k] = v
	}
	for k, v := range s.may {
		n.may[k] = v
	}
	for k, v := range s.def {
		n.def[k] = v
	}
	return n
}

// join merges another state in; it tells whether anything changed.
func (s *lockState) join(o *lockState) bool {
	ch := false
	for k, v := range s.must {
		if w := o.must[k]; w < v {
			ch = true
			if w == 0 {
				delete(s.must, k)
			} else {
				s.must[k] = w
			}
		}
	}
	for k, v := range o.may {
		if _, ok := s.may[k]; !ok {
			s.may[k] = v
			ch = true
		}
	}
	for k := range s.def {
		if !o.def[k] {
			delete(s.def, k)
			ch = true
		}
	}
	return ch
}

// need is an access that some lock has to protect.
type need struct {
	obj   string // the object, relative to a parameter or captured variable (or a local value)
	lock  string // its lock, relative to obj ("" if any lock will do)
	owner string // type
	field string
	write bool
	fn    *ssa.Function
	pos   token.Pos
}

func (n need) id() string {
	return fmt.Sprint(n.obj, "|", n.lock, "|", n.field, "|", n.write, "|", n.pos)
}

type lockSum struct {
	needs    map[string]need
	acquires map[string]string // locks taken inside, relative to a parameter: where
	nets     map[string]int    // held on return though not on entry
	drops    map[string]bool   // released though not taken
	local    []need            // accesses to local objects with no lock held
	waits    []string          // wait groups waited for on every way out
	dones    []string
}

type lockCheck struct {
	w      *World
	fl     *Flow
	eff    *Effects
	sums   map[*ssa.Function]*lockSum
	owned  map[string]lockedType // by type name
	writ   map[string]bool       // owner|field written after construction
	report map[string]string     // problems, by position and text
	c      *Check
	final  bool
}

type lockedType struct {
	lock   string // path of the mutex field
	rw     bool
	strict bool
}

// key names the object or address a value denotes, as an access path within the function.
func lkey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return lkey(x.X) + "." + fieldOf(x.X.Type(), x.Field).Name()
	case *ssa.Field:
		return lkey(x.X) + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := soleStore(a); s != nil {
					return lkey(s)
				}
			}
			return lkey(x.X) + "^"
		}
	case *ssa.ChangeType:
		return lkey(x.X)
	case *ssa.MakeInterface:
		return lkey(x.X)
	case *ssa.Global:
		return x.String()
	}
	return v.Name()
}

// soleStore finds the value of a variable that is assigned once.
func soleStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a || v != nil {
				return nil
			}
			v = r.Val
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == a && storesTo(r.Fn.(*ssa.Function).FreeVars[i]) {
					return nil
				}
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return v
}

func storesTo(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == ssa.Value(fv) && storesTo(r.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

func rootName(key string) string {
	if i := strings.IndexAny(key, ".^"); i >= 0 {
		return key[:i]
	}
	return key
}

// isMutex tells whether a type is a lock.
func isMutex(t types.Type) (rw, ok bool) {
	switch typeName(deref(t)) {
	case "sync.Mutex":
		return false, true
	case "sync.RWMutex":
		return true, true
	}
	return false, false
}

func isSyncType(t types.Type) bool {
	return strings.HasPrefix(typeName(deref(t)), "sync.")
}

// hasLock tells whether values of a type contain a lock.
func hasLock(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	switch typeName(t) {
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "sync.Map", "sync.Cond", "sync.Pool":
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasLock(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return hasLock(u.Elem(), depth+1)
	}
	return false
}

// owner finds the object with a lock of its own a field address belongs to.
func (k *lockCheck) owner(fa *ssa.FieldAddr) (obj ssa.Value, tn, field string) {
	var path []string
	var v ssa.Value = fa
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			path = append([]string{fieldOf(x.X.Type(), x.Field).Name()}, path...)
			n := typeName(deref(x.X.Type()))
			if _, ok := k.owned[n]; ok {
				return x.X, n, strings.Join(path, ".")
			}
			v = x.X
			continue
		case *ssa.UnOp:
			// an embedded pointer is part of the object
			if f, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fieldOf(f.X.Type(), f.Field).Anonymous() {
				v = f
				continue
			}
		}
		return nil, "", ""
	}
	return nil, "", ""
}

func (k *lockCheck) bad(pos token.Pos, format string, a ...any) {
	if k.final {
		k.report[k.w.pos(pos)+" "+fmt.Sprintf(format, a...)] = k.w.pos(pos)
	}
}

// lockOp recognises a call on a lock: what it does and on which.
func lockOp(c ssa.CallInstruction) (op, key string, mode int) {
	n := calleeName(c.Common())
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		if strings.HasPrefix(n, t) && len(c.Common().Args) > 0 {
			op = strings.TrimPrefix(n, t)
			mode = lockW
			if strings.HasPrefix(op, "R") {
				op, mode = op[1:], lockR
			}
			return op, lkey(c.Common().Args[0]), mode
		}
	}
	return "", "", 0
}

// substitute maps a path in a callee to the caller, "" if it does not lead through an argument.
func substitute(path string, callee *ssa.Function, args []ssa.Value, binds []ssa.Value) string {
	r := rootName(path)
	rest := path[len(r):]
	for i, p := range callee.Params {
		if p.Name() == r && i < len(args) {
			return normKey(lkey(args[i]) + rest)
		}
	}
	for i, fv := range callee.FreeVars {
		if fv.Name() == r && i < len(binds) {
			if a, ok := binds[i].(*ssa.Alloc); ok && strings.HasPrefix(rest, "^") {
				if s := soleStore(a); s != nil {
					return normKey(lkey(s) + rest[1:])
				}
			}
			return normKey(lkey(binds[i]) + rest)
		}
	}
	return ""
}

// normKey bounds the length of paths through recursive structures.
func normKey(s string) string {
	if strings.Count(s, ".")+strings.Count(s, "^") > 8 {
		return ""
	}
	return s
}

// actual finds what is given for a parameter or captured variable of a callee.
func actual(name string, u calleeUse) ssa.Value {
	for i, p := range u.fn.Params {
		if p.Name() == name && i < len(u.args) {
			return u.args[i]
		}
	}
	for i, fv := range u.fn.FreeVars {
		if fv.Name() == name && i < len(u.binds) {
			return u.binds[i]
		}
	}
	return nil
}

func rootedAtInput(f *ssa.Function, path string) bool {
	r := rootName(path)
	for _, p := range f.Params {
		if p.Name() == r {
			return true
		}
	}
	for _, v := range f.FreeVars {
		if v.Name() == r {
			return true
		}
	}
	return false
}

// freshObj tells whether a path leads to an object made in the function.
func freshObj(f *ssa.Function, path string) bool {
	r := rootName(path)
	if r != path {
		return false
	}
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if a, ok := in.(*ssa.Alloc); ok && a.Name() == r {
			found = true
		}
	})
	return found
}

type calleeUse struct {
	fn    *ssa.Function
	args  []ssa.Value
	binds []ssa.Value
}

// uses lists the functions an instruction may run before it ends, with what they are given.
func (k *lockCheck) uses(in ssa.Instruction) []calleeUse {
	var out []calleeUse
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		if mc, ok := in.(*ssa.MakeClosure); ok && !startedOrDeferred(mc) && !calledDirectly(mc) {
			f := mc.Fn.(*ssa.Function)
			if o := boundTarget(k.w, f); o != nil {
				return []calleeUse{{fn: o, args: mc.Bindings}}
			}
			return []calleeUse{{fn: f, binds: mc.Bindings}}
		}
		return nil
	}
	cc := c.Common()
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return []calleeUse{{fn: mc.Fn.(*ssa.Function), args: cc.Args, binds: mc.Bindings}}
	}
	for _, f := range k.fl.callees(c) {
		if k.sums[f] == nil {
			continue
		}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		var binds []ssa.Value
		if len(f.FreeVars) > 0 {
			continue // run where the closure is made
		}
		out = append(out, calleeUse{fn: f, args: args, binds: binds})
	}
	return out
}

func boundTarget(w *World, f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || f.Object() == nil {
		return nil
	}
	o, ok := f.Object().(*types.Func)
	if !ok {
		return nil
	}
	return w.Prog.FuncValue(o)
}

func startedOrDeferred(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch r := r.(type) {
		case *ssa.Go:
			if r.Call.Value == mc {
				return true
			}
		case *ssa.Defer:
			if r.Call.Value == mc {
				return true
			}
		case *ssa.Call:
			if calleeName(&r.Call) == "(*sync.Once).Do" {
				return true
			}
		}
	}
	return false
}

func calledDirectly(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == mc {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

// flowLocks computes the locks held before each instruction and at the exits.
func (k *lockCheck) flowLocks(f *ssa.Function, at func(in ssa.Instruction, s *lockState)) []*lockState {
	if len(f.Blocks) == 0 {
		return nil
	}
	in := map[*ssa.BasicBlock]*lockState{f.Blocks[0]: newLockState()}
	// run applies a block
	run := func(b *ssa.BasicBlock, s *lockState, visit func(ssa.Instruction, *lockState)) {
		for _, i := range b.Instrs {
			if visit != nil {
				visit(i, s)
			}
			k.step(f, i, s, visit != nil)
		}
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[0]
		work = work[1:]
		s := in[b].clone()
		fin := k.final
		k.final = false
		run(b, s, nil)
		k.final = fin
		for _, t := range b.Succs {
			if in[t] == nil {
				in[t] = s.clone()
				work = append(work, t)
			} else if in[t].join(s) {
				work = append(work, t)
			}
		}
	}
	var exits []*lockState
	for _, b := range f.Blocks {
		if in[b] == nil {
			continue
		}
		s := in[b].clone()
		run(b, s, at)
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				exits = append(exits, s)
			}
		}
	}
	return exits
}

func (k *lockCheck) step(f *ssa.Function, in ssa.Instruction, s *lockState, visiting bool) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	if _, isGo := in.(*ssa.Go); isGo {
		return
	}
	_, isDefer := in.(*ssa.Defer)
	op, key, mode := lockOp(c)
	where := k.w.pos(c.Pos())
	release := func(key string, mode int) {
		if isDefer {
			s.def[key] = true
			return
		}
		if _, ok := s.may[key]; !ok && rootedAtInput(f, key) {
			// released for the caller
			if visiting {
				k.sums[f].drops[key] = true
			}
			return
		}
		if _, ok := s.may[key]; !ok {
			k.bad(c.Pos(), "%s releases a lock that is not held (%s)", f.RelString(nil), key)
		} else if m := s.must[key]; m != 0 && m != mode {
			k.bad(c.Pos(), "%s releases a lock in another mode than it was taken (%s)", f.RelString(nil), key)
		} else if s.def[key] {
			k.bad(c.Pos(), "%s releases a lock that a deferred call releases again (%s)", f.RelString(nil), key)
		}
		delete(s.must, key)
		delete(s.may, key)
	}
	acquire := func(key string, mode int) {
		if w, ok := s.may[key]; ok {
			k.bad(c.Pos(), "%s takes a lock it already holds since %s (%s)", f.RelString(nil), w, key)
		}
		s.must[key] = mode
		s.may[key] = where
	}
	switch op {
	case "Lock":
		if isDefer {
			k.bad(c.Pos(), "%s takes a lock when it ends", f.RelString(nil))
			return
		}
		acquire(key, mode)
		return
	case "Unlock":
		release(key, mode)
		return
	}
	for _, u := range k.uses(in) {
		sum := k.sums[u.fn]
		if sum == nil {
			continue
		}
		for p := range sum.drops {
			if q := substitute(p, u.fn, u.args, u.binds); q != "" {
				m := s.must[q]
				release(q, m)
			}
		}
		for p, w := range sum.acquires {
			q := substitute(p, u.fn, u.args, u.binds)
			if q == "" || isDefer {
				continue
			}
			if _, held := s.must[q]; held && !sum.drops[p] {
				k.bad(c.Pos(), "%s holds a lock that %s takes at %s (%s)", f.RelString(nil), u.fn.RelString(nil), w, q)
			}
		}
		for p, m := range sum.nets {
			if q := substitute(p, u.fn, u.args, u.binds); q != "" && !isDefer {
				acquire(q, m)
			}
		}
	}
}

// summarize computes what a function needs and does; it tells whether that changed.
func (k *lockCheck) summarize(f *ssa.Function) bool {
	sum := k.sums[f]
	before := fmt.Sprint(len(sum.needs), len(sum.acquires), sum.nets, len(sum.drops), len(sum.local))
	sum.local = nil
	add := func(n need, s *lockState) {
		lk := n.obj + n.lock
		if n.lock != "" {
			if m := s.must[lk]; m == lockW || m == lockR && !n.write {
				return
			}
		} else if len(s.must) > 0 {
			return
		}
		if n.lock != "" && freshObj(f, n.obj) {
			return
		}
		if rootedAtInput(f, n.obj) {
			sum.needs[n.id()] = n
			return
		}
		sum.local = append(sum.local, n)
	}
	visit := func(in ssa.Instruction, s *lockState) {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			obj, tn, field := k.owner(x)
			if obj == nil || isSyncType(deref(x.Type())) {
				break
			}
			read, write := accesses(x)
			if !read && !write {
				break
			}
			if write {
				if o := lkey(obj); !freshObj(f, o) {
					k.writ[tn+"|"+field] = true
				}
			}
			add(need{lkey(obj), "." + k.owned[tn].lock, tn, field, write, f, x.Pos()}, s)
		case *ssa.Store:
			k.otherWrite(f, x.Addr, x.Pos(), s, add)
		case *ssa.MapUpdate:
			k.otherWrite(f, x.Map, x.Pos(), s, add)
		case ssa.CallInstruction:
			if op, key, _ := lockOp(x); op == "Lock" {
				if rootedAtInput(f, key) {
					sum.acquires[key] = k.w.pos(x.Pos())
				}
				break
			}
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
				k.otherWrite(f, x.Common().Args[0], x.Pos(), s, add)
			}
		}
		if _, ok := in.(*ssa.Go); ok {
			return // has its own thread
		}
		for _, u := range k.uses(in) {
			us := k.sums[u.fn]
			if us == nil {
				continue
			}
			st := s
			for _, n := range us.needs {
				if n.owner == "" {
					// whatever the argument leads into
					for r := range k.eff.roots(actual(n.obj, u)) {
						m := n
						switch r := r.(type) {
						case *ssa.Parameter, *ssa.FreeVar:
							m.obj = r.Name()
							add(m, st)
						case *ssa.Global:
							m.obj = r.String()
							add(m, st)
						}
					}
					continue
				}
				q := substitute(n.obj, u.fn, u.args, u.binds)
				if q == "" {
					continue
				}
				m := n
				m.obj = q
				add(m, st)
			}
			for p, w := range us.acquires {
				if q := substitute(p, u.fn, u.args, u.binds); q != "" && rootedAtInput(f, q) {
					if _, ok := sum.acquires[q]; !ok {
						sum.acquires[q] = w
					}
				}
			}
		}
	}
	exits := k.flowLocks(f, visit)
	nets := map[string]int{}
	for _, e := range exits {
		for key, m := range e.must {
			if !e.def[key] && rootedAtInput(f, key) {
				nets[key] = m
			}
		}
	}
	sum.nets = nets
	return before != fmt.Sprint(len(sum.needs), len(sum.acquires), sum.nets, len(sum.drops), len(sum.local))
}

// accesses tells what is done through a field's address.
func accesses(fa *ssa.FieldAddr) (read, write bool) {
	for _, r := range *fa.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == fa {
				write = true
			} else {
				read = true
			}
		case *ssa.UnOp:
			read = true
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.MapUpdate:
					write = write || q.Map == ssa.Value(r)
				case *ssa.Call:
					if b, ok := q.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && q.Call.Args[0] == ssa.Value(r) {
						write = true
					}
				}
			}
		case *ssa.FieldAddr, *ssa.DebugRef:
			// an embedded structure: its own fields are looked at
		case *ssa.IndexAddr:
			read = true
		default:
			read = true
		}
	}
	return
}

// otherWrite notes a write to memory that is not a field of an object with a lock.
func (k *lockCheck) otherWrite(f *ssa.Function, addr ssa.Value, pos token.Pos, s *lockState, add func(need, *lockState)) {
	if len(s.must) > 0 {
		return
	}
	v := addr
	for i := 0; i < 6; i++ {
		if fa, ok := v.(*ssa.FieldAddr); ok {
			if o, _, _ := k.owner(fa); o != nil {
				return
			}
			v = fa.X
			continue
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.Alloc); !ok {
				v = u.X
				continue
			}
		}
		break
	}
	for r := range k.eff.roots(addr) {
		switch r := r.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			add(need{obj: r.Name(), owner: "", field: callPath(addr), write: true, fn: f, pos: pos}, s)
		case *ssa.Global:
			k.sums[f].local = append(k.sums[f].local, need{obj: r.String(), field: callPath(addr), write: true, fn: f, pos: pos})
		}
	}
}

func callPath(v ssa.Value) string { return lkey(v) }

func checkC03(c *Check) {
	w := c.W
	k := &lockCheck{w: w, fl: newFlow(w), eff: newEffects(w), sums: map[*ssa.Function]*lockSum{}, owned: map[string]lockedType{}, writ: map[string]bool{}, report: map[string]string{}, c: c}
	funcs := w.Funcs
	for _, f := range funcs {
		k.sums[f] = &lockSum{needs: map[string]need{}, acquires: map[string]string{}, nets: map[string]int{}, drops: map[string]bool{}}
	}
	// types with a lock of their own
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if rw, ok := isMutex(st.Field(i).Type()); ok {
					k.owned[typeName(tn.Type())] = lockedType{lock: st.Field(i).Name(), rw: rw}
				}
			}
		}
	}
	pkgT := typeName(w.typ("pkg/loader", "Package"))
	for _, n := range []string{pkgT, typeName(w.typ("pkg/loader", "TypeChecker")), typeName(w.typ("pkg/markers", "Registry")), typeName(w.typ("pkg/markers", "Collector"))} {
		c.ob(k.owned[n].lock != "", "has-lock", n, "", "%s has no lock", n)
	}
	for i, changed := 0, true; changed && i < 30; i++ {
		changed = false
		for _, f := range funcs {
			if k.summarize(f) {
				changed = true
			}
		}
	}
	k.final = true
	for _, f := range funcs {
		k.summarize(f)
	}
	// releases
	nlocks := 0
	for _, f := range funcs {
		eachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if op, _, _ := lockOp(ci); op == "Lock" {
					nlocks++
				}
			}
		})
		k.final = false
		exits := k.flowLocks(f, nil)
		k.final = true
		held := map[string]bool{}
		for _, e := range exits {
			for key, where := range e.may {
				if e.def[key] {
					continue
				}
				if e.must[key] == 0 {
					k.bad(f.Pos(), "%s may return with the lock taken at %s held (%s)", f.RelString(nil), where, key)
				} else {
					held[key] = true
				}
			}
		}
		for key := range held {
			for _, e := range exits {
				if e.must[key] == 0 {
					if _, ok := e.may[key]; !ok {
						k.bad(f.Pos(), "%s returns with a lock held on some ways only (%s)", f.RelString(nil), key)
					}
				}
			}
			if !rootedAtInput(f, key) || k.entry(f) {
				k.bad(f.Pos(), "%s returns with a lock held (%s)", f.RelString(nil), key)
			}
		}
		for key := range k.sums[f].drops {
			if k.entry(f) {
				k.bad(f.Pos(), "%s releases a lock it has not taken (%s)", f.RelString(nil), key)
			}
		}
	}
	// what goroutines reach
	conc := map[*ssa.Function]bool{}
	var starts []*ssa.Go
	for _, f := range funcs {
		eachInstr(f, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				starts = append(starts, g)
			}
		})
	}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if conc[f] || k.sums[f] == nil {
			return
		}
		conc[f] = true
		eachInstr(f, func(in ssa.Instruction) {
			for _, u := range k.uses(in) {
				reach(u.fn)
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				reach(mc.Fn.(*ssa.Function))
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range k.fl.callees(ci) {
					reach(g)
				}
			}
		})
	}
	for _, g := range starts {
		for _, f := range k.fl.callees(g) {
			reach(f)
		}
	}
	// guarded fields
	isGuarded := func(n need, concurrent bool) bool {
		if n.owner == "" {
			return concurrent
		}
		if !k.writ[n.owner+"|"+n.field] {
			return false
		}
		if n.owner == pkgT {
			return concurrent
		}
		last := n.field[strings.LastIndexByte(n.field, '.')+1:]
		return concurrent || !token.IsExported(last)
	}
	acc := 0
	tell := func(n need, how string) {
		kind := "reads"
		if n.write {
			kind = "writes"
		}
		what := n.field
		if n.owner != "" {
			what = n.owner + "." + n.field
		}
		k.report[k.w.pos(n.pos)+fmt.Sprintf(" %s %s %s without holding the lock that protects it (%s)", n.fn.RelString(nil), kind, what, how)] = k.w.pos(n.pos)
	}
	for _, f := range funcs {
		s := k.sums[f]
		for _, n := range s.local {
			if isGuarded(n, conc[f]) {
				acc++
				tell(n, "on an object of its own or of another package")
			}
		}
		if k.entry(f) {
			for _, n := range s.needs {
				if n.owner != "" && isGuarded(n, false) {
					tell(n, "reached from "+f.RelString(nil))
				}
			}
		}
	}
	for _, g := range starts {
		for _, u := range k.goUses(g) {
			own := k.ownOfGo(g, u)
			for _, n := range k.sums[u.fn].needs {
				if !isGuarded(n, true) || n.owner == "" && k.ownWrite(g, u, own, n) {
					continue
				}
				tell(n, "in the goroutine started at "+w.pos(g.Pos()))
			}
			for _, lo := range k.sums[u.fn].local {
				if lo.owner == "" {
					tell(lo, "in the goroutine started at "+w.pos(g.Pos()))
				}
			}
		}
		k.joined(g)
	}
	k.checkedSet(conc)
	k.copies()
	for _, f := range funcs {
		eachInstr(f, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if o, tn, field := k.owner(fa); o != nil && k.writ[tn+"|"+field] {
					acc++
					c.ob(true, "access", tn+"."+field+" in "+f.RelString(nil), w.pos(fa.Pos()), "")
				}
			}
		})
		c.ob(true, "balanced", f.RelString(nil), w.pos(f.Pos()), "")
	}
	var texts []string
	for t := range k.report {
		texts = append(texts, t)
	}
	sort.Strings(texts)
	for _, t := range texts {
		pos := k.report[t]
		c.bad("locking", strings.TrimSpace(strings.TrimPrefix(t, pos)), pos, "%s", strings.TrimSpace(strings.TrimPrefix(t, pos)))
	}
	var fields []string
	for f := range k.writ {
		fields = append(fields, f)
	}
	c.fact("lock_sites", nlocks)
	c.fact("goroutines", len(starts))
	c.fact("functions_reached_by_goroutines", len(conc))
	c.fact("protected_fields", len(fields))
	c.atLeast("access", 30)
	if nlocks < 8 {
		c.bad("locking", "lock sites", "", "only %d places take a lock", nlocks)
	}
	_ = acc
}

// entry tells whether a function can be called from outside the repository or in ways that are not known.
func (k *lockCheck) entry(f *ssa.Function) bool {
	if f.Parent() != nil {
		return false
	}
	if f.Signature.Recv() != nil {
		if _, n := recvNamed(f); n != nil && !n.Exported() {
			return len(k.fl.sites[f]) == 0 || token.IsExported(f.Name())
		}
	}
	return token.IsExported(f.Name()) || len(k.fl.sites[f]) == 0
}

func recvNamed(f *ssa.Function) (types.Type, *types.TypeName) {
	t := deref(f.Signature.Recv().Type())
	if n, ok := t.(*types.Named); ok {
		return t, n.Obj()
	}
	return t, nil
}

func (k *lockCheck) goUses(g *ssa.Go) []calleeUse {
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		return []calleeUse{{fn: mc.Fn.(*ssa.Function), args: g.Call.Args, binds: mc.Bindings}}
	}
	var out []calleeUse
	for _, f := range k.fl.callees(g) {
		if k.sums[f] == nil {
			k.bad(g.Pos(), "%s starts %s, which is not known", g.Parent().RelString(nil), f)
			continue
		}
		out = append(out, calleeUse{fn: f, args: g.Call.Args})
	}
	if len(out) == 0 {
		k.bad(g.Pos(), "%s starts a function that is not known", g.Parent().RelString(nil))
	}
	return out
}

// ownOfGo lists the names of parameters and captured variables that belong to one goroutine alone.
func (k *lockCheck) ownOfGo(g *ssa.Go, u calleeUse) map[string]bool {
	own := map[string]bool{}
	f := g.Parent()
	var loop map[*ssa.BasicBlock]bool
	for _, l := range allLoops(f) {
		if l.blocks[g.Block()] && (loop == nil || len(l.blocks) < len(loop)) {
			loop = l.blocks
		}
	}
	mine := func(v ssa.Value) bool {
		if loop == nil {
			return false
		}
		in, ok := v.(ssa.Instruction)
		return ok && loop[in.Block()]
	}
	for i, a := range u.args {
		if i < len(u.fn.Params) && mine(a) {
			own[u.fn.Params[i].Name()] = true
		}
	}
	for i, b := range u.binds {
		if mine(b) {
			own[u.fn.FreeVars[i].Name()] = true
		}
	}
	return own
}

// ownWrite tells whether a write of a goroutine goes to a place of its own.
func (k *lockCheck) ownWrite(g *ssa.Go, u calleeUse, own map[string]bool, n need) bool {
	if own[rootName(n.obj)] {
		return true
	}
	// a slot of a shared slice, by an index of its own
	ok := false
	eachInstr(u.fn, func(in ssa.Instruction) {
		st, is := in.(*ssa.Store)
		if !is || st.Pos() != n.pos {
			return
		}
		if ia, is := st.Addr.(*ssa.IndexAddr); is {
			ix := rootName(lkey(ia.Index))
			if own[ix] {
				ok = true
			}
		}
	})
	return ok
}

// joined checks that a goroutine is waited for.
func (k *lockCheck) joined(g *ssa.Go) {
	f := g.Parent()
	us := k.goUses(g)
	for _, u := range us {
		wgs := k.doneOf(u)
		if len(wgs) == 0 {
			k.bad(g.Pos(), "the goroutine %s starts does not tell when it ends, however it ends", f.RelString(nil))
			continue
		}
		for _, wg := range wgs {
			k.waited(g, u, wg)
		}
	}
}

// doneOf finds the wait groups a goroutine signals in every case, in terms of the function that starts it.
func (k *lockCheck) doneOf(u calleeUse) []string {
	var out []string
	if len(u.fn.Blocks) == 0 {
		return nil
	}
	// a deferred call in the first block, or a last call in every way out
	for _, b := range u.fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok || !dominatesExits(u.fn, b) {
				continue
			}
			if calleeName(&d.Call) == "(*sync.WaitGroup).Done" {
				if q := substitute(lkey(d.Call.Args[0]), u.fn, u.args, u.binds); q != "" {
					out = append(out, q)
				}
			}
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				g := mc.Fn.(*ssa.Function)
				for _, gb := range g.Blocks {
					for _, gi := range gb.Instrs {
						if c, ok := gi.(*ssa.Call); ok && calleeName(&c.Call) == "(*sync.WaitGroup).Done" && dominatesExits(g, gb) {
							if q := substitute(lkey(c.Call.Args[0]), g, d.Call.Args, mc.Bindings); q != "" {
								if q2 := substitute(q, u.fn, u.args, u.binds); q2 != "" {
									out = append(out, q2)
								}
							}
						}
					}
				}
			}
		}
	}
	if len(out) == 0 {
		cand := map[string]int{}
		n := 0
		for _, b := range u.fn.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
				continue
			}
			n++
			for i, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && calleeName(&c.Call) == "(*sync.WaitGroup).Done" && i >= len(b.Instrs)-3 {
					if q := substitute(lkey(c.Call.Args[0]), u.fn, u.args, u.binds); q != "" {
						cand[q]++
					}
				}
			}
		}
		for q, m := range cand {
			if m == n {
				out = append(out, q)
			}
		}
	}
	return out
}

func dominatesExits(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, e := range f.Blocks {
		if len(e.Instrs) == 0 || e == f.Recover {
			continue
		}
		if _, ok := e.Instrs[len(e.Instrs)-1].(*ssa.Return); ok && !b.Dominates(e) {
			return false
		}
	}
	return true
}

// waited checks the announcement of a goroutine and that every way on leads through the wait.
func (k *lockCheck) waited(g *ssa.Go, u calleeUse, wg string) {
	f := g.Parent()
	name := f.RelString(nil)
	isCall := func(in ssa.Instruction, method string) (*ssa.CallCommon, bool) {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(&c.Call) != "(*sync.WaitGroup)."+method || lkey(c.Call.Args[0]) != wg {
			return nil, false
		}
		return &c.Call, true
	}
	// what the goroutine writes
	wr := map[string]bool{}
	for i, fv := range u.fn.FreeVars {
		if k.writesThrough(u.fn, fv) && i < len(u.binds) {
			wr[u.binds[i].Name()] = true
		}
	}
	// every way from the start
	var loop map[*ssa.BasicBlock]bool
	for _, l := range allLoops(f) {
		if l.blocks[g.Block()] && (loop == nil || len(l.blocks) < len(loop)) {
			loop = l.blocks
		}
	}
	deferred := false
	eachInstr(f, func(in ssa.Instruction) {
		if d, ok := in.(*ssa.Defer); ok && calleeName(&d.Call) == "(*sync.WaitGroup).Wait" && lkey(d.Call.Args[0]) == wg && in.Block().Dominates(g.Block()) {
			deferred = true
		}
	})
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, in := range b.Instrs[from:] {
			if _, ok := isCall(in, "Wait"); ok {
				return
			}
			if _, ok := in.(*ssa.Return); ok {
				if !deferred {
					k.bad(g.Pos(), "%s may return at %s before the goroutine ends", name, k.w.pos(in.Pos()))
				} else if len(wr) > 0 && len(in.(*ssa.Return).Results) > 0 {
					for _, r := range in.(*ssa.Return).Results {
						for x := range k.eff.roots(r) {
							if wr[x.Name()] {
								k.bad(in.Pos(), "%s returns what a goroutine may still be writing", name)
							}
						}
					}
				}
				return
			}
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == u.fn {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && wr[(*op).Name()] {
					if _, isAlloc := (*op).(*ssa.Alloc); isAlloc {
						k.bad(in.Pos(), "%s uses what the goroutine started at %s writes before waiting for it", name, k.w.pos(g.Pos()))
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, in := range g.Block().Instrs {
		if in == ssa.Instruction(g) {
			walk(g.Block(), i+1)
		}
	}
	// announced before it starts, once per start
	announced := false
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			cc, ok := isCall(in, "Add")
			if !ok {
				continue
			}
			n := cc.Args[1]
			before := b.Dominates(g.Block())
			if b == g.Block() {
				for _, x := range b.Instrs[:i] {
					if x == ssa.Instruction(g) {
						before = false
					}
				}
			}
			if !before {
				k.bad(in.Pos(), "%s announces a goroutine that may have ended", name)
				continue
			}
			one := false
			if kc, ok := n.(*ssa.Const); ok && kc.Value != nil {
				one = kc.Int64() == 1
			}
			if loop[b] || loop == nil {
				if !one {
					k.bad(in.Pos(), "%s does not announce one goroutine per start", name)
				}
				announced = true
				continue
			}
			// outside the loop: as many as the loop has iterations, each of which starts one
			if ln := lenOf(n); ln != nil && k.ranges(f, loop, ln) && everyIteration(loop, g.Block()) {
				announced = true
				continue
			}
			k.bad(in.Pos(), "%s does not announce as many goroutines as it starts", name)
			announced = true
		}
	}
	if !announced {
		k.bad(g.Pos(), "%s waits for a goroutine that is not announced before it starts", name)
	}
}

func lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// ranges tells whether a loop has as many iterations as a slice has elements.
func (k *lockCheck) ranges(f *ssa.Function, loop map[*ssa.BasicBlock]bool, s ssa.Value) bool {
	for b := range loop {
		for _, in := range b.Instrs {
			i, ok := in.(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := i.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != token.LSS {
				continue
			}
			out := false
			for _, t := range b.Succs {
				out = out || !loop[t]
			}
			if l := lenOf(cmp.Y); out && l != nil && (lkey(l) == lkey(s) || sameValue(l, s)) {
				return true
			}
		}
	}
	return false
}

// everyIteration tells whether each iteration of a loop passes a block.
func everyIteration(loop map[*ssa.BasicBlock]bool, g *ssa.BasicBlock) bool {
	for b := range loop {
		for _, s := range b.Succs {
			// a way back to the head that does not pass g, or a way out after the test
			if loop[s] && s.Dominates(b) && !g.Dominates(b) {
				return false
			}
			if !loop[s] && !b.Dominates(g) {
				return false
			}
		}
	}
	return true
}

// writesThrough tells whether a function writes memory through a captured variable.
func (k *lockCheck) writesThrough(f *ssa.Function, fv *ssa.FreeVar) bool {
	for _, n := range k.sums[f].needs {
		if n.write && rootName(n.obj) == fv.Name() && n.owner == "" {
			return true
		}
	}
	return false
}

// entered tells what holds at an instruction that enters a package (named by key) into the set of
// checked packages: the package is type-checked, the goroutines started before are joined, and the
// package's lock is held. What a helper that gets the package as an argument does not establish
// itself must hold at all its call sites.
func (k *lockCheck) entered(f *ssa.Function, in ssa.Instruction, key string, sets map[*ssa.Function]map[string]bool, depth int) (done, joined, held bool) {
	w, c := k.w, k.c
	pkgT := w.typ("pkg/loader", "Package")
	before := func(x ssa.Instruction) bool {
		if x.Block() == in.Block() {
			for _, y := range in.Block().Instrs {
				if y == x {
					return true
				}
				if y == in {
					return false
				}
			}
		}
		return x.Block().Dominates(in.Block())
	}
	var joins []ssa.Instruction
	gos := 0
	eachInstr(f, func(x ssa.Instruction) {
		if cl, ok := x.(*ssa.Call); ok && calleeName(&cl.Call) == "(*sync.WaitGroup).Wait" {
			joins = append(joins, x)
		}
		if _, ok := x.(*ssa.Go); ok {
			gos++
		}
	})
	after := func(x ssa.Instruction) bool { // x comes after the goroutines are joined
		if gos == 0 {
			return true
		}
		for _, y := range joins {
			if y.Block() == x.Block() {
				for _, z := range x.Block().Instrs {
					if z == y {
						return true
					}
					if z == x {
						break
					}
				}
			} else if y.Block().Dominates(x.Block()) {
				return true
			}
		}
		return false
	}
	joined = after(in)
	eachInstr(f, func(x ssa.Instruction) {
		if _, ok := x.(*ssa.Call); ok && x != in && before(x) {
			for _, u := range k.uses(x) {
				for p := range sets[u.fn] {
					if substitute(p, u.fn, u.args, u.binds) == key {
						done = true
						c.ob(after(x), "checked-after-references", f.RelString(nil), w.pos(x.Pos()), "%s type-checks a package before the goroutines checking what it refers to have ended", f.RelString(nil))
					}
				}
			}
		}
	})
	fin := k.final
	k.final = false
	k.flowLocks(f, func(x ssa.Instruction, s *lockState) {
		if x == in {
			held = s.must[key+"."+k.owned[typeName(pkgT)].lock] == lockW
		}
	})
	k.final = fin
	if (done && held && gos > 0) || depth > 4 || !rootedAtInput(f, key) {
		return
	}
	sites, d, j, h := 0, true, true, true
	for _, g := range w.Funcs {
		eachInstr(g, func(x ssa.Instruction) {
			cl, ok := x.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, u := range k.uses(cl) {
				if u.fn != f {
					continue
				}
				sites++
				name := substitute(key, f, u.args, u.binds)
				d1, j1, h1 := k.entered(g, x, name, sets, depth+1)
				if _, plain := x.(*ssa.Call); !plain {
					d1, h1 = false, false
				}
				if !rootedAtInput(g, name) {
					j1 = true // another package than the one whose references g starts goroutines for
				}
				d, j, h = d && d1, j && j1, h && h1
			}
		})
	}
	if sites > 0 {
		done, joined, held = done || d, joined && j, held || h
	}
	return
}

// checkedSet checks when a package is entered into the set of checked packages.
func (k *lockCheck) checkedSet(conc map[*ssa.Function]bool) {
	w, c := k.w, k.c
	pkgT := w.typ("pkg/loader", "Package")
	chk := typeName(w.typ("pkg/loader", "TypeChecker"))
	// functions that type-check their package argument: they set TypesInfo, directly or through a call
	sets := map[*ssa.Function]map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Funcs {
			mark := func(p string) {
				if p == "" || !rootedAtInput(f, p) {
					return
				}
				if sets[f] == nil {
					sets[f] = map[string]bool{}
				}
				if !sets[f][p] {
					sets[f][p] = true
					changed = true
				}
			}
			eachInstr(f, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field).Name() == "TypesInfo" {
						if o, tn, _ := k.owner(fa); o != nil && tn == typeName(pkgT) {
							mark(lkey(o))
						}
					}
				case *ssa.Call:
					for _, u := range k.uses(in) {
						for p := range sets[u.fn] {
							mark(substitute(p, u.fn, u.args, u.binds))
						}
					}
				}
			})
		}
	}
	n := 0
	for _, f := range w.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			ld, ok := mu.Map.(*ssa.UnOp)
			if !ok {
				return
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if !ok {
				return
			}
			o, tn, field := k.owner(fa)
			if o == nil || tn != chk || !types.Identical(mu.Key.Type(), types.NewPointer(pkgT)) {
				return
			}
			n++
			done, joined, held := k.entered(f, in, lkey(mu.Key), sets, 0)
			pos := w.pos(mu.Pos())
			where := f.RelString(nil) + " " + field
			c.ob(done, "checked-when-checked", where, pos, "%s marks a package as checked before it is type-checked", f.RelString(nil))
			c.ob(joined, "checked-when-references-are", where, pos, "%s marks a package as checked before the goroutines it started have ended", f.RelString(nil))
			c.ob(held, "checked-under-lock", where, pos, "%s marks a package as checked without holding its lock", f.RelString(nil))
		})
	}
	c.ob(n > 0, "checked-set", chk, "", "no package is entered into a set of checked packages")
	// every referenced package is given to the check: the goroutines are started in every iteration
	for f := range conc {
		eachInstr(f, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			for _, l := range allLoops(f) {
				if l.blocks[g.Block()] {
					c.ob(everyIteration(l.blocks, g.Block()), "every-reference", f.RelString(nil), w.pos(g.Pos()), "%s does not start a goroutine for each element", f.RelString(nil))
				}
			}
		})
	}
}

// copies reports copies of structures that contain locks.
func (k *lockCheck) copies() {
	for _, f := range k.w.Funcs {
		for _, p := range f.Params {
			if hasLock(p.Type(), 0) {
				k.bad(f.Pos(), "%s takes a structure with a lock by value (%s)", f.RelString(nil), typeName(p.Type()))
			}
		}
		eachInstr(f, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && hasLock(u.Type(), 0) {
				k.bad(u.Pos(), "%s copies a structure with a lock (%s)", f.RelString(nil), typeName(u.Type()))
			}
		})
	}
}

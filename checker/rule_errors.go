package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "interprocedural typestate analysis of error values over SSA control flow", "every call and parameter that can carry an error",
		"Every error a call can give back is followed along all control-flow paths until it is returned, recorded, printed or aggregated into an error that is; a path on which it is non-nil and reaches the end of the function, is overwritten, or goes on using the results of the failed call is a violation. The run loop and the commands are interpreted abstractly: any error must make the run report failure, still run the other generators, and end the process with a non-zero status.", checkC02)
}

// errFlow follows one error through one function.
type errFlow struct {
	c      *Check
	fl     *Flow
	fn     *ssa.Function
	origin ssa.Instruction // where the error comes from; nil for parameters
	what   string
	key    string
	sibs   map[ssa.Value]bool // other results of the failed call
	seen   map[string]bool
	bad    map[string]token.Pos
	steps  int
}

func isErrish(t types.Type) bool {
	if t == nil {
		return false
	}
	if isErrorType(t) {
		return true
	}
	switch u := types.Unalias(t).(type) {
	case *types.Slice:
		return isErrish(u.Elem())
	case *types.Array:
		return isErrish(u.Elem())
	case *types.Pointer:
		return isErrish(u.Elem())
	case *types.Named:
		if _, ok := u.Underlying().(*types.Slice); ok {
			return isErrish(u.Underlying())
		}
		if _, ok := u.Underlying().(*types.Interface); !ok && types.Implements(u, universeError()) {
			return true
		}
	}
	return false
}

func universeError() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

type carriers map[ssa.Value]bool

func (cs carriers) key() string {
	var ks []string
	for v := range cs {
		ks = append(ks, fmt.Sprintf("%p", v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (cs carriers) with(vs ...ssa.Value) carriers {
	n := make(carriers, len(cs)+len(vs))
	for v := range cs {
		n[v] = true
	}
	for _, v := range vs {
		n[v] = true
	}
	return n
}

func (e *errFlow) fail(kind string, pos token.Pos) {
	if _, dup := e.bad[kind]; !dup {
		e.bad[kind] = pos
	}
}

// start follows the error from behind the instruction that produced it.
func (e *errFlow) start(b *ssa.BasicBlock, idx int, cs carriers) {
	e.walk(b, idx, cs, false)
}

func (e *errFlow) walk(b *ssa.BasicBlock, idx int, cs carriers, known bool) {
	k := fmt.Sprint(b.Index, ":", idx, known, cs.key())
	if e.seen[k] {
		return
	}
	e.seen[k] = true
	e.steps++
	for i := idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == e.origin {
			// the call is executed again: what it gave before must have gone elsewhere
			n := carriers{}
			for v := range cs {
				if ex, ok := v.(*ssa.Extract); ok && ssa.Instruction(ex.Tuple.(ssa.Instruction)) == e.origin {
					continue
				}
				if iv, ok := v.(ssa.Instruction); ok && iv == e.origin {
					continue
				}
				if cellOrPhi(v) {
					n[v] = true
				}
			}
			if len(n) == 0 {
				e.fail("is forgotten when the call is made again", in.Pos())
				return
			}
			cs = n
			e.walk(b, i+1, cs, known)
			return
		}
		if known && e.sibs != nil {
			// loads through a result of the failed call
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil || !e.sibs[*op] {
					continue
				}
				if useOfFailed(in, *op) {
					e.fail("is not nil, but the other results of the call are used", in.Pos())
				}
			}
		}
		switch in := in.(type) {
		case *ssa.Return:
			for _, r := range in.Results {
				if cs[r] {
					return
				}
				if e.otherError(in, r) {
					return
				}
			}
			e.fail("is not reported before the function returns", in.Pos())
			return
		case *ssa.Panic:
			return
		case *ssa.Phi:
		case *ssa.Store:
			if !cs[in.Val] {
				if cs[in.Addr] && cellOf(in.Addr) != nil && !isPartial(in.Addr) {
					// the variable is overwritten
					n := cs.with()
					delete(n, in.Addr)
					for v := range n {
						if u, ok := v.(*ssa.UnOp); ok && u.X == in.Addr {
							delete(n, v)
						}
					}
					// the stored value may itself hold the error (append to the variable)
					if len(n) == 0 {
						e.fail("is overwritten", in.Pos())
						return
					}
					cs = n
				}
				continue
			}
			switch a := rootAddr(in.Addr).(type) {
			case *ssa.Alloc:
				cs = cs.with(in.Addr, a)
			default:
				return // kept in a field, a captured variable or a global: followed from there
			}
		case *ssa.MapUpdate:
			if cs[in.Value] {
				return
			}
		case *ssa.Send:
			if cs[in.X] {
				return
			}
		case *ssa.MakeClosure:
			for _, bd := range in.Bindings {
				if cs[bd] {
					if in.Fn.(*ssa.Function) != nil && usesAsSink(in.Fn.(*ssa.Function), bd, in) {
						return
					}
				}
			}
		case *ssa.UnOp:
			if in.Op == token.MUL && cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.MakeInterface:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.ChangeInterface:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.ChangeType:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.Convert:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.TypeAssert:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.Extract:
			if cs[in.Tuple] && in.Index == 0 {
				cs = cs.with(in)
			}
		case *ssa.Slice:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.BinOp:
			if in.Op == token.ADD && (cs[in.X] || cs[in.Y]) {
				cs = cs.with(in)
			}
		case *ssa.Field:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.FieldAddr:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.IndexAddr:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.Range:
			if cs[in.X] {
				return
			}
		case *ssa.Defer, *ssa.Go:
			if usesCarrier(in, cs) {
				return
			}
		case *ssa.Call:
			if e.fl.fatal(in) {
				return // the process ends with a failure status
			}
			if !usesCarrier(in, cs) {
				continue
			}
			n := calleeName(in.Common())
			switch n {
			case "builtin.len", "builtin.cap":
				continue
			case "errors.Is", "os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.As":
				continue
			}
			if in.Common().IsInvoke() && in.Common().Method.Name() == "Error" || n == "builtin.append" || n == "builtin.copy" {
				cs = cs.with(in)
				continue
			}
			if strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") {
				// printing reports an error only where the run's outcome is decided
				if en := fullName(enclosing(e.fn)); strings.HasSuffix(en, ".main") || strings.HasSuffix(en, "genall.Runtime).Run") {
					return
				}
				continue
			}
			// a call that gives back an error, a text or a list of errors passes the duty on
			rt := in.Type()
			if tp, ok := rt.(*types.Tuple); ok {
				if tp.Len() == 0 || noError(rt) {
					return
				}
				cs = cs.with(in)
				continue
			}
			if isErrish(rt) || isString(rt) && strings.HasPrefix(n, "fmt.") {
				cs = cs.with(in)
				continue
			}
			return
		case *ssa.If:
			t, f := e.branch(in.Cond, cs)
			for j, s := range b.Succs {
				if j == 0 && t < 0 || j == 1 && f < 0 {
					continue
				}
				if e.otherNonNil(in.Cond, j == 0, cs) {
					continue
				}
				e.enter(b, s, cs, known || (j == 0 && t > 0) || (j == 1 && f > 0))
			}
			return
		case *ssa.Jump:
			e.enter(b, b.Succs[0], cs, known)
			return
		}
	}
}

func (e *errFlow) enter(from, to *ssa.BasicBlock, cs carriers, known bool) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	n := cs.with()
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if cs[phi.Edges[pi]] {
			n[phi] = true
		} else {
			delete(n, phi)
		}
	}
	// values that no longer reach anything from here do not count as kept
	e.walk(to, 0, n, known)
}

// branch says whether the edges of a condition are possible (-1: no, 1: the error is known to be set, 0: possible).
func (e *errFlow) branch(cond ssa.Value, cs carriers) (t, f int) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			t, f = e.branch(c.X, cs)
			return f, t
		}
	case *ssa.BinOp:
		x, y := c.X, c.Y
		// a loop over the errors: there is at least one, and each of them stands for all
		if call, ok := y.(*ssa.Call); ok && c.Op == token.LSS && calleeName(call.Common()) == "builtin.len" && cs[call.Call.Args[0]] {
			return 1, -1
		}
		if !cs[x] && cs[y] {
			x, y = y, x
		}
		isNil := false
		if k, ok := y.(*ssa.Const); ok && k.IsNil() {
			isNil = true
		}
		if cs[x] && isNil {
			switch c.Op {
			case token.EQL:
				return -1, 1
			case token.NEQ:
				return 1, -1
			}
		}
		if call, ok := x.(*ssa.Call); ok && calleeName(call.Common()) == "builtin.len" && cs[call.Call.Args[0]] {
			if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "0" {
				switch c.Op {
				case token.EQL, token.LEQ:
					return -1, 1
				case token.NEQ, token.GTR:
					return 1, -1
				}
			}
			if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "1" {
				switch c.Op {
				case token.LSS:
					return -1, 1
				case token.GEQ:
					return 1, -1
				}
			}
		}
	case *ssa.Call:
		n := calleeName(c.Common())
		switch n {
		case "os.IsNotExist", "os.IsExist", "os.IsPermission":
			if cs[c.Call.Args[0]] {
				return -1, 0 // the condition is what the code asked about: it is dealt with
			}
		case "errors.Is":
			if cs[c.Call.Args[0]] {
				return -1, 0
			}
		}
	}
	return 0, 0
}

// otherNonNil reports whether an edge means that another error is set, which then takes precedence.
func (e *errFlow) otherNonNil(cond ssa.Value, taken bool, cs carriers) bool {
	c, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	k, ok := c.Y.(*ssa.Const)
	if !ok || !k.IsNil() || !isErrorType(c.X.Type()) || cs[c.X] {
		return false
	}
	return c.Op == token.NEQ && taken || c.Op == token.EQL && !taken
}

// otherError reports whether a returned value is certainly another error.
func (e *errFlow) otherError(ret *ssa.Return, v ssa.Value) bool {
	if !isErrish(v.Type()) {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		n := calleeName(v.Common())
		return n == "fmt.Errorf" || n == "errors.New"
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			return strings.HasPrefix(g.Name(), "Err")
		}
	}
	return false
}

// fatal reports whether a call ends the process with a failure status on every path.
func (fl *Flow) fatal(c ssa.CallInstruction) bool {
	if _, ok := c.(*ssa.Call); !ok {
		return false
	}
	n := calleeName(c.Common())
	if n == "os.Exit" {
		k, ok := c.Common().Args[0].(*ssa.Const)
		return ok && k.Int64() != 0
	}
	if strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") {
		return true
	}
	f := c.Common().StaticCallee()
	if f == nil || len(f.Blocks) == 0 || f.Pkg == nil || !isRepoPath(f.Pkg.Pkg.Path()) {
		return false
	}
	if r, ok := fl.fatals[f]; ok {
		return r
	}
	fl.fatals[f] = false
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if fl.fatal(in) {
					return
				}
			case *ssa.Panic:
				return
			case *ssa.Return:
				ok = false
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(f.Blocks[0])
	fl.fatals[f] = ok
	return ok
}

// underError reports whether a block runs only when some error is set.
func underError(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isErrorType(c.X.Type()) {
			continue
		}
		if k, ok := c.Y.(*ssa.Const); ok && k.IsNil() && (c.Op == token.NEQ && p.Succs[0] == d || c.Op == token.EQL && p.Succs[1] == d) {
			return true
		}
	}
	return false
}

// probes reports whether a call only asks what something is, or cannot fail where it stands.
func probes(fl *Flow, c ssa.CallInstruction) bool {
	cc := c.Common()
	switch n := calleeName(cc); n {
	case "os.Stat", "os.Lstat":
		return true
	case "os.Remove", "os.RemoveAll":
		return true // cleaning up: nothing of the result depends on it
	case "strconv.Unquote":
		// the text of a literal the Go parser accepted
		for _, o := range fl.originsTo(cc.Args[0], func(v ssa.Value) bool { return isLitValue(v) }) {
			if !isLitValue(o) {
				return false
			}
		}
		return true
	default:
		if strings.HasSuffix(n, "yaml.Unmarshal") && len(cc.Args) >= 2 {
			if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok {
				// finding out whether a document is a Kubernetes object at all
				return strings.HasSuffix(typeName(deref(mi.X.Type())), "meta/v1.TypeMeta")
			}
		}
	}
	return false
}

func isLitValue(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && typeName(deref(fa.X.Type())) == "go/ast.BasicLit"
}

func cellOrPhi(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Phi, *ssa.Alloc:
		return true
	}
	return false
}

func cellOf(v ssa.Value) *ssa.Alloc {
	a, _ := rootAddr(v).(*ssa.Alloc)
	return a
}

func isPartial(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return !ok }

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return v
		}
	}
}

func usesCarrier(in ssa.Instruction, cs carriers) bool {
	c := in.(ssa.CallInstruction).Common()
	if cs[c.Value] {
		return true
	}
	for _, a := range c.Args {
		if cs[a] {
			return true
		}
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func noError(t types.Type) bool {
	tp, ok := t.(*types.Tuple)
	if !ok {
		return !isErrish(t)
	}
	for i := 0; i < tp.Len(); i++ {
		if isErrish(tp.At(i).Type()) {
			return false
		}
	}
	return true
}

// usesAsSink reports whether a closure hands the captured variable on.
func usesAsSink(fn *ssa.Function, bd ssa.Value, mc *ssa.MakeClosure) bool {
	for i, b := range mc.Bindings {
		if b != bd {
			continue
		}
		fv := fn.FreeVars[i]
		for _, r := range *fv.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				for _, r2 := range *u.Referrers() {
					if _, ok := r2.(ssa.CallInstruction); ok {
						return true
					}
					if _, ok := r2.(*ssa.Return); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// useOfFailed reports whether an instruction works on a result of a failed call rather than passing it along with the error.
func useOfFailed(in ssa.Instruction, v ssa.Value) bool {
	switch in := in.(type) {
	case *ssa.Return, *ssa.Phi, *ssa.If, *ssa.DebugRef, *ssa.Extract:
		return false
	case *ssa.BinOp:
		return false
	case *ssa.MapUpdate:
		return true
	case *ssa.Store:
		// kept in a local variable, which only matters if that is used
		_, local := rootAddr(in.Addr).(*ssa.Alloc)
		return in.Val == v && !local
	case ssa.CallInstruction:
		return true
	}
	return false
}

// exemptDrop lists the calls whose error carries no failure of the tool: printing to the terminal and writers that cannot fail.
func exemptDrop(fl *Flow, c ssa.CallInstruction) bool {
	cc := c.Common()
	n := calleeName(cc)
	switch n {
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return true
	case "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint", "io.WriteString":
		return terminalWriter(fl, cc.Args[0])
	}
	if strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(hash.Hash") {
		return true
	}
	if strings.HasSuffix(n, ".Close") {
		return readHandle(fl, cc)
	}
	return false
}

// terminalWriter reports whether a writer is the terminal, the error output or a buffer in memory.
func terminalWriter(fl *Flow, v ssa.Value) bool {
	ok := true
	os := fl.originsTo(v, func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fieldOf(fa.X.Type(), fa.Field).Name() == "ErrorWriter"
			}
		}
		return false
	})
	for _, o := range os {
		switch o := o.(type) {
		case *ssa.Global:
			if o.Pkg != nil && o.Pkg.Pkg.Path() == "os" && (o.Name() == "Stdout" || o.Name() == "Stderr") {
				continue
			}
		case *ssa.UnOp:
			if g, isG := o.X.(*ssa.Global); isG && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
				continue
			}
			if fa, isF := o.X.(*ssa.FieldAddr); isF && fieldOf(fa.X.Type(), fa.Field).Name() == "ErrorWriter" {
				continue
			}
		case *ssa.Call:
			switch o.Call.Value.Type(); {
			case strings.Contains(calleeName(o.Common()), "cobra.Command).Out"), strings.Contains(calleeName(o.Common()), "cobra.Command).Err"):
				continue
			}
		case *ssa.Alloc:
			if t := typeName(deref(o.Type())); t == "bytes.Buffer" || t == "strings.Builder" {
				continue
			}
		}
		ok = false
	}
	return ok && len(os) > 0
}

// readHandle reports whether what is closed was opened for reading.
func readHandle(fl *Flow, cc *ssa.CallCommon) bool {
	v := cc.Value
	if !cc.IsInvoke() {
		v = cc.Args[0]
	}
	t := v.Type().String()
	if strings.HasSuffix(t, "io.ReadCloser") {
		return true
	}
	os := fl.originsTo(v, func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		return ok && ex.Index == 0
	})
	for _, o := range os {
		ex, ok := o.(*ssa.Extract)
		if !ok {
			return false
		}
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		n := calleeName(call.Common())
		if n != "os.Open" && !strings.HasSuffix(n, ".OpenForRead") {
			return false
		}
	}
	return len(os) > 0
}

func checkC02(c *Check) {
	w := c.W
	fl := newFlow(w)
	nf := 0
	for _, fn := range w.Funcs {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		nf++
		name := relName(fullName(enclosing(fn)))
		// errors handed in
		for _, p := range fn.Params {
			if isErrorType(p.Type()) && fn.Signature.Recv() != nil && p == fn.Params[0] {
				continue
			}
			if !isErrorType(p.Type()) {
				continue
			}
			e := &errFlow{c: c, fl: fl, fn: fn, seen: map[string]bool{}, bad: map[string]token.Pos{}}
			e.start(fn.Blocks[0], 0, carriers{p: true})
			report(c, e, "error-parameter", fmt.Sprintf("%s(%s)", name, p.Name()), fn.Pos(), fmt.Sprintf("the error given to %s", name))
		}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					// an error list captured by a closure is owed by the function that declares it
					if mc, ok := in.(*ssa.MakeClosure); ok {
						checkCaptured(c, fl, fn, name, b, i, mc)
					}
					continue
				}
				cc := ci.Common()
				sig := cc.Signature()
				idx := -1
				for j := 0; j < sig.Results().Len(); j++ {
					if isErrorType(sig.Results().At(j).Type()) {
						idx = j
					}
				}
				if idx < 0 {
					continue
				}
				cn := relName(calleeName(cc))
				if cn == "" {
					cn = "a function value"
				}
				key := name + " calls " + cn
				if _, isCall := in.(*ssa.Call); !isCall {
					c.ob(exemptDrop(fl, ci) || probes(fl, ci) || underError(b), "error-dropped", key, w.pos(in.Pos()), "%s: the error of the deferred %s is dropped", name, cn)
					continue
				}
				call := in.(*ssa.Call)
				if probes(fl, ci) {
					c.ob(true, "probe", key, w.pos(in.Pos()), "")
					continue
				}
				var ev ssa.Value
				sibs := map[ssa.Value]bool{}
				if sig.Results().Len() == 1 {
					ev = call
				} else {
					for _, r := range *call.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok {
							if ex.Index == idx {
								ev = ex
							} else {
								sibs[ex] = true
							}
						}
					}
				}
				if ev == nil || ev.Referrers() == nil || len(realRefs(ev)) == 0 {
					c.ob(exemptDrop(fl, ci) || probes(fl, ci) || underError(b), "error-dropped", key, w.pos(in.Pos()), "%s: the error of %s is dropped", name, cn)
					continue
				}
				e := &errFlow{c: c, fl: fl, fn: fn, origin: in, sibs: sibs, seen: map[string]bool{}, bad: map[string]token.Pos{}}
				e.walk(b, i+1, carriers{ev: true}, isConstructor(cn))
				if exemptDrop(fl, ci) {
					e.bad = nil
				}
				report(c, e, "error-handled", key, in.Pos(), fmt.Sprintf("%s: the error of %s", name, cn))
			}
		}
	}
	c.fact("functions", nf)
	c.atLeast("error-handled", 200)
	checkExit(c)
	checkRunErrors(c)
	checkPrintErrors(c)
	checkAddError(c)
}

func isConstructor(n string) bool {
	switch n {
	case "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

func realRefs(v ssa.Value) []ssa.Instruction {
	var r []ssa.Instruction
	for _, x := range *v.Referrers() {
		if _, ok := x.(*ssa.DebugRef); !ok {
			r = append(r, x)
		}
	}
	return r
}

func report(c *Check, e *errFlow, rule, key string, pos token.Pos, what string) {
	if len(e.bad) == 0 {
		c.ob(true, rule, key, c.W.pos(pos), "")
		return
	}
	for _, k := range sortedKeys(e.bad) {
		c.bad(rule, key, c.W.pos(e.bad[k]), "%s (%s) %s", what, c.W.pos(pos), k)
	}
}

// checkCaptured follows error variables that a closure may set.
func checkCaptured(c *Check, fl *Flow, fn *ssa.Function, name string, b *ssa.BasicBlock, i int, mc *ssa.MakeClosure) {
	cl := mc.Fn.(*ssa.Function)
	for j, bd := range mc.Bindings {
		a, ok := bd.(*ssa.Alloc)
		if !ok || !isErrish(deref(a.Type())) {
			continue
		}
		sets := false
		for _, r := range *cl.FreeVars[j].Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == cl.FreeVars[j] {
				sets = true
			}
		}
		if !sets {
			continue
		}
		e := &errFlow{c: c, fl: fl, fn: fn, seen: map[string]bool{}, bad: map[string]token.Pos{}}
		deferred := true
		for _, r := range realRefs(mc) {
			if _, ok := r.(*ssa.Defer); !ok {
				deferred = false
			}
		}
		if deferred {
			for _, b := range fn.Blocks {
				for i, in := range b.Instrs {
					if _, ok := in.(*ssa.RunDefers); ok {
						e.start(b, i+1, carriers{a: true})
					}
				}
			}
		} else {
			e.start(b, i+1, carriers{a: true})
		}
		report(c, e, "error-collected", name+" "+a.Comment, a.Pos(), fmt.Sprintf("%s: what is collected in %s", name, a.Comment))
	}
}

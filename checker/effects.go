package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects summarises, for every function, which memory it writes: the
// parameters (and captured variables) from which written memory is reachable,
// package variables, and the outside world.

type effSum struct {
	params map[ssa.Value]bool // *ssa.Parameter, *ssa.FreeVar
	world  string             // first effect on package variables or the outside world
}

type Effects struct {
	fl   *Flow
	sums map[*ssa.Function]*effSum
	rets map[*ssa.Function]map[int]bool
}

func newEffects(w *World) *Effects {
	e := &Effects{newFlow(w), map[*ssa.Function]*effSum{}, map[*ssa.Function]map[int]bool{}}
	for _, f := range w.Funcs {
		e.sums[f] = &effSum{params: map[ssa.Value]bool{}}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Funcs {
			s := e.sums[f]
			add := func(v ssa.Value) {
				for r := range e.roots(v) {
					switch r.(type) {
					case *ssa.Parameter, *ssa.FreeVar:
						if !s.params[r] {
							s.params[r] = true
							changed = true
						}
					case *ssa.Global:
						if s.world == "" {
							s.world = "writes " + r.Name()
							changed = true
						}
					}
				}
			}
			eachInstr(f, func(in ssa.Instruction) {
				if e.unordered(in) {
					return
				}
				vs, world := e.writes(in)
				for _, v := range vs {
					add(v)
				}
				if world != "" && s.world == "" {
					s.world = world
					changed = true
				}
			})
		}
	}
	return e
}

// unordered recognises writes whose outcome does not depend on what is written
// before them: adding to a set, remembering a computed value, locking.
func (e *Effects) unordered(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if _, ok := x.Value.(*ssa.Const); ok {
			return true
		}
		if s, ok := x.Value.Type().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			return true
		}
		// m[k] is set only where it was found missing
		return guardedBy(x.Block(), func(cond ssa.Value) bool {
			return dependsOn(cond, func(v ssa.Value) bool {
				l, ok := v.(*ssa.Lookup)
				return ok && sameValue(l.X, x.Map) && sameValue(l.Index, x.Key)
			})
		})
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		return guardedBy(x.Block(), func(cond ssa.Value) bool {
			return dependsOn(cond, func(v ssa.Value) bool {
				u, ok := v.(*ssa.UnOp)
				return ok && u.Op == token.MUL && sameValue(u.X, fa)
			})
		})
	case ssa.CallInstruction:
		n := calleeName(x.Common())
		return strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "(k8s.io/apimachinery/pkg/util/sets.") && (strings.HasSuffix(n, ").Insert") || strings.HasSuffix(n, ").Has"))
	}
	return false
}

// guardedBy tells whether a block is only reached through a branch on an accepted condition.
func guardedBy(b *ssa.BasicBlock, accept func(cond ssa.Value) bool) bool {
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && accept(i.Cond) {
			// reached on one side only
			for _, s := range p.Succs {
				if s == d && len(d.Preds) == 1 {
					return true
				}
			}
			// or the other side has left the function
			if len(p.Succs) == 2 && (p.Succs[0] == d) != (p.Succs[1] == d) {
				return true
			}
		}
	}
	return false
}

// dependsOn tells whether a condition is computed from an accepted value.
func dependsOn(v ssa.Value, accept func(ssa.Value) bool) bool {
	if accept(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return dependsOn(x.X, accept) || dependsOn(x.Y, accept)
	case *ssa.UnOp:
		return x.Op == token.NOT && dependsOn(x.X, accept)
	case *ssa.Extract:
		return accept(x.Tuple)
	}
	return false
}

// sameValue tells whether two values are read from the same place.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.Op == token.MUL && sameValue(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.String() == y.String()
	}
	return false
}

// writes lists the values through which an instruction writes memory, and its effect on the world.
func (e *Effects) writes(in ssa.Instruction) (vs []ssa.Value, world string) {
	switch in := in.(type) {
	case *ssa.Store:
		return []ssa.Value{in.Addr}, ""
	case *ssa.MapUpdate:
		return []ssa.Value{in.Map}, ""
	case *ssa.Send:
		return []ssa.Value{in.Chan}, ""
	case ssa.CallInstruction:
		vs, world = e.callWrites(in)
		k := 0
		for _, v := range vs {
			// adding a file to a file set locks it, and only decides which numbers positions get
			if typeName(deref(v.Type())) != "go/token.FileSet" {
				vs[k] = v
				k++
			}
		}
		return vs[:k], world
	}
	return nil, ""
}

func (e *Effects) callWrites(c ssa.CallInstruction) (vs []ssa.Value, world string) {
	cc := c.Common()
	args := cc.Args
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "clear":
			return args[:1], ""
		case "print", "println":
			return nil, "prints"
		}
		return nil, ""
	}
	cs := e.fl.callees(c)
	known := false
	for _, g := range cs {
		s := e.sums[g]
		if s == nil && g.Origin() != nil {
			g = g.Origin()
			s = e.sums[g]
		}
		if s == nil {
			continue
		}
		known = true
		if s.world != "" && world == "" {
			world = s.world
		}
		off := 0
		if cc.IsInvoke() {
			off = 1
		}
		for p := range s.params {
			switch p := p.(type) {
			case *ssa.Parameter:
				for i, q := range g.Params {
					if q != p {
						continue
					}
					if off == 1 && i == 0 {
						vs = append(vs, cc.Value)
					} else if i-off < len(args) {
						vs = append(vs, args[i-off])
					}
				}
			case *ssa.FreeVar:
				vs = append(vs, e.fl.bound(p)...)
			}
		}
	}
	if known && !cc.IsInvoke() {
		return vs, world
	}
	name := calleeName(cc)
	if cc.IsInvoke() && known && cc.Method.Pkg() != nil && strings.HasPrefix(cc.Method.Pkg().Path(), modPath) {
		return vs, world
	}
	if pureCallee(name) {
		return vs, world
	}
	if world == "" {
		world = worldCallee(name, cc)
	}
	// an unknown function may write whatever it can reach
	if cc.IsInvoke() {
		vs = append(vs, cc.Value)
	} else if cc.StaticCallee() == nil {
		// a function value: what functions of this signature write
		for f := range e.fl.taken {
			if s := e.sums[f]; s != nil && types.Identical(noRecv(f.Signature), noRecv(cc.Signature())) {
				if s.world != "" && world == "" {
					world = s.world
				}
				for p := range s.params {
					switch p := p.(type) {
					case *ssa.FreeVar:
						vs = append(vs, cc.Value)
					case *ssa.Parameter:
						for i, q := range f.Params {
							if j := i + len(args) - len(f.Params); q == p && j >= 0 {
								vs = append(vs, args[j])
							} else if q == p {
								vs = append(vs, cc.Value) // a bound receiver
							}
						}
					}
				}
			}
		}
		return vs, world
	}
	for _, a := range args {
		if mutableType(a.Type()) {
			vs = append(vs, a)
		}
	}
	return vs, world
}

func noRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// mutableType tells whether memory can be written through a value of type t.
func mutableType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Chan:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutableType(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Interface:
		return !isErrorType(t)
	}
	return true
}

// pureCallee tells whether a function outside the repository only reads what it is given.
func pureCallee(name string) bool {
	trim := strings.TrimLeft(name, "(*")
	for _, p := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "path.", "path/filepath.Join", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Rel", "errors.", "fmt.Sprint", "fmt.Errorf", "reflect.", "go/token.", "go/ast.Is", "go/ast.New", "go/types.", "go/format.", "math.", "maps.", "bytes.", "cmp.", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "slices.Collect", "slices.Sorted", "encoding/json.Marshal", "regexp.", "iter.",
		"k8s.io/apimachinery/pkg/runtime/schema.", "k8s.io/gengo/v2/namer.", "k8s.io/apimachinery/pkg/util/sets.New", "k8s.io/apimachinery/pkg/api/equality.", "k8s.io/apimachinery/third_party/forked/golang/reflect.Equalities).DeepEqual", "k8s.io/apimachinery/pkg/apis/meta/v1.", "golang.org/x/tools/go/packages.Package).String", "golang.org/x/tools/go/packages.Error", "sigs.k8s.io/yaml.Marshal", "github.com/gobuffalo/flect.", "error.Error", "time.Duration"} {
		if strings.HasPrefix(trim, p) {
			// builders and buffers are written
			if strings.HasPrefix(trim, "strings.Builder)") || strings.HasPrefix(trim, "bytes.Buffer)") || strings.HasPrefix(trim, "reflect.Value).Set") || strings.HasPrefix(trim, "reflect.Append") {
				return false
			}
			return true
		}
	}
	for _, s := range []string{".DeepCopy", ").String", ").Error", ").Pos", ").End", ").Name", ").Text", ").Position"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return strings.HasPrefix(trim, "go/ast.") && !strings.Contains(name, "Walk") && !strings.Contains(name, "Inspect")
}

// worldCallee describes the effect a function outside the repository has on the world.
func worldCallee(name string, cc *ssa.CallCommon) string {
	trim := strings.TrimLeft(name, "(*")
	for _, p := range []string{"os.Stat", "os.Lstat", "os.ReadFile", "os.ReadDir", "os.Open(", "os.Getwd", "os.Getenv", "os.IsNotExist", "os.IsExist"} {
		if strings.HasPrefix(trim+"(", p) {
			return "" // reads only
		}
	}
	for _, p := range []string{"os.", "io.", "bufio.", "log.", "fmt.Print", "fmt.Fprint", "net/", "os/exec.", "io/ioutil.", "log/slog."} {
		if strings.HasPrefix(trim, p) {
			if strings.HasPrefix(trim, "fmt.Fprint") && len(cc.Args) > 0 {
				return "" // writes its first argument, which is reported as such
			}
			if cc.IsInvoke() {
				return "" // likewise
			}
			return "calls " + name
		}
	}
	return ""
}

// returns tells which parameters of a function of the repository the memory
// reachable from its results may come from; nil if that is not known.
func (e *Effects) returns(f *ssa.Function) map[int]bool {
	if f == nil || len(f.Blocks) == 0 || len(f.FreeVars) > 0 || e.sums[f] == nil {
		return nil
	}
	if r, ok := e.rets[f]; ok {
		return r
	}
	e.rets[f] = nil // recursion: anything
	for _, g := range f.AnonFuncs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if _, ok := st.Addr.(*ssa.FreeVar); ok && mutableType(st.Val.Type()) {
						return nil // a closure fills a variable of f
					}
				}
			}
		}
	}
	out := map[int]bool{}
	eachInstr(f, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		for _, v := range ret.Results {
			if !mutableType(v.Type()) {
				continue
			}
			for r := range e.reach(v, true, nil) {
				for i, p := range f.Params {
					if r == p {
						out[i] = true
					}
				}
			}
		}
	})
	e.rets[f] = out
	return out
}

// roots follows a reference back to the objects it may lead into: parameters,
// captured variables, package variables, allocations, values of iterations.
func (e *Effects) roots(v ssa.Value) map[ssa.Value]bool { return e.rootsTo(v, nil) }

// rootsTo is roots, stopping at the values stop accepts.
func (e *Effects) rootsTo(v ssa.Value, stop func(ssa.Value) bool) map[ssa.Value]bool {
	return e.reach(v, false, stop)
}

func (e *Effects) reach(v ssa.Value, loaded bool, stop func(ssa.Value) bool) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, loaded bool)
	stored := func(a *ssa.Alloc) {
		var into func(addr ssa.Value)
		into = func(addr ssa.Value) {
			for _, u := range *addr.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Addr == addr && mutableType(u.Val.Type()) {
						walk(u.Val, true)
					}
				case *ssa.FieldAddr:
					into(u)
				case *ssa.IndexAddr:
					into(u)
				}
			}
		}
		into(a)
	}
	walk = func(v ssa.Value, loaded bool) {
		if v == nil {
			return
		}
		if seen[v] {
			return
		}
		if stop != nil && stop(v) {
			r[v] = true
			return
		}
		if x, ok := v.(*ssa.Alloc); ok {
			r[x] = true
			if loaded {
				seen[v] = true
				stored(x)
			}
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			walk(x.X, loaded)
		case *ssa.IndexAddr:
			walk(x.X, loaded)
		case *ssa.UnOp:
			walk(x.X, true)
		case *ssa.Field:
			walk(x.X, loaded)
		case *ssa.Index:
			walk(x.X, loaded)
		case *ssa.Slice:
			walk(x.X, loaded)
		case *ssa.ChangeType:
			walk(x.X, loaded)
		case *ssa.ChangeInterface:
			walk(x.X, loaded)
		case *ssa.MakeInterface:
			walk(x.X, loaded)
		case *ssa.TypeAssert:
			walk(x.X, loaded)
		case *ssa.Convert:
			walk(x.X, loaded)
		case *ssa.Lookup:
			walk(x.X, true)
		case *ssa.Phi:
			for _, ed := range x.Edges {
				walk(ed, loaded)
			}
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Next:
				if rg, ok := t.Iter.(*ssa.Range); ok {
					walk(rg.X, true)
				}
			default:
				walk(x.Tuple, loaded)
			}
		case *ssa.MakeClosure:
			for _, b := range x.Bindings {
				walk(b, loaded)
			}
		case *ssa.Call:
			if !mutableType(x.Type()) {
				return
			}
			r[x] = true
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					walk(x.Call.Args[0], loaded)
					if len(x.Call.Args) > 1 && loaded {
						walk(x.Call.Args[1], true)
					}
				}
				return
			}
			n := calleeName(&x.Call)
			if strings.Contains(n, "DeepCopy") || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "slices.Clone") || strings.HasPrefix(n, "reflect.New") {
				return
			}
			if x.Call.IsInvoke() {
				walk(x.Call.Value, true)
			}
			from := e.returns(x.Call.StaticCallee())
			for i, a := range x.Call.Args {
				if mutableType(a.Type()) && (from == nil || from[i]) {
					walk(a, true)
				}
			}
		case *ssa.MakeMap, *ssa.MakeSlice:
			r[v] = true
			if loaded {
				for _, u := range *v.Referrers() {
					switch u := u.(type) {
					case *ssa.MapUpdate:
						walk(u.Key, true)
						walk(u.Value, true)
					case *ssa.IndexAddr:
						for _, u2 := range *u.Referrers() {
							if st, ok := u2.(*ssa.Store); ok && st.Addr == u && mutableType(st.Val.Type()) {
								walk(st.Val, true)
							}
						}
					case *ssa.Call:
						if _, ok := u.Call.Value.(*ssa.Builtin); ok {
							continue
						}
						for _, a := range u.Call.Args {
							if mutableType(a.Type()) {
								walk(a, true)
							}
						}
					}
				}
			}
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.BinOp:
		default: // parameters, captured variables, package variables, makes
			r[v] = true
		}
	}
	walk(v, loaded)
	return r
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "effect analysis of file-system calls with must-close and must-remove typestate over SSA", "every call site, including those reached through dependencies",
		"Every call that creates, writes or removes files, directly or through a dependency, must lie in the Open method of an output rule; reading boilerplate must lie in the input rule, reading sources in the loader. Every handle opened is followed along all paths to a close, and every temporary file to its removal. Each output rule is interpreted abstractly: it must open exactly the file its configuration and the artifact's path name.", checkC04)
}

// what a function of package os (or io/ioutil, os/exec) does to the file system
var fsWrite = map[string]bool{}
var fsRead = map[string]bool{}

func init() {
	for _, n := range []string{"Create", "WriteFile", "Mkdir", "MkdirAll", "Remove", "RemoveAll", "Rename", "OpenFile", "Chmod", "Chown", "Lchown", "Chtimes", "Truncate", "Symlink", "Link", "CopyFS", "CreateTemp", "MkdirTemp", "OpenRoot", "Chdir"} {
		fsWrite["os."+n] = true
	}
	for _, n := range []string{"WriteFile", "TempFile", "TempDir"} {
		fsWrite["io/ioutil."+n] = true
	}
	for _, n := range []string{"Truncate", "Chmod", "Chown", "Chdir"} {
		fsWrite["(*os.File)."+n] = true
	}
	for _, n := range []string{"os.Open", "os.ReadFile", "io/ioutil.ReadFile", "os.DirFS"} {
		fsRead[n] = true
	}
	for n := range map[string]bool{"Create": true, "Mkdir": true, "MkdirAll": true, "OpenFile": true, "Remove": true, "RemoveAll": true, "Rename": true, "WriteFile": true, "Link": true, "Symlink": true} {
		fsWrite["(*os.Root)."+n] = true
	}
}

// quietDeps are libraries that write no output of their own: what they do besides computing is logging and running
// the go command to list packages.
var quietDeps = []string{"golang.org/x", "k8s.io/klog", "k8s.io/klog/v2", "k8s.io/apimachinery", "k8s.io/apiextensions-apiserver", "k8s.io/api", "k8s.io/utils",
	"sigs.k8s.io/yaml", "sigs.k8s.io/json", "sigs.k8s.io/structured-merge-diff", "go.yaml.in", "gopkg.in", "github.com/spf13", "github.com/fatih", "github.com/gobuffalo/flect", "github.com/go-logr"}

// effects computes which dependency functions reach a writing or starting call through static calls.
type effects struct {
	w    *World
	memo map[*ssa.Function]map[string]bool
}

func (e *effects) of(f *ssa.Function, depth int) map[string]bool {
	if f == nil {
		return nil
	}
	if r, ok := e.memo[f]; ok {
		return r
	}
	r := map[string]bool{}
	e.memo[f] = r
	n := fullName(f)
	if fsWrite[n] {
		r[n] = true
		return r
	}
	if strings.HasPrefix(n, "os/exec.") || strings.HasPrefix(n, "(*os/exec.Cmd)") {
		if depth == 0 {
			r["os/exec"] = true
		}
		return r
	}
	if f.Pkg == nil || depth > 40 {
		return r
	}
	p := f.Pkg.Pkg.Path()
	if !strings.Contains(p, ".") && !isRepoPath(p) {
		return r // the standard library is described by the tables above
	}
	if strings.HasPrefix(f.Name(), "init") && f.Synthetic != "" {
		return r
	}
	for _, q := range quietDeps {
		if p == q || strings.HasPrefix(p, q+"/") {
			return r
		}
	}
	e.w.buildDep(p)
	eachInstr(f, func(in ssa.Instruction) {
		var callees []*ssa.Function
		if c, ok := in.(ssa.CallInstruction); ok {
			if s := c.Common().StaticCallee(); s != nil {
				callees = append(callees, s)
			}
		}
		for _, op := range in.Operands(nil) {
			if op == nil {
				continue
			}
			switch v := (*op).(type) {
			case *ssa.Function:
				callees = append(callees, v)
			case *ssa.MakeClosure:
				callees = append(callees, v.Fn.(*ssa.Function))
			}
		}
		for _, s := range callees {
			for k := range e.of(s, depth+1) {
				r[k] = true
			}
		}
	})
	return r
}

// implementors lists the repository types that implement an interface of the repository.
func implementors(w *World, iface types.Type) []*types.Named {
	it := iface.Underlying().(*types.Interface)
	var r []*types.Named
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(nt, it) || types.Implements(types.NewPointer(nt), it) {
				r = append(r, nt)
			}
		}
	}
	return r
}

// helpersOf adds the unexported functions called only from the given ones.
func helpersOf(fl *Flow, fs map[*ssa.Function]bool) {
	for changed := true; changed; {
		changed = false
		for _, f := range fl.funcs {
			if fs[f] || fl.taken[f] || f.Object() == nil || f.Object().Exported() && f.Signature.Recv() == nil {
				if !(f.Parent() != nil && fs[f.Parent()]) || fs[f] {
					continue
				}
			}
			ok := f.Parent() != nil && fs[f.Parent()]
			if !ok {
				sites := fl.sites[f]
				ok = len(sites) > 0
				for _, s := range sites {
					if !fs[s.Parent()] {
						ok = false
					}
				}
			}
			if ok {
				fs[f] = true
				changed = true
			}
		}
	}
}

func checkC04(c *Check) {
	w := c.W
	fl := newFlow(w)
	outT, inT := w.typ("pkg/genall", "OutputRule"), w.typ("pkg/genall", "InputRule")
	mayWrite, mayRead := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	outs := implementors(w, outT)
	for _, t := range outs {
		if st, ok := t.Underlying().(*types.Struct); ok {
			emb := false
			for i := 0; i < st.NumFields(); i++ {
				emb = emb || st.Field(i).Embedded() && types.IsInterface(st.Field(i).Type())
			}
			if emb {
				continue // only passes a rule along
			}
		}
		mayWrite[w.methodOf(t, "Open")] = true
	}
	for _, t := range implementors(w, inT) {
		mayRead[w.methodOf(t, "OpenForRead")] = true
	}
	helpersOf(fl, mayWrite)
	helpersOf(fl, mayRead)
	ef := &effects{w: w, memo: map[*ssa.Function]map[string]bool{}}
	nsites := 0
	for _, fn := range w.Funcs {
		name := relName(fullName(enclosing(fn)))
		eachInstr(fn, func(in ssa.Instruction) {
			// a function used as a value counts as called
			var callees []*ssa.Function
			if ci, ok := in.(ssa.CallInstruction); ok {
				nsites++
				if s := ci.Common().StaticCallee(); s != nil {
					callees = append(callees, s)
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok && !contains2(callees, f) {
					callees = append(callees, f)
				}
			}
			for _, s := range callees {
				if s.Pkg != nil && isRepoPath(s.Pkg.Pkg.Path()) || s.Pkg == nil && s.Object() != nil && s.Object().Pkg() != nil && isRepoPath(s.Object().Pkg().Path()) {
					continue
				}
				n := fullName(s)
				key := name + " calls " + relName(n)
				pos := w.pos(in.Pos())
				switch {
				case n == "os.CreateTemp" || n == "os.MkdirTemp":
					c.ob(true, "temporary", key, pos, "")
				case n == "os.Remove" || n == "os.RemoveAll":
					c.ob(mayWrite[fn] || removesTemp(fl, in), "writes-outside-rule", key, pos, "%s removes a file that is not its own temporary file", name)
				case fsRead[n]:
					ok := mayRead[fn] || fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/pkg/loader"
					c.ob(ok, "reads-outside-rule", key, pos, "%s reads a file with %s instead of the input rule", name, n)
				case n == "golang.org/x/tools/go/packages.Load":
					c.ob(true, "loads-sources", key, pos, "")
				default:
					es := ef.of(s, 0)
					if len(es) == 0 {
						continue
					}
					c.ob(mayWrite[fn], "writes-outside-rule", strings.TrimPrefix(fn.Package().Pkg.Path(), modPath+"/")+" calls "+relName(n), pos, "%s writes outside the output rule: %s reaches %s", name, n, strings.Join(sortedKeys(es), ", "))
				}
			}
		})
	}
	c.fact("call_sites", nsites)
	c.fact("dependency_functions", len(ef.memo))
	checkHandles(c, fl)
	checkOutputRules(c, outs)
	checkCodePackage(c, fl, mayWrite)
}

func contains2(fs []*ssa.Function, f *ssa.Function) bool {
	for _, x := range fs {
		if x == f {
			return true
		}
	}
	return false
}

// removesTemp reports whether the argument of a removal is the name of a temporary file made by the same function.
func removesTemp(fl *Flow, in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	os := fl.originsTo(ci.Common().Args[0], func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && calleeName(c.Common()) == "(*os.File).Name"
	})
	for _, o := range os {
		call, ok := o.(*ssa.Call)
		if ok && calleeName(call.Common()) == "(*os.File).Name" {
			for _, h := range fl.originsTo(call.Call.Args[0], func(v ssa.Value) bool { _, ok := v.(*ssa.Extract); return ok }) {
				if !isResultOf(h, "os.CreateTemp") {
					return false
				}
			}
			continue
		}
		if !isResultOf(o, "os.MkdirTemp") {
			return false
		}
	}
	return len(os) > 0
}

func isResultOf(v ssa.Value, fn string) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	return ok && calleeName(c.Common()) == fn
}

// handleOpen says whether a call opens a handle the caller must close.
func handleOpen(w *World, c *ssa.Call) (opens, temp bool) {
	cc := c.Common()
	n := calleeName(cc)
	switch n {
	case "os.Open", "os.Create", "os.OpenFile":
		return true, false
	case "os.CreateTemp":
		return true, true
	case "os.MkdirTemp":
		return false, true
	}
	rs := cc.Signature().Results()
	if rs.Len() == 2 && isErrorType(rs.At(1).Type()) {
		t := rs.At(0).Type().String()
		if t == "io.WriteCloser" || t == "io.ReadCloser" || t == "io.ReadWriteCloser" || t == "*os.File" {
			return true, false
		}
	}
	return false, false
}

type closeFlow struct {
	fl    *Flow
	fn    *ssa.Function
	what  string // "close" or "remove"
	errv  ssa.Value
	seen  map[string]bool
	bad   token.Pos
	isBad bool
}

// discharges reports whether an instruction closes (or removes) one of the values.
func (e *closeFlow) discharges(in ssa.Instruction, cs carriers) bool {
	switch in := in.(type) {
	case ssa.CallInstruction:
		cc := in.Common()
		n := calleeName(cc)
		if e.what == "close" {
			if cc.IsInvoke() && cs[cc.Value] && cc.Method.Name() == "Close" || len(cc.Args) > 0 && cs[cc.Args[0]] && strings.HasSuffix(n, ").Close") {
				return true
			}
			// method value bound to the handle
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok && strings.HasSuffix(mc.Fn.Name(), "Close$bound") && cs[mc.Bindings[0]] {
				return true
			}
		} else if n == "os.Remove" || n == "os.RemoveAll" {
			return cs[cc.Args[0]]
		}
		for _, f := range e.callees(in) {
			if len(f.Blocks) == 0 {
				continue
			}
			n := carriers{}
			for i, a := range cc.Args {
				if cs[a] && i < len(f.Params) {
					n[f.Params[i]] = true
				}
			}
			var mc *ssa.MakeClosure
			if m, ok := cc.Value.(*ssa.MakeClosure); ok {
				mc = m
			}
			if mc != nil {
				for i, b := range mc.Bindings {
					if cs[b] {
						n[f.FreeVars[i]] = true
					}
				}
			}
			if len(n) > 0 {
				sub := &closeFlow{fl: e.fl, fn: f, what: e.what, seen: map[string]bool{}}
				sub.walk(f.Blocks[0], 0, n)
				if !sub.isBad {
					return true
				}
			}
		}
	}
	return false
}

func (e *closeFlow) callees(c ssa.CallInstruction) []*ssa.Function {
	if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && isRepoPath(f.Pkg.Pkg.Path()) {
		return []*ssa.Function{f}
	}
	return nil
}

func (e *closeFlow) walk(b *ssa.BasicBlock, idx int, cs carriers) {
	k := fmt.Sprint(b.Index, ":", idx, cs.key())
	if e.seen[k] || e.isBad {
		return
	}
	e.seen[k] = true
	for i := idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if e.discharges(in, cs) {
			return
		}
		switch in := in.(type) {
		case *ssa.Return:
			for _, r := range in.Results {
				if cs[r] {
					return // the caller's duty
				}
			}
			e.isBad, e.bad = true, in.Pos()
			return
		case *ssa.Panic:
			return
		case *ssa.Call:
			if e.fl.fatal(in) {
				return
			}
			if e.what == "remove" && calleeName(in.Common()) == "(*os.File).Name" && cs[in.Call.Args[0]] {
				cs = cs.with(in)
			}
		case *ssa.Store:
			if cs[in.Val] {
				if a, ok := rootAddr(in.Addr).(*ssa.Alloc); ok {
					cs = cs.with(a, in.Addr)
					continue
				}
				if _, ok := in.Addr.(*ssa.FreeVar); !ok && e.what == "close" {
					return // kept in a structure that outlives the call
				}
				cs = cs.with(in.Addr)
			}
		case *ssa.UnOp:
			if in.Op == token.MUL && cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.MakeInterface:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.ChangeInterface:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.Field:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.FieldAddr:
			if cs[in.X] {
				cs = cs.with(in)
			}
		case *ssa.If:
			t, f := true, true
			if c, ok := in.Cond.(*ssa.BinOp); ok && e.errv != nil {
				k, isK := c.Y.(*ssa.Const)
				if isK && k.IsNil() && (c.X == e.errv || cs[c.X]) {
					neq := c.Op == token.NEQ
					if c.X == e.errv {
						t, f = !neq, neq
					} else {
						t, f = neq, !neq
					}
				}
			}
			if t {
				e.enter(b, b.Succs[0], cs)
			}
			if f {
				e.enter(b, b.Succs[1], cs)
			}
			return
		case *ssa.Jump:
			e.enter(b, b.Succs[0], cs)
			return
		}
	}
}

func (e *closeFlow) enter(from, to *ssa.BasicBlock, cs carriers) {
	n := cs.with()
	for i, p := range to.Preds {
		if p != from {
			continue
		}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if cs[phi.Edges[i]] {
				n[phi] = true
			}
		}
	}
	e.walk(to, 0, n)
}

func checkHandles(c *Check, fl *Flow) {
	w := c.W
	for _, fn := range w.Funcs {
		name := relName(fullName(enclosing(fn)))
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				opens, temp := handleOpen(w, call)
				if !opens && !temp {
					continue
				}
				var h, errv ssa.Value
				direct := false
				for _, r := range *call.Referrers() {
					switch r := r.(type) {
					case *ssa.Extract:
						if r.Index == 0 {
							h = r
						} else {
							errv = r
						}
					case *ssa.Return:
						direct = true
					}
				}
				key := name + " calls " + relName(calleeName(call.Common()))
				pos := w.pos(in.Pos())
				if direct {
					continue
				}
				for _, what := range []string{"close", "remove"} {
					if what == "close" && !opens || what == "remove" && !temp {
						continue
					}
					if h == nil {
						c.bad("must-"+what, key, pos, "%s: what %s opens is never used", name, calleeName(call.Common()))
						continue
					}
					e := &closeFlow{fl: fl, fn: fn, what: what, errv: errv, seen: map[string]bool{}}
					e.walk(b, i+1, carriers{h: true})
					c.ob(!e.isBad, "must-"+what, key, pos, "%s: on a path to %s, what %s opened is not %sd", name, w.pos(e.bad), calleeName(call.Common()), what)
				}
			}
		}
	}
	c.atLeast("must-close", 6)
}

// checkOutputRules interprets the Open methods.
func checkOutputRules(c *Check, outs []*types.Named) {
	w := c.W
	m := inited(w)
	m.maxStep = 1 << 40
	lp := w.typ("pkg/loader", "Package")
	raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
	var fails map[string]bool
	rec := func(kind string, res bool) hookFn {
		return func(st *State, c *Call) ([]Out, bool) {
			p := m.canon(st, c.args[0], types.Typ[types.String], 0)
			if kind == "create" {
				st.count("create " + p)
				if fails["create"] {
					return []Out{{st: st, res: []*Val{nilVal(), errVal("create")}}}, true
				}
				return []Out{{st: st, res: []*Val{unkNonNil(c.res.At(0).Type(), &Sym{"file " + p, true}), nilVal()}}}, true
			}
			st.count(kind + " " + p)
			if fails[kind] {
				return one(st, errVal(kind)), true
			}
			return one(st, nilVal()), true
		}
	}
	m.hooks["os.Create"] = rec("create", true)
	m.hooks["os.OpenFile"] = func(st *State, c *Call) ([]Out, bool) {
		fl, ok := c.args[1].integer()
		if !ok || fl&(0x40|0x200) != (0x40|0x200) { // O_CREATE|O_TRUNC on linux
			st.count("open without creating and emptying")
		}
		return rec("create", true)(st, c)
	}
	m.hooks["os.MkdirAll"] = rec("mkdir", false)
	m.hooks["os.Stat"] = func(st *State, c *Call) ([]Out, bool) {
		return []Out{{st: st, res: []*Val{nilVal(), errVal("stat")}}}, true
	}
	m.hooks["os.IsNotExist"] = func(st *State, c *Call) ([]Out, bool) { return one(st, boolVal(true)), true }
	for n := range fsWrite {
		if m.hooks[n] == nil {
			n := n
			m.hooks[n] = func(st *State, c *Call) ([]Out, bool) {
				st.count("other " + n)
				return nil, false
			}
		}
	}
	dirT, artT := w.typ("pkg/genall", "OutputToDirectory"), w.typ("pkg/genall", "OutputArtifacts")
	sc := w.pkg("pkg/genall").Types.Scope()
	noneT, stdT := sc.Lookup("OutputToNothing").Type(), sc.Lookup("OutputToStdout").Type()
	known := []types.Type{dirT, artT, noneT, stdT}
	for _, t := range outs {
		if !strings.HasPrefix(t.Obj().Pkg().Path(), modPath+"/pkg/genall") {
			continue
		}
		ok := t.Obj().Name() == "GenerationContext" || t.Obj().Name() == "Runtime"
		for _, k := range known {
			ok = ok || types.Identical(k, t)
		}
		c.ob(ok, "known-rule", typeName(t), w.pos(t.Obj().Pos()), "output rule %s is not described", typeName(t))
	}
	type dirs struct{ cfg, code string }
	for _, item := range []string{"f.yaml", "sub/f.go", "a/b/c.yaml"} {
		for _, pkgKind := range []string{"none", "with files", "without files"} {
			for _, fail := range []string{"", "create", "mkdir"} {
				for _, d := range []dirs{{"out", ""}, {"out", "code"}, {"/abs/x", "../y"}, {"", ""}} {
					for _, t := range known {
						fails = map[string]bool{fail: true}
						st := newState()
						pkg := nilVal()
						if pkgKind != "none" {
							files := nilVal()
							if pkgKind == "with files" {
								files = m.sliceOf(st, "files", types.Typ[types.String], strVal("/src/p/x.go"), strVal("/src/p/y.go"))
							}
							pkg = m.cellOf(st, "pkg", lp, structOf(lp, "Package", m.cellOf(st, "raw", raw, structOf(raw, "CompiledGoFiles", files))))
						}
						var recv *Val
						target := ""
						wantErr := false
						join := func(d string) string {
							if d == "" {
								return item
							}
							return d + "/" + item
						}
						switch {
						case types.Identical(t, dirT):
							recv, target = strVal(d.cfg), join(d.cfg)
						case types.Identical(t, artT):
							recv = structOf(artT, "Config", strVal(d.cfg), "Code", strVal(d.code))
							switch {
							case pkgKind == "none":
								target = join(d.cfg)
							case d.code != "":
								target = join(d.code)
							case pkgKind == "with files":
								target = "/src/p/" + item
							default:
								wantErr = true
							}
						default:
							recv = zeroVal(t)
						}
						fn := w.methodOf(t, "Open")
						key := fmt.Sprintf("%s config=%q code=%q package %s, artifact %s, failing %q", typeName(t), d.cfg, d.code, pkgKind, item, fail)
						pos := w.pos(fn.Pos())
						wantErr = wantErr || target != "" && fail == "create"
						for _, o := range m.interp(st, fn, recv, pkg, strVal(item)) {
							if !c.ob(o.panics == "", "opens", key, pos, "%s: panics: %s", key, o.panics) {
								continue
							}
							got, strange := map[string]bool{}, ""
							for k := range o.st.notes {
								switch {
								case strings.HasPrefix(k, "create "):
									got[strings.Trim(strings.TrimPrefix(k, "create "), `"`)] = true
								case strings.HasPrefix(k, "mkdir "):
									dir := strings.Trim(strings.TrimPrefix(k, "mkdir "), `"`)
									if target == "" || !(strings.HasPrefix(target, dir+"/") || dir == ".") {
										strange = k
									}
								default:
									strange = k
								}
							}
							er := errOf(o)
							c.ob(strange == "", "opens-only", key, pos, "%s: does %s", key, strange)
							if wantErr {
								c.ob(er == "err", "open-fails", key, pos, "%s: must fail, but gives %s", key, er)
								continue
							}
							if fail == "mkdir" && er == "err" {
								continue // the directory could not be made
							}
							if !c.ob(er == "nil", "opens", key, pos, "%s: gives %s", key, er) {
								continue
							}
							want := map[string]bool{}
							if target != "" {
								want[target] = true
							}
							c.ob(fmt.Sprint(sortedKeys(got)) == fmt.Sprint(sortedKeys(want)), "opens", key, pos, "%s: creates %v, expected %v", key, sortedKeys(got), sortedKeys(want))
							res := m.canon(o.st, o.res[0], nil, 0)
							switch {
							case target != "":
								c.ob(strings.Contains(res, "file ") && strings.Contains(res, target), "opens", key, pos, "%s: gives %s instead of the file", key, res)
							case types.Identical(t, stdT):
								c.ob(strings.Contains(res, "Stdout"), "opens", key, pos, "%s: gives %s instead of the standard output", key, res)
							default:
								c.ob(strings.Contains(res, "Discard") || strings.Contains(res, "discard"), "opens", key, pos, "%s: gives %s instead of a writer that discards", key, res)
							}
						}
					}
				}
			}
		}
	}
	c.atLeast("opens", 100)
}

// checkCodePackage checks that Go files are opened for the package they belong to.
func checkCodePackage(c *Check, fl *Flow, mayWrite map[*ssa.Function]bool) {
	w := c.W
	n := 0
	for _, fn := range w.Funcs {
		if mayWrite[fn] {
			continue
		}
		name := relName(fullName(enclosing(fn)))
		eachInstr(fn, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.Signature().Params().Len() != 2 || !strings.HasSuffix(calleeName(call.Common()), ".Open") {
				return
			}
			cc := call.Common()
			args := cc.Args
			if !cc.IsInvoke() && cc.Signature().Recv() != nil {
				args = args[1:]
			}
			if len(args) != 2 || typeName(deref(args[0].Type())) != "pkg/loader.Package" {
				return
			}
			n++
			for _, o := range fl.origins(args[1]) {
				k, ok := o.(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				code := strings.HasSuffix(strings.Trim(k.Value.ExactString(), `"`), ".go")
				nilPkg := false
				for _, p := range fl.origins(args[0]) {
					if pk, ok := p.(*ssa.Const); ok && pk.IsNil() {
						nilPkg = true
					}
				}
				c.ob(code != nilPkg, "artifact-kind", name+" opens "+k.Value.ExactString(), w.pos(in.Pos()), "%s opens %s with the wrong kind of artifact (Go code belongs to a package, configuration does not)", name, k.Value)
			}
		})
	}
	c.fact("open_sites", n)
	c.atLeast("artifact-kind", 2)
	_ = sort.Strings
}

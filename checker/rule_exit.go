package main

import (
	"fmt"
	"go/types"
	"strings"
)

// mainRun is one abstract run of a command's main function.
type mainRun struct {
	out   Out
	notes map[string]string
}

// interpMain interprets the main function of a command with the command-line library, the option parser, and the run replaced by
// given outcomes; flags keep their defaults unless set.
func interpMain(w *World, cmd string, set map[string]func(*M, *State) *Val, fromErr bool, gens int, hadErrs bool, m *M) ([]Out, string) {
	mp := modPath + "/pkg/"
	st := newState()
	fn := w.fn(cmd, "main")
	rtT := w.typ("pkg/genall", "Runtime")
	fromOpts := func(st *State, c *Call) ([]Out, bool) {
		st.count("from-options")
		if len(c.args) == 3 {
			st.note("config", c.args[0])
			st.note("registry", c.args[1])
		}
		if fromErr {
			return []Out{{st: st, res: []*Val{nilVal(), errVal("options")}}}, true
		}
		gt := fieldType(rtT, "Generators")
		et, _ := arrayElem(gt)
		var gs []*Val
		for i := 0; i < gens; i++ {
			gs = append(gs, unkNonNil(et, &Sym{fmt.Sprint("gen", i), true}))
		}
		gv := nilVal()
		if gens > 0 {
			gv = m.sliceOf(st, "gens", et, gs...)
		}
		return []Out{{st: st, res: []*Val{m.cellOf(st, "rt", rtT, structOf(rtT, "Generators", gv)), nilVal()}}}, true
	}
	m.hooks[mp+"genall.FromOptionsWithConfig"] = fromOpts
	m.hooks[mp+"genall.FromOptions"] = fromOpts
	m.hooks["(*"+mp+"genall.Runtime).Run"] = func(st *State, c *Call) ([]Out, bool) {
		st.count("ran")
		return one(st, boolVal(hadErrs)), true
	}
	m.hooks["os.Exit"] = func(st *State, c *Call) ([]Out, bool) {
		return []Out{{st: st, panics: "exit " + c.args[0].String()}}, true
	}
	// flags: the variable holds its default
	flagVar := func(st *State, c *Call) ([]Out, bool) {
		n, _ := c.args[2].str()
		v := c.args[len(c.args)-2]
		if strings.HasPrefix(c.static.Name(), "Count") {
			v = constVal(int64(0))
		}
		if s := set[n]; s != nil {
			v = s(m, st)
		}
		st.note("flag "+n, v)
		m.store(st, c.args[1], v, deref(c.static.Signature.Params().At(0).Type()))
		return []Out{{st: st}}, true
	}
	for _, n := range []string{"BoolVar", "BoolVarP", "StringSliceVar", "StringSliceVarP", "StringVar", "StringVarP", "CountVar", "CountVarP", "IntVar", "IntVarP", "StringArrayVar", "StringArrayVarP"} {
		n := n
		m.hooks["(*github.com/spf13/pflag.FlagSet)."+n] = func(st *State, c *Call) ([]Out, bool) {
			return flagVar(st, c)
		}
	}
	boolP := func(st *State, c *Call) ([]Out, bool) {
		n, _ := c.args[0].str()
		v := boolVal(false)
		if s := set[n]; s != nil {
			v = s(m, st)
		}
		return one(st, m.cellOf(st, "flag."+n, types.Typ[types.Bool], v)), true
	}
	m.hooks["github.com/spf13/pflag.BoolP"] = boolP
	m.hooks["github.com/spf13/pflag.Bool"] = boolP
	m.hooks["(*github.com/spf13/cobra.Command).Execute"] = func(st *State, c *Call) ([]Out, bool) {
		ct := deref(c.static.Signature.Recv().Type())
		for _, f := range []string{"RunE", "Run"} {
			fv := m.at(st, c.args[0], ct, f)
			if fv.isNil() {
				continue
			}
			sig := fieldType(ct, f).Underlying().(*types.Signature)
			outs := c.frame.callVal(st, fv, []*Val{c.args[0], symIn(sig.Params().At(1).Type(), "rawOpts")}, sig, c.site)
			var r []Out
			for _, o := range outs {
				if o.panics != "" {
					r = append(r, o)
					continue
				}
				if f == "Run" {
					r = append(r, Out{st: o.st, res: []*Val{nilVal()}})
				} else {
					r = append(r, Out{st: o.st, res: o.res})
				}
			}
			return r, true
		}
		m.fail("a command without a function to run")
		return nil, false
	}
	return m.interp(st, fn), w.pos(fn.Pos())
}

func checkExit(c *Check) {
	w := c.W
	for _, cmd := range []string{"cmd/controller-gen", "cmd/helpgen"} {
		base := initedWith(w, nil, cmd)
		base.maxStep = 1 << 40
		for _, fromErr := range []bool{false, true} {
			for gens := 0; gens < 2; gens++ {
				for _, had := range []bool{false, true} {
					if cmd == "cmd/helpgen" && gens == 0 {
						continue // a run without generators is itself a failure of the run
					}
					key := fmt.Sprintf("%s: options wrong=%v, generators=%d, errors=%v", cmd, fromErr, gens, had)
					outs, pos := interpMain(w, cmd, nil, fromErr, gens, had, base.fork())
					wantFail := fromErr || gens == 0 || had
					if len(outs) == 0 {
						c.bad("exit-status", key, pos, "%s: no outcome", key)
					}
					for _, o := range outs {
						got := "exit 0"
						if o.panics != "" {
							got = o.panics
						}
						failed := got != "exit 0" // a panic ends the process with a failure status as well
						if wantFail {
							c.ob(failed, "exit-status", key, pos, "%s: the command ends with %q, expected a failure status", key, got)
							continue
						}
						ran, _ := o.st.notes["ran"].integer()
						c.ob(got == "exit 0" && ran == 1, "exit-status", key, pos, "%s: the command ends with %q after %d runs, expected exit 0 after one", key, got, ran)
					}
				}
			}
		}
	}
}

// checkRunErrors interprets the run loop: see optEnv.run.
func checkRunErrors(c *Check) {
	base := initedWith(c.W, nil, "cmd/controller-gen")
	e := newOptEnv(c.W, base)
	gens := sortedKeys(e.gens)
	for i, g := range gens {
		e.check(c, "run", g)
		e.check(c, "run", g, gens[(i+1)%len(gens)])
	}
	e.check(c, "run", gens...)
}

// checkPrintErrors interprets the printing of package errors: every error counts but those of the kinds to skip.
func checkPrintErrors(c *Check) {
	w := c.W
	fn := w.fn("pkg/loader", "PrintErrors")
	pos := w.pos(fn.Pos())
	const pp = "golang.org/x/tools/go/packages"
	w.buildDep(pp)
	m := inited(w)
	m.inline[pp] = true
	m.maxStep = 1 << 40
	raw, errT, lp := w.depTyp(pp, "Package"), w.depTyp(pp, "Error"), w.typ("pkg/loader", "Package")
	kindT := fieldType(errT, "Kind")
	kinds := []int64{0, 1, 2, 3}
	m.hooks["fmt.Fprintln"] = func(st *State, c *Call) ([]Out, bool) {
		es, ok := m.elems(st, c.args[1])
		if !ok {
			m.fail("printing undetermined values")
		}
		for _, e := range es {
			st.count("printed " + m.canon(st, e, nil, 0))
		}
		return []Out{{st: st, res: []*Val{unkVal(types.Typ[types.Int], nil), nilVal()}}}, true
	}
	// root → dep: errors in either; each list has zero to two errors
	var lists [][]int64
	lists = append(lists, nil)
	for _, k := range kinds {
		lists = append(lists, []int64{k})
		for _, k2 := range kinds {
			lists = append(lists, []int64{k, k2})
		}
	}
	for _, skip := range []int64{-1, 3, 1} {
		for _, rootErrs := range lists {
			for _, depErrs := range lists {
				st := newState()
				mk := func(name string, ks []int64, imports *Val) (*Val, []string) {
					var es []*Val
					var names []string
					for i, k := range ks {
						ev := structOf(errT, "Kind", constVal(k), "Msg", strVal(fmt.Sprintf("%s%d", name, i)))
						es = append(es, ev)
						if k != skip {
							names = append(names, "printed "+m.canon(st, ifaceOf(errT, ev), nil, 0))
						}
					}
					ev := nilVal()
					if len(es) > 0 {
						ev = m.sliceOf(st, name+".errs", errT, es...)
					}
					return m.cellOf(st, name, raw, structOf(raw, "ID", strVal(name), "Errors", ev, "Imports", imports)), names
				}
				dep, want := mk("dep", depErrs, nilVal())
				root, want2 := mk("root", rootErrs, m.mapOf(st, "imports", fieldType(raw, "Imports"), strVal("dep"), dep))
				want = append(want, want2...)
				lpv := m.cellOf(st, "loaderPkg", lp, structOf(lp, "Package", root))
				skips := nilVal()
				if skip >= 0 {
					skips = m.sliceOf(st, "skips", kindT, constVal(skip))
				}
				key := fmt.Sprintf("skipping %d: root errors of kinds %v, dependency errors of kinds %v", skip, rootErrs, depErrs)
				outs := m.interp(st, fn, m.sliceOf(st, "pkgs", types.NewPointer(lp), lpv), skips)
				if len(outs) == 0 {
					c.bad("prints-errors", key, pos, "%s: no outcome", key)
				}
				for _, o := range outs {
					if o.panics != "" {
						c.bad("prints-errors", key, pos, "%s: panics: %s", key, o.panics)
						continue
					}
					res, known := o.res[0].boolean()
					c.ob(known && res == (len(want) > 0), "prints-errors", key, pos, "%s: PrintErrors gives %s, expected %v", key, o.res[0], len(want) > 0)
					got := map[string]bool{}
					for k, v := range o.st.notes {
						if n, ok := v.integer(); ok && strings.HasPrefix(k, "printed ") {
							got[k] = n == 1
						}
					}
					ok := len(got) == len(want)
					for _, k := range want {
						ok = ok && got[k]
					}
					c.ob(ok, "prints-errors", key, pos, "%s: printed %v, expected %v", key, sortedKeys(got), want)
				}
			}
		}
	}
}

// checkAddError interprets how an error is recorded against a package.
func checkAddError(c *Check) {
	w := c.W
	fn := w.method("pkg/loader", "Package", "AddError")
	pos := w.pos(fn.Pos())
	m := inited(w)
	m.maxStep = 1 << 40
	lp := w.typ("pkg/loader", "Package")
	const pp = "golang.org/x/tools/go/packages"
	raw, errT := w.depTyp(pp, "Package"), w.depTyp(pp, "Error")
	errI := types.Universe.Lookup("error").Type()
	st := newState()
	scanErr := w.depTyp("go/scanner", "Error")
	listT := w.depTyp("go/scanner", "ErrorList")
	pathErr := w.depTyp("io/fs", "PathError")
	typErr := w.depTyp("go/types", "Error")
	el := w.typ("pkg/loader", "ErrList")
	posErr := w.typ("pkg/loader", "PositionedError")
	other := w.depTyp("errors", "errorString")
	sub := func(i int) *Val {
		return m.cellOf(st, fmt.Sprint("scanErr", i), scanErr, structOf(scanErr, "Msg", strVal(fmt.Sprint("m", i))))
	}
	plain := func(s string) *Val {
		return ifaceOf(types.NewPointer(other), m.cellOf(st, "plain"+s, other, structOf(other, "s", strVal(s))))
	}
	positioned := func(s string) *Val {
		return ifaceOf(posErr, structOf(posErr, "Pos", constVal(int64(7)), "error", plain(s)))
	}
	typed := ifaceOf(typErr, structOf(typErr, "Msg", strVal("t"), "Fset", unkNonNil(fieldType(typErr, "Fset"), &Sym{"fset", true})))
	path := ifaceOf(types.NewPointer(pathErr), m.cellOf(st, "pathErr", pathErr, structOf(pathErr, "Path", strVal("p"), "Err", plain("why"))))
	list := func(id string, es ...*Val) *Val { return ifaceOf(el, m.sliceOf(st, id, errI, es...)) }
	cases := []struct {
		name  string
		err   *Val
		n     int
		types int
	}{
		{"a plain error", plain("a"), 1, 0},
		{"an error with a position", positioned("a"), 1, 0},
		{"a file error", path, 1, 0},
		{"a list of syntax errors", ifaceOf(listT, m.sliceOf(st, "scans", types.NewPointer(scanErr), sub(0), sub(1))), 2, 0},
		{"a type error", typed, 1, 1},
		{"a list with one error", list("l1", plain("b")), 1, 0},
		{"a list of errors", list("l2", plain("c"), positioned("d"), path), 3, 0},
		{"nested lists of errors", list("l3", list("l4", plain("e"), positioned("f")), plain("g")), 3, 0},
		{"a list with a type error", list("l5", plain("h"), typed), 2, 1},
	}
	for _, before := range []int{0, 1} {
		for _, cs := range cases {
			s := st.clone()
			old := nilVal()
			if before == 1 {
				old = m.sliceOf(s, "old", errT, structOf(errT, "Msg", strVal("old")))
			}
			rawv := m.cellOf(s, "raw", raw, structOf(raw, "ID", strVal("id"), "Errors", old))
			ld := w.typ("pkg/loader", "loader")
			pkg := m.cellOf(s, "pkg", lp, structOf(lp, "Package", rawv, "loader", m.cellOf(s, "ld", ld, structOf(ld, "cfg", unkNonNil(fieldType(ld, "cfg"), &Sym{"cfg", true})))))
			outs := m.interp(s, fn, pkg, cs.err)
			key := fmt.Sprintf("%s on a package with %d errors", cs.name, before)
			if len(outs) == 0 {
				c.bad("records-error", key, pos, "%s: no outcome", key)
			}
			for _, o := range outs {
				if o.panics != "" {
					c.bad("records-error", key, pos, "%s: panics: %s", key, o.panics)
					continue
				}
				es, ok := m.elems(o.st, m.at(o.st, rawv, raw, "Errors"))
				if !c.ob(ok && len(es) == before+cs.n, "records-error", key, pos, "%s: %d errors are recorded afterwards, expected %d", key, len(es), before+cs.n) {
					continue
				}
				nt := 0
				for _, e := range es[before:] {
					k, known := m.resolve(o.st, m.getField(e, errT, "Kind")).integer()
					if !known || k == 3 {
						nt++
					}
				}
				c.ob(nt == cs.types, "records-error", key, pos, "%s: %d of them count as type errors, expected %d", key, nt, cs.types)
			}
		}
	}
}

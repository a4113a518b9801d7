package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Calls: resolution, inlining, and models of functions outside the repository.

// defaultInline lists dependency packages whose source is interpreted too.
var defaultInline = map[string]bool{
	"k8s.io/utils/ptr":                       true,
	"k8s.io/utils/pointer":                   true,
	"k8s.io/apimachinery/pkg/util/sets":      true,
	"k8s.io/apimachinery/pkg/runtime/schema": true,
	"slices":                                 true,
	"maps":                                   true,
	"cmp":                                    true,
	"golang.org/x/exp/maps":                  true,
}

// pureFuncs are folded on constants and otherwise give one named unknown per
// argument tuple.
var pureFuncs = map[string]any{
	"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.LastIndex": strings.LastIndex,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix, "strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN,
	"strings.IndexAny": strings.IndexAny, "strings.LastIndexAny": strings.LastIndexAny, "strings.LastIndexByte": strings.LastIndexByte, "strings.ToTitle": strings.ToTitle,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Join": strings.Join, "strings.Fields": strings.Fields,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Repeat": strings.Repeat,
	"strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count, "strings.ContainsRune": strings.ContainsRune,
	"strings.ContainsAny": strings.ContainsAny, "strings.IndexRune": strings.IndexRune, "strings.Compare": strings.Compare, "strings.Title": strings.Title, //nolint
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatBool": strconv.FormatBool,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsDigit": unicode.IsDigit,
	"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsSpace": unicode.IsSpace,
	"math.Trunc": math.Trunc, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Round": math.Round, "math.RoundToEven": math.RoundToEven,
	"math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Mod": math.Mod, "math.Modf": math.Modf, "math.Abs": math.Abs, "math.Inf": math.Inf,
	"math.Signbit": math.Signbit, "math.Max": math.Max, "math.Min": math.Min,
	"path.Base": path.Base, "path.Join": path.Join, "path.Dir": path.Dir, "path.Split": path.Split, "path.Ext": path.Ext,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "go/token.IsIdentifier": token.IsIdentifier, "go/token.IsKeyword": token.IsKeyword,
	"path/filepath.Split": filepath.Split, "path/filepath.Ext": filepath.Ext,
	"path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir,
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "path": true, "path/filepath": true, "go/types": true,
	"go/ast": true, "go/token": true, "reflect": true, "github.com/gobuffalo/flect": true, "math": true, "unicode/utf8": true, "errors": true, "sort": true,
	"regexp": true, "encoding/json": true, "sigs.k8s.io/yaml": true, "go/format": true, "bytes": true, "golang.org/x/tools/go/packages": true,
	"k8s.io/apimachinery/pkg/runtime/schema": true, "k8s.io/gengo/v2/namer": true, "k8s.io/gengo/v2/types": true}

func (fr *frame) callArgs(st *State, c *ssa.CallCommon) (*Val, []*Val) {
	var f *Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		f = fr.get(st, c.Value)
	}
	args := make([]*Val, 0, len(c.Args))
	for _, a := range c.Args {
		args = append(args, fr.get(st, a))
	}
	return f, args
}

func (fr *frame) dispatch(st *State, c *ssa.CallCommon, f *Val, args []*Val, site ssa.Instruction) []Out {
	m := fr.m
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, b.Name(), c, args, site)
	}
	sig := c.Signature()
	if c.IsInvoke() {
		f = m.resolve(st, f)
		name := c.Method.FullName()
		// models of interface methods come first
		call := &Call{m: m, name: name, args: append([]*Val{f}, args...), site: site, res: sig.Results(), frame: fr}
		if h := m.hooks[name]; h != nil {
			if outs, ok := h(st, call); ok {
				return outs
			}
		}
		if f.isNil() && !f.unk {
			fr.panicOut(st, site, "method call on nil interface")
			return nil
		}
		var outs []Out
		n := 0
		for _, r := range f.refs {
			if r.t == nil {
				continue
			}
			n++
			s := st
			if n < len(f.refs) || f.unk {
				s = st.clone()
			}
			fn := m.lookupMethod(r.t, c.Method)
			recv := r.v
			if fn == nil {
				outs = append(outs, m.external(s, &Call{m: m, name: "(" + types.TypeString(r.t, nil) + ")." + c.Method.Name(), args: append([]*Val{recv}, args...), site: site, res: sig.Results(), frame: fr})...)
				continue
			}
			outs = append(outs, fr.invokeFn(s, fn, append([]*Val{recv}, args...), nil, site)...)
		}
		if f.unk || n == 0 {
			if m.onCall != nil {
				m.onCall(st, call)
			}
			outs = append(outs, m.external(st, call)...)
		}
		return outs
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []*Val
		if f != nil && len(f.refs) == 1 {
			bind = f.refs[0].bind
		}
		return fr.invokeFn(st, fn, args, bind, site)
	}
	if f.isNil() {
		fr.panicOut(st, site, "call of nil function")
		return nil
	}
	return fr.callVal(st, f, args, sig, site)
}

func (fr *frame) callVal(st *State, f *Val, args []*Val, sig *types.Signature, site ssa.Instruction) []Out {
	m := fr.m
	var outs []Out
	n := 0
	for _, r := range f.refs {
		n++
		s := st
		if n < len(f.refs) || f.unk {
			s = st.clone()
		}
		switch {
		case r.fn != nil:
			outs = append(outs, fr.invokeFn(s, r.fn, args, r.bind, site)...)
		case r.hook != "":
			call := &Call{m: m, name: r.hook, args: args, site: site, res: sig.Results(), frame: fr}
			if r.v != nil {
				call.args = append([]*Val{r.v}, args...)
			}
			if h := m.hooks[r.hook]; h != nil {
				if o, ok := h(s, call); ok {
					outs = append(outs, o...)
					continue
				}
			}
			outs = append(outs, m.external(s, call)...)
		}
	}
	if f.unk || n == 0 {
		call := &Call{m: m, name: "dyn " + f.sym.String(), args: args, site: site, res: sig.Results(), frame: fr}
		if m.onCall != nil {
			m.onCall(st, call)
		}
		outs = append(outs, m.external(st, call)...)
	}
	return outs
}

func (m *M) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	ms := m.w.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	return m.w.Prog.MethodValue(sel)
}

// bodyOf returns fn ready for interpretation, or nil when it is outside the analysed code.
func (m *M) bodyOf(fn *ssa.Function) *ssa.Function {
	var p string
	switch {
	case fn.Pkg != nil:
		p = fn.Pkg.Pkg.Path()
	case fn.Origin() != nil && fn.Origin().Pkg != nil:
		p = fn.Origin().Pkg.Pkg.Path()
	case fn.Parent() != nil:
		return m.bodyOfIn(fn, fn.Parent())
	case fn.Object() != nil && fn.Object().Pkg() != nil:
		p = fn.Object().Pkg().Path()
	}
	if isRepoPath(p) || fn.Synthetic != "" && p == "" {
		if len(fn.Blocks) == 0 {
			return nil
		}
		return fn
	}
	if m.inline[p] {
		if _, ok := pureFuncs[fullName(fn)]; ok && p == "strings" {
			return nil
		}
		if len(fn.Blocks) == 0 {
			m.w.buildDep(p)
		}
		if len(fn.Blocks) > 0 {
			return fn
		}
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Origin() == nil {
		return fn // wrappers, bound methods
	}
	return nil
}

func (m *M) bodyOfIn(fn, parent *ssa.Function) *ssa.Function {
	if m.bodyOf(parent) != nil && len(fn.Blocks) > 0 {
		return fn
	}
	return nil
}

func (fr *frame) invokeFn(st *State, fn *ssa.Function, args, bind []*Val, site ssa.Instruction) []Out {
	m := fr.m
	call := &Call{m: m, name: fullName(fn), args: args, site: site, res: fn.Signature.Results(), frame: fr, static: fn, targs: fn.TypeArgs()}
	if m.onCall != nil {
		m.onCall(st, call)
	}
	if h := m.hooks[call.name]; h != nil && fn.Synthetic == "" || h != nil && fn.Origin() != nil {
		if outs, ok := h(st, call); ok {
			return outs
		}
	}
	if fn.Signature.Recv() != nil || fn.Synthetic != "" {
		if outs, ok := m.modelled(st, call); ok {
			return outs
		}
	}
	if b := m.bodyOf(fn); b != nil {
		return m.callFn(st, b, args, bind)
	}
	return m.external(st, call)
}

func (c *Call) sym() *Sym { return mkSym(c.name, c.args...) }

// modelled answers a call of a method of an input object that has a model.
func (m *M) modelled(st *State, c *Call) ([]Out, bool) {
	if len(m.models) == 0 || len(c.args) == 0 || c.args[0] == nil || len(c.args[0].refs) != 1 || c.args[0].unk {
		return nil, false
	}
	r := c.args[0].refs[0]
	if r.t != nil && r.v != nil && len(r.v.refs) == 1 {
		r = r.v.refs[0]
	}
	if r.obj == nil { // a path leads to an embedded part, which shares the methods
		return nil, false
	}
	f := m.models[r.obj]
	if f == nil {
		return nil, false
	}
	return f(st, c.name[strings.LastIndex(c.name, ".")+1:], c)
}

func (m *M) external(st *State, c *Call) []Out {
	if outs, ok := m.modelled(st, c); ok {
		return outs
	}
	if f, ok := pureFuncs[c.name]; ok {
		if outs, ok := m.fold(st, f, c); ok {
			return outs
		}
	}
	pkg := ""
	if c.static != nil && c.static.Pkg != nil {
		pkg = c.static.Pkg.Pkg.Path()
	} else if c.static != nil && c.static.Object() != nil && c.static.Object().Pkg() != nil {
		pkg = c.static.Object().Pkg().Path()
	} else {
		// interface method: "(pkg.Type).Name"
		s := strings.TrimLeft(c.name, "(*")
		if i := strings.LastIndex(s, ")"); i > 0 {
			s = s[:i]
		}
		if i := strings.LastIndex(s, "."); i > 0 {
			pkg = s[:i]
		}
	}
	var s *Sym
	ps := c.sym()
	if ps != nil {
		s = &Sym{ps.s, ps.uniq && (purePkgs[pkg])}
	}
	if s == nil {
		s = &Sym{c.name + "(…)", false}
	}
	n := c.res.Len()
	res := unkResults(c.res, s)
	for i := range res {
		res[i] = m.resolve(st, withSrc(res[i], c.args...))
	}
	if n > 0 && isErrorType(c.res.At(n-1).Type()) && !strings.HasPrefix(c.name, "dyn ") || n > 1 && isErrorType(c.res.At(n-1).Type()) {
		if res[n-1].nil_ == nilBit|nonBit {
			bad := st.clone()
			badRes := append([]*Val(nil), res...)
			ev := res[n-1]
			badRes[n-1] = withSrc(unkNonNil(ev.t, ev.sym), ev)
			okRes := append([]*Val(nil), res...)
			okRes[n-1] = withSrc(nilVal(), ev)
			for i := 0; i < n-1; i++ {
				if okRes[i].nil_ == nilBit|nonBit {
					if _, isP := c.res.At(i).Type().Underlying().(*types.Pointer); isP {
						x := *okRes[i]
						x.nil_ = nonBit
						okRes[i] = &x
					}
				}
			}
			if ev.sym != nil && ev.sym.uniq {
				st.assume[ev.sym.s] = okRes[n-1]
				bad.assume[ev.sym.s] = badRes[n-1]
			}
			return []Out{{st: st, res: okRes}, {st: bad, res: badRes}}
		}
	}
	return []Out{{st: st, res: res}}
}

func (m *M) fold(st *State, f any, c *Call) ([]Out, bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	var in []reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		pt := ft.In(i)
		if i >= len(c.args) {
			return nil, false
		}
		a := c.args[i]
		if pt.Kind() == reflect.Slice && pt.Elem().Kind() == reflect.String {
			ss, ok := m.strSlice(st, a)
			if !ok {
				return nil, false
			}
			if ft.IsVariadic() {
				for _, s := range ss {
					in = append(in, reflect.ValueOf(s))
				}
				continue
			}
			in = append(in, reflect.ValueOf(ss))
			continue
		}
		v, ok := a.single()
		if !ok {
			return nil, false
		}
		rv := reflect.ValueOf(v)
		if !rv.IsValid() || !rv.CanConvert(pt) {
			return nil, false
		}
		in = append(in, rv.Convert(pt))
	}
	var res []*Val
	for i, r := range fv.Call(in) {
		v, ok := m.lift(st, r, c, i)
		if !ok {
			return nil, false
		}
		res = append(res, withSrc(v, c.args...))
	}
	return []Out{{st: st, res: res}}, true
}

func (m *M) lift(st *State, r reflect.Value, c *Call, i int) (*Val, bool) {
	switch r.Kind() {
	case reflect.Bool:
		return boolVal(r.Bool()), true
	case reflect.String:
		return strVal(r.String()), true
	case reflect.Float64:
		return constVal(r.Float()), true
	case reflect.Int, reflect.Int64, reflect.Int32:
		return constVal(r.Int()), true
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.String {
			var vs []*Val
			for j := 0; j < r.Len(); j++ {
				vs = append(vs, strVal(r.Index(j).String()))
			}
			return m.newSlice(st, c.site, types.NewSlice(types.Typ[types.String]), vs), true
		}
	}
	return nil, false
}

// newSlice allocates a slice with known elements.
func (m *M) newSlice(st *State, site ssa.Instruction, t types.Type, vs []*Val) *Val {
	o := m.alloc(st, m.siteID(site)+"/lit", t, 'a')
	st.mem[o] = &Val{agg: append([]*Val{}, vs...)}
	return &Val{nil_: nonBit, refs: []*Ref{{obj: o, ln: len(vs)}}}
}

// elems lists the elements of a slice whose length is known.
func (m *M) elems(st *State, v *Val) ([]*Val, bool) {
	if v == nil || v.unk {
		return nil, false
	}
	if v.nil_ == nilBit {
		return nil, true
	}
	if len(v.refs) != 1 || v.refs[0].obj == nil || v.refs[0].ln < 0 || v.nil_&nilBit != 0 {
		return nil, false
	}
	r := v.refs[0]
	c := m.nav(m.content(st, r.obj), r.path)
	if c == nil || c.agg == nil || r.off+r.ln > len(c.agg) {
		return nil, r.ln == 0
	}
	var out []*Val
	for _, e := range c.agg[r.off : r.off+r.ln] {
		out = append(out, m.resolve(st, e))
	}
	return out, true
}

func (m *M) strSlice(st *State, v *Val) ([]string, bool) {
	es, ok := m.elems(st, v)
	if !ok {
		return nil, false
	}
	out := []string{}
	for _, e := range es {
		s, ok := e.str()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

func (m *M) lenOf(st *State, x *Val, t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if s, ok := x.str(); ok {
			return constVal(int64(len(s)))
		}
		if !x.unk && len(x.cs) > 0 {
			var r *Val
			for _, c := range x.cs {
				if s, ok := c.v.(string); ok {
					r = join(r, constVal(int64(len(s))))
				}
			}
			return r
		}
		return unkVal(types.Typ[types.Int], mkSym("len", x))
	case *types.Map:
		_ = u
		if x.isNil() {
			return constVal(int64(0))
		}
		if len(x.refs) == 1 && !x.unk && x.nil_ == nonBit {
			c := m.content(st, x.refs[0].obj).mp
			if c != nil && !c.open && len(c.may) == 0 {
				return constVal(int64(len(c.keys)))
			}
		}
		return unkVal(types.Typ[types.Int], mkSym("len", x))
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return constVal(a.Len())
		}
	case *types.Array:
		return constVal(u.Len())
	}
	if x.unk {
		if b, ok := bytesText(x); ok {
			return constVal(int64(len(b)))
		}
		s := mkSym("len", x)
		v := unkVal(types.Typ[types.Int], s)
		return m.resolve(st, v)
	}
	var r *Val
	if x.nil_&nilBit != 0 {
		r = constVal(int64(0))
	}
	for _, ref := range x.refs {
		if ref.ln < 0 {
			return unkVal(types.Typ[types.Int], nil)
		}
		r = join(r, constVal(int64(ref.ln)))
	}
	if r == nil {
		return unkVal(types.Typ[types.Int], nil)
	}
	return r
}

func (fr *frame) builtin(st *State, name string, c *ssa.CallCommon, args []*Val, site ssa.Instruction) []Out {
	m := fr.m
	switch name {
	case "len", "cap":
		x := m.resolve(st, args[0])
		if name == "cap" {
			return one(st, unkVal(types.Typ[types.Int], nil))
		}
		return one(st, withSrc(m.lenOf(st, x, c.Args[0].Type()), x))
	case "append":
		return one(st, m.appendVal(st, args[0], args[1], c.Args[0].Type(), c.Args[1].Type(), site))
	case "copy":
		// element values flow from source to destination
		dst := args[0]
		es, ok := m.elems(st, args[1])
		for _, r := range dst.refs {
			if r.obj == nil {
				continue
			}
			if ok && r.ln >= 0 && len(dst.refs) == 1 {
				cur := m.content(st, r.obj)
				for i, e := range es {
					if i >= r.ln {
						break
					}
					cur = m.setPath(cur, append(splitPath(r.path), strconv.Itoa(r.off+i)), e, false)
				}
				st.mem[r.obj] = cur
				continue
			}
			e := m.elemJoin(st, args[1], c.Args[1].Type())
			if e != nil {
				st.mem[r.obj] = m.setPath(m.content(st, r.obj), append(splitPath(r.path), "*"), e, true)
			}
		}
		return one(st, unkVal(types.Typ[types.Int], nil))
	case "delete":
		m.mapDelete(st, args[0], args[1])
		return []Out{{st: st, res: []*Val{{}}}}
	case "clear":
		return []Out{{st: st, res: []*Val{{}}}}
	case "panic":
		fr.panicOut(st, site, "panic")
		return nil
	case "recover":
		return one(st, nilVal())
	case "min", "max":
		a, aok := args[0].integer()
		if len(args) == 2 && aok {
			if b, ok := args[1].integer(); ok {
				if (name == "min") == (a < b) {
					return one(st, args[0])
				}
				return one(st, args[1])
			}
		}
		return one(st, unkVal(c.Args[0].Type(), mkSym(name, args...)))
	case "close", "print", "println":
		return []Out{{st: st, res: []*Val{{}}}}
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	if v, ok := site.(ssa.Value); ok {
		return one(st, unkVal(v.Type(), nil))
	}
	return []Out{{st: st, res: []*Val{{}}}}
}

func (m *M) elemJoin(st *State, v *Val, t types.Type) *Val {
	var r *Val
	for _, ref := range v.refs {
		if ref.obj == nil {
			continue
		}
		c := m.nav(m.content(st, ref.obj), ref.path)
		r = join(r, m.child(c, "*"))
	}
	if v.unk {
		if e, ok := arrayElem(t); ok {
			r = join(r, unkVal(e, &Sym{"elem(" + v.sym.String() + ")", false}))
		} else {
			r = join(r, unkVal(types.Typ[types.Byte], nil))
		}
	}
	if r != nil {
		r = fresh(r)
	}
	return r
}

func (m *M) appendVal(st *State, a, b *Val, at, bt types.Type, site ssa.Instruction) *Val {
	a, b = m.resolve(st, a), m.resolve(st, b)
	ea, okA := m.elems(st, a)
	eb, okB := m.elems(st, b)
	if okB && len(eb) == 0 && !(b.unk) {
		return a
	}
	if okA && okB && len(ea)+len(eb) <= 600 {
		return withSrc(m.newSlice(st, site, at, append(append([]*Val{}, ea...), eb...)), a, b)
	}
	var e *Val
	e = join(e, m.elemJoin(st, a, at))
	e = join(e, m.elemJoin(st, b, bt))
	o := m.alloc(st, m.siteID(site)+"/app", at, 'a')
	if e == nil {
		e = unkVal(at.Underlying().(*types.Slice).Elem(), nil)
	}
	st.mem[o] = &Val{sum: e}
	if o.kind == 'a' {
		// one summary object per site keeps appends in loops stable
		st.allocN[m.siteID(site)+"/app"] = 0
	}
	n := uint8(nonBit)
	if !okB && a.nil_&nilBit != 0 {
		n |= nilBit
	}
	return withSrc(&Val{nil_: n, refs: []*Ref{{obj: o, ln: -1}}}, a, b)
}

// errVal is a fresh non-nil error carrying a description.
func errVal(desc string, args ...*Val) *Val {
	return withSrc(unkNonNil(types.Universe.Lookup("error").Type(), &Sym{"err:" + desc, false}), args...)
}

var defaultHooks map[string]hookFn

func init() {
	nonNilErr := func(st *State, c *Call) ([]Out, bool) {
		d := "?"
		if len(c.args) > 0 {
			if s, ok := c.args[0].str(); ok {
				d = s
			}
		}
		return one(st, errVal(d)), true
	}
	retArg0 := func(st *State, c *Call) ([]Out, bool) { return one(st, c.args[0]), true }
	none := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st, res: nil}}, true }
	defaultHooks = map[string]hookFn{
		"fmt.Errorf":              nonNilErr,
		"errors.New":              nonNilErr,
		"fmt.Sprintf":             hookSprintf,
		"fmt.Sprint":              nil,
		"(*sync.Mutex).Lock":      none,
		"(*sync.Mutex).Unlock":    none,
		"(*sync.RWMutex).Lock":    none,
		"(*sync.RWMutex).Unlock":  none,
		"(*sync.RWMutex).RLock":   none,
		"(*sync.RWMutex).RUnlock": none,
		"(*sync.Once).Do": func(st *State, c *Call) ([]Out, bool) {
			m, t := c.frame.m, deref(c.static.Signature.Recv().Type())
			if v := m.load(st, c.args[0], t); v != nil && v.agg != nil {
				dt := fieldType(t, "done")
				if n, ok := m.getField(m.getField(v, t, "done"), dt, "v").integer(); ok {
					if n != 0 {
						return []Out{{st: st}}, true
					}
					m.store(st, c.args[0], structOf(t, "done", structOf(dt, "v", constVal(int64(1)))), t)
				}
			}
			return c.frame.callVal(st, c.args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), c.site), true
		},
		"sort.Slice":                          hookSortSlice,
		"sort.SliceStable":                    hookSortSlice,
		"slices.SortFunc":                     hookSortFunc,
		"slices.SortStableFunc":               hookSortFunc,
		"sort.Sort":                           hookSortIface,
		"sort.Stable":                         hookSortIface,
		"sort.Strings":                        hookSortStrings,
		"slices.Sort":                         hookSortStrings,
		"slices.Clone":                        nil,
		"slices.Grow":                         retArg0, // the capacity shows only in what is shared
		"reflect.TypeOf":                      hookTypeOf,
		"reflect.Indirect":                    nil,
		"(reflect.Type).Kind":                 hookRType,
		"(reflect.Type).Elem":                 hookRType,
		"(reflect.Type).Key":                  hookRType,
		"(reflect.Type).Name":                 hookRType,
		"(reflect.Type).String":               hookRType,
		"(reflect.Type).NumField":             hookRType,
		"(reflect.Type).Field":                hookRType,
		"(reflect.Type).PkgPath":              hookRType,
		"(reflect.StructTag).Lookup":          hookTagLookup,
		"(reflect.StructTag).Get":             hookTagGet,
		"strings.Map":                         hookStringsMap,
		"bytes.Equal":                         hookBytesEqual,
		"strings.NewReader":                   nil,
		"regexp.MustCompile":                  hookCompile,
		"(*regexp.Regexp).MatchString":        hookRegexp,
		"(*regexp.Regexp).FindString":         hookRegexp,
		"(*regexp.Regexp).ReplaceAllString":   hookRegexp,
		"(*regexp.Regexp).FindStringSubmatch": hookRegexp,
		"strings.Cut":                         hookCut,
		"errors.Is":                           nil,
		"os.Exit":                             func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st, panics: "os.Exit"}}, true },
		"k8s.io/utils/ptr.To":                 nil,
		"fmt.Fprintf":                         nil,
		"_":                                   retArg0,
	}
	for _, n := range []string{"WriteString", "WriteRune", "WriteByte", "String", "Len", "Reset", "Grow"} {
		defaultHooks["(*strings.Builder)."+n] = hookBuilder
	}
	for k, v := range defaultHooks {
		if v == nil {
			delete(defaultHooks, k)
		}
	}
}

// hookBuilder models strings.Builder: the last field of the structure holds the text written so far.
func hookBuilder(st *State, c *Call) ([]Out, bool) {
	p := c.args[0]
	pt, ok := c.static.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok || len(p.refs) != 1 || p.unk || p.refs[0].obj == nil || p.refs[0].obj.summary {
		return nil, false
	}
	content := c.m.load(st, p, pt.Elem())
	if len(content.agg) == 0 {
		return nil, false
	}
	last := len(content.agg) - 1
	cur := content.agg[last]
	if cur.isNil() {
		cur = strVal("")
	}
	set := func(v *Val) {
		n := &Val{agg: append([]*Val(nil), content.agg...)}
		n.agg[last] = v
		c.m.store(st, p, n, pt.Elem())
	}
	intT := types.Typ[types.Int]
	noErr := nilVal()
	switch c.static.Name() {
	case "String":
		return one(st, cur), true
	case "Len":
		if s, ok := cur.str(); ok {
			return one(st, constVal(int64(len(s)))), true
		}
		return nil, false
	case "Grow":
		return []Out{{st: st}}, true
	case "Reset":
		set(strVal(""))
		return []Out{{st: st}}, true
	case "WriteString":
		set(c.frame.binop(token.ADD, cur, c.args[1], types.Typ[types.String], types.Typ[types.String]))
		return []Out{{st: st, res: []*Val{unkVal(intT, nil), noErr}}}, true
	case "WriteRune", "WriteByte":
		n, ok := c.args[1].integer()
		if !ok {
			set(unkVal(types.Typ[types.String], nil))
		} else {
			set(c.frame.binop(token.ADD, cur, strVal(string(rune(n))), types.Typ[types.String], types.Typ[types.String]))
		}
		if c.static.Name() == "WriteByte" {
			return []Out{{st: st, res: []*Val{noErr}}}, true
		}
		return []Out{{st: st, res: []*Val{unkVal(intT, nil), noErr}}}, true
	}
	return nil, false
}

// bytesText reads the text of a byte slice converted from a known string.
func bytesText(v *Val) (string, bool) {
	if v.isNil() {
		return "", true
	}
	if !v.unk || v.sym == nil || !strings.HasPrefix(v.sym.s, "bytes(") {
		return "", false
	}
	r, err := strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(v.sym.s, "bytes("), ")"))
	return r, err == nil
}

// hookBytesEqual decides bytes.Equal on byte slices converted from known strings.
func hookBytesEqual(st *State, c *Call) ([]Out, bool) {
	a, ok1 := bytesText(c.args[0])
	b, ok2 := bytesText(c.args[1])
	if !ok1 || !ok2 {
		return nil, false
	}
	return one(st, boolVal(a == b)), true
}

// knownRegexps are the expressions compiled from constants, by symbol.
var knownRegexps sync.Map

func hookCompile(st *State, c *Call) ([]Out, bool) {
	sym := c.sym()
	if t, ok := c.args[0].str(); ok && sym != nil {
		if re, err := regexp.Compile(t); err == nil {
			knownRegexps.Store(sym.s, re)
		}
	}
	return one(st, unkNonNil(c.res.At(0).Type(), sym)), true
}

// hookRegexp matches a constant text against a constant expression.
func hookRegexp(st *State, c *Call) ([]Out, bool) {
	if c.args[0].sym == nil {
		return nil, false
	}
	x, ok := knownRegexps.Load(c.args[0].sym.s)
	if !ok {
		return nil, false
	}
	re := x.(*regexp.Regexp)
	d := *c
	d.args = c.args[1:]
	switch c.name[strings.LastIndex(c.name, ".")+1:] {
	case "MatchString":
		return c.m.fold(st, re.MatchString, &d)
	case "FindString":
		return c.m.fold(st, re.FindString, &d)
	case "FindStringSubmatch":
		return c.m.fold(st, re.FindStringSubmatch, &d)
	}
	return c.m.fold(st, re.ReplaceAllString, &d)
}

func hookCut(st *State, c *Call) ([]Out, bool) {
	a, ok1 := c.args[0].str()
	b, ok2 := c.args[1].str()
	if !ok1 || !ok2 {
		return nil, false
	}
	x, y, f := strings.Cut(a, b)
	return []Out{{st: st, res: []*Val{strVal(x), strVal(y), boolVal(f)}}}, true
}

func hookSprintf(st *State, c *Call) ([]Out, bool) {
	f, ok := c.args[0].str()
	if !ok {
		return nil, false
	}
	es, ok := c.m.elems(st, c.args[1])
	if !ok {
		return one(st, withSrc(unkVal(types.Typ[types.String], nil), c.args...)), true
	}
	// expand the simple verbs into a concatenation
	var parts []*Val
	ei := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			parts = append(parts, strVal(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(f) {
			return one(st, withSrc(unkVal(types.Typ[types.String], nil), es...)), true
		}
		if j := strings.IndexByte(f[i:], ']'); f[i] == '[' && j > 0 && i+j+1 < len(f) {
			n, err := strconv.Atoi(f[i+1 : i+j])
			if err != nil || n < 1 {
				return one(st, withSrc(unkVal(types.Typ[types.String], nil), es...)), true
			}
			ei = n - 1
			i += j + 1
		}
		switch f[i] {
		case '%':
			parts = append(parts, strVal("%"))
		case 's', 'v', 'd', 'q':
			if ei >= len(es) {
				return one(st, withSrc(unkVal(types.Typ[types.String], nil), es...)), true
			}
			e := es[ei]
			ei++
			if len(e.refs) == 1 && e.refs[0].t != nil && !e.unk {
				t := e.refs[0].t
				src := e
				e = withSrc(e.refs[0].v, src)
				if b, ok := t.Underlying().(*types.Basic); ok && (b.Info()&types.IsString != 0 || b.Info()&types.IsInteger != 0) && !hasStringer(t) {
					if n, ok := e.integer(); ok {
						e = withSrc(strVal(strconv.FormatInt(n, 10)), e)
					}
					if s, ok := e.str(); ok && f[i] == 'q' {
						e = withSrc(strVal(strconv.Quote(s)), e)
					} else if f[i] == 'q' {
						e = withSrc(unkVal(types.Typ[types.String], mkSym("quote", e)), e)
					}
				} else {
					e = withSrc(unkVal(types.Typ[types.String], mkSym("str", e)), e)
				}
			} else {
				e = withSrc(unkVal(types.Typ[types.String], mkSym("str", e)), e)
			}
			parts = append(parts, e)
		default:
			return one(st, withSrc(unkVal(types.Typ[types.String], mkSym("fmt.Sprintf", append([]*Val{c.args[0]}, es...)...)), es...)), true
		}
	}
	all := ""
	known := true
	for _, p := range parts {
		s, ok := p.str()
		if !ok {
			known = false
			break
		}
		all += s
	}
	if known {
		return one(st, withSrc(strVal(all), parts...)), true
	}
	return one(st, withSrc(unkVal(types.Typ[types.String], catSym(parts...)), parts...)), true
}

func hasStringer(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "String")
	if f, ok := o.(*types.Func); ok && f != nil {
		return true
	}
	o, _, _ = types.LookupFieldOrMethod(t, true, nil, "Error")
	f, ok := o.(*types.Func)
	return ok && f != nil
}

func hookSortStrings(st *State, c *Call) ([]Out, bool) {
	m := c.m
	v := c.args[0]
	ss, ok := m.strSlice(st, v)
	if !ok {
		blurSlice(st, m, v)
		return []Out{{st: st, res: nil}}, true
	}
	sort.Strings(ss)
	if len(ss) > 0 {
		r := v.refs[0]
		cur := m.content(st, r.obj)
		for i, s := range ss {
			cur = m.setPath(cur, append(splitPath(r.path), strconv.Itoa(r.off+i)), strVal(s), false)
		}
		st.mem[r.obj] = cur
	}
	return []Out{{st: st, res: nil}}, true
}

// blurSlice makes every element of a slice the join of all.
func blurSlice(st *State, m *M, v *Val) {
	for _, r := range v.refs {
		if r.obj == nil {
			continue
		}
		c := m.content(st, r.obj)
		e := m.child(m.nav(c, r.path), "*")
		if e == nil || r.path != "" {
			continue
		}
		if c.agg != nil {
			n := *c
			n.agg = make([]*Val, len(c.agg))
			for i := range n.agg {
				n.agg[i] = fresh(e)
			}
			st.mem[r.obj] = &n
		}
	}
}

func insertionSort(st *State, c *Call, v *Val, less func(st *State, i, j int) (bool, bool)) {
	m := c.m
	es, ok := m.elems(st, v)
	if !ok {
		blurSlice(st, m, v)
		return
	}
	n := len(es)
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			lt, known := less(st, j, j-1)
			if known && !lt && m.adverse == 2 && !strings.Contains(c.name, "Stable") {
				// equal elements may come out in any order
				var gt bool
				if gt, known = less(st, j-1, j); !gt {
					lt = true
				}
			}
			if !known {
				blurSlice(st, m, v)
				return
			}
			if !lt {
				break
			}
			cur, _ := m.elems(st, v)
			r := v.refs[0]
			x := m.content(st, r.obj)
			x = m.setPath(x, append(splitPath(r.path), strconv.Itoa(r.off+j)), cur[j-1], false)
			x = m.setPath(x, append(splitPath(r.path), strconv.Itoa(r.off+j-1)), cur[j], false)
			st.mem[r.obj] = x
		}
	}
}

func hookSortSlice(st *State, c *Call) ([]Out, bool) {
	v := c.args[0]
	if len(v.refs) == 1 && v.refs[0].t != nil {
		v = v.refs[0].v
	}
	insertionSort(st, c, v, func(s *State, i, j int) (bool, bool) {
		outs := c.frame.callVal(s.clone(), c.args[1], []*Val{constVal(int64(i)), constVal(int64(j))}, sigBool, c.site)
		if len(outs) != 1 || outs[0].panics != "" {
			return false, false
		}
		return outs[0].res[0].boolean()
	})
	return []Out{{st: st, res: nil}}, true
}

// hookSortIface models sort.Sort and sort.Stable on named slices.
func hookSortIface(st *State, c *Call) ([]Out, bool) {
	a := c.args[0]
	if len(a.refs) != 1 || a.refs[0].t == nil || a.unk {
		return nil, false
	}
	t, v := a.refs[0].t, a.refs[0].v
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil, false
	}
	less := c.m.w.methodOf(t, "Less")
	if less == nil {
		return nil, false
	}
	insertionSort(st, c, v, func(s *State, i, j int) (bool, bool) {
		outs := c.frame.invokeFn(s.clone(), less, []*Val{v, constVal(int64(i)), constVal(int64(j))}, nil, c.site)
		if len(outs) != 1 || outs[0].panics != "" {
			return false, false
		}
		return outs[0].res[0].boolean()
	})
	return []Out{{st: st, res: nil}}, true
}

var sigBool = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
var sigInt = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int])), false)

func hookSortFunc(st *State, c *Call) ([]Out, bool) {
	v := c.args[0]
	insertionSort(st, c, v, func(s *State, i, j int) (bool, bool) {
		es, _ := c.m.elems(s, v)
		outs := c.frame.callVal(s.clone(), c.args[1], []*Val{es[i], es[j]}, sigInt, c.site)
		if len(outs) != 1 || outs[0].panics != "" {
			return false, false
		}
		n, ok := outs[0].res[0].integer()
		return n < 0, ok
	})
	return []Out{{st: st, res: nil}}, true
}

func rtypeVal(t types.Type) *Val {
	v := constVal(types.Unalias(t))
	v.nil_ = nonBit
	return v
}

func hookTypeOf(st *State, c *Call) ([]Out, bool) {
	a := c.args[0]
	if len(a.refs) == 1 && a.refs[0].t != nil && !a.unk && a.nil_ == nonBit {
		if rt := a.refs[0].v.rtype(); rt != nil && strings.Contains(types.TypeString(a.refs[0].t, nil), "reflect.") {
			return one(st, unkNonNil(c.res.At(0).Type(), nil)), true
		}
		return one(st, rtypeVal(a.refs[0].t)), true
	}
	return one(st, unkVal(c.res.At(0).Type(), c.sym())), true
}

var reflKinds = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
	types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func kindOf(t types.Type) (reflect.Kind, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, ok := reflKinds[u.Kind()]
		return k, ok
	case *types.Slice:
		return reflect.Slice, true
	case *types.Array:
		return reflect.Array, true
	case *types.Map:
		return reflect.Map, true
	case *types.Pointer:
		return reflect.Pointer, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Interface:
		return reflect.Interface, true
	case *types.Signature:
		return reflect.Func, true
	case *types.Chan:
		return reflect.Chan, true
	}
	return 0, false
}

// hookRType models reflect.Type on known types.
func hookRType(st *State, c *Call) ([]Out, bool) {
	t := c.args[0].rtype()
	if t == nil {
		return nil, false
	}
	meth := c.name[strings.LastIndex(c.name, ".")+1:]
	switch meth {
	case "Kind":
		if k, ok := kindOf(t); ok {
			return one(st, constVal(uint64(k))), true
		}
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return one(st, rtypeVal(u.Elem())), true
		case *types.Array:
			return one(st, rtypeVal(u.Elem())), true
		case *types.Map:
			return one(st, rtypeVal(u.Elem())), true
		case *types.Pointer:
			return one(st, rtypeVal(u.Elem())), true
		}
		c.frame.panicOut(st, c.site, "reflect.Type.Elem of "+t.String())
		return nil, true
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return one(st, rtypeVal(u.Key())), true
		}
	case "Name":
		switch t := t.(type) {
		case *types.Named:
			return one(st, strVal(t.Obj().Name())), true
		case *types.Basic:
			return one(st, strVal(t.Name())), true
		}
		return one(st, strVal("")), true
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return one(st, strVal(n.Obj().Pkg().Path())), true
		}
		return one(st, strVal("")), true
	case "String":
		return one(st, strVal(types.TypeString(t, func(p *types.Package) string { return p.Name() }))), true
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return one(st, constVal(int64(u.NumFields()))), true
		}
		c.frame.panicOut(st, c.site, "reflect.Type.NumField of "+t.String())
		return nil, true
	case "Field":
		u, ok := t.Underlying().(*types.Struct)
		i, iok := c.args[1].integer()
		if !ok || !iok {
			return nil, false
		}
		f := u.Field(int(i))
		// reflect.StructField{Name, PkgPath, Type, Tag, Offset, Index, Anonymous}
		sf := c.res.At(0).Type().Underlying().(*types.Struct)
		v := zeroVal(c.res.At(0).Type())
		v.agg = append([]*Val(nil), v.agg...)
		for j := 0; j < sf.NumFields(); j++ {
			switch sf.Field(j).Name() {
			case "Name":
				v.agg[j] = strVal(f.Name())
			case "PkgPath":
				if !f.Exported() && f.Pkg() != nil {
					v.agg[j] = strVal(f.Pkg().Path())
				}
			case "Type":
				v.agg[j] = rtypeVal(f.Type())
			case "Tag":
				v.agg[j] = strVal(u.Tag(int(i)))
			case "Anonymous":
				v.agg[j] = boolVal(f.Embedded())
			}
		}
		return one(st, v), true
	}
	return nil, false
}

func hookTagLookup(st *State, c *Call) ([]Out, bool) {
	t, ok1 := c.args[0].str()
	k, ok2 := c.args[1].str()
	if !ok1 || !ok2 {
		return nil, false
	}
	v, ok := reflect.StructTag(t).Lookup(k)
	return []Out{{st: st, res: []*Val{strVal(v), boolVal(ok)}}}, true
}

func hookTagGet(st *State, c *Call) ([]Out, bool) {
	t, ok1 := c.args[0].str()
	k, ok2 := c.args[1].str()
	if !ok1 || !ok2 {
		return nil, false
	}
	return one(st, strVal(reflect.StructTag(t).Get(k))), true
}

func hookStringsMap(st *State, c *Call) ([]Out, bool) {
	s, ok := c.args[1].str()
	if !ok {
		return nil, false
	}
	out := ""
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Rune])), false)
	for _, r := range s {
		outs := c.frame.callVal(st, c.args[0], []*Val{constVal(int64(r))}, sig, c.site)
		if len(outs) != 1 || outs[0].panics != "" {
			return nil, false
		}
		n, ok := outs[0].res[0].integer()
		if !ok {
			return nil, false
		}
		st = outs[0].st
		if n >= 0 {
			out += string(rune(n))
		}
	}
	return one(st, strVal(out)), true
}

// runInit interprets the initialisers of the repository's packages into m.base.
func (m *M) runInits(pkgs ...string) {
	done := map[string]bool{}
	var rec func(path string)
	var st = newState()
	rec = func(path string) {
		if done[path] {
			return
		}
		done[path] = true
		p := m.w.All[path]
		var imps []string
		for _, i := range p.Types.Imports() {
			imps = append(imps, i.Path())
		}
		sort.Strings(imps)
		for _, i := range imps {
			if isRepoPath(i) {
				rec(i)
			}
		}
		sp := m.w.SSA[path]
		f := sp.Func("init")
		if f == nil {
			return
		}
		old := m.hooks
		m.hooks = cpy(old)
		for _, i := range p.Types.Imports() {
			m.hooks[i.Path()+".init"] = func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
		}
		outs := m.callFn(st, f, nil, nil)
		m.hooks = old
		var ok []Out
		for _, o := range outs {
			if o.panics == "" {
				ok = append(ok, o)
			} else {
				m.over = append(m.over, "init of "+path+" may panic: "+o.panics)
			}
		}
		if len(ok) == 0 {
			m.fail("initialiser of %s always panics: %v", path, m.over)
		}
		st = ok[0].st
		for _, o := range ok[1:] {
			st = m.joinState(st, o.st)
		}
		st.regs = map[ssa.Value]*Val{}
	}
	for _, p := range pkgs {
		rec(modPath + "/" + p)
	}
	for o, v := range st.mem {
		m.base[o] = v
	}
	for k, n := range st.allocN {
		_ = k
		_ = n
	}
}

var _ = fmt.Sprint

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file defines the abstract domain of the interprocedural analysis in
// absint.go: finite constant sets, nilness, points-to targets, closures,
// dynamic interface types, struct fields, map entries, and named unknowns.

const (
	maxConsts = 12
	nilBit    = 1
	nonBit    = 2
)

// Sym names an unknown value by the expression that produced it. A unique Sym
// denotes one runtime value, so that two reads of it are equal.
type Sym struct {
	s    string
	uniq bool
}

func (s *Sym) String() string {
	if s == nil {
		return "?"
	}
	return s.s
}

// Const is one constant: bool, int64, uint64, float64, string or a reflected type.
type Const struct{ v any }

func (c Const) key() string {
	switch v := c.v.(type) {
	case types.Type:
		return "T:" + types.TypeString(v, nil)
	case string:
		return "s:" + v
	case float64:
		return "f:" + strconv.FormatFloat(v, 'g', -1, 64)
	default:
		return fmt.Sprintf("%T:%v", v, v)
	}
}

func (c Const) String() string {
	switch v := c.v.(type) {
	case string:
		return strconv.Quote(v)
	case types.Type:
		return "type " + typeName(v)
	}
	return fmt.Sprint(c.v)
}

// Obj is an abstract memory object.
type Obj struct {
	id      string
	t       types.Type // type of the content
	kind    byte       // 'c' cell, 'a' slice backing, 'm' map, 'i' iterator
	sym     *Sym       // set when the initial content is an unknown named by sym
	summary bool       // stands for several runtime objects
	global  *ssa.Global
}

// Ref is one alternative of a pointer, slice, map, function or interface value.
type Ref struct {
	obj  *Obj
	path string // field path below obj, as "/i/j"
	off  int    // slices
	ln   int    // slices; -1 when unknown
	fn   *ssa.Function
	bind []*Val
	hook string     // name of a modelled function value
	t    types.Type // interfaces: dynamic type
	v    *Val       // interfaces: dynamic value; hook: receiver
	k    string
}

func (r *Ref) key() string {
	if r.k == "" {
		r.k = r.mkKey()
	}
	return r.k
}

func (r *Ref) mkKey() string {
	switch {
	case r.t != nil:
		return "I:" + types.TypeString(r.t, nil)
	case r.fn != nil:
		return "F:" + r.fn.String()
	case r.hook != "":
		return "H:" + r.hook
	}
	return r.obj.id + r.path + "@" + strconv.Itoa(r.off)
}

// Cond remembers the comparison a boolean came from.
type Cond struct {
	op   token.Token
	x, y *Val
}

type MapV struct {
	keys []string
	k, v map[string]*Val
	may  map[string]bool // the entry may be absent
	// open: further entries may exist, with keys ok and values ov
	open   bool
	ok, ov *Val
	sym    *Sym
	vt     types.Type
}

func (m *MapV) clone() *MapV {
	n := *m
	n.keys = append([]string(nil), m.keys...)
	n.k, n.v, n.may = map[string]*Val{}, map[string]*Val{}, map[string]bool{}
	for k, v := range m.k {
		n.k[k] = v
	}
	for k, v := range m.v {
		n.v[k] = v
	}
	for k, v := range m.may {
		n.may[k] = v
	}
	return &n
}

// Val is an immutable abstract value.
type Val struct {
	unk  bool
	sym  *Sym
	t    types.Type // set for unknowns
	cs   []Const
	nil_ uint8
	refs []*Ref
	agg  []*Val // struct fields, array elements, tuples
	sum  *Val   // arrays of unknown length: every element
	mp   *MapV  // content of a map object
	cond *Cond
	src  map[string]bool // provenance labels
}

func constVal(v any) *Val { return &Val{cs: []Const{{v}}} }
func boolVal(b bool) *Val { return constVal(b) }
func strVal(s string) *Val {
	return constVal(s)
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return true
	}
	return false
}

func unkVal(t types.Type, s *Sym) *Val {
	v := &Val{unk: true, sym: s, t: t}
	if t != nil && isPtrLike(t) {
		v.nil_ = nilBit | nonBit
	}
	return v
}

func unkNonNil(t types.Type, s *Sym) *Val {
	v := unkVal(t, s)
	if v.nil_ != 0 {
		v.nil_ = nonBit
	}
	return v
}

func nilVal() *Val { return &Val{nil_: nilBit} }

func zeroVal(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolVal(false)
		case u.Info()&types.IsString != 0:
			return strVal("")
		case u.Info()&types.IsUnsigned != 0:
			return constVal(uint64(0))
		case u.Info()&types.IsInteger != 0:
			return constVal(int64(0))
		case u.Info()&types.IsFloat != 0:
			return constVal(float64(0))
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return nilVal()
		}
		return unkVal(t, nil)
	case *types.Struct:
		v := &Val{agg: make([]*Val, u.NumFields())}
		for i := range v.agg {
			v.agg[i] = zeroVal(u.Field(i).Type())
		}
		return v
	case *types.Array:
		if u.Len() > 256 {
			return &Val{sum: zeroVal(u.Elem())}
		}
		v := &Val{agg: make([]*Val, u.Len())}
		for i := range v.agg {
			v.agg[i] = zeroVal(u.Elem())
		}
		return v
	}
	if isPtrLike(t) {
		return nilVal()
	}
	return unkVal(t, nil)
}

func (v *Val) single() (any, bool) {
	if v != nil && !v.unk && len(v.cs) == 1 {
		return v.cs[0].v, true
	}
	return nil, false
}

func (v *Val) str() (string, bool) {
	if c, ok := v.single(); ok {
		s, ok := c.(string)
		return s, ok
	}
	return "", false
}

func (v *Val) boolean() (val, known bool) {
	if c, ok := v.single(); ok {
		b, ok := c.(bool)
		return b, ok
	}
	return false, false
}

func (v *Val) integer() (int64, bool) {
	if c, ok := v.single(); ok {
		switch i := c.(type) {
		case int64:
			return i, true
		case uint64:
			return int64(i), true
		}
	}
	return 0, false
}

func (v *Val) rtype() types.Type {
	if c, ok := v.single(); ok {
		if t, ok := c.(types.Type); ok {
			return t
		}
	}
	if v != nil && len(v.refs) == 1 && v.refs[0].t != nil && v.nil_&nilBit == 0 && !v.unk && v.refs[0].v != nil && v.refs[0].v != v {
		return v.refs[0].v.rtype()
	}
	return nil
}

func (v *Val) isNil() bool  { return v != nil && v.nil_ == nilBit }
func (v *Val) notNil() bool { return v != nil && v.nil_ == nonBit }

// ident returns a canonical name for a value that denotes one runtime value.
func (v *Val) ident() (string, bool) {
	if v == nil {
		return "", false
	}
	if v.unk {
		if v.sym != nil && v.sym.uniq && len(v.refs) == 0 {
			return "$" + v.sym.s, true
		}
		return "", false
	}
	if len(v.cs) == 1 {
		return v.cs[0].key(), true
	}
	if len(v.cs) > 1 {
		return "", false
	}
	if v.nil_ == nilBit {
		return "nil", true
	}
	if v.agg != nil {
		var b strings.Builder
		b.WriteString("{")
		for _, f := range v.agg {
			k, ok := f.ident()
			if !ok {
				return "", false
			}
			b.WriteString(k + ";")
		}
		return b.String() + "}", true
	}
	if v.nil_ == nonBit && len(v.refs) == 1 {
		r := v.refs[0]
		switch {
		case r.t != nil:
			k, ok := r.v.ident()
			return "I:" + types.TypeString(r.t, nil) + ":" + k, ok
		case r.obj != nil && !r.obj.summary:
			return "&" + r.key(), true
		}
	}
	return "", false
}

// symOf names any single-valued Val for use inside a larger expression.
func symOf(v *Val) *Sym {
	if v == nil {
		return nil
	}
	if v.unk && v.sym != nil {
		return v.sym
	}
	if v.unk {
		return nil
	}
	if len(v.cs) == 1 {
		return &Sym{v.cs[0].String(), true}
	}
	if k, ok := v.ident(); ok {
		return &Sym{k, true}
	}
	return nil
}

func mkSym(op string, vs ...*Val) *Sym {
	u := true
	var b strings.Builder
	b.WriteString(op + "(")
	for i, v := range vs {
		s := symOf(v)
		if s == nil {
			return nil
		}
		u = u && s.uniq
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(s.s)
	}
	b.WriteString(")")
	if b.Len() > 600 {
		return nil
	}
	return &Sym{b.String(), u}
}

func (s *Sym) child(f string) *Sym {
	if s == nil || len(s.s)+len(f) > 600 {
		return nil
	}
	return &Sym{s.s + f, s.uniq}
}

func (v *Val) labels() []string {
	var r []string
	for k := range v.src {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func withSrc(v *Val, from ...*Val) *Val {
	n := 0
	for _, f := range from {
		if f != nil {
			n += len(f.src)
		}
	}
	if n == 0 {
		return v
	}
	m := map[string]bool{}
	for k := range v.src {
		m[k] = true
	}
	for _, f := range from {
		if f != nil {
			for k := range f.src {
				m[k] = true
			}
		}
	}
	c := *v
	c.src = m
	return &c
}

func labelled(v *Val, l string) *Val {
	c := *v
	c.src = map[string]bool{l: true}
	for k := range v.src {
		c.src[k] = true
	}
	return &c
}

func (v *Val) String() string { return v.show(0) }

func (v *Val) show(d int) string {
	if v == nil {
		return "⊥"
	}
	if d > 5 {
		return "…"
	}
	var p []string
	if v.unk {
		p = append(p, "?"+v.sym.String())
	}
	for _, c := range v.cs {
		p = append(p, c.String())
	}
	if v.nil_&nilBit != 0 {
		p = append(p, "nil")
	}
	for _, r := range v.refs {
		switch {
		case r.t != nil:
			p = append(p, typeName(r.t)+"("+r.v.show(d+1)+")")
		case r.obj != nil:
			p = append(p, "&"+r.key())
		default:
			p = append(p, r.key())
		}
	}
	if v.agg != nil {
		var f []string
		for _, a := range v.agg {
			f = append(f, a.show(d+1))
		}
		p = append(p, "{"+strings.Join(f, ", ")+"}")
	}
	if v.sum != nil {
		p = append(p, "["+v.sum.show(d+1)+"...]")
	}
	if v.mp != nil {
		var f []string
		for _, k := range v.mp.keys {
			f = append(f, k+":"+v.mp.v[k].show(d+1))
		}
		p = append(p, "map["+strings.Join(f, ", ")+"]")
	}
	if len(p) == 0 {
		return "⊥"
	}
	return strings.Join(p, "|")
}

// ---- join ----

// join returns a itself when b adds nothing.
func join(a, b *Val) *Val {
	if a == b || b == nil {
		return a
	}
	if a == nil {
		return b
	}
	// struct shapes against unknowns
	if a.agg != nil && b.agg == nil && b.unk {
		b = expandUnk(b, len(a.agg))
	} else if b.agg != nil && a.agg == nil && a.unk {
		a2 := expandUnk(a, len(b.agg))
		return join(a2, b)
	}
	r := *a
	r.cond = nil
	changed := false
	if b.unk && !a.unk {
		r.unk, r.t, r.sym = true, b.t, nil
		changed = true
	} else if a.unk && b.unk && a.sym != nil && (b.sym == nil || a.sym.s != b.sym.s || a.sym.uniq != b.sym.uniq) {
		if b.sym != nil && a.sym.s == b.sym.s {
			r.sym = &Sym{a.sym.s, false}
		} else {
			r.sym = nil
		}
		changed = true
	} else if a.unk && !b.unk && a.sym != nil && (len(b.cs) > 0 || b.nil_ == nilBit && len(a.cs) == 0 || len(b.refs) > 0) {
		r.sym = nil
		changed = true
	}
	if r.unk {
		if len(r.cs) > 0 {
			r.cs = nil
			changed = true
		}
	} else {
		for _, c := range b.cs {
			found := false
			for _, d := range r.cs {
				if d.key() == c.key() {
					found = true
					break
				}
			}
			if !found {
				r.cs = append(append([]Const(nil), r.cs...), c)
				changed = true
			}
		}
		if len(r.cs) > maxConsts {
			r.cs, r.unk, r.sym = nil, true, nil
		}
	}
	if b.nil_&^r.nil_ != 0 {
		r.nil_ |= b.nil_
		changed = true
	}
	for _, rb := range b.refs {
		idx := -1
		kb := rb.key()
		for i, ra := range r.refs {
			if ra == rb || ra.key() == kb {
				idx = i
				break
			}
		}
		if idx < 0 {
			r.refs = append(append([]*Ref(nil), r.refs...), rb)
			changed = true
			continue
		}
		ra := r.refs[idx]
		if ra == rb {
			continue
		}
		n := *ra
		n.k = ""
		c := false
		if ra.ln != rb.ln && ra.ln != -1 {
			n.ln = -1
			c = true
		}
		if ra.v != rb.v {
			n.v = join(ra.v, rb.v)
			c = c || n.v != ra.v
		}
		if len(ra.bind) == len(rb.bind) {
			for i := range ra.bind {
				if j := join(ra.bind[i], rb.bind[i]); j != ra.bind[i] {
					if !c {
						n.bind = append([]*Val(nil), ra.bind...)
					}
					nb := append([]*Val(nil), n.bind...)
					nb[i] = j
					n.bind = nb
					c = true
				}
			}
		}
		if c {
			r.refs = append([]*Ref(nil), r.refs...)
			r.refs[idx] = &n
			changed = true
		}
	}
	if b.agg != nil || b.sum != nil {
		if a.agg != nil && b.agg != nil && len(a.agg) == len(b.agg) && a.sum == nil && b.sum == nil {
			for i := range a.agg {
				if j := join(a.agg[i], b.agg[i]); j != a.agg[i] {
					if &r.agg[0] == &a.agg[0] {
						r.agg = append([]*Val(nil), a.agg...)
					}
					r.agg[i] = j
					changed = true
				}
			}
		} else {
			s := a.sum
			for _, x := range a.agg {
				s = join(s, x)
			}
			s0 := s
			s = join(s, b.sum)
			for _, x := range b.agg {
				s = join(s, x)
			}
			if a.agg != nil || s != s0 || a.sum == nil {
				r.agg, r.sum = nil, s
				changed = true
			}
		}
	}
	if b.mp != nil {
		if a.mp == nil {
			r.mp = b.mp
			changed = true
		} else if m := joinMap(a.mp, b.mp); m != a.mp {
			r.mp = m
			changed = true
		}
	}
	for k := range b.src {
		if !r.src[k] {
			m := map[string]bool{}
			for x := range a.src {
				m[x] = true
			}
			for x := range b.src {
				m[x] = true
			}
			r.src = m
			changed = true
			break
		}
	}
	if !changed {
		return a
	}
	return &r
}

func expandUnk(v *Val, n int) *Val {
	r := &Val{agg: make([]*Val, n), src: v.src}
	var st *types.Struct
	if v.t != nil {
		st, _ = v.t.Underlying().(*types.Struct)
	}
	for i := range r.agg {
		if st != nil && i < st.NumFields() {
			r.agg[i] = withSrc(unkVal(st.Field(i).Type(), v.sym.child("."+st.Field(i).Name())), v)
		} else if at, ok := arrayElem(v.t); ok {
			r.agg[i] = withSrc(unkVal(at, v.sym.child("["+strconv.Itoa(i)+"]")), v)
		} else {
			r.agg[i] = &Val{unk: true, nil_: nilBit | nonBit}
		}
	}
	return r
}

func arrayElem(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem(), true
	case *types.Slice:
		return u.Elem(), true
	}
	return nil, false
}

func joinMap(a, b *MapV) *MapV {
	var r *MapV
	mut := func() *MapV {
		if r == nil {
			r = a.clone()
		}
		return r
	}
	for _, k := range a.keys {
		if bv, ok := b.v[k]; ok {
			if j := join(a.v[k], bv); j != a.v[k] {
				mut().v[k] = j
			}
			if b.may[k] && !a.may[k] {
				mut().may[k] = true
			}
		} else if !a.may[k] {
			mut().may[k] = true
		}
	}
	for _, k := range b.keys {
		if _, ok := a.v[k]; !ok {
			m := mut()
			m.keys = append(m.keys, k)
			m.k[k], m.v[k], m.may[k] = b.k[k], b.v[k], true
		}
	}
	if b.open && !a.open {
		m := mut()
		m.open, m.ok, m.ov, m.sym, m.vt = true, b.ok, b.ov, nil, b.vt
	} else if a.open && b.open {
		if j := join(a.ok, b.ok); j != a.ok {
			mut().ok = j
		}
		if j := join(a.ov, b.ov); j != a.ov {
			mut().ov = j
		}
		if a.sym != nil && (b.sym == nil || b.sym.s != a.sym.s) {
			mut().sym = nil
		}
	}
	if r == nil {
		return a
	}
	if len(r.keys) > 400 {
		n := &MapV{k: map[string]*Val{}, v: map[string]*Val{}, may: map[string]bool{}, open: true, ok: r.ok, ov: r.ov, vt: r.vt}
		for _, k := range r.keys {
			n.ok = join(n.ok, r.k[k])
			n.ov = join(n.ov, r.v[k])
		}
		return n
	}
	return r
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/scanner"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "conditional constant propagation over the marker parser against the documented grammar", "argument texts of up to three tokens of every token class for every kind of argument; marker texts with every kind of slip for structs of several arguments",
		"Definitions of every kind of argument are made and marker texts parsed abstractly: the class of each token is known, what a number or a quoted string stands for is not. Texts the documented grammar rejects must give an error with a position on every path; texts it accepts must put the value they spell, and nothing else, in the field they name. Every type that definitions accept must parse and be shown in help; values of markers that fail must not be collected, and an option that fails must end option parsing.", checkC13)
}

// refTok is a token of a marker text.
type refTok struct {
	kind       rune
	text       string
	start, end int
}

type refVerdict int

const (
	refOK refVerdict = iota
	refErr
	refFree // the documentation leaves it open
)

// refParse is the grammar the documentation gives.
type refParse struct {
	raw  string
	toks []refTok
	i    int
}

func newRefParse(raw string) (*refParse, bool) {
	r := &refParse{raw: raw}
	h := &scanner.Scanner{}
	h.Init(strings.NewReader(raw))
	h.Mode = scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats | scanner.ScanStrings | scanner.ScanRawStrings
	ok := true
	h.Error = func(_ *scanner.Scanner, msg string) { ok = ok && strings.Contains(msg, "invalid digit") }
	for t := h.Scan(); t != scanner.EOF; t = h.Scan() {
		r.toks = append(r.toks, refTok{t, h.TokenText(), h.Position.Offset, h.Position.Offset + len(h.TokenText())})
	}
	return r, ok
}

func (r *refParse) peek() rune {
	if r.i < len(r.toks) {
		return r.toks[r.i].kind
	}
	return scanner.EOF
}

// gap tells whether there is space before token i.
func (r *refParse) gap(i int) bool {
	if i >= len(r.toks) {
		return len(r.toks) > 0 && r.toks[len(r.toks)-1].end < len(r.raw)
	}
	if i == 0 {
		return r.toks[0].start > 0
	}
	return r.toks[i-1].end < r.toks[i].start
}

func quoted(k rune) bool { return k == scanner.String || k == scanner.RawString }

func (r *refParse) str() (string, refVerdict) {
	if quoted(r.peek()) {
		t := r.toks[r.i].text
		r.i++
		return "$" + payload(t), refOK
	}
	start := r.i
	for ; r.i < len(r.toks); r.i++ {
		k := r.toks[r.i].kind
		if k == ',' || k == ';' || k == ':' || k == '}' {
			break
		}
		if quoted(k) || k == '{' && r.i == start {
			return "", refFree
		}
	}
	if r.i == start {
		return "", refFree
	}
	return strconv.Quote(r.raw[r.toks[start].start:r.toks[r.i-1].end]), refOK
}

func (r *refParse) number(t *types.Basic) (string, refVerdict) {
	neg := ""
	if r.peek() == '-' {
		if r.gap(r.i) || r.gap(r.i+1) {
			return "", refFree
		}
		neg = "-"
		r.i++
	}
	float := t.Info()&types.IsFloat != 0
	if k := r.peek(); k != scanner.Int && !(float && k == scanner.Float) {
		return "", refErr
	}
	text := neg + r.toks[r.i].text
	r.i++
	switch {
	case strings.ContainsAny(text, "xX_"):
		return "", refFree
	case !float && len(text) > 1 && strings.HasPrefix(strings.TrimPrefix(text, "-"), "0"):
		return "", refFree
	case float && payloadFloat.MatchString(text), !float && payloadInt.MatchString(text):
		return "$" + payload(text), refOK
	case float:
		x, err := strconv.ParseFloat(text, 64)
		if err != nil {
			return "", refErr
		}
		return fmt.Sprint(x), refOK
	}
	size := 64
	if t.Kind() == types.Int32 {
		size = 32
	}
	x, err := strconv.ParseInt(text, 10, size)
	if err != nil {
		return "", refErr
	}
	return fmt.Sprint(x), refOK
}

// value parses a value of a type; elem tells whether it is an item of a list.
func (r *refParse) value(t types.Type, elem bool) (string, refVerdict) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		v, ok := r.value(u.Elem(), elem)
		return "&" + v, ok
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return r.str()
		case u.Info()&types.IsInteger != 0:
			return r.number(u)
		case u.Info()&types.IsFloat != 0:
			return r.number(u)
		case u.Info()&types.IsBoolean != 0:
			if r.peek() == scanner.Ident && (r.toks[r.i].text == "true" || r.toks[r.i].text == "false") {
				r.i++
				return r.toks[r.i-1].text, refOK
			}
			return "", refErr
		}
	case *types.Interface:
		g := r.guess(!elem)
		if g == nil {
			return "", refFree
		}
		v, ok := r.value(g, elem)
		return "any(" + v + ")", ok
	case *types.Slice:
		var xs []string
		if r.peek() == '{' {
			r.i++
			for r.peek() != '}' {
				if r.peek() == scanner.EOF {
					return "", refErr
				}
				v, ok := r.value(u.Elem(), true)
				if ok != refOK {
					return "", ok
				}
				xs = append(xs, v)
				if r.peek() == '}' {
					break
				}
				if r.peek() != ',' {
					return "", refErr
				}
				r.i++
				if r.peek() == '}' {
					return "", refFree
				}
			}
			r.i++
			return "[" + strings.Join(xs, ", ") + "]", refOK
		}
		if k := r.peek(); k == ',' || k == '}' || k == scanner.EOF {
			return "", refFree
		}
		for {
			v, ok := r.value(u.Elem(), true)
			if ok != refOK {
				return "", ok
			}
			xs = append(xs, v)
			switch r.peek() {
			case ',', '}', scanner.EOF:
				return "[" + strings.Join(xs, ", ") + "]", refOK
			case ';':
				r.i++
				if k := r.peek(); k == ',' || k == '}' || k == scanner.EOF {
					return "", refFree
				}
			default:
				return "", refErr
			}
		}
	case *types.Map:
		if r.peek() != '{' {
			return "", refErr
		}
		r.i++
		var xs []string
		seen := map[string]bool{}
		for r.peek() != '}' {
			if r.peek() == scanner.EOF {
				return "", refErr
			}
			k, ok := r.str()
			if ok != refOK {
				return "", ok
			}
			if seen[k] || strings.HasPrefix(k, "$") && len(seen) > 0 {
				return "", refFree
			}
			seen[k] = true
			if r.peek() != ':' {
				return "", refErr
			}
			r.i++
			v, ok := r.value(u.Elem(), false)
			if ok != refOK {
				return "", ok
			}
			xs = append(xs, k+": "+v)
			if r.peek() == '}' {
				break
			}
			if r.peek() != ',' {
				return "", refErr
			}
			r.i++
			if r.peek() == '}' {
				return "", refFree
			}
		}
		r.i++
		sort.Strings(xs)
		return "{" + strings.Join(xs, ", ") + "}", refOK
	}
	return "", refFree
}

// guess is the type an argument of any type takes from its text.
func (r *refParse) guess(list bool) types.Type {
	if list {
		for i := r.i; i < len(r.toks) && r.toks[i].kind != ','; i++ {
			if r.toks[i].kind == '{' {
				// a list with delimiters: nothing may follow that looks like the other form
				for ; i < len(r.toks); i++ {
					if r.toks[i].kind == ';' {
						return nil
					}
				}
				break
			}
			if r.toks[i].kind == ';' {
				t := r.guess(false)
				if t == nil {
					return nil
				}
				return types.NewSlice(t)
			}
		}
	}
	at := func(i int) rune {
		if i < len(r.toks) {
			return r.toks[i].kind
		}
		return scanner.EOF
	}
	switch k := r.peek(); {
	case quoted(k):
		return types.Typ[types.String]
	case k == '{':
		if at(r.i+1) == '}' {
			return types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
		}
		sub := &refParse{r.raw, r.toks, r.i + 1}
		t := sub.guess(false)
		if t == nil {
			return nil
		}
		if types.Identical(t, types.Typ[types.String]) {
			if _, ok := sub.str(); ok != refOK {
				return nil
			}
			if sub.peek() == ':' {
				return types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
			}
		}
		return types.NewSlice(t)
	case k == scanner.Ident && (r.toks[r.i].text == "true" || r.toks[r.i].text == "false"):
		return types.Typ[types.Bool]
	case k == '-':
		if at(r.i+1) != scanner.Int && at(r.i+1) != scanner.Float {
			return types.Typ[types.String]
		}
		if at(r.i+1) == scanner.Int {
			return types.Typ[types.Int]
		}
		return types.Typ[types.Float64]
	case k == scanner.Int:
		return types.Typ[types.Int]
	case k == scanner.Float:
		return types.Typ[types.Float64]
	}
	return types.Typ[types.String]
}

// parseEnv interprets the marker parser.
type parseEnv struct {
	w    *World
	m    *M
	sc   *scanModel
	base *State
}

func newParseEnv(w *World, base *M) *parseEnv {
	e := &parseEnv{w: w, m: base.fork()}
	m := e.m
	m.maxStep, m.maxRec, m.splitPlaces = 1<<40, 12, true
	reflModel{m}.hooks()
	e.sc = newScanModel(m)
	e.base = newState()
	return e
}

// argField is an argument of a definition that is analysed.
type argField struct {
	name string
	t    types.Type
	opt  bool
}

func structType(fs []argField) *types.Struct {
	var vs []*types.Var
	var tags []string
	for _, f := range fs {
		vs = append(vs, types.NewField(0, nil, strings.ToUpper(f.name[:1])+f.name[1:], f.t, false))
		tag := ""
		if f.opt {
			tag = `marker:",optional"`
		}
		tags = append(tags, tag)
	}
	return types.NewStruct(vs, tags)
}

// define makes a definition of an output type.
func (e *parseEnv) define(st *State, name string, t types.Type, ctor string) (Out, error) {
	fn := e.w.fn("pkg/markers", ctor)
	outs := e.m.interp(st, fn, strVal(name), constVal(int64(0)), ifaceOf(t, zeroVal(t)))
	if len(outs) != 1 {
		return Out{}, fmt.Errorf("%d outcomes of %s for %s", len(outs), ctor, t)
	}
	if er := errOf(outs[0]); er != "nil" {
		return Out{}, fmt.Errorf("%s of %s: %s", ctor, t, er)
	}
	return outs[0], nil
}

// parsed is one way a marker text can be parsed.
type parsed struct {
	err    string // nil, err
	conv   string
	val    *Val
	st     *State
	errVal *Val
	panics string
}

func (e *parseEnv) parse(st *State, def *Val, text string) []parsed {
	fn := e.w.method("pkg/markers", "Definition", "Parse")
	var panics []string
	old := e.m.onPanic
	e.m.onPanic = func(_ *State, fr *frame, in ssa.Instruction, why string) {
		panics = append(panics, why+" at "+e.w.pos(in.Pos()))
	}
	defer func() { e.m.onPanic = old }()
	var r []parsed
	for _, o := range e.m.interp(st.clone(), fn, def, strVal(text)) {
		r = append(r, parsed{err: errOf(o), conv: convNote(o.st), val: o.res[0], st: o.st, errVal: o.res[1]})
	}
	for _, p := range panics {
		r = append(r, parsed{panics: p})
	}
	return r
}

var convWrap = regexp.MustCompile(`\b(int|int32|int64|float64)\((\$?<[^<>]*>)\)`)

// show writes a value the way refParse does.
func (e *parseEnv) show(st *State, v *Val, t types.Type) string {
	m := e.m
	v = m.resolve(st, v)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v.isNil() {
			return "nil"
		}
		if !v.notNil() {
			return "undetermined pointer"
		}
		return "&" + e.show(st, m.load(st, v, u.Elem()), u.Elem())
	case *types.Interface:
		if v.isNil() {
			return "nil"
		}
		if v.unk || len(v.refs) != 1 || v.refs[0].t == nil {
			return "undetermined interface"
		}
		return "any(" + e.show(st, v.refs[0].v, v.refs[0].t) + ")"
	case *types.Slice:
		if v.isNil() {
			return "[]"
		}
		es, ok := m.elems(st, v)
		if !ok {
			return "undetermined list"
		}
		var xs []string
		for _, x := range es {
			xs = append(xs, e.show(st, x, u.Elem()))
		}
		return "[" + strings.Join(xs, ", ") + "]"
	case *types.Map:
		if v.isNil() {
			return "{}"
		}
		var xs []string
		for _, kv := range m.mapEntries(st, v) {
			xs = append(xs, e.show(st, kv[0], u.Key())+": "+e.show(st, kv[1], u.Elem()))
		}
		sort.Strings(xs)
		return "{" + strings.Join(xs, ", ") + "}"
	}
	s := m.canon(st, v, t, 0)
	for i := 0; i < 3; i++ {
		s = convWrap.ReplaceAllString(s, "$2")
	}
	return s
}

// positioned tells whether every error of a failed parse has a place in the text.
func (e *parseEnv) positioned(p parsed, raw string) string {
	v := e.m.resolve(p.st, p.errVal)
	if v.unk || len(v.refs) != 1 || v.refs[0].t == nil {
		return "an undetermined error"
	}
	es := []*Val{v}
	if sl, ok := v.refs[0].t.Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
		xs, ok := e.m.elems(p.st, v.refs[0].v)
		if !ok || len(xs) == 0 {
			return "an undetermined list of errors"
		}
		es = xs
	}
	se := e.w.typ("pkg/markers", "ScannerError")
	for _, x := range es {
		if x.unk || len(x.refs) != 1 || x.refs[0].t == nil || !types.Identical(deref(x.refs[0].t), se) {
			return "an error without a position: " + e.m.canon(p.st, x, nil, 0)
		}
		pos := e.m.at(p.st, x.refs[0].v, se, "Pos")
		off, ok := e.m.getField(pos, e.sc.posT, "Offset").integer()
		if !ok || off < 0 || int(off) > len(raw) {
			return fmt.Sprintf("an error at offset %s of %q", e.m.getField(pos, e.sc.posT, "Offset"), raw)
		}
	}
	return ""
}

// judge compares the outcomes of a text with what must happen.
func (e *parseEnv) judge(c *Check, key, pos, text, raw string, ps []parsed, verdict refVerdict, want string, show func(p parsed) string) {
	if len(ps) == 0 {
		c.bad("parses", key, pos, "%q: no outcome", text)
		return
	}
	okSeen := false
	for _, p := range ps {
		if p.panics != "" {
			c.bad("no-panic", key, pos, "%q: %s", text, p.panics)
			continue
		}
		switch {
		case verdict == refErr || p.conv == "fails" && verdict == refOK:
			why := "must be rejected"
			if verdict == refOK {
				why = "holds a number or string that cannot be converted"
			}
			if !c.ob(p.err == "err", "rejected", key, pos, "%q %s, but the outcome is %s %s", text, why, p.err, show(p)) {
				continue
			}
			bad := e.positioned(p, raw)
			c.ob(bad == "", "positioned", key, pos, "%q gives %s", text, bad)
		case verdict == refOK:
			if p.err == "err" && strings.Contains(key, "int32") && strings.Contains(want, "$<") {
				continue // may be out of range
			}
			okSeen = true
			if !c.ob(p.err == "nil", "accepted", key, pos, "%q is well formed, but the outcome is %s", text, p.err) {
				continue
			}
			got := show(p)
			c.ob(got == want, "value", key, pos, "%q gives %s, expected %s", text, got, want)
		default:
			c.ob(true, "open", key, pos, "")
		}
	}
	if verdict == refOK && !okSeen {
		c.bad("accepted", key, pos, "%q is well formed, but never accepted", text)
	}
}

func checkC13(c *Check) {
	w := c.W
	base := inited(w)
	basic := func(k types.BasicKind) types.Type { return types.Typ[k] }
	anyT := types.Type(types.NewInterfaceType(nil, nil).Complete())
	str, num := basic(types.String), basic(types.Int)
	kinds := []types.Type{num, basic(types.Int32), basic(types.Float64), str, basic(types.Bool), anyT,
		types.NewPointer(num), types.NewPointer(basic(types.Int32)), types.NewPointer(str), types.NewPointer(basic(types.Bool)), types.NewPointer(basic(types.Float64)),
		types.NewSlice(num), types.NewSlice(str), types.NewSlice(basic(types.Bool)), types.NewSlice(types.NewSlice(str)), types.NewSlice(types.NewPointer(num)), types.NewMap(str, types.NewPointer(str)),
		types.NewMap(str, str), types.NewMap(str, num), types.NewMap(str, anyT), types.NewMap(str, types.NewSlice(str))}
	words := []string{"41", "1.5", `"s"`, "`r`", "true", "false", "zz", "b", "-", ",", ";", ":", "{", "}", "=", " ", `"u`}
	var seqs []string
	var grow func(p string, d int)
	grow = func(p string, d int) {
		seqs = append(seqs, p)
		if d == 0 {
			return
		}
		for _, x := range words {
			grow(p+x, d-1)
		}
	}
	grow("", 3)
	all := words
	if c.Tier == "thorough" {
		words = []string{"41", `"s"`, "true", "zz", "-", ",", ";", ":", "{", "}", " "}
		grow("", 4)
		words = all
	}
	seen := map[string]bool{}
	var texts []string
	for _, s := range seqs {
		if !seen[s] && strings.TrimSpace(s) == s {
			seen[s] = true
			texts = append(texts, s)
		}
	}
	inner := texts
	var short, pairs []string
	for _, t := range texts {
		r, _ := newRefParse(t)
		if contains(words, t) || t == "-41" || t == "zz b" {
			short = append(short, t)
		} else if len(r.toks) <= 2 && len(t) <= 8 {
			pairs = append(pairs, t)
		}
	}
	texts = append([]string(nil), inner...)
	for _, p := range []string{"{□}", "{□,zz}", "{41,□}", "□,b=zz", "□ ,b=zz", "{ □ }", "{zz , □ , b}", "□;zz", "zz;□", "zz ; □ ;b", "{zz:□}", "{ zz : □ , b:□}", "{{□}}", "{{zz,□},{b}}", "{zz:{□}}", "{zz:{b:□}}", "{zz:□;b}", "{\"s\":□}", "{□:41}", "{□ : zz}"} {
		for _, t := range short {
			texts = append(texts, strings.ReplaceAll(p, "□", t))
		}
		if p == "{□}" || p == "□ ,b=zz" {
			for _, t := range pairs {
				texts = append(texts, strings.ReplaceAll(p, "□", t))
			}
		}
	}
	for _, n := range []string{"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "0x1F", "1e400", "1e3"} {
		texts = append(texts, n, n+";"+n, "{"+n+"}", "{zz:"+n+"}")
	}
	type job struct {
		t    types.Type
		from int
	}
	var jobs []job
	const batch = 200
	for _, t := range kinds {
		for i := 0; i < len(texts); i += batch {
			jobs = append(jobs, job{t, i})
		}
	}
	fn := w.method("pkg/markers", "Definition", "Parse")
	pos := w.pos(fn.Pos())
	c.fact("argument texts per type", len(texts))
	c.fact("argument types", len(kinds))
	c.par(len(jobs), func(c *Check, worker, i int) {
		e := newParseEnv(w, base)
		j := jobs[i]
		st := structType([]argField{{"a", j.t, false}, {"b", str, true}})
		d, err := e.define(e.base, "m", st, "MakeDefinition")
		if err != nil {
			c.bad("declares", j.t.String(), pos, "%v", err)
			return
		}
		for _, t := range texts[j.from:min(j.from+batch, len(texts))] {
			e.checkArgs(c, "argument "+j.t.String(), pos, d, st, "+m:a="+t, "a="+t)
		}
	})
	c.atLeast("accepted", 7000)
	c.atLeast("rejected", 50000)
	checkSlips(c, base, pos)
	checkAnonymous(c, base, pos, append([]types.Type{w.typ("pkg/markers", "RawArguments")}, kinds...), append(append(append([]string(nil), short...), pairs...), texts[len(texts)-40:]...))
	checkDeclarable(c, base)
	checkCollected(c)
}

// checkSlips parses markers of several arguments with every kind of slip.
func checkSlips(c *Check, base *M, pos string) {
	num, str := types.Typ[types.Int], types.Typ[types.String]
	structs := []*types.Struct{
		structType([]argField{{"a", num, false}, {"b", str, true}, {"c", types.NewPointer(num), false}, {"d", types.NewSlice(str), false}}),
		structType([]argField{{"a", num, true}, {"d", types.NewSlice(str), true}}),
		structType([]argField{{"a", types.NewPointer(num), true}, {"b", types.NewPointer(str), true}, {"longName", str, false}}),
		structType(nil),
	}
	segs := []string{"a=41", "b=zz", "b=\"s\"", "c=41", "c=zz", "d=zz;b", "d={zz, b}", "q=41", "A=41", "a", "=41", "a:41", "a==41", "", "longName=x y", "longname=zz", "a=41 b=zz", "d={zz", "41=a", "a=41}"}
	var texts []string
	for _, x := range segs {
		texts = append(texts, x)
		for _, y := range segs {
			texts = append(texts, x+","+y, x+" , "+y, x+";"+y)
			for _, z := range segs[:8] {
				texts = append(texts, x+","+y+","+z)
			}
		}
	}
	const batch = 400
	type job struct{ s, from int }
	var jobs []job
	for i := range structs {
		for f := 0; f < len(texts); f += batch {
			jobs = append(jobs, job{i, f})
		}
	}
	c.par(len(jobs), func(c *Check, worker, i int) {
		e := newParseEnv(c.W, base)
		j := jobs[i]
		st := structs[j.s]
		d, err := e.define(e.base, "m:n", st, "MakeDefinition")
		if err != nil {
			c.bad("declares", st.String(), pos, "%v", err)
			return
		}
		names := ""
		for i := 0; i < st.NumFields(); i++ {
			names += st.Field(i).Name()
		}
		for _, t := range texts[j.from:min(j.from+batch, len(texts))] {
			n, val, eq := strings.Cut(t, "=")
			if st.NumFields() == 0 {
				// all of the text after the name's equals sign is too much
				v := refErr
				if strings.TrimSpace(t) == "" {
					v = refOK
				}
				e.judge(c, "arguments of "+names, pos, "+m:n="+t, t, e.parse(d.st, d.res[0], "+m:n="+t), v, "", func(p parsed) string { return "" })
				continue
			}
			// the first equals sign ends the name; without one there are no arguments
			if !eq || strings.ContainsAny(n, " ,;:{}") || n == "" || strings.TrimSpace(t) != t {
				continue
			}
			_ = val
			e.checkArgs(c, "arguments of "+names, pos, d, st, "+m:n:"+t, t)
		}
		if j.from == 0 {
			v := refErr
			if names == "" || j.s == 1 {
				v = refOK
			}
			want := map[int]string{1: "A=0 D=[]"}[j.s]
			e.judge(c, "arguments of "+names, pos, "+m:n", "", e.parse(d.st, d.res[0], "+m:n"), v, want, func(p parsed) string { return e.showStruct(p, st) })
		}
	})
}

// checkAnonymous parses markers whose value is the output itself or its one field.
func checkAnonymous(c *Check, base *M, pos string, kinds []types.Type, texts []string) {
	pkg := types.NewPackage("verif/types", "types")
	c.par(2*len(kinds), func(c *Check, worker, i int) {
		e := newParseEnv(c.W, base)
		k := kinds[i/2]
		_, named := k.(*types.Named)
		raw := named // RawArguments
		var d Out
		var err error
		t := k
		var wrap *types.Struct
		key := "value " + k.String()
		if i%2 == 0 {
			if _, isPtr := k.(*types.Pointer); isPtr {
				return
			}
			if _, isAny := k.(*types.Interface); isAny {
				return // an output type is never an interface
			}
			if !raw {
				t = types.NewNamed(types.NewTypeName(0, pkg, "Out", nil), k, nil)
			}
			d, err = e.define(e.base, "m:n", t, "MakeDefinition")
		} else {
			if k.String() != "interface{}" && k.String() != "any" {
				return
			}
			key = "any value"
			wrap = types.NewStruct([]*types.Var{types.NewField(0, nil, "Value", k, false)}, nil)
			d, err = e.define(e.base, "m:n", wrap, "MakeAnyTypeDefinition")
		}
		if err != nil {
			c.bad("declares", key, pos, "%v", err)
			return
		}
		for _, tx := range append([]string{""}, texts...) {
			r, lexes := newRefParse(tx)
			var want string
			verdict := refErr
			if tx != "" {
				if raw {
					want, verdict = strconv.Quote(tx), refOK
					if !lexes {
						verdict = refFree
					}
				} else if want, verdict = r.value(t, false); verdict == refOK && (r.peek() != scanner.EOF || !lexes) {
					verdict = refErr
				}
			}
			text := "+m:n=" + tx
			e.judge(c, key, pos, text, tx, e.parse(d.st, d.res[0], text), verdict, want, func(p parsed) string {
				v := p.val
				if v.unk || len(v.refs) != 1 || v.refs[0].t == nil {
					return "undetermined"
				}
				if !types.Identical(v.refs[0].t, deref2(t, wrap)) {
					return "a value of type " + v.refs[0].t.String()
				}
				if wrap != nil {
					return e.show(p.st, e.m.child(v.refs[0].v, "0"), k)
				}
				if raw {
					if s, ok := bytesText(v.refs[0].v); ok {
						return strconv.Quote(s)
					}
					return e.m.canon(p.st, v.refs[0].v, t, 0)
				}
				return e.show(p.st, v.refs[0].v, t)
			})
		}
		e.judge(c, key, pos, "+m:n", "", e.parse(d.st, d.res[0], "+m:n"), refErr, "", func(p parsed) string { return "" })
	})
}

func deref2(t types.Type, wrap *types.Struct) types.Type {
	if wrap != nil {
		return wrap
	}
	return t
}

// checkDeclarable makes definitions of every type that could be declared; what is accepted must parse and have help.
func checkDeclarable(c *Check, base *M) {
	w := c.W
	anyT := types.Type(types.NewInterfaceType(nil, nil).Complete())
	var basics []types.Type
	for k := types.Bool; k <= types.String; k++ {
		if k == types.Complex64 || k == types.Complex128 {
			continue // never a kind of argument
		}
		basics = append(basics, types.Typ[k])
	}
	str := types.Typ[types.String]
	atoms := append(append([]types.Type(nil), basics...), anyT, types.NewStruct(nil, nil), types.NewChan(types.SendRecv, str), types.NewArray(str, 2), types.NewSignatureType(nil, nil, nil, nil, nil, false), types.Universe.Lookup("error").Type())
	ts := append([]types.Type(nil), atoms...)
	wrap := func(in []types.Type) []types.Type {
		var r []types.Type
		for _, t := range in {
			r = append(r, types.NewPointer(t), types.NewSlice(t), types.NewMap(str, t))
		}
		return r
	}
	ts = append(ts, wrap(atoms)...)
	ts = append(ts, wrap(wrap([]types.Type{str, types.Typ[types.Int32], anyT, types.Typ[types.Uint]}))...)
	ts = append(ts, types.NewMap(types.Typ[types.Int], str))
	help := w.fn("pkg/genall/help", "ForDefinition")
	pos := w.pos(help.Pos())
	fh, ha := w.typ("pkg/genall/help", "MarkerDoc"), w.typ("pkg/genall/help", "Argument")
	accepted := make([]int, len(ts))
	c.par(len(ts), func(c *Check, worker, i int) {
		e := newParseEnv(w, base)
		t := ts[i]
		key := "type " + t.String()
		st := structType([]argField{{"a", t, false}})
		outs := e.m.interp(e.base.clone(), w.fn("pkg/markers", "MakeDefinition"), strVal("m"), constVal(int64(0)), ifaceOf(st, zeroVal(st)))
		if !c.ob(len(outs) == 1 && errOf(outs[0]) != "?", "declares", key, pos, "a definition with an argument of type %s: %d outcomes", t, len(outs)) || errOf(outs[0]) == "err" {
			return
		}
		accepted[i] = 1
		text := e.sample(t)
		if !c.ob(text != "", "declares", key, pos, "an argument of type %s can be declared, but no text is known to be one", t) {
			return
		}
		e.checkArgs(c, key, pos, outs[0], st, "+m:a="+text, "a="+text)
		for _, o := range e.m.interp(outs[0].st.clone(), help, outs[0].res[0], nilVal()) {
			fs, ok := e.m.elems(o.st, e.m.getField(o.res[0], fh, "Fields"))
			if !c.ob(ok && len(fs) == 1, "help", key, pos, "the help of a marker with one argument of type %s has %d fields", t, len(fs)) {
				continue
			}
			ft := fieldType(fh, "Fields").Underlying().(*types.Slice).Elem()
			arg := e.m.getField(fs[0], ft, "Argument")
			got := e.helpType(o.st, arg, ha)
			want := helpName(t)
			c.ob(got == want, "help", key, pos, "help shows an argument of type %s as %s, expected %s", t, got, want)
		}
	})
	n := 0
	for _, x := range accepted {
		n += x
	}
	c.ob(n >= 25, "declares", "accepted types", pos, "only %d of %d types can be declared", n, len(ts))
	c.fact("types tried in definitions", len(ts))
}

func (e *parseEnv) helpType(st *State, arg *Val, t types.Type) string {
	s, ok := e.m.getField(arg, t, "Type").str()
	if !ok {
		return "undetermined"
	}
	if it := e.m.resolve(st, e.m.getField(arg, t, "ItemType")); !it.isNil() {
		return s + " of " + e.helpType(st, e.m.load(st, it, t), t)
	}
	return s
}

func helpName(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return helpName(u.Elem())
	case *types.Slice:
		return "slice of " + helpName(u.Elem())
	case *types.Map:
		return "map of " + helpName(u.Elem())
	case *types.Interface:
		return "any"
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsFloat != 0:
			return "number"
		}
	}
	return "?"
}

// sample is a text that spells a value of a type.
func (e *parseEnv) sample(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return e.sample(u.Elem())
	case *types.Slice:
		if s := e.sample(u.Elem()); s != "" {
			return "{" + s + "}"
		}
	case *types.Map:
		if s := e.sample(u.Elem()); s != "" && helpName(u.Key()) == "string" {
			return "{zz: " + s + "}"
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "41"
		}
	case *types.Basic:
		return map[string]string{"string": "zz", "bool": "true", "int": "41", "number": "1.5"}[helpName(u)]
	}
	return ""
}

// checkCollected requires that what a parse gives is used only where the parse succeeded.
func checkCollected(c *Check) {
	w := c.W
	parse := w.method("pkg/markers", "Definition", "Parse")
	wrappers := map[*ssa.Function]bool{parse: true}
	for again := true; again; {
		again = false
		for _, f := range w.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || !wrappers[call.Call.StaticCallee()] {
					return
				}
				for _, use := range usesBeforeCheck(call) {
					if _, isRet := use.(*ssa.Return); isRet && !wrappers[f] && f != parse {
						wrappers[f], again = true, true
					}
				}
			})
		}
	}
	for _, f := range w.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok || !wrappers[call.Common().StaticCallee()] {
				return
			}
			key := relName(call.Common().StaticCallee().String()) + " in " + relName(enclosing(f).String())
			v, ok := in.(*ssa.Call)
			if !c.ob(ok, "applied", key, w.pos(in.Pos()), "a marker is parsed without looking at the result") {
				return
			}
			bad := ""
			for _, use := range usesBeforeCheck(v) {
				if _, isRet := use.(*ssa.Return); !isRet {
					bad = fmt.Sprintf("the value of a marker is used at %s where its parse may have failed", w.pos(use.Pos()))
				}
			}
			c.ob(bad == "", "applied", key, w.pos(in.Pos()), "%s", bad)
		})
	}
	c.atLeast("applied", 2)
}

// usesBeforeCheck lists the uses of a call's first result that are reached although its error is set.
func usesBeforeCheck(call *ssa.Call) []ssa.Instruction {
	ex := map[int][]ssa.Value{}
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok {
			ex[x.Index] = append(ex[x.Index], throughCells(x)...)
		}
	}
	last := call.Call.Signature().Results().Len() - 1
	var guards []*ssa.BasicBlock // entered only without an error
	for _, e := range ex[last] {
		for _, r := range *e.Referrers() {
			cmp, ok := r.(*ssa.BinOp)
			if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL {
				continue
			}
			if k, isC := cmp.X.(*ssa.Const); !(isC && k.IsNil()) {
				if k, isC := cmp.Y.(*ssa.Const); !(isC && k.IsNil()) {
					continue
				}
			}
			for _, b := range *cmp.Referrers() {
				if br, ok := b.(*ssa.If); ok {
					i := 0
					if cmp.Op == token.NEQ {
						i = 1
					}
					if s := br.Block().Succs[i]; len(s.Preds) == 1 {
						guards = append(guards, s)
					}
				}
			}
		}
	}
	var r []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				// the value passes on along the edges it comes from
				ok := true
				for i, e := range u.Edges {
					if e == v && !dominated(u.Block().Preds[i], guards) {
						ok = false
					}
				}
				if !ok {
					visit(u)
				}
				continue
			case *ssa.Store:
				if a, isA := u.Addr.(*ssa.Alloc); isA && u.Val == v && localCell(a) {
					continue // its loads are looked at
				}
			}
			if !dominated(u.Block(), guards) {
				r = append(r, u)
			}
		}
	}
	for _, v := range ex[0] {
		visit(v)
	}
	return r
}

func dominated(b *ssa.BasicBlock, by []*ssa.BasicBlock) bool {
	for _, g := range by {
		if g.Dominates(b) {
			return true
		}
	}
	return false
}

// localCell tells whether a variable is only stored to and loaded from.
func localCell(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr != ssa.Value(a) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// throughCells adds what is loaded from the variables a value is stored in.
func throughCells(v ssa.Value) []ssa.Value {
	r := []ssa.Value{v}
	for _, u := range *v.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Val == v {
			if a, ok := s.Addr.(*ssa.Alloc); ok && localCell(a) {
				for _, l := range *a.Referrers() {
					if ld, ok := l.(*ssa.UnOp); ok {
						r = append(r, ld)
					}
				}
			}
		}
	}
	return r
}

// checkArgs parses a marker with arguments of a struct.
func (e *parseEnv) checkArgs(c *Check, key, pos string, d Out, st *types.Struct, text, raw string) {
	want, verdict := refArgs(st, raw)
	ps := e.parse(d.st, d.res[0], text)
	e.judge(c, key, pos, text, raw, ps, verdict, want, func(p parsed) string { return e.showStruct(p, st) })
}

func (e *parseEnv) showStruct(p parsed, st *types.Struct) string {
	v := p.val
	if v.unk || len(v.refs) != 1 || v.refs[0].t == nil || !types.Identical(v.refs[0].t, st) {
		return "undetermined"
	}
	var xs []string
	for i := 0; i < st.NumFields(); i++ {
		xs = append(xs, st.Field(i).Name()+"="+e.show(p.st, e.m.child(v.refs[0].v, strconv.Itoa(i)), st.Field(i).Type()))
	}
	return strings.Join(xs, " ")
}

// refArgs is what the arguments of a struct must parse to.
func refArgs(st *types.Struct, raw string) (string, refVerdict) {
	r, lexes := newRefParse(raw)
	vals := make([]string, st.NumFields())
	set := make([]bool, st.NumFields())
	for i := range vals {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			vals[i] = "nil"
		case *types.Slice:
			vals[i] = "[]"
		case *types.Map:
			vals[i] = "{}"
		case *types.Basic:
			vals[i] = map[types.BasicKind]string{types.String: `""`, types.Bool: "false"}[st.Field(i).Type().Underlying().(*types.Basic).Kind()]
			if vals[i] == "" {
				vals[i] = "0"
			}
		}
	}
	verdict := refOK
	for len(r.toks) > 0 {
		if r.peek() != scanner.Ident {
			verdict = refErr
			break
		}
		n := r.toks[r.i].text
		r.i++
		if r.peek() != '=' {
			verdict = refErr
			break
		}
		r.i++
		f := -1
		for i := 0; i < st.NumFields(); i++ {
			if strings.ToLower(st.Field(i).Name()[:1])+st.Field(i).Name()[1:] == n {
				f = i
			}
		}
		if f < 0 {
			verdict = refErr
			break
		}
		if set[f] {
			verdict = refFree
			break
		}
		set[f] = true
		v, ok := r.value(st.Field(f).Type(), false)
		if ok != refOK {
			verdict = ok
			break
		}
		vals[f] = v
		if r.peek() == scanner.EOF {
			if r.gap(r.i) {
				verdict = refFree
			}
			break
		}
		if r.peek() != ',' {
			verdict = refErr
			break
		}
		r.i++
	}
	if verdict == refOK {
		for i := range set {
			_, ptr := st.Field(i).Type().(*types.Pointer)
			if !set[i] && !ptr && !strings.Contains(st.Tag(i), "optional") {
				verdict = refErr
			}
		}
	}
	if verdict == refOK && !lexes {
		verdict = refErr
	}
	var xs []string
	for i, v := range vals {
		xs = append(xs, st.Field(i).Name()+"="+v)
	}
	return strings.Join(xs, " "), verdict
}

package main

import (
	"fmt"
	"go/types"
	"io"
	"regexp"
	"strconv"
	"strings"
	"text/scanner"
)

// A model of text/scanner over text whose tokens are known by their class.
// What a number or a quoted string stands for stays unknown: converting it
// gives a named unknown or an error.

type scanModel struct {
	m    *M
	t    types.Type // text/scanner.Scanner
	posT types.Type
}

var payloadInt = regexp.MustCompile(`^-?[0-9]{1,6}$`)
var payloadFloat = regexp.MustCompile(`^-?([0-9]{1,6}\.[0-9]{1,6}|[0-9]{1,6})$`)

func newScanModel(m *M) *scanModel {
	s := &scanModel{m: m, t: m.w.depTyp("text/scanner", "Scanner")}
	s.posT = fieldType(s.t, "Position")
	m.splitModels = true
	const p = "(*text/scanner.Scanner)."
	text := func(st *State, c *Call) ([]Out, bool) {
		v, ok := c.args[0].str()
		if !ok {
			return nil, false
		}
		o := m.alloc(st, "text:"+m.siteID(c.site), types.NewStruct(nil, nil), 'c')
		st.notes["text:"+o.id] = strVal(v)
		return one(st, &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}), true
	}
	m.hooks["bytes.NewBufferString"], m.hooks["strings.NewReader"] = text, text
	m.hooks["bytes.NewBuffer"] = func(st *State, c *Call) ([]Out, bool) {
		b, ok := bytesText(c.args[0])
		if !ok {
			return nil, false
		}
		sub := *c
		sub.args = []*Val{strVal(b)}
		return text(st, &sub)
	}
	m.hooks[p+"Init"] = func(st *State, c *Call) ([]Out, bool) {
		src := c.args[1]
		if len(src.refs) == 1 && src.refs[0].t != nil {
			src = src.refs[0].v
		}
		if len(src.refs) != 1 || src.refs[0].obj == nil {
			return nil, false
		}
		t := st.notes["text:"+src.refs[0].obj.id]
		id, ok := s.id(c.args[0])
		if t == nil || !ok {
			return nil, false
		}
		st.notes["raw:"+id] = t
		s.put(st, id, 0, "")
		s.set(st, c.args[0], "Error", nilVal())
		s.set(st, c.args[0], "Mode", constVal(uint64(scanner.GoTokens)))
		s.set(st, c.args[0], "Whitespace", constVal(uint64(scanner.GoWhitespace)))
		s.setPos(st, c.args[0], 0, 0, 0)
		return one(st, c.args[0]), true
	}
	// paths that report different errors are kept apart
	m.onCall = func(st *State, c *Call) {
		if c.static == nil || len(c.args) < 2 {
			return
		}
		ps := c.static.Signature.Params()
		if ps.Len() < 2 || !types.Identical(ps.At(0).Type(), types.NewPointer(s.t)) || !types.Identical(ps.At(1).Type(), types.Typ[types.String]) || c.static.Signature.Results().Len() > 0 {
			return
		}
		n := ""
		if v := st.notes["errors"]; v != nil {
			n, _ = v.str()
		}
		_, off, _, _ := s.get(st, c.args[0])
		st.notes["errors"] = strVal(fmt.Sprint(n, "|", off))
	}
	m.hooks[p+"Scan"] = s.scan
	m.hooks[p+"Next"] = s.next
	m.hooks[p+"Peek"] = func(st *State, c *Call) ([]Out, bool) {
		raw, off, _, ok := s.get(st, c.args[0])
		if !ok {
			return nil, false
		}
		return one(st, constVal(int64(s.host(raw[off:]).Peek()))), true
	}
	m.hooks[p+"TokenText"] = func(st *State, c *Call) ([]Out, bool) {
		_, _, tok, ok := s.get(st, c.args[0])
		return one(st, strVal(tok)), ok
	}
	m.hooks[p+"Pos"] = func(st *State, c *Call) ([]Out, bool) {
		raw, off, _, ok := s.get(st, c.args[0])
		if !ok {
			return nil, false
		}
		return one(st, s.position(raw, off)), true
	}
	conv := func(n string, re *regexp.Regexp, rt types.Type, exact func(st *State, c *Call, t string) (any, error)) {
		m.hooks["strconv."+n] = func(st *State, c *Call) ([]Out, bool) {
			t, ok := c.args[0].str()
			if !ok {
				return nil, false
			}
			if !re.MatchString(t) {
				v, err := exact(st, c, t)
				if err != nil {
					return []Out{{st: st, res: []*Val{zeroVal(rt), errVal("conversion")}}}, true
				}
				return []Out{{st: st, res: []*Val{constVal(v), nilVal()}}}, true
			}
			bad := st.clone()
			st.notes["conv"] = strVal(convNote(st) + "")
			bad.notes["conv"] = strVal("fails")
			v := unkVal(rt, &Sym{payload(t), true})
			return []Out{{st: st, res: []*Val{v, nilVal()}}, {st: bad, res: []*Val{zeroVal(rt), errVal("conversion")}}}, true
		}
	}
	conv("Atoi", payloadInt, types.Typ[types.Int], func(_ *State, _ *Call, t string) (any, error) {
		v, err := strconv.Atoi(t)
		return int64(v), err
	})
	conv("ParseInt", payloadInt, types.Typ[types.Int64], func(_ *State, c *Call, t string) (any, error) {
		b, ok1 := c.args[1].integer()
		n, ok2 := c.args[2].integer()
		if !ok1 || !ok2 {
			m.fail("an integer is parsed with an undetermined base or size")
		}
		return strconv.ParseInt(t, int(b), int(n))
	})
	conv("ParseFloat", payloadFloat, types.Typ[types.Float64], func(_ *State, c *Call, t string) (any, error) {
		return strconv.ParseFloat(t, 64)
	})
	conv("Unquote", regexp.MustCompile("(?s)^([\"`]).*[\"`]$"), types.Typ[types.String], func(_ *State, _ *Call, t string) (any, error) { return strconv.Unquote(t) })
	return s
}

func payload(t string) string { return "<" + t + ">" }

func convNote(st *State) string {
	if v := st.notes["conv"]; v != nil {
		s, _ := v.str()
		return s
	}
	return ""
}

func (s *scanModel) id(p *Val) (string, bool) {
	p = s.unbox(p)
	if p.unk || len(p.refs) != 1 || p.refs[0].obj == nil || p.refs[0].obj.summary {
		return "", false
	}
	return p.refs[0].key(), true
}

func (s *scanModel) unbox(p *Val) *Val {
	if !p.unk && len(p.refs) == 1 && p.refs[0].t != nil {
		return p.refs[0].v
	}
	return p
}

func (s *scanModel) put(st *State, id string, off int, tok string) {
	st.notes["scan:"+id] = strVal(strconv.Itoa(off) + ":" + tok)
}

func (s *scanModel) get(st *State, p *Val) (raw string, off int, tok string, ok bool) {
	id, ok := s.id(p)
	if !ok {
		return "", 0, "", false
	}
	r, n := st.notes["raw:"+id], st.notes["scan:"+id]
	if r == nil || n == nil {
		return "", 0, "", false
	}
	raw, ok1 := r.str()
	v, ok2 := n.str()
	if !ok1 || !ok2 {
		return "", 0, "", false
	}
	i := strings.Index(v, ":")
	off, _ = strconv.Atoi(v[:i])
	return raw, off, v[i+1:], true
}

func (s *scanModel) set(st *State, p *Val, field string, v *Val) {
	s.m.store(st, addrPath(s.unbox(p), s.t, s.m, strconv.Itoa(fieldIndex(s.t, field))), v, fieldType(s.t, field))
}

func (s *scanModel) setPos(st *State, p *Val, off, line, col int) {
	old := s.m.at(st, p, s.t, "Position")
	n := &Val{agg: append([]*Val(nil), old.agg...)}
	if len(n.agg) == 0 {
		n = structOf(s.posT)
	}
	for f, x := range map[string]int{"Offset": off, "Line": line, "Column": col} {
		n.agg[fieldIndex(s.posT, f)] = constVal(int64(x))
	}
	s.set(st, p, "Position", n)
}

func (s *scanModel) position(raw string, off int) *Val {
	line := 1 + strings.Count(raw[:off], "\n")
	col := off - strings.LastIndex(raw[:off], "\n")
	return structOf(s.posT, "Offset", constVal(int64(off)), "Line", constVal(int64(line)), "Column", constVal(int64(col)))
}

func (s *scanModel) host(text string) *scanner.Scanner {
	h := &scanner.Scanner{}
	h.Init(strings.NewReader(text))
	h.Error = func(*scanner.Scanner, string) {}
	return h
}

var _ io.Reader = (*strings.Reader)(nil)

func (s *scanModel) scan(st *State, c *Call) ([]Out, bool) {
	m := s.m
	p := s.unbox(c.args[0])
	raw, off, _, ok := s.get(st, p)
	mode, mok := m.at(st, p, s.t, "Mode").integer()
	ws, wok := m.at(st, p, s.t, "Whitespace").integer()
	if !ok || !mok || !wok {
		m.fail("the state of a scanner is not determined")
	}
	h := s.host(raw[off:])
	h.Mode, h.Whitespace = uint(mode), uint64(ws)
	var errs []string
	h.Error = func(_ *scanner.Scanner, msg string) { errs = append(errs, msg) }
	tok := h.Scan()
	id, _ := s.id(p)
	start := off + h.Position.Offset
	s.put(st, id, off+h.Pos().Offset, h.TokenText())
	at := s.position(raw, start)
	s.set(st, p, "Position", at)
	outs := []Out{{st: st}}
	for _, e := range errs {
		f := m.at(st, p, s.t, "Error")
		if f.isNil() {
			break
		}
		var next []Out
		for _, o := range outs {
			next = append(next, c.frame.callVal(o.st, f, []*Val{c.args[0], strVal(e)}, fieldType(s.t, "Error").Underlying().(*types.Signature), c.site)...)
		}
		outs = next
	}
	for i := range outs {
		outs[i].res = []*Val{constVal(int64(tok))}
	}
	return outs, true
}

func (s *scanModel) next(st *State, c *Call) ([]Out, bool) {
	p := s.unbox(c.args[0])
	raw, off, _, ok := s.get(st, p)
	if !ok {
		s.m.fail("the state of a scanner is not determined")
	}
	h := s.host(raw[off:])
	r := h.Next()
	id, _ := s.id(p)
	s.put(st, id, off+h.Pos().Offset, "")
	// Next leaves no valid position behind
	s.set(st, p, "Position", structOf(s.posT, "Offset", s.m.getField(s.m.at(st, p, s.t, "Position"), s.posT, "Offset")))
	return one(st, constVal(int64(r))), true
}

func (s *scanModel) String() string { return fmt.Sprint(s.t) }

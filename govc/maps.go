package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) keySortOf(k types.Type) Sort {
	lv := leaves(k)
	if len(lv) == 1 {
		return lv[0].Sort
	}
	name := "K_" + sanitize(typeKey(k))
	if !dtDeclared[name] {
		dtDeclared[name] = true
		var fs, sels []string
		for i, l := range lv {
			fs = append(fs, fmt.Sprintf("(|%s.%d| %s)", name, i, l.Sort))
			sels = append(sels, fmt.Sprintf("%s.%d", name, i))
		}
		dtSels["mk"+name] = sels
		dtDecls = append(dtDecls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", name, symName("mk"+name), strings.Join(fs, " ")))
	}
	return name
}

func (e *Engine) keyTerm(v Value, k types.Type) *Term {
	ls := e.toLeaves(v, k)
	s := e.keySortOf(k)
	if len(ls) == 1 {
		return ls[0]
	}
	return Ctor("mk"+s, s, ls...)
}

func (e *Engine) keyValue(t *Term, k types.Type) Value {
	s := e.keySortOf(k)
	lv := leaves(k)
	if len(lv) == 1 {
		return e.fromLeaves([]*Term{t}, k)
	}
	var ts []*Term
	for i, l := range lv {
		ts = append(ts, Sel(fmt.Sprintf("%s.%d", s, i), l.Sort, t))
	}
	return e.fromLeaves(ts, k)
}

func mapKeyName(mt *types.Map) string { return memKey(mt.Key()) + "|" + memKey(mt.Elem()) }

func (e *Engine) mapDom(st *State, mt *types.Map) (string, *Term) {
	k := "MD|" + mapKeyName(mt)
	return k, e.heapGet(st, k, SArr(SInt, SArr(e.keySortOf(mt.Key()), SBool)))
}
func (e *Engine) mapLen(st *State, mt *types.Map) (string, *Term) {
	k := "ML|" + mapKeyName(mt)
	return k, e.heapGet(st, k, SArr(SInt, SInt))
}

func (e *Engine) mapInit(st *State, r *Term, t types.Type) {
	mt := under(t).(*types.Map)
	k, d := e.mapDom(st, mt)
	ks := e.keySortOf(mt.Key())
	e.writes = append(e.writes, Write{Key: k, Ref: r, Pc: st.pc})
	e.heapSet(st, k, Store(d, r, ConstArr(SArr(ks, SBool), False)))
	k, l := e.mapLen(st, mt)
	e.writes = append(e.writes, Write{Key: k, Ref: r, Pc: st.pc})
	e.heapSet(st, k, Store(l, r, Int(0)))
}

func (e *Engine) mapHas(st *State, m *Term, mt *types.Map, kt *Term) *Term {
	_, d := e.mapDom(st, mt)
	return underPC(st.pc, Select(underPC(st.pc, Select(d, m)), kt))
}

func (e *Engine) mapGetRaw(st *State, m *Term, mt *types.Map, kt *Term) Value {
	var ts []*Term
	ks := e.keySortOf(mt.Key())
	for _, l := range leaves(mt.Elem()) {
		k := "MV|" + mapKeyName(mt) + "|" + l.Path
		h := e.heapGet(st, k, SArr(SInt, SArr(ks, l.Sort)))
		ts = append(ts, underPC(st.pc, Select(underPC(st.pc, Select(h, m)), kt)))
	}
	e.wf(st, ts, mt.Elem())
	return e.fromLeaves(ts, mt.Elem())
}

func (fr *Frame) lookup(st *State, in *ssa.Lookup) Value {
	e := fr.e
	x := fr.get(st, in.X).(*Term)
	if x.Sort == SStr {
		i := fr.get(st, in.Index).(*Term)
		e.oblige(st, "safety", "index-out-of-range", And(Le(Int(0), i), Lt(i, StrLen(x))))
		return e.byteAt(st, x, i)
	}
	mt := under(in.X.Type()).(*types.Map)
	kt := e.keyTerm(fr.get(st, in.Index), mt.Key())
	v, ok := e.mapGet(st, x, mt, kt)
	if in.CommaOk {
		return &TupleV{[]Value{v, ok}}
	}
	return v
}

func (e *Engine) mapGet(st *State, m *Term, mt *types.Map, kt *Term) (Value, *Term) {
	if m.isInt() && m.I.Sign() == 0 {
		return e.zero(mt.Elem()), False
	}
	ok := e.mapHas(st, m, mt, kt)
	z := e.zero(mt.Elem())
	if ok.Op == "false" {
		return z, ok
	}
	v := e.mapGetRaw(&State{pc: And(st.pc, ok), heap: st.heap, allocB: st.allocB, allocK: st.allocK}, m, mt, kt)
	return iteVal(e, ok, v, z, mt.Elem()), ok
}

func (fr *Frame) mapUpdate(st *State, in *ssa.MapUpdate) {
	e := fr.e
	m := fr.get(st, in.Map).(*Term)
	mt := under(in.Map.Type()).(*types.Map)
	if !isFreshRef(m) {
		e.oblige(st, "safety", "nil-map-write", Not(Eq(m, Int(0))))
	}
	kt := e.keyTerm(fr.get(st, in.Key), mt.Key())
	e.mapPut(st, m, mt, kt, fr.get(st, in.Value))
}

func (e *Engine) mapPut(st *State, m *Term, mt *types.Map, kt *Term, v Value) {
	k, d := e.mapDom(st, mt)
	had := Select(Select(d, m), kt)
	if !e.iterHas(st, Select(d, m), kt) {
		e.writes = append(e.writes, Write{Key: k, Ref: m, MapK: kt, Pc: st.pc})
		e.heapSet(st, k, Store(d, m, Store(Select(d, m), kt, True)))
		k, l := e.mapLen(st, mt)
		e.writes = append(e.writes, Write{Key: k, Ref: m, MapK: kt, Pc: st.pc})
		e.heapSet(st, k, Store(l, m, Add(Select(l, m), Ite(had, Int(0), Int(1)))))
	}
	ks := e.keySortOf(mt.Key())
	ts := e.toLeaves(v, mt.Elem())
	for i, lf := range leaves(mt.Elem()) {
		k := "MV|" + mapKeyName(mt) + "|" + lf.Path
		h := e.heapGet(st, k, SArr(SInt, SArr(ks, lf.Sort)))
		e.writes = append(e.writes, Write{Key: k, Ref: m, MapK: kt, Pc: st.pc})
		e.heapSet(st, k, Store(h, m, Store(Select(h, m), kt, ts[i])))
	}
}

// iterHas: kt is the key of the current iteration over a map with this very
// domain, so putting it changes no domain.
func (e *Engine) iterHas(st *State, dom, kt *Term) bool {
	k, ok := e.iterKeys[kt]
	if !ok || k.dom != dom {
		return false
	}
	if k.ok.Op == "true" {
		return true
	}
	for _, c := range conj(st.pc) {
		if c == k.ok {
			return true
		}
	}
	return false
}

type enumInfo struct{ dom, n *Term }

type iterKey struct{ dom, ok *Term }

func (e *Engine) mapDelete(st *State, m *Term, mt *types.Map, kt *Term) {
	k, d := e.mapDom(st, mt)
	had := Select(Select(d, m), kt)
	e.writes = append(e.writes, Write{Key: k, Ref: m, MapK: kt, Pc: st.pc})
	e.heapSet(st, k, Store(d, m, Store(Select(d, m), kt, False)))
	k, l := e.mapLen(st, mt)
	e.writes = append(e.writes, Write{Key: k, Ref: m, MapK: kt, Pc: st.pc})
	e.heapSet(st, k, Store(l, m, Sub(Select(l, m), Ite(had, Int(1), Int(0)))))
}

func (e *Engine) mapLength(st *State, m *Term, mt *types.Map) *Term {
	if m.isInt() && m.I.Sign() == 0 {
		return Int(0)
	}
	_, l := e.mapLen(st, mt)
	n := Select(l, m)
	if n.isInt() {
		return n
	}
	_, d := e.mapDom(st, mt)
	dom := Select(d, m)
	ks := e.keySortOf(mt.Key())
	e.assume(st, Le(Int(0), n))
	e.assume(st, Implies(Eq(n, Int(0)), Eq(dom, ConstArr(SArr(ks, SBool), False))))
	w := App("mapwit|"+ks, ks, dom)
	e.assume(st, Implies(Lt(Int(0), n), Select(dom, w)))
	return n
}

func (fr *Frame) mkRange(st *State, in *ssa.Range) Value {
	e := fr.e
	x := fr.get(st, in.X).(*Term)
	if x.Sort == SStr {
		return &IterV{Str: x, Pos: Int(0), Enum: FreshName("striter")}
	}
	mt := under(in.X.Type()).(*types.Map)
	return e.mapIter(st, x, mt)
}

func (e *Engine) mapIter(st *State, m *Term, mt *types.Map) *IterV {
	n := e.mapLength(st, m, mt)
	if m.isInt() && m.I.Sign() == 0 {
		return &IterV{M: m, MT: mt, Pos: Int(0), N: Int(0), Enum: FreshName("enum")}
	}
	_, d := e.mapDom(st, mt)
	dom := Select(d, m)
	ks := e.keySortOf(mt.Key())
	it := &IterV{M: m, MT: mt, Dom: dom, Pos: Int(0), N: n, Enum: FreshName("enum"), Args: append([]*Term{}, e.ctx...)}
	pn := "pos|" + it.Enum
	if e.enums == nil {
		e.enums = map[string]enumInfo{}
	}
	e.enums[it.Enum] = enumInfo{dom, n}
	j := FreshBound("j", SInt)
	ej := App(it.Enum, ks, append(append([]*Term{}, it.Args...), j)...)
	e.assume(st, forallPat([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, n)), And(Select(dom, ej), Eq(App(pn, SInt, append(append([]*Term{}, it.Args...), ej)...), j))), ej))
	x := FreshBound("x", ks)
	px := App(pn, SInt, append(append([]*Term{}, it.Args...), x)...)
	e.assume(st, forallPat([]*Term{x}, Implies(Select(dom, x), And(Le(Int(0), px), Lt(px, n), Eq(App(it.Enum, ks, append(append([]*Term{}, it.Args...), px)...), x))), px, Select(dom, x)))
	return it
}

// forallPat builds a quantifier with each pattern as an alternative trigger
// when it mentions the variables as an application.
func forallPat(vs []*Term, body *Term, pats ...*Term) *Term {
	var ps [][]*Term
	for _, p := range pats {
		if (p.Op == "app" || p.Op == "select") && p.bound && patOK(p) {
			fv := map[*Term]bool{}
			for _, v := range freeBoundOf(p) {
				fv[v] = true
			}
			all := true
			for _, v := range vs {
				if !fv[v] {
					all = false
				}
			}
			if all {
				ps = append(ps, []*Term{p})
			}
		}
	}
	return Forall(vs, body, ps...)
}

// patOK: no logical connectives or interpreted arithmetic on bound variables.
func patOK(t *Term) bool {
	if !t.bound {
		return true
	}
	switch t.Op {
	case "bound":
		return true
	case "app", "select", "sel", "ctor":
		for _, a := range t.Args {
			if !patOK(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (fr *Frame) next(st *State, in *ssa.Next) Value {
	e := fr.e
	it := st.env[in.Iter].(*IterV)
	n := *it
	if in.IsString {
		ok := Lt(it.Pos, StrLen(it.Str))
		c := StrOp("str.to_code", SInt, StrOp("str.at", SStr, it.Str, it.Pos))
		r, w := c, Int(1)
		if !c.isInt() || c.I.Int64() >= 128 {
			ru := App("utf8rune", SInt, it.Str, it.Pos)
			wu := App("utf8width", SInt, it.Str, it.Pos)
			e.assume(st, And(Le(Int(128), ru), Le(ru, Int(0x10ffff)), Le(Int(1), wu), Le(wu, Int(4)), Implies(ok, Le(Add(it.Pos, wu), StrLen(it.Str)))))
			e.assume(st, And(Le(Int(-1), c), Le(c, Int(255))))
			r, w = Ite(Lt(c, Int(128)), c, ru), Ite(Lt(c, Int(128)), Int(1), wu)
		}
		n.Pos = Add(it.Pos, Ite(ok, w, Int(0)))
		st.env[in.Iter] = &n
		return &TupleV{[]Value{ok, it.Pos, r}}
	}
	ok := Lt(it.Pos, it.N)
	n.Pos = Add(it.Pos, Int(1))
	st.env[in.Iter] = &n
	ks := e.keySortOf(it.MT.Key())
	kt := App(it.Enum, ks, append(append([]*Term{}, it.Args...), it.Pos)...)
	if ok.Op == "false" {
		return &TupleV{[]Value{ok, e.zero(it.MT.Key()), e.zero(it.MT.Elem())}}
	}
	st2 := &State{pc: And(st.pc, ok), heap: st.heap, allocB: st.allocB, allocK: st.allocK}
	kv := e.keyValue(kt, it.MT.Key())
	if it.Dom != nil {
		if e.iterKeys == nil {
			e.iterKeys = map[*Term]iterKey{}
		}
		e.iterKeys[kt] = iterKey{it.Dom, ok}
	}
	e.wf(st2, e.toLeaves(kv, it.MT.Key()), it.MT.Key())
	// The zero key/value after the end is not observable: the loop exits.
	return &TupleV{[]Value{ok, kv, e.mapGetRaw(st2, it.M, it.MT, kt)}}
}

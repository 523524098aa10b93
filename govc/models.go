package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type handler func(e *Engine, st *State, fn *ssa.Function, args []Value) []Value

var intrinsics map[string]handler
var models map[string]handler

func constStr(v Value) string {
	t, ok := v.(*Term)
	if !ok || !t.isStr() {
		panic(unsup("constant string expected"))
	}
	return t.Name
}

// callBool runs a closure in specification mode and returns its boolean.
func (e *Engine) callSpec(st *State, f *FuncV, args []Value) []Value {
	s := st.clone()
	e.spec++
	nw := len(e.writes)
	defer func() { e.spec--; e.writes = e.writes[:nw] }()
	var sig *types.Signature
	if f.Alts[0].Fn != nil {
		sig = f.Alts[0].Fn.Signature
	} else {
		sig = f.Alts[0].Sig
	}
	return e.callFuncV(s, f, sig, args)
}

func (e *Engine) quant(st *State, args []Value, all bool) *Term {
	lo, hi := args[0].(*Term), args[1].(*Term)
	f := args[2].(*FuncV)
	if lo.isInt() && hi.isInt() && hi.I.Int64()-lo.I.Int64() <= 12 {
		r := Bool(all)
		for i := lo.I.Int64(); i < hi.I.Int64(); i++ {
			t := e.callSpec(st, f, []Value{Int(i)})[0].(*Term)
			if all {
				r = And(r, t)
			} else {
				r = Or(r, t)
			}
		}
		return r
	}
	i := FreshBound("i", SInt)
	rng := And(Le(lo, i), Lt(i, hi))
	s := st.clone()
	s.pc = And(st.pc, rng)
	e.ctx = append(e.ctx, i)
	t := e.callSpec(s, f, []Value{i})[0].(*Term)
	e.ctx = e.ctx[:len(e.ctx)-1]
	if all {
		return Forall([]*Term{i}, Implies(rng, t))
	}
	return Exists([]*Term{i}, And(rng, t))
}

func (e *Engine) quantSort(st *State, f *FuncV, t types.Type, guard func(*Term) *Term, all bool) *Term {
	s := e.keySortOf(t)
	x := FreshBound("x", s)
	g := True
	if guard != nil {
		g = guard(x)
	}
	s2 := st.clone()
	s2.pc = And(st.pc, g)
	e.ctx = append(e.ctx, x)
	r := e.callSpec(s2, f, []Value{e.keyValue(x, t)})[0].(*Term)
	e.ctx = e.ctx[:len(e.ctx)-1]
	if all {
		return Forall([]*Term{x}, Implies(g, r))
	}
	return Exists([]*Term{x}, And(g, r))
}

type snapshot struct {
	heap   map[string]*Term
	allocB *Term
	allocK int64
}

// sliceElems lists the elements of a slice of constant length.
func (e *Engine) sliceElems(st *State, s *SliceV, et types.Type) []Value {
	if vs, ok := virtArgs[s]; ok {
		return vs
	}
	if !s.Len.isInt() {
		panic(unsup("slice of unknown length where a literal is expected"))
	}
	var out []Value
	for i := int64(0); i < s.Len.I.Int64(); i++ {
		out = append(out, e.loadLoc(st, &Loc{Kind: LElem, Root: et, Ref: s.Arr, Idx: Add(s.Off, Int(i))}, et))
	}
	return out
}

type modLoc struct {
	key  string // heap key prefix
	ref  *Term
	idx  *Term
	exact bool
}

func (e *Engine) modLocs(st *State, vs []Value) []modLoc {
	var out []modLoc
	add := func(l *Loc) {
		ps, _ := pathStr(l.Root, l.Path)
		switch l.Kind {
		case LObj:
			out = append(out, modLoc{key: "H|" + memKey(l.Root) + "|" + ps, ref: l.Ref})
		case LElem:
			out = append(out, modLoc{key: "E|" + memKey(l.Root) + "|" + ps, ref: l.Ref, idx: l.Idx})
		case LGlobal:
			out = append(out, modLoc{key: "G|" + l.Global.String() + ps, ref: nil})
		}
	}
	for _, v := range vs {
		t := v.(*Term)
		var walk func(t, g *Term)
		walk = func(t, g *Term) {
			if t.Op == "ite" {
				walk(t.Args[1], g)
				walk(t.Args[2], g)
				return
			}
			if t.Op != "ctor" || t.Name == "anil" {
				if t.Op == "ctor" {
					return
				}
				panic(unsup("modifies location of unknown type"))
			}
			ty := e.tagTypes[t.Args[0].I.Int64()-1]
			switch u := under(ty).(type) {
			case *types.Pointer:
				p := e.unbox(t, ty).(*PtrV)
				for _, a := range p.Alts {
					if a.Loc != nil {
						add(a.Loc)
					}
				}
			case *types.Slice:
				s := e.unbox(t, ty).(*SliceV)
				out = append(out, modLoc{key: "E|" + memKey(u.Elem()) + "|", ref: s.Arr})
			case *types.Map:
				m := e.unbox(t, ty).(*Term)
				out = append(out, modLoc{key: "MD|" + mapKeyName(u), ref: m}, modLoc{key: "ML|" + mapKeyName(u), ref: m}, modLoc{key: "MV|" + mapKeyName(u) + "|", ref: m})
			default:
				panic(unsup("modifies location of type %s", ty))
			}
		}
		walk(t, True)
	}
	return out
}

// onlyModified is the condition that all memory that existed at the snapshot
// is as it was, except the given locations.
func (e *Engine) onlyModified(st *State, sn *snapshot, locs []modLoc) *Term {
	r := True
	bound := Add(sn.allocB, Int(sn.allocK))
	keys := map[string]bool{}
	for k := range st.heap {
		keys[k] = true
	}
	for _, k := range sortStrings(keys) {
		cur := st.heap[k]
		old, ok := sn.heap[k]
		if !ok {
			old = e.initArr(k, e.keySort[k])
		}
		if cur == old {
			continue
		}
		allowed := False
		if strings.HasPrefix(k, "G|") {
			for _, l := range locs {
				if l.ref == nil && strings.HasPrefix(k, l.key) {
					allowed = True
				}
			}
			r = And(r, Or(allowed, Eq(cur, old)))
			continue
		}
		x := FreshBound("r", SInt)
		for _, l := range locs {
			if l.ref == nil || l.idx != nil || !(k == l.key || strings.HasPrefix(k, l.key) && (strings.HasSuffix(l.key, "|") || k[len(l.key)] == '.')) {
				continue
			}
			allowed = Or(allowed, Eq(x, l.ref))
		}
		rng := And(Le(Int(0), x), Lt(x, bound))
		if strings.HasPrefix(k, "E|") {
			i := FreshBound("ix", SInt)
			al2 := allowed
			for _, l := range locs {
				if l.idx == nil || !(k == l.key || strings.HasPrefix(k, l.key) && (strings.HasSuffix(l.key, "|") || k[len(l.key)] == '.')) {
					continue
				}
				al2 = Or(al2, And(Eq(x, l.ref), Eq(i, l.idx)))
			}
			r = And(r, Forall([]*Term{x, i}, Implies(rng, Or(al2, Eq(Select(Select(cur, x), i), Select(Select(old, x), i))))))
			continue
		}
		r = And(r, Forall([]*Term{x}, Implies(rng, Or(allowed, Eq(Select(cur, x), Select(old, x))))))
	}
	return r
}

// freshErr is an arbitrary non-nil error, distinct from all earlier ones.
func (e *Engine) freshErr(st *State, msg *Term) *Term {
	r := e.newRef(st)
	t := Ctor("vRef", SAny, e.errTag(), r)
	if msg != nil {
		e.assume(st, Eq(App("errstr", SStr, t), msg))
	}
	return t
}

func (e *Engine) errTag() *Term {
	p := e.prog.ImportedPackage("fmt")
	return e.tag(types.NewPointer(p.Type("wrapError").Type()))
}

// format models fmt.Sprintf for constant formats with string arguments and
// leaves everything else uninterpreted (but deterministic).
func (e *Engine) format(st *State, f *Term, args []Value) *Term {
	if f.isStr() {
		var parts []*Term
		s := f.Name
		ai := 0
		ok := true
		cur := ""
		for i := 0; i < len(s) && ok; i++ {
			if s[i] != '%' {
				cur += string(s[i])
				continue
			}
			i++
			if i >= len(s) {
				ok = false
				break
			}
			if s[i] == '%' {
				cur += "%"
				continue
			}
			if ai >= len(args) {
				ok = false
				break
			}
			a := args[ai].(*Term)
			ai++
			switch s[i] {
			case 's', 'v':
				if a.Op == "ctor" && a.Name == "vStr" && a.Args[0].isInt() && !hasStringer(e.tagTypes[a.Args[0].I.Int64()-1]) {
					parts = append(parts, Str(cur), a.Args[1])
					cur = ""
					continue
				}
				if a.Op == "ctor" && a.Name == "vInt" && a.Args[0].isInt() && !hasStringer(e.tagTypes[a.Args[0].I.Int64()-1]) && s[i] == 'v' {
					parts = append(parts, Str(cur), App("itoa", SStr, a.Args[1]))
					cur = ""
					continue
				}
				parts = append(parts, Str(cur), App("fmt|"+string(s[i]), SStr, a))
				cur = ""
			case 'd':
				if a.Op == "ctor" && a.Name == "vInt" {
					parts = append(parts, Str(cur), App("itoa", SStr, a.Args[1]))
				} else {
					parts = append(parts, Str(cur), App("fmt|d", SStr, a))
				}
				cur = ""
			case 'q':
				if a.Op == "ctor" && a.Name == "vStr" {
					parts = append(parts, Str(cur), App("quote", SStr, a.Args[1]))
				} else {
					parts = append(parts, Str(cur), App("fmt|q", SStr, a))
				}
				cur = ""
			default:
				ok = false
			}
		}
		if ok && ai == len(args) {
			return Concat(append(parts, Str(cur))...)
		}
	}
	ls := []*Term{f}
	for _, a := range args {
		ls = append(ls, a.(*Term))
	}
	return App(fmt.Sprintf("sprintf|%d", len(args)), SStr, ls...)
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"String", "Error", "Format", "GoString"} {
		if ms.Lookup(nil, n) != nil {
			return true
		}
	}
	return false
}

func anyT() types.Type { return types.Universe.Lookup("any").Type() }

func init() {
	intrinsics = map[string]handler{
		"Requires": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			if len(e.stack) > 1 && e.stubDepth() {
				e.oblige(st, "pre", "precondition of "+e.stack[len(e.stack)-1].Name(), a[0].(*Term))
				return nil
			}
			e.assume(st, a[0].(*Term))
			e.requires = append(e.requires, Implies(st.pc, a[0].(*Term)))
			return nil
		},
		"Assume": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			e.assume(st, a[0].(*Term))
			return nil
		},
		"Ensures": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			e.obligeNamed(st, "ensures", constStr(a[0]), a[1].(*Term))
			return nil
		},
		"Cover": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			e.covers = append(e.covers, &Obligation{Name: constStr(a[0]), Kind: "cover", PC: st.pc, Cond: a[1].(*Term), NFacts: len(e.facts)})
			return nil
		},
		"Implies": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			return []Value{Implies(a[0].(*Term), a[1].(*Term))}
		},
		"Iff": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			return []Value{Eq(a[0].(*Term), a[1].(*Term))}
		},
		"Forall": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			return []Value{e.quant(st, a, true)}
		},
		"Exists": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			return []Value{e.quant(st, a, false)}
		},
		"ForallString": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			return []Value{e.quantSort(st, a[0].(*FuncV), types.Typ[types.String], nil, true)}
		},
		"ForallKey": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
			m := a[0].(*Term)
			return []Value{e.quantSort(st, a[1].(*FuncV), mt.Key(), func(x *Term) *Term {
				if m.isInt() {
					return False
				}
				return e.mapHas(st, m, mt, x)
			}, true)}
		},
		"ExistsKey": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
			m := a[0].(*Term)
			return []Value{e.quantSort(st, a[1].(*FuncV), mt.Key(), func(x *Term) *Term {
				if m.isInt() {
					return False
				}
				return e.mapHas(st, m, mt, x)
			}, false)}
		},
		"Same": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			return []Value{e.sameVal(a[0], a[1], fn.Signature.Params().At(0).Type())}
		},
		"Any": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			return []Value{e.symbolic(st, constStr(a[0]), fn.Signature.Results().At(0).Type())}
		},
		"Havoc": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			pt := under(fn.Signature.Params().At(0).Type()).(*types.Pointer)
			e.store(st, a[0].(*PtrV), e.symbolic(st, "havoc", pt.Elem()))
			return nil
		},
		"Snap": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			h := map[string]*Term{}
			for k, v := range st.heap {
				h[k] = v
			}
			e.snaps = append(e.snaps, &snapshot{h, st.allocB, st.allocK})
			return []Value{&StructV{T: fn.Signature.Results().At(0).Type(), F: []Value{Int(int64(len(e.snaps) - 1))}}}
		},
		"OnlyModifies": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			sn := e.snaps[a[0].(*StructV).F[0].(*Term).I.Int64()]
			locs := e.modLocs(st, e.sliceElems(st, a[2].(*SliceV), anyT()))
			e.obligeNamed(st, "frame", constStr(a[1]), e.onlyModified(st, sn, locs))
			return nil
		},
		"Unroll": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			e.boundedN = int(a[0].(*Term).I.Int64())
			return nil
		},
		"AnyIndex": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			n := a[0].(*Term)
			i := e.fresh("anyidx", SInt)
			e.assume(st, And(Le(Int(-1), i), Implies(Lt(Int(0), n), And(Le(Int(0), i), Lt(i, n))), Implies(Le(n, Int(0)), Eq(i, Int(-1)))))
			return []Value{i}
		},
		"Apart": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			x, y := a[0].(*SliceV), a[1].(*SliceV)
			return []Value{Or(Eq(x.Len, Int(0)), Eq(y.Len, Int(0)), Not(Eq(x.Arr, y.Arr)))}
		},
		"Closed": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			// Closed((*I)(nil), T1{}, T2{}...): I only holds these dynamic types
			it := e.tagTypes[a[0].(*Term).Args[0].I.Int64()-1].(*types.Pointer).Elem()
			var ts []types.Type
			for _, v := range e.sliceElems(st, a[1].(*SliceV), anyT()) {
				ts = append(ts, e.tagTypes[v.(*Term).Args[0].I.Int64()-1])
			}
			e.closed[typeKey(it)] = ts
			e.assumes["values of "+typeKey(it)+" have one of the dynamic types listed in the contract"] = true
			return nil
		},
		"Recursion": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			e.opts["recursion"] = int(a[0].(*Term).I.Int64())
			return nil
		},
		"NoSafety": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			e.safetyOff = true
			return nil
		},
		"SameDyn": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			return []Value{Eq(tagOf(a[0].(*Term)), tagOf(a[1].(*Term)))}
		},
		"UF": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			// UF[T](name, args...): uninterpreted function
			var ls []*Term
			for _, v := range e.sliceElems(st, a[1].(*SliceV), anyT()) {
				ls = append(ls, v.(*Term))
			}
			t := fn.Signature.Results().At(0).Type()
			var ts []*Term
			for i, l := range leaves(t) {
				ts = append(ts, App(fmt.Sprintf("uf|%s|%d|%d", constStr(a[0]), len(ls), i), l.Sort, ls...))
			}
			e.wf(st, ts, t)
			return []Value{e.fromLeaves(ts, t)}
		},
	}
	one := func(f func(e *Engine, st *State, a []Value) Value) handler {
		return func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value { return []Value{f(e, st, a)} }
	}
	tm := func(v Value) *Term { return v.(*Term) }
	nop := func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value { return nil }
	rtz := func(m string) *Term { return intern(&Term{Op: "raw", Name: m, Sort: "RoundingMode"}) }
	models = map[string]handler{
		"fmt.Errorf": one(func(e *Engine, st *State, a []Value) Value {
			e.assumes["fmt.Errorf/errors.New return non-nil errors"] = true
			return e.freshErr(st, e.format(st, tm(a[0]), e.sliceElems(st, a[1].(*SliceV), anyT())))
		}),
		"errors.New": one(func(e *Engine, st *State, a []Value) Value { return e.freshErr(st, tm(a[0])) }),
		"fmt.Sprintf": one(func(e *Engine, st *State, a []Value) Value {
			return e.format(st, tm(a[0]), e.sliceElems(st, a[1].(*SliceV), anyT()))
		}),
		"fmt.Sprint": one(func(e *Engine, st *State, a []Value) Value {
			var ls []*Term
			for _, v := range e.sliceElems(st, a[0].(*SliceV), anyT()) {
				ls = append(ls, v.(*Term))
			}
			return App(fmt.Sprintf("sprint|%d", len(ls)), SStr, ls...)
		}),
		"strings.HasPrefix": one(func(e *Engine, st *State, a []Value) Value { return StrOp("str.prefixof", SBool, tm(a[1]), tm(a[0])) }),
		"strings.HasSuffix": one(func(e *Engine, st *State, a []Value) Value { return StrOp("str.suffixof", SBool, tm(a[1]), tm(a[0])) }),
		"strings.Contains":  one(func(e *Engine, st *State, a []Value) Value { return StrOp("str.contains", SBool, tm(a[0]), tm(a[1])) }),
		"strings.ContainsRune": one(func(e *Engine, st *State, a []Value) Value {
			if r := tm(a[1]); r.isInt() {
				return StrOp("str.contains", SBool, tm(a[0]), Str(string(rune(r.I.Int64()))))
			}
			panic(unsup("ContainsRune of a variable"))
		}),
		"strings.Index": one(func(e *Engine, st *State, a []Value) Value { return StrOp("str.indexof", SInt, tm(a[0]), tm(a[1]), Int(0)) }),
		"strings.IndexByte": one(func(e *Engine, st *State, a []Value) Value {
			if r := tm(a[1]); r.isInt() {
				return StrOp("str.indexof", SInt, tm(a[0]), Str(string([]byte{byte(r.I.Int64())})), Int(0))
			}
			panic(unsup("IndexByte of a variable"))
		}),
		"strings.TrimPrefix": one(func(e *Engine, st *State, a []Value) Value {
			s, p := tm(a[0]), tm(a[1])
			return Ite(StrOp("str.prefixof", SBool, p, s), Substr(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s)
		}),
		"strings.TrimSuffix": one(func(e *Engine, st *State, a []Value) Value {
			s, p := tm(a[0]), tm(a[1])
			return Ite(StrOp("str.suffixof", SBool, p, s), Substr(s, Int(0), Sub(StrLen(s), StrLen(p))), s)
		}),
		"strings.LastIndex": one(func(e *Engine, st *State, a []Value) Value { return e.lastIndex(st, tm(a[0]), tm(a[1])) }),
		"strings.ReplaceAll": one(func(e *Engine, st *State, a []Value) Value {
			if p := tm(a[1]); p.isStr() && p.Name != "" {
				return StrOp("str.replace_all", SStr, tm(a[0]), p, tm(a[2]))
			}
			panic(unsup("ReplaceAll of a variable pattern"))
		}),
		"strings.Replace": one(func(e *Engine, st *State, a []Value) Value {
			n := tm(a[3])
			if p := tm(a[1]); p.isStr() && p.Name != "" && n.isInt() {
				if n.I.Sign() < 0 {
					return StrOp("str.replace_all", SStr, tm(a[0]), p, tm(a[2]))
				}
				if n.I.Int64() == 1 {
					return StrOp("str.replace", SStr, tm(a[0]), p, tm(a[2]))
				}
			}
			panic(unsup("Replace"))
		}),
		"strings.ToLower":   one(func(e *Engine, st *State, a []Value) Value { return lower(tm(a[0])) }),
		"strings.ToUpper":   one(func(e *Engine, st *State, a []Value) Value { return App("strupper", SStr, tm(a[0])) }),
		"strings.TrimSpace": one(func(e *Engine, st *State, a []Value) Value { return App("trimspace", SStr, tm(a[0])) }),
		"strings.Title":     one(func(e *Engine, st *State, a []Value) Value { return App("strtitle", SStr, tm(a[0])) }),
		"strconv.Itoa":      one(func(e *Engine, st *State, a []Value) Value { return App("itoa", SStr, tm(a[0])) }),
		"strconv.Quote":     one(func(e *Engine, st *State, a []Value) Value { return App("quote", SStr, tm(a[0])) }),
		"math.Trunc":        one(func(e *Engine, st *State, a []Value) Value { return mk("fp.roundToIntegral", SFloat, rtz("RTZ"), tm(a[0])) }),
		"math.Floor":        one(func(e *Engine, st *State, a []Value) Value { return mk("fp.roundToIntegral", SFloat, rtz("RTN"), tm(a[0])) }),
		"math.Ceil":         one(func(e *Engine, st *State, a []Value) Value { return mk("fp.roundToIntegral", SFloat, rtz("RTP"), tm(a[0])) }),
		"math.Round":        one(func(e *Engine, st *State, a []Value) Value { return mk("fp.roundToIntegral", SFloat, rtz("RNA"), tm(a[0])) }),
		"math.Abs":          one(func(e *Engine, st *State, a []Value) Value { return mk("fp.abs", SFloat, tm(a[0])) }),
		"math.IsNaN":        one(func(e *Engine, st *State, a []Value) Value { return mk("fp.isNaN", SBool, tm(a[0])) }),
		"math.IsInf": one(func(e *Engine, st *State, a []Value) Value {
			f, s := tm(a[0]), tm(a[1])
			return And(mk("fp.isInfinite", SBool, f), Or(And(Le(Int(0), s), Not(mk("fp.isNegative", SBool, f))), And(Le(s, Int(0)), mk("fp.isNegative", SBool, f))))
		}),
		"encoding/json.Marshal": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			// deterministic in the value: fresh bytes with an uninterpreted text
			v := tm(a[0])
			s := App("json|text", SStr, v)
			err := App("json|err", SAny, v)
			e.wfErr(st, err)
			b := e.bytesOf(st, s, types.Typ[types.Uint8]).(*SliceV)
			ok := Is("anil", err)
			if e.jsonNeverFails(v) {
				e.fact(ok)
				err, ok = AnyNil, True
			}
			e.assumes["encoding/json.Marshal is a deterministic function of its argument"] = true
			z := Int(0)
			return []Value{&SliceV{Ite(ok, b.Arr, z), z, Ite(ok, b.Len, z), Ite(ok, b.Cap, z)}, err}
		},
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.WaitGroup).Done":  nop,
		"fmt.Fprintln":            func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value { return []Value{e.fresh("n", SInt), e.symbolic(st, "err", fn.Signature.Results().At(1).Type())} },
		"path.Base":               one(func(e *Engine, st *State, a []Value) Value { return App("pathbase", SStr, tm(a[0])) }),
		"path/filepath.Join": one(func(e *Engine, st *State, a []Value) Value {
			var ls []*Term
			for _, v := range e.sliceElems(st, a[0].(*SliceV), types.Typ[types.String]) {
				ls = append(ls, v.(*Term))
			}
			return App(fmt.Sprintf("filepathjoin|%d", len(ls)), SStr, ls...)
		}),
		"path/filepath.Dir":  one(func(e *Engine, st *State, a []Value) Value { return App("filepathdir", SStr, tm(a[0])) }),
		"path/filepath.Base": one(func(e *Engine, st *State, a []Value) Value { return App("filepathbase", SStr, tm(a[0])) }),
		"sort.Strings":       func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value { e.sortModel(st, a[0].(*SliceV), types.Typ[types.String], nil); return nil },
		"slices.Sort": func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
			e.sortModel(st, a[0].(*SliceV), under(fn.Signature.Params().At(0).Type()).(*types.Slice).Elem(), nil)
			return nil
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
	}
}

func sortSlice(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
	x := a[0].(*Term)
	if x.Op != "ctor" {
		panic(unsup("sort.Slice of unknown value"))
	}
	ty := e.tagTypes[x.Args[0].I.Int64()-1]
	s := e.unbox(x, ty).(*SliceV)
	e.sortModel(st, s, under(ty).(*types.Slice).Elem(), a[1].(*FuncV))
	return nil
}

// jsonNeverFails: marshalling strings, bools and integers cannot fail.
func (e *Engine) jsonNeverFails(v *Term) bool {
	return v.Op == "ctor" && (v.Name == "vStr" || v.Name == "vBool" || v.Name == "vInt") && !hasMarshaler(e, v)
}

func hasMarshaler(e *Engine, v *Term) bool {
	if !v.Args[0].isInt() {
		return true
	}
	ms := types.NewMethodSet(types.NewPointer(e.tagTypes[v.Args[0].I.Int64()-1]))
	return ms.Lookup(nil, "MarshalJSON") != nil || ms.Lookup(nil, "MarshalText") != nil
}

func (e *Engine) wfErr(st *State, t *Term) {}

func lower(t *Term) *Term {
	if t.isStr() {
		return Str(strings.ToLower(t.Name))
	}
	if t.Op == "str.++" {
		var ps []*Term
		for _, a := range t.Args {
			ps = append(ps, lower(a))
		}
		return Concat(ps...)
	}
	return App("strlower", SStr, t)
}

// lastIndex of a non-empty constant: last occurrence or -1.
func (e *Engine) lastIndex(st *State, s, p *Term) *Term {
	r := App("lastidx", SInt, s, p)
	n := StrLen(p)
	e.assume(st, Ite(StrOp("str.contains", SBool, s, p),
		And(Le(Int(0), r), Le(Add(r, n), StrLen(s)), Eq(Substr(s, r, n), p),
			Not(StrOp("str.contains", SBool, Substr(s, Add(r, Int(1)), Sub(StrLen(s), Add(r, Int(1)))), p))),
		Eq(r, Int(-1))))
	return r
}

// sortModel: the slice becomes a sorted permutation of itself.
func (e *Engine) sortModel(st *State, s *SliceV, et types.Type, less *FuncV) {
	e.assumes["sort.Strings/sort.Slice/slices.Sort yield a sorted permutation (of a strict weak order)"] = true
	mk := memKey(et)
	id := FreshName("sort")
	args := append([]*Term{}, e.ctx...)
	perm := func(i *Term) *Term { return App("perm|"+id, SInt, append(append([]*Term{}, args...), i)...) }
	inv := func(i *Term) *Term { return App("invp|"+id, SInt, append(append([]*Term{}, args...), i)...) }
	i := FreshBound("i", SInt)
	in := And(Le(Int(0), i), Lt(i, s.Len))
	e.assume(st, forallPat([]*Term{i}, Implies(in, And(Le(Int(0), perm(i)), Lt(perm(i), s.Len), Eq(inv(perm(i)), i))), perm(i)))
	e.assume(st, forallPat([]*Term{i}, Implies(in, And(Le(Int(0), inv(i)), Lt(inv(i), s.Len), Eq(perm(inv(i)), i))), inv(i)))
	for _, lf := range leaves(et) {
		k := "E|" + mk + "|" + lf.Path
		h := e.heapGet(st, k, SArr(SInt, SArr(SInt, lf.Sort)))
		old := Select(h, s.Arr)
		nw := e.fresh("sorted"+lf.Path, SArr(SInt, lf.Sort))
		e.taint[nw.Name] = append(e.taint[nw.Name], old)
		j := FreshBound("j", SInt)
		e.assume(st, forallPat([]*Term{j}, Eq(Select(nw, j), Ite(And(Le(s.Off, j), Lt(j, Add(s.Off, s.Len))), Select(old, Add(s.Off, perm(Sub(j, s.Off)))), Select(old, j))), Select(nw, j)))
		// the same the other way round, for what was in the slice
		e.assume(st, forallPat([]*Term{j}, Implies(And(Le(s.Off, j), Lt(j, Add(s.Off, s.Len))), Eq(Select(nw, Add(s.Off, inv(Sub(j, s.Off)))), Select(old, j))), Select(old, j)))
		e.writes = append(e.writes, Write{Key: k, Ref: s.Arr, Pc: st.pc})
		e.heapSet(st, k, Store(h, s.Arr, nw))
	}
	a, b := FreshBound("a", SInt), FreshBound("b", SInt)
	rng := And(Le(Int(0), a), Lt(a, b), Lt(b, s.Len))
	var gt *Term
	if less == nil {
		k := "E|" + mk + "|"
		cur := Select(st.heap[k], s.Arr)
		x, y := Select(cur, Add(s.Off, a)), Select(cur, Add(s.Off, b))
		if x.Sort == SStr {
			gt = StrOp("str.<", SBool, y, x)
		} else {
			gt = Lt(y, x)
		}
	} else {
		s2 := st.clone()
		s2.pc = And(st.pc, rng)
		e.ctx = append(e.ctx, a, b)
		gt = e.callSpec(s2, less, []Value{b, a})[0].(*Term)
		e.ctx = e.ctx[:len(e.ctx)-2]
	}
	e.assume(st, Forall([]*Term{a, b}, Implies(rng, Not(gt))))
}

func (e *Engine) stubDepth() bool {
	f := e.stack[len(e.stack)-1]
	for _, s := range e.stubs {
		if s == f {
			return true
		}
	}
	return false
}

func (e *Engine) obligeNamed(st *State, kind, name string, cond *Term) {
	if e.spec > 0 {
		return
	}
	e.oblige(st, kind, name, cond)
}

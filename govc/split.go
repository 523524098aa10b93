package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of strings.Split and strings.Join by a non-empty constant separator:
// the pieces are a function of the string; assumed are their number, the first
// and the last piece, and what joining all pieces, or all but the last, gives.

func init() {
	models["strings.Split"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
		s, p := a[0].(*Term), a[1].(*Term)
		if !p.isStr() || p.Name == "" {
			panic(unsup("Split by a variable"))
		}
		n := App("splitlen", SInt, s, p)
		row := App("split", SArr(SInt, SStr), s, p)
		has := StrOp("str.contains", SBool, s, p)
		last := e.lastIndex(st, s, p)
		first := StrOp("str.indexof", SInt, s, p, Int(0))
		end := Add(last, StrLen(p))
		e.assume(st, And(Le(Int(1), n), Eq(Eq(n, Int(1)), Not(has))))
		e.assume(st, Eq(Select(row, Sub(n, Int(1))), Ite(has, Substr(s, end, Sub(StrLen(s), end)), s)))
		e.assume(st, Eq(Select(row, Int(0)), Ite(has, Substr(s, Int(0), first), s)))
		e.assumes["strings.Split: number of pieces, first and last piece; Join undoes it for all pieces and all but the last"] = true
		r := e.newRef(st)
		et := types.Typ[types.String]
		k := "E|" + memKey(et) + "|"
		h := e.heapGet(st, k, SArr(SInt, SArr(SInt, SStr)))
		e.writes = append(e.writes, Write{Key: k, Ref: r, Pc: st.pc})
		e.heapSet(st, k, Store(h, r, row))
		return []Value{&SliceV{Arr: r, Off: Int(0), Len: n, Cap: n}}
	}
	models["strings.Join"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
		x, p := a[0].(*SliceV), a[1].(*Term)
		if x.Len.isInt() && x.Len.I.Int64() <= 4 {
			k := "E|" + memKey(types.Typ[types.String]) + "|"
			row := Select(e.heapGet(st, k, SArr(SInt, SArr(SInt, SStr))), x.Arr)
			var ps []*Term
			for i := int64(0); i < x.Len.I.Int64(); i++ {
				if i > 0 {
					ps = append(ps, p)
				}
				ps = append(ps, Select(row, Add(x.Off, Int(i))))
			}
			if len(ps) == 0 {
				return []Value{Str("")}
			}
			return []Value{Concat(ps...)}
		}
		k := "E|" + memKey(types.Typ[types.String]) + "|"
		row := Select(e.heapGet(st, k, SArr(SInt, SArr(SInt, SStr))), x.Arr)
		if row.Op == "app" && row.Name == "split" && row.Args[1] == p && x.Off.isInt() && x.Off.I.Sign() == 0 {
			s := row.Args[0]
			n := App("splitlen", SInt, s, p)
			if x.Len == n {
				return []Value{s}
			}
			if x.Len == Sub(n, Int(1)) {
				return []Value{Ite(StrOp("str.contains", SBool, s, p), Substr(s, Int(0), e.lastIndex(st, s, p)), Str(""))}
			}
		}
		return []Value{App("join", SStr, row, x.Off, x.Len, p)}
	}
}

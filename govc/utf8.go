package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the UTF-8 functions. Validity is an uninterpreted predicate; what
// is assumed of it is instantiated where a term mentions it:
//   - cutting a valid string where a byte starts a rune leaves valid pieces,
//   - the first rune of a valid string is a valid piece of it,
//   - valid pieces concatenate to a valid string.

func (e *Engine) utf8valid(st *State, s *Term, depth int) *Term {
	if s.isStr() {
		return Bool(strings.ToValidUTF8(s.Name, "\x00") == s.Name)
	}
	if s.Op == "ite" {
		return Ite(s.Args[0], e.utf8valid(st, s.Args[1], depth), e.utf8valid(st, s.Args[2], depth))
	}
	v := App("utf8valid", SBool, s)
	if e.boxSeen[v] {
		return v
	}
	e.boxSeen[v] = true
	switch s.Op {
	case "str.++":
		all := True
		for _, a := range s.Args {
			all = And(all, e.utf8valid(st, a, depth+1))
		}
		e.assume(st, Implies(all, v))
	case "str.substr":
		if depth > 6 {
			break
		}
		base, off, n := s.Args[0], s.Args[1], s.Args[2]
		bv := e.utf8valid(st, base, depth+1)
		starts := func(i *Term) *Term {
			c := e.byteAt(st, base, i)
			return Or(Eq(i, Int(0)), Eq(i, StrLen(base)), And(Le(Int(0), i), Lt(i, StrLen(base)), Or(Lt(c, Int(128)), Le(Int(192), c))))
		}
		end := Add(off, n)
		e.assume(st, Implies(And(bv, starts(off), starts(end), Le(Int(0), n)), v))
		// the first rune of a valid string
		e.assume(st, Implies(And(bv, Eq(off, Int(0)), Eq(n, App("utf8size", SInt, base))), v))
		if off.isInt() && off.I.Sign() == 0 {
			// a piece and the next one
			for _, a := range sumParts(n) {
				b := Sub(n, a)
				l, r := Substr(base, Int(0), a), Substr(base, a, b)
				e.assume(st, Implies(And(Le(Int(0), a), Le(Int(0), b), Le(n, StrLen(base)), e.utf8valid(st, l, depth+2), e.utf8valid(st, r, depth+2)), v))
				rest := Substr(base, a, Sub(StrLen(base), a))
				e.assume(st, Implies(And(e.utf8valid(st, rest, depth+2), Le(Int(0), a), Lt(a, StrLen(base)), Eq(b, App("utf8size", SInt, rest))), e.utf8valid(st, r, depth+2)))
			}
		}
	}
	return v
}

func sumParts(n *Term) []*Term {
	if n.Op != "+" {
		return nil
	}
	return n.Args
}

func init() {
	models["unicode/utf8.ValidString"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
		return []Value{e.utf8valid(st, a[0].(*Term), 0)}
	}
	models["unicode/utf8.DecodeRuneInString"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
		s := a[0].(*Term)
		r, n := App("utf8first", SInt, s), App("utf8size", SInt, s)
		e.assume(st, And(Le(Int(0), r), Le(r, Int(0x10ffff)), Le(Int(0), n), Le(n, Int(4)), Le(n, StrLen(s)), Eq(Eq(n, Int(0)), Eq(StrLen(s), Int(0)))))
		c := e.byteAt(st, s, Int(0))
		e.assume(st, Implies(And(Lt(Int(0), StrLen(s)), Lt(c, Int(128))), And(Eq(r, c), Eq(n, Int(1)))))
		return []Value{r, n}
	}
	models["unicode.Is"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
		ls := append(e.toLeaves(a[0], fn.Signature.Params().At(0).Type()), a[1].(*Term))
		return []Value{App("unicodeis", SBool, ls...)}
	}
	models["strings.LastIndexFunc"] = func(e *Engine, st *State, fn *ssa.Function, a []Value) []Value {
		s := a[0].(*Term)
		f := a[1].(*FuncV)
		name := FreshName("lastindexfunc")
		if len(f.Alts) == 1 && f.Alts[0].Fn != nil && len(f.Alts[0].Bind) == 0 {
			name = "lastindexfunc|" + sanitize(f.Alts[0].Fn.String())
		}
		r := App(name, SInt, s)
		first := func(i *Term) *Term {
			return App("utf8first", SInt, Substr(s, i, Sub(StrLen(s), i)))
		}
		s2 := st.clone()
		is := e.callSpec(s2, f, []Value{first(r)})[0].(*Term)
		c := e.byteAt(st, s, r)
		e.assume(st, And(Le(Int(-1), r), Lt(r, StrLen(s)), Implies(Le(Int(0), r), is)))
		// it is where a rune starts; in a valid string that is a rune-start byte
		e.assume(st, Implies(And(Le(Int(0), r), e.utf8valid(st, s, 0)), Or(Lt(c, Int(128)), Le(Int(192), c))))
		j := FreshBound("j", SInt)
		e.ctx = append(e.ctx, j)
		s3 := st.clone()
		isj := e.callSpec(s3, f, []Value{first(j)})[0].(*Term)
		e.ctx = e.ctx[:len(e.ctx)-1]
		cj := StrOp("str.to_code", SInt, StrOp("str.at", SStr, s, j))
		start := Or(Lt(cj, Int(128)), Le(Int(192), cj))
		e.assume(st, Forall([]*Term{j}, Implies(And(Lt(r, j), Lt(j, StrLen(s)), start, e.utf8valid(st, s, 0)), Not(isj))))
		e.assumes["strings.LastIndexFunc yields the last rune start whose rune satisfies the function, -1 if there is none"] = true
		return []Value{r}
	}
}

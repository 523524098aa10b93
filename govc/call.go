package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *Frame) call(st *State, c *ssa.CallCommon, in ssa.Instruction) Value {
	var args []Value
	for _, a := range c.Args {
		args = append(args, fr.get(st, a))
	}
	return fr.callValue(st, c, fr.get(st, c.Value), args, in)
}

func resultValue(sig *types.Signature, res []Value) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		if len(res) == 0 {
			return nil
		}
		return res[0]
	}
	return &TupleV{res}
}

func (fr *Frame) callValue(st *State, c *ssa.CallCommon, fv Value, args []Value, in ssa.Instruction) Value {
	e := fr.e
	sig := c.Signature()
	if c.IsInvoke() {
		res := e.invoke(st, fv.(*Term), c.Value.Type(), c.Method, args)
		if st.pc.Op == "false" {
			return e.zeroResult(sig)
		}
		return resultValue(sig, res)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, b, args, c)
	}
	res := e.callFuncV(st, fv.(*FuncV), sig, args)
	if st.pc.Op == "false" {
		return e.zeroResult(sig)
	}
	return resultValue(sig, res)
}

func (e *Engine) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.zero(sig.Results().At(0).Type())
	}
	return e.zero(sig.Results())
}

func (e *Engine) callFuncV(st *State, f *FuncV, sig *types.Signature, args []Value) []Value {
	if len(f.Alts) == 1 {
		return e.callAlt(st, f.Alts[0], sig, args)
	}
	var sts []*State
	var results [][]Value
	for _, a := range f.Alts {
		s := st.clone()
		s.pc = And(st.pc, a.G)
		if s.pc.Op == "false" {
			continue
		}
		r := e.callAlt(s, a, sig, args)
		if s.pc.Op == "false" {
			continue
		}
		sts = append(sts, s)
		results = append(results, r)
	}
	return e.mergeCalls(st, sts, results)
}

func (e *Engine) mergeCalls(st *State, sts []*State, results [][]Value) []Value {
	if len(sts) == 0 {
		st.pc = False
		return nil
	}
	env := st.env
	m, g := e.merge(sts, st.pc)
	n := len(sts)
	var res []Value
	for i := range results[n-1] {
		r := results[n-1][i]
		for j := n - 2; j >= 0; j-- {
			r = iteVal(e, g[j], results[j][i], r, nil)
		}
		res = append(res, r)
	}
	*st = *m
	st.env = env
	return res
}

func (e *Engine) callAlt(st *State, a FuncAlt, sig *types.Signature, args []Value) []Value {
	if a.Opaque != nil {
		// an arbitrary function argument of the contract: pure and deterministic
		var ls []*Term
		ls = append(ls, a.Opaque)
		for i := 0; i < sig.Params().Len(); i++ {
			ls = append(ls, e.toLeaves(args[i], sig.Params().At(i).Type())...)
		}
		e.assumes["function arguments of contracts are pure and deterministic"] = true
		var res []Value
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			var ts []*Term
			for j, l := range leaves(t) {
				ts = append(ts, App(fmt.Sprintf("call|%s|%d|%d", sanitize(sig.String()), i, j), l.Sort, ls...))
			}
			e.wf(st, ts, t)
			res = append(res, e.fromLeaves(ts, t))
		}
		return res
	}
	if a.Fn == nil {
		e.oblige(st, "safety", "nil-function-call", False)
		st.pc = False
		return nil
	}
	return e.callFn(st, a.Fn, args, a.Bind)
}

var denyPkgs = map[string]bool{
	"fmt": true, "os": true, "reflect": true, "runtime": true, "encoding/json": true, "sync": true,
	"regexp": true, "syscall": true, "unsafe": true, "time": true, "bufio": true, "io": true, "unicode/utf8": false,
	"sigs.k8s.io/yaml": true, "gopkg.in/yaml.v3": true, "sigs.k8s.io/json": true, "go/format": true, "go/parser": true, "text/template": true,
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) callFn(st *State, fn *ssa.Function, args []Value, bind []Value) []Value {
	key := fnKey(fn)
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == e.vcPath || fn.Origin() != nil && fn.Origin().Pkg != nil && fn.Origin().Pkg.Pkg.Path() == e.vcPath {
		if h, ok := intrinsics[baseName(fn)]; ok {
			return h(e, st, fn, args)
		}
	}
	if s, ok := e.stubs[key]; ok && !e.onStack(s) && (!e.verifying[key] || e.onStack(fn)) {
		// (a recursive call of the function under proof uses its contract)
		e.stubsUsed[key]++
		return e.execFunc(s, args, nil, st)
	}
	if m, ok := models[key]; ok {
		e.modelsUsed[key]++
		return m(e, st, fn, args)
	}
	if s, ok := e.goModel(key); ok {
		e.modelsUsed[key]++
		e.safetyPush()
		r := e.execFunc(s, args, nil, st)
		e.safetyPop()
		return r
	}
	pk := fnPkg(fn)
	if denyPkgs[pk] || strings.HasPrefix(pk, "internal/") || strings.HasPrefix(pk, "runtime/") {
		if fn.Synthetic == "" || len(fn.Blocks) == 0 {
			panic(unsup("no contract for external function %s", key))
		}
	}
	if len(fn.Blocks) == 0 {
		panic(unsup("no contract for bodyless function %s", key))
	}
	return e.execFunc(fn, args, bind, st)
}

func (e *Engine) safetyPush() { e.spec++ }
func (e *Engine) safetyPop()  { e.spec-- }

func (e *Engine) onStack(s *ssa.Function) bool {
	for _, f := range e.stack {
		if f == s {
			return true
		}
	}
	return false
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func baseName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.Name()
	}
	return fn.Name()
}

// goModel finds a model written in Go in the vc package: Model_<pkg>_<name>.
func (e *Engine) goModel(key string) (*ssa.Function, bool) {
	p := e.pkgs[e.vcPath]
	if p == nil {
		return nil, false
	}
	n := "Model_" + strings.NewReplacer("/", "_", ".", "_", "(", "", ")", "", "*", "").Replace(key)
	f := p.Func(n)
	if f == nil || e.onStack(f) {
		return nil, false
	}
	return f, true
}

type dispatch struct {
	cond *Term
	t    types.Type
}

// candidates enumerates the possible dynamic types of an interface value.
func (e *Engine) candidates(a *Term, it types.Type) ([]dispatch, bool) {
	seen := map[string]bool{}
	var out []dispatch
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "ite" {
			walk(t.Args[1])
			walk(t.Args[2])
			return
		}
		if t.Op == "ctor" {
			if t.Name == "anil" {
				return
			}
			if tg := t.Args[0]; tg.isInt() {
				ty := e.tagTypes[tg.I.Int64()-1]
				if !seen[typeKey(ty)] {
					seen[typeKey(ty)] = true
					out = append(out, dispatch{e.isType(a, ty), ty})
				}
				return
			}
		}
		if cs, c := e.closed[typeKey(it)]; c {
			for _, ty := range cs {
				if !seen[typeKey(ty)] {
					seen[typeKey(ty)] = true
					out = append(out, dispatch{e.isType(a, ty), ty})
				}
			}
			return
		}
		ok = false
	}
	walk(a)
	return out, ok
}

func (e *Engine) invoke(st *State, recv *Term, it types.Type, m *types.Func, args []Value) []Value {
	key := "iface:" + typeKey(it) + "." + m.Name()
	if s, ok := e.stubs[key]; ok && !e.onStack(s) {
		e.stubsUsed[key]++
		e.oblige(st, "safety", "nil-interface-call", Not(Is("anil", recv)))
		return e.execFunc(s, append([]Value{recv}, args...), nil, st)
	}
	cands, known := e.candidates(recv, it)
	if !known {
		if m.Name() == "Error" && m.Type().(*types.Signature).Params().Len() == 0 {
			e.oblige(st, "safety", "nil-interface-call", Not(Is("anil", recv)))
			return []Value{App("errstr", SStr, recv)}
		}
		panic(unsup("call of %s on an unknown dynamic type", key))
	}
	e.oblige(st, "safety", "nil-interface-call", Not(Is("anil", recv)))
	var sts []*State
	var results [][]Value
	for _, c := range cands {
		fn := e.prog.LookupMethod(c.t, m.Pkg(), m.Name())
		if fn == nil {
			continue
		}
		s := st.clone()
		s.pc = And(st.pc, c.cond)
		if s.pc.Op == "false" {
			continue
		}
		rv := e.unbox(recv, c.t)
		if len(cands) > 1 || recv.Op != "ctor" {
			e.wf(s, e.toLeaves(rv, c.t), c.t)
		}
		r := e.callFn(s, fn, append([]Value{rv}, args...), nil)
		if s.pc.Op == "false" {
			continue
		}
		sts = append(sts, s)
		results = append(results, r)
	}
	if len(sts) == 1 {
		env := st.env
		pc := st.pc
		*st = *sts[0]
		st.env = env
		st.pc = pc
		return results[0]
	}
	return e.mergeCalls(st, sts, results)
}

func (fr *Frame) builtin(st *State, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	e := fr.e
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			if x.Sort == SStr {
				return StrLen(x)
			}
			if mt, ok := under(c.Args[0].Type()).(*types.Map); ok {
				return e.mapLength(st, x, mt)
			}
		case *SliceV:
			return x.Len
		case *ArrV:
			return Int(int64(len(x.E)))
		case *PtrV:
			return Int(under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			return x.Cap
		}
	case "append":
		s := args[0].(*SliceV)
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		if t, ok := args[1].(*Term); ok { // append([]byte, string...)
			return e.appendSlice(st, s, e.bytesOf(st, t, et).(*SliceV), et)
		}
		return e.appendSlice(st, s, args[1].(*SliceV), et)
	case "copy":
		d := args[0].(*SliceV)
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		var s *SliceV
		if t, ok := args[1].(*Term); ok {
			s = e.bytesOf(st, t, et).(*SliceV)
		} else {
			s = args[1].(*SliceV)
		}
		n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
		e.spliceInto(st, d.Arr, d.Arr, d.Off, s, n, et, nil)
		return n
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		m := args[0].(*Term)
		kt := e.keyTerm(args[1], mt.Key())
		if m.isInt() {
			return nil
		}
		if !isFreshRef(m) {
			// delete on a nil map does nothing
			s := st.clone()
			s.pc = And(st.pc, Not(Eq(m, Int(0))))
			n := st.clone()
			n.pc = And(st.pc, Eq(m, Int(0)))
			e.mapDelete(s, m, mt, kt)
			env := st.env
			mm, _ := e.merge([]*State{s, n}, st.pc)
			*st = *mm
			st.env = env
			return nil
		}
		e.mapDelete(st, m, mt, kt)
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = Ite(Le(r, a.(*Term)), r, a.(*Term))
			} else {
				r = Ite(Le(a.(*Term), r), r, a.(*Term))
			}
		}
		return r
	case "clear":
		if mt, ok := under(c.Args[0].Type()).(*types.Map); ok {
			e.mapInit(st, args[0].(*Term), mt)
			return nil
		}
	case "ssa:wrapnilchk":
		e.oblige(st, "safety", "nil-dereference", e.ptrNonNil(args[0].(*PtrV)))
		return args[0]
	case "recover":
		return AnyNil
	case "print", "println":
		return nil
	}
	panic(unsup("builtin %s", b.Name()))
}

func (e *Engine) appendSlice(st *State, s, t *SliceV, et types.Type) *SliceV {
	n := t.Len
	if n.isInt() && n.I.Sign() == 0 {
		return s
	}
	c := Le(Add(s.Len, n), s.Cap)
	r := e.newRef(st)
	dst := Ite(c, s.Arr, r)
	e.spliceInto(st, dst, s.Arr, Add(s.Off, s.Len), t, n, et, s)
	nc := e.fresh("cap", SInt)
	e.assume(st, Le(Add(s.Len, n), nc))
	return &SliceV{dst, s.Off, Add(s.Len, n), Ite(c, s.Cap, nc)}
}

// spliceInto stores, at backing array dst, the content of array src with
// n elements of t written at position p.
func (e *Engine) spliceInto(st *State, dst, src, p *Term, t *SliceV, n *Term, et types.Type, app *SliceV) {
	mk := memKey(et)
	for _, lf := range leaves(et) {
		k := "E|" + mk + "|" + lf.Path
		h := e.heapGet(st, k, SArr(SInt, SArr(SInt, lf.Sort)))
		base := Select(h, src)
		from := Select(h, t.Arr)
		var in *Term
		if n.isInt() && n.I.IsInt64() && n.I.Int64() <= 16 {
			in = base
			for i := int64(0); i < n.I.Int64(); i++ {
				in = Store(in, Add(p, Int(i)), Select(from, Add(t.Off, Int(i))))
			}
		} else {
			in = e.splice(base, p, from, t.Off, n)
		}
		e.writes = append(e.writes, Write{Key: k, Ref: dst, Idx: p, Pc: st.pc, App: app})
		e.heapSet(st, k, Store(h, dst, in))
	}
}

func (e *Engine) splice(a, p, b, q, n *Term) *Term {
	t := App("splice|"+a.Sort, a.Sort, a, p, b, q, n)
	if !e.boxSeen[t] {
		e.boxSeen[t] = true
		i := FreshBound("i", SInt)
		sel := Select(t, i)
		e.fact(forallPat([]*Term{i}, Eq(sel, Ite(And(Le(p, i), Lt(i, Add(p, n))), Select(b, Add(q, Sub(i, p))), Select(a, i))), sel))
		// found from what was put in
		if bi := Select(b, i); bi.Op == "select" {
			e.fact(forallPat([]*Term{i}, Implies(And(Le(q, i), Lt(i, Add(q, n))), Eq(Select(t, Add(p, Sub(i, q))), bi)), bi))
		}
	}
	return t
}

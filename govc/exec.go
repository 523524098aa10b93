package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc    *Term
	heap  map[string]*Term
	env   map[ssa.Value]Value
	allocB *Term // allocation base
	allocK int64
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, allocB: s.allocB, allocK: s.allocK, heap: make(map[string]*Term, len(s.heap)), env: make(map[ssa.Value]Value, len(s.env))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type Fact struct {
	T *Term
}

type Obligation struct {
	Name   string
	Kind   string // ensures, safety, pre, inv
	Fn     string
	PC     *Term
	Cond   *Term
	NFacts int
	// result
	Status string
	Solver string
	Ms     int64
	Detail string
}

type Write struct {
	Key  string
	Ref  *Term
	Idx  *Term // nil: whole object leaf
	Pc   *Term
	N    *Term   // with Idx: number of elements (nil: one)
	App  *SliceV // append to this slice
	MapK *Term
	Q    []*Term // inner-loop iterations the write ranges over
}

type Engine struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	facts      []*Term
	obls       []*Obligation
	ctx        []*Term // loop counters and bound variables in scope
	bound      []*Term // the quantified ones among ctx
	spec       int     // >0: evaluating a specification closure (no safety obligations)
	specials   []Value
	specialPtr map[string]*Term
	tags       map[string]int
	tagTypes   []types.Type
	ifaces     map[string]*types.Interface
	boxSeen    map[*Term]bool
	keySort    map[string]Sort
	keyVal     map[string]Sort
	initHeap   map[string]*Term
	wfSeen     map[*Term][]*Term
	stack      []*ssa.Function
	stubs      map[string]*ssa.Function
	closed     map[string][]types.Type
	opts       map[string]int
	writes     []Write
	vcPath     string
	infos      map[*ssa.Function]*fnInfo
	inlined    map[string]int
	modelsUsed map[string]int
	stubsUsed  map[string]int
	enums      map[string]enumInfo
	iterKeys   map[*Term]iterKey
	verifying  map[string]bool // stubbed functions the harness proves
	assumes    map[string]bool
	allocBase0 *Term
	boundedN   int  // >0: bounded unrolling limit
	bounded    bool // a bounded unrolling was used
	requires   []*Term
	covers     []*Obligation
	loopsSeen  map[string]int
	harness    string
	snaps      []*snapshot
	panicOK    int
	fuel       int
	uf         map[string]bool
	safetyOff  bool
	globalInit map[*ssa.Global]Value
	lits       map[*Term]Value
	taint      map[string][]*Term // fresh symbol -> terms whose values it may hold
	loopDepthAlloc []*Term
}

func NewEngine(prog *ssa.Program, vcPath string) *Engine {
	e := &Engine{prog: prog, vcPath: vcPath}
	e.reset()
	return e
}

func (e *Engine) reset() {
	specialMemo = map[*Term]bool{}
	loopHeaps = map[string]*loopHeap{}
	e.facts, e.obls, e.ctx, e.bound, e.spec = nil, nil, nil, nil, 0
	e.specials = nil
	e.specialPtr = map[string]*Term{}
	e.tags = map[string]int{}
	e.tagTypes = nil
	e.ifaces = map[string]*types.Interface{}
	e.boxSeen = map[*Term]bool{}
	e.keySort = map[string]Sort{}
	e.keyVal = map[string]Sort{}
	e.initHeap = map[string]*Term{}
	e.wfSeen = map[*Term][]*Term{}
	e.stack = nil
	e.stubs = map[string]*ssa.Function{}
	e.closed = map[string][]types.Type{}
	e.opts = map[string]int{}
	e.writes = nil
	if e.infos == nil {
		e.infos = map[*ssa.Function]*fnInfo{}
	}
	e.inlined = map[string]int{}
	e.modelsUsed = map[string]int{}
	e.stubsUsed = map[string]int{}
	e.verifying = map[string]bool{}
	e.assumes = map[string]bool{}
	e.requires = nil
	e.covers = nil
	e.loopsSeen = map[string]int{}
	e.snaps = nil
	e.boundedN = 0
	e.bounded = false
	e.fuel = 400000
	e.lits = map[*Term]Value{}
	e.taint = map[string][]*Term{}
	e.safetyOff = false
}

// ---- facts ----

func (e *Engine) fact(f *Term) {
	if f.Op == "true" {
		return
	}
	if f.bound {
		var vs []*Term
		for _, v := range freeBoundOf(f) {
			vs = append(vs, v)
		}
		f = Forall(vs, f)
	}
	e.facts = append(e.facts, f)
}

func (e *Engine) assume(st *State, f *Term) {
	e.fact(Implies(st.pc, f))
}

func (e *Engine) fresh(prefix string, s Sort) *Term {
	if len(e.ctx) == 0 {
		return Fresh(prefix, s)
	}
	return App(FreshName(prefix), s, append([]*Term{}, e.ctx...)...)
}

func (e *Engine) oblige(st *State, kind, name string, cond *Term) {
	if e.spec > 0 && kind == "safety" || kind == "safety" && e.safetyOff {
		return
	}
	pc := st.pc
	if cond.Op != "true" && pc.Op != "false" {
		// already implied syntactically?
		if And(pc, Not(cond)).Op == "false" {
			return
		}
		fn := ""
		if len(e.stack) > 0 {
			fn = e.stack[len(e.stack)-1].String()
		}
		c2, p2 := cond, pc
		if cond.bound || pc.bound {
			m := map[*Term]*Term{}
			for _, v := range append(freeBoundOf(cond), freeBoundOf(pc)...) {
				if m[v] == nil {
					m[v] = Fresh("sk", v.Sort)
				}
			}
			c2, p2 = Subst(cond, m), Subst(pc, m)
		}
		e.obls = append(e.obls, &Obligation{Name: name, Kind: kind, Fn: fn, PC: p2, Cond: c2, NFacts: len(e.facts)})
		e.assume(st, cond)
	} else if kind != "safety" && pc.Op != "false" {
		e.obls = append(e.obls, &Obligation{Name: name, Kind: kind, PC: pc, Cond: cond, NFacts: len(e.facts)})
	}
}

// ---- heap ----

func (e *Engine) heapGet(st *State, key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	return e.initArr(key, s)
}

func (e *Engine) initArr(key string, s Sort) *Term {
	if t, ok := e.initHeap[key]; ok {
		return t
	}
	e.keySort[key] = s
	t := Var("H0|"+key, s)
	if strings.HasSuffix(key, ".off") {
		// initial slices start at the beginning of their backing array
		t = constDeep(s)
	}
	e.initHeap[key] = t
	if strings.HasPrefix(key, "MD|") {
		// the nil map is empty
		_, in := arrSorts(s)
		e.fact(Eq(Select(t, Int(0)), ConstArr(in, False)))
	}
	if strings.HasPrefix(key, "ML|") {
		e.fact(Eq(Select(t, Int(0)), Int(0)))
	}
	return t
}

func constDeep(s Sort) *Term {
	if s == SInt {
		return Int(0)
	}
	_, v := arrSorts(s)
	return ConstArr(s, constDeep(v))
}

func (e *Engine) heapSet(st *State, key string, t *Term) {
	e.keySort[key] = t.Sort
	st.heap[key] = t
}

func (e *Engine) newRef(st *State) *Term {
	r := Add(st.allocB, Int(st.allocK))
	st.allocK++
	return r
}

func pathStr(root types.Type, path []int) (string, types.Type) {
	s := ""
	t := root
	for _, i := range path {
		switch u := under(t).(type) {
		case *types.Struct:
			f := u.Field(i)
			s += "." + f.Name()
			t = f.Type()
		case *types.Array:
			s += fmt.Sprintf(".[%d]", i)
			t = u.Elem()
		default:
			panic("bad path")
		}
	}
	return s, t
}

func (e *Engine) loadLoc(st *State, l *Loc, t types.Type) Value {
	switch l.Kind {
	case LGlobal:
		ps, ft := pathStr(l.Root, l.Path)
		if len(l.Path) == 0 {
			if v, ok := e.globalConst(l.Global); ok {
				if _, set := st.heap["G|"+l.Global.String()]; !set {
					return v
				}
			}
		}
		var ts []*Term
		for _, lf := range leaves(ft) {
			k := "G|" + l.Global.String() + ps + lf.Path
			ts = append(ts, underPC(st.pc, e.heapGet(st, k, lf.Sort)))
		}
		v := e.fromLeaves(ts, ft)
		e.wf(st, ts, ft)
		return v
	case LArr:
		at := under(l.Root).(*types.Array)
		a := &ArrV{T: l.Root}
		if at.Len() > 64 {
			panic(unsup("load of large array"))
		}
		for i := int64(0); i < at.Len(); i++ {
			a.E = append(a.E, e.loadLoc(st, &Loc{Kind: LElem, Root: at.Elem(), Ref: l.Ref, Idx: Int(i)}, at.Elem()))
		}
		return a
	}
	ps, ft := pathStr(l.Root, l.Path)
	mk := memKey(l.Root)
	var ts []*Term
	for _, lf := range leaves(ft) {
		if l.Kind == LObj {
			k := "H|" + mk + "|" + ps + lf.Path
			ts = append(ts, underPC(st.pc, Select(e.heapGet(st, k, SArr(SInt, lf.Sort)), l.Ref)))
		} else {
			k := "E|" + mk + "|" + ps + lf.Path
			ts = append(ts, underPC(st.pc, Select(underPC(st.pc, Select(e.heapGet(st, k, SArr(SInt, SArr(SInt, lf.Sort))), l.Ref)), l.Idx)))
		}
	}
	e.wf(st, ts, ft)
	return e.fromLeaves(ts, ft)
}

func (e *Engine) storeLoc(st *State, l *Loc, v Value, g *Term) {
	if l.Kind == LGlobal {
		ps, ft := pathStr(l.Root, l.Path)
		ts := e.toLeaves(v, ft)
		for i, lf := range leaves(ft) {
			k := "G|" + l.Global.String() + ps + lf.Path
			e.writes = append(e.writes, Write{Key: k, Ref: Int(0), Pc: st.pc})
			e.heapSet(st, k, Ite(g, ts[i], e.heapGet(st, k, lf.Sort)))
		}
		return
	}
	if l.Kind == LArr {
		at := under(l.Root).(*types.Array)
		for i, x := range v.(*ArrV).E {
			e.storeLoc(st, &Loc{Kind: LElem, Root: at.Elem(), Ref: l.Ref, Idx: Int(int64(i))}, x, g)
		}
		return
	}
	ps, ft := pathStr(l.Root, l.Path)
	ts := e.toLeaves(v, ft)
	mk := memKey(l.Root)
	for i, lf := range leaves(ft) {
		if l.Kind == LObj {
			k := "H|" + mk + "|" + ps + lf.Path
			h := e.heapGet(st, k, SArr(SInt, lf.Sort))
			e.writes = append(e.writes, Write{Key: k, Ref: l.Ref, Pc: st.pc})
			e.heapSet(st, k, Ite(g, Store(h, l.Ref, ts[i]), h))
		} else {
			k := "E|" + mk + "|" + ps + lf.Path
			h := e.heapGet(st, k, SArr(SInt, SArr(SInt, lf.Sort)))
			e.writes = append(e.writes, Write{Key: k, Ref: l.Ref, Idx: l.Idx, Pc: st.pc})
			e.heapSet(st, k, Ite(g, Store(h, l.Ref, Store(Select(h, l.Ref), l.Idx, ts[i])), h))
		}
	}
}

// locNonNil is the condition that a location can be dereferenced.
func locNonNil(l *Loc) *Term {
	if l == nil {
		return False
	}
	if (l.Kind == LObj || l.Kind == LArr) && len(l.Path) == 0 {
		if isFreshRef(l.Ref) {
			return True
		}
		return Not(Eq(l.Ref, Int(0)))
	}
	return True
}

func (e *Engine) ptrNonNil(p *PtrV) *Term {
	r := False
	for _, a := range p.Alts {
		r = Or(r, And(a.G, locNonNil(a.Loc)))
	}
	if len(p.Alts) == 1 {
		return locNonNil(p.Alts[0].Loc)
	}
	return r
}

func (e *Engine) load(st *State, p *PtrV, t types.Type) Value {
	e.oblige(st, "safety", "nil-dereference", e.ptrNonNil(p))
	var r Value
	for i := len(p.Alts) - 1; i >= 0; i-- {
		a := p.Alts[i]
		if a.Loc == nil {
			continue
		}
		v := e.loadLoc(st, a.Loc, t)
		if r == nil {
			r = v
		} else {
			r = iteVal(e, a.G, v, r, t)
		}
	}
	if r == nil {
		st.pc = False
		return e.zero(t)
	}
	return r
}

func (e *Engine) store(st *State, p *PtrV, v Value) {
	e.oblige(st, "safety", "nil-dereference", e.ptrNonNil(p))
	for _, a := range p.Alts {
		if a.Loc == nil {
			continue
		}
		g := a.G
		if len(p.Alts) == 1 {
			g = True
		}
		e.storeLoc(st, a.Loc, v, g)
	}
}

// wf adds the type invariants of freshly read leaves.
func (e *Engine) wf(st *State, ts []*Term, t types.Type) {
	lv := leaves(t)
	for i, l := range lv {
		x := ts[i]
		if x.isConst() {
			continue
		}
		switch l.Sort {
		case SInt:
		case SAny:
		default:
			continue
		}
		// opaque terms only
		if x.Op == "ite" || x.Op == "+" || x.Op == "-" || x.Op == "*" {
			if l.Role == "" {
				continue
			}
		}
		if isFreshRef(x) {
			continue
		}
		skip := false
		for _, pc := range e.wfSeen[x] {
			if impliesSyn(st.pc, pc) {
				skip = true
			}
		}
		if skip {
			continue
		}
		e.wfSeen[x] = append(e.wfSeen[x], st.pc)
		switch l.Role {
		case "arr":
			e.refFact(st, x)
			e.assume(st, Implies(Eq(x, Int(0)), Eq(ts[i+3], Int(0))))
			continue
		case "off":
			e.assume(st, Le(Int(0), x))
			continue
		case "len":
			e.assume(st, And(Le(Int(0), x), Le(x, ts[i+1])))
			continue
		case "cap":
			continue
		}
		switch u := under(l.T).(type) {
		case *types.Basic:
			lo, hi := intRange(u)
			if lo != nil {
				e.assume(st, And(Le(IntB(lo), x), Le(x, IntB(hi))))
			}
		case *types.Pointer, *types.Map, *types.Chan:
			e.refFact(st, x)
		case *types.Interface:
			if x.Op == "ite" || x.Op == "ctor" {
				continue
			}
			lo := Le(Int(0), Sel("rv", SInt, x))
			if e.mentionsSpecial(x) {
				lo = Or(lo, Le(Sel("rv", SInt, x), Int(specialBase)))
			}
			e.assume(st, Implies(Is("vRef", x), And(lo, Lt(Sel("rv", SInt, x), Add(st.allocB, Int(st.allocK))))))
			if u.NumMethods() > 0 {
				e.assume(st, Or(Is("anil", x), e.implements(x, l.T)))
			}
			k := typeKey(l.T)
			if cs, ok := e.closed[k]; ok {
				var alts []*Term
				for _, c := range cs {
					alts = append(alts, e.isType(x, c))
				}
				e.assume(st, Or(append(alts, Is("anil", x))...))
			}
		}
	}
}

func impliesSyn(a, b *Term) bool {
	if b.Op == "true" || a == b {
		return true
	}
	have := map[*Term]bool{}
	for _, c := range conj(a) {
		have[c] = true
	}
	for _, c := range conj(b) {
		if !have[c] {
			return false
		}
	}
	return true
}

func (e *Engine) refFact(st *State, x *Term) {
	if x.Op == "ite" || x.isInt() {
		return
	}
	if _, ok := refBelow[x]; !ok && !x.bound {
		refBelow[x] = allocPt{st.allocB, st.allocK, allocSeq[st.allocB]}
	}
	if x.Op == "select" && e.allocBase0 != nil {
		// memory of the initial state only refers to initial objects
		root := x
		for root.Op == "select" {
			root = root.Args[0]
		}
		if root.Op == "var" && strings.HasPrefix(root.Name, "H0|") {
			if !x.bound {
				refBelow[x] = allocPt{e.allocBase0, 0, allocSeq[e.allocBase0]}
			}
			e.assume(st, And(Le(Int(0), x), Lt(x, e.allocBase0)))
			return
		}
	}
	lo := Le(Int(0), x)
	if e.mentionsSpecial(x) {
		lo = Or(lo, Le(x, Int(specialBase)))
	}
	e.assume(st, And(lo, Lt(x, Add(st.allocB, Int(st.allocK)))))
}

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch b.Kind() {
	case types.Int, types.Int64:
		return new(big.Int).Neg(sh(63)), new(big.Int).Sub(sh(63), one)
	case types.Int32:
		return new(big.Int).Neg(sh(31)), new(big.Int).Sub(sh(31), one)
	case types.Int16:
		return new(big.Int).Neg(sh(15)), new(big.Int).Sub(sh(15), one)
	case types.Int8:
		return new(big.Int).Neg(sh(7)), new(big.Int).Sub(sh(7), one)
	case types.Uint, types.Uint64, types.Uintptr:
		return new(big.Int), new(big.Int).Sub(sh(64), one)
	case types.Uint32:
		return new(big.Int), new(big.Int).Sub(sh(32), one)
	case types.Uint16:
		return new(big.Int), new(big.Int).Sub(sh(16), one)
	case types.Uint8:
		return new(big.Int), new(big.Int).Sub(sh(8), one)
	}
	return nil, nil
}

// symbolic makes an arbitrary well-typed value.
func (e *Engine) symbolic(st *State, name string, t types.Type) Value {
	lv := leaves(t)
	ts := make([]*Term, len(lv))
	for i, l := range lv {
		if l.Role == "off" {
			ts[i] = Int(0)
			continue
		}
		ts[i] = e.fresh(name+l.Path, l.Sort)
	}
	e.wf(st, ts, t)
	return e.fromLeaves(ts, t)
}

// ---- function structure ----

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	ord    int
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	rpoIdx map[*ssa.BasicBlock]int
	loops  []*loopInfo
	byHead map[*ssa.BasicBlock]*loopInfo
	inner  map[*ssa.BasicBlock]*loopInfo // innermost loop containing block
	ipdom  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // postdominators
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{rpoIdx: map[*ssa.BasicBlock]int{}, byHead: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpoIdx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.byHead[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.byHead[s] = l
					fi.loops = append(fi.loops, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			} else if fi.rpoIdx[s] <= fi.rpoIdx[b] {
				panic(unsup("irreducible control flow in %s", fn))
			}
		}
	}
	for i, l := range fi.loops {
		l.ord = i
		for b := range l.blocks {
			cur := fi.inner[b]
			if cur == nil || len(l.blocks) < len(cur.blocks) {
				fi.inner[b] = l
			}
		}
		for _, m := range fi.loops {
			if m != l && m.blocks[l.header] && len(m.blocks) > len(l.blocks) {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	// postdominators, ignoring panicking blocks
	fi.ipdom = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	dead := map[*ssa.BasicBlock]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range fi.rpo {
			if dead[b] {
				continue
			}
			d := false
			if len(b.Instrs) > 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
					d = true
				}
			}
			if len(b.Succs) > 0 {
				all := true
				for _, s := range b.Succs {
					if !dead[s] {
						all = false
					}
				}
				d = d || all
			}
			if d {
				dead[b] = true
				ch = true
			}
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		if !dead[b] {
			all[b] = true
		}
	}
	// within a loop, coming round again does not count as getting there: the
	// postdominators of a block are those of the graph without the edges back
	// to the header of its innermost loop
	pdom := func(l *loopInfo) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
		pd := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		succs := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
		ends := map[*ssa.BasicBlock]bool{}
		for _, b := range fi.rpo {
			if dead[b] {
				continue
			}
			for _, s := range b.Succs {
				if l != nil && s == l.header && l.blocks[b] {
					ends[b] = true
				} else if !dead[s] {
					succs[b] = append(succs[b], s)
				}
			}
			if len(b.Succs) == 0 {
				ends[b] = true
			}
			if ends[b] {
				pd[b] = map[*ssa.BasicBlock]bool{b: true}
				continue
			}
			m := map[*ssa.BasicBlock]bool{}
			for x := range all {
				m[x] = true
			}
			pd[b] = m
		}
		for ch := true; ch; {
			ch = false
			for i := len(fi.rpo) - 1; i >= 0; i-- {
				b := fi.rpo[i]
				if dead[b] || ends[b] {
					continue
				}
				m := map[*ssa.BasicBlock]bool{}
				for k, s := range succs[b] {
					if k == 0 {
						for x := range pd[s] {
							m[x] = true
						}
						continue
					}
					for x := range m {
						if !pd[s][x] {
							delete(m, x)
						}
					}
				}
				m[b] = true
				if len(m) != len(pd[b]) {
					pd[b] = m
					ch = true
				}
			}
		}
		return pd
	}
	pds := map[*loopInfo]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		l := fi.inner[b]
		if pds[l] == nil {
			pds[l] = pdom(l)
		}
		fi.ipdom[b] = pds[l][b]
	}
	e.infos[fn] = fi
	return fi
}

// ---- frames ----

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type retState struct {
	st  *State
	res []Value
}

type deferred struct {
	call *ssa.Defer
	args []Value
	fn   Value
	pc   *Term
}

type Frame struct {
	e      *Engine
	fn     *ssa.Function
	bind   []Value
	info   *fnInfo
	rets   []retState
	defers []deferred

	summarising int // inside a loop summary
	entry  *Term
}

const maxDepth = 80

// execFunc runs fn symbolically; st is updated to the merged return state.
func (e *Engine) execFunc(fn *ssa.Function, args []Value, bind []Value, st *State) []Value {
	if len(fn.Blocks) == 0 {
		panic(unsup("no body for %s", fn))
	}
	depth := 0
	for _, f := range e.stack {
		if f == fn {
			depth++
		}
	}
	if lim := e.opts["recursion"]; depth > lim {
		panic(unsup("recursion through %s", fn))
	}
	if len(e.stack) > maxDepth {
		panic(unsup("call depth exceeded at %s", fn))
	}
	e.inlined[fn.String()]++
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{e: e, fn: fn, bind: bind, info: e.info(fn), entry: st.pc}
	callerEnv := st.env
	in := &State{pc: st.pc, heap: st.heap, allocB: st.allocB, allocK: st.allocK, env: map[ssa.Value]Value{}}
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	fr.run(nil, fn.Blocks[0], []edge{{nil, fn.Blocks[0], in}})
	if len(fr.rets) == 0 {
		st.pc = False
		return nil
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	m, guards := e.merge(sts, st.pc)
	nres := len(fr.rets[0].res)
	res := make([]Value, nres)
	for i := 0; i < nres; i++ {
		res[i] = fr.rets[len(fr.rets)-1].res[i]
		for j := len(fr.rets) - 2; j >= 0; j-- {
			res[i] = iteVal(e, guards[j], fr.rets[j].res[i], res[i], nil)
		}
	}
	st.heap, st.allocB, st.allocK = m.heap, m.allocB, m.allocK
	st.pc = m.pc
	st.env = callerEnv
	return res
}

// merge joins states; if want is non-nil it is known to be the path condition
// of the join.
func (e *Engine) merge(sts []*State, want *Term) (*State, []*Term) {
	if len(sts) == 1 {
		s := sts[0]
		if want != nil {
			s.pc = want
		}
		return s, []*Term{True}
	}
	common := map[*Term]bool{}
	for _, c := range conj(sts[0].pc) {
		common[c] = true
	}
	for _, s := range sts[1:] {
		has := map[*Term]bool{}
		for _, c := range conj(s.pc) {
			has[c] = true
		}
		for c := range common {
			if !has[c] {
				delete(common, c)
			}
		}
	}
	var cs []*Term
	for _, c := range conj(sts[0].pc) {
		if common[c] {
			cs = append(cs, c)
		}
	}
	guards := make([]*Term, len(sts))
	for i, s := range sts {
		var r []*Term
		for _, c := range conj(s.pc) {
			if !common[c] {
				r = append(r, c)
			}
		}
		guards[i] = And(r...)
	}
	out := &State{env: map[ssa.Value]Value{}, heap: map[string]*Term{}}
	if want != nil {
		out.pc = want
	} else {
		out.pc = And(append(cs, Or(guards...))...)
	}
	// allocation counter
	out.allocB, out.allocK = sts[0].allocB, sts[0].allocK
	same := true
	for _, s := range sts[1:] {
		if s.allocB != out.allocB {
			same = false
		}
		if s.allocK > out.allocK {
			out.allocK = s.allocK
		}
	}
	if !same {
		b := e.newAllocBase()
		for _, s := range sts {
			e.fact(Implies(s.pc, Le(Add(s.allocB, Int(s.allocK)), b)))
		}
		out.allocB, out.allocK = b, 0
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	for k := range keys {
		var r *Term
		for i := len(sts) - 1; i >= 0; i-- {
			v, ok := sts[i].heap[k]
			if !ok {
				v = e.initArr(k, e.keySort[k])
			}
			if r == nil {
				r = v
			} else {
				r = Ite(guards[i], v, r)
			}
		}
		out.heap[k] = r
	}
	for _, s := range sts {
		for k := range s.env {
			if _, done := out.env[k]; done {
				continue
			}
			var r Value
			have := false
			for i := len(sts) - 1; i >= 0; i-- {
				v, ok := sts[i].env[k]
				if !ok {
					continue
				}
				if !have {
					r, have = v, true
				} else if r != v {
					r = iteVal(e, guards[i], v, r, k.Type())
				}
			}
			out.env[k] = r
		}
	}
	return out, guards
}

func (e *Engine) newAllocBase() *Term {
	b := e.fresh("alloc", SInt)
	allocSeq[b] = len(allocSeq) + 1
	return b
}

type regionResult struct {
	exits []edge
	back  []edge
}

// run executes the blocks of a region (nil: whole function) starting at
// entry with the given incoming edges.
func (fr *Frame) run(loop *loopInfo, entry *ssa.BasicBlock, in []edge) regionResult {
	e := fr.e
	var res regionResult
	pending := map[*ssa.BasicBlock][]edge{entry: in}
	pcAt := map[*ssa.BasicBlock]*Term{}
	inRegion := func(b *ssa.BasicBlock) bool { return loop == nil || loop.blocks[b] }
	start := fr.info.rpoIdx[entry]
	for _, b := range fr.info.rpo[start:] {
		if !inRegion(b) {
			continue
		}
		es := pending[b]
		delete(pending, b)
		var live []edge
		for _, x := range es {
			if x.st.pc.Op != "false" {
				live = append(live, x)
			}
		}
		if len(live) == 0 {
			continue
		}
		// nested loop?
		if l := fr.info.byHead[b]; l != nil && l != loop {
			exits := fr.execLoop(l, live, pcAt)
			for _, x := range exits {
				if !inRegion(x.to) {
					res.exits = append(res.exits, x)
				} else if loop != nil && x.to == loop.header {
					res.back = append(res.back, x)
				} else {
					pending[x.to] = append(pending[x.to], x)
				}
			}
			continue
		}
		var st *State
		if loop != nil && b == loop.header && len(live) == 1 && live[0].from == nil {
			st = live[0].st // phis already set
		} else {
			st = fr.enter(b, live, pcAt)
		}
		pcAt[b] = st.pc
		outs := fr.block(b, st)
		for _, x := range outs {
			if x.st.pc.Op == "false" {
				continue
			}
			switch {
			case loop != nil && x.to == loop.header:
				res.back = append(res.back, x)
			case !inRegion(x.to):
				res.exits = append(res.exits, x)
			default:
				pending[x.to] = append(pending[x.to], x)
			}
		}
	}
	_ = e
	return res
}

// enter merges incoming edges at b and evaluates its phis.
func (fr *Frame) enter(b *ssa.BasicBlock, es []edge, pcAt map[*ssa.BasicBlock]*Term) *State {
	e := fr.e
	var sts []*State
	for _, x := range es {
		sts = append(sts, x.st)
	}
	var want *Term
	if d := b.Idom(); d != nil && len(b.Preds) > 1 && pcAt != nil {
		if p, ok := pcAt[d]; ok && fr.info.ipdom[d] != nil && fr.info.ipdom[d][b] && fr.info.inner[d] == fr.info.inner[b] {
			want = p
		}
	}
	// phis
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	vals := make([][]Value, len(es))
	for i, x := range es {
		for _, p := range phis {
			vals[i] = append(vals[i], fr.get(x.st, p.Edges[predIndex(b, x.from)]))
		}
	}
	m, guards := e.merge(sts, want)
	if len(sts) == 1 {
		m = m.clone()
	}
	for pi, p := range phis {
		r := vals[len(es)-1][pi]
		for i := len(es) - 2; i >= 0; i-- {
			r = iteVal(e, guards[i], vals[i][pi], r, p.Type())
		}
		m.env[p] = r
	}
	return m
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("pred not found")
}

func (fr *Frame) get(st *State, v ssa.Value) Value {
	e := fr.e
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return &FuncV{[]FuncAlt{{G: True, Fn: v}}}
	case *ssa.Global:
		return &PtrV{[]PtrAlt{{True, &Loc{Kind: LGlobal, Root: v.Type().Underlying().(*types.Pointer).Elem(), Global: v}}}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.bind[i]
			}
		}
	case *ssa.Builtin:
		return &FuncV{[]FuncAlt{{G: True, Model: "builtin." + v.Name()}}}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	panic(unsup("undefined SSA value %s (%s) in %s", v.Name(), v, fr.fn))
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch u := under(c.Type()).(type) {
	case *types.Basic:
		switch basicSort(u) {
		case SBool:
			return Bool(constant.BoolVal(c.Value))
		case SStr:
			if c.Value.Kind() == constant.String {
				return Str(constant.StringVal(c.Value))
			}
		case SFloat:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return Float(f)
		case SInt:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Int(i)
			}
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return IntB(b)
		}
	}
	panic(unsup("constant %s", c))
}

func (e *Engine) pos(p token.Pos) string {
	return e.prog.Fset.Position(p).String()
}

// block executes the instructions of b and returns outgoing edges.
func (fr *Frame) block(b *ssa.BasicBlock, st *State) []edge {
	e := fr.e
	for _, in := range b.Instrs {
		e.fuel--
		if e.fuel < 0 {
			panic(unsup("symbolic execution budget exhausted in %s", fr.fn))
		}
		if st.pc.Op == "false" {
			return nil
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := underPC(st.pc, fr.get(st, in.Cond).(*Term))
			t, f := st, st
			if c.Op == "true" {
				return []edge{{b, b.Succs[0], st}}
			}
			if c.Op == "false" {
				return []edge{{b, b.Succs[1], st}}
			}
			f = st.clone()
			t = st
			f.pc = And(st.pc, Not(c))
			t.pc = And(st.pc, c)
			return []edge{{b, b.Succs[0], t}, {b, b.Succs[1], f}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, fr.get(st, r))
			}
			fr.rets = append(fr.rets, retState{st, res})
			return nil
		case *ssa.Panic:
			e.oblige(st, "safety", "explicit-panic", False)
			return nil
		default:
			fr.instr(in, st)
		}
	}
	return nil
}

func (fr *Frame) instr(in ssa.Instruction, st *State) {
	e := fr.e
	if v, ok := in.(ssa.Value); ok {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					if !strings.Contains(u.Msg, " at ") {
						u.Msg += " at " + e.pos(v.Pos()) + " in " + fr.fn.String()
					}
					panic(u)
				}
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "while executing %s = %s in %s: %v\n", v.Name(), v, fr.fn, r)
				}
				panic(r)
			}
		}()
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		if virtualArgs(in) {
			return
		}
		et := in.Type().Underlying().(*types.Pointer).Elem()
		r := e.newRef(st)
		var l *Loc
		if _, ok := under(et).(*types.Array); ok {
			l = &Loc{Kind: LArr, Root: et, Ref: r}
		} else {
			l = &Loc{Kind: LObj, Root: et, Ref: r}
		}
		e.zeroInit(st, l)
		st.env[in] = &PtrV{[]PtrAlt{{True, l}}}
	case *ssa.BinOp:
		st.env[in] = e.binop(st, in.Op, fr.get(st, in.X), fr.get(st, in.Y), in.X.Type(), in.Type())
	case *ssa.UnOp:
		st.env[in] = fr.unop(st, in)
	case *ssa.Call:
		st.env[in] = fr.call(st, &in.Call, in)
	case *ssa.ChangeInterface:
		st.env[in] = fr.get(st, in.X)
	case *ssa.ChangeType:
		v := fr.get(st, in.X)
		st.env[in] = e.changeType(v, in.X.Type(), in.Type())
	case *ssa.Convert:
		st.env[in] = e.convert(st, fr.get(st, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		st.env[in] = fr.get(st, in.Tuple).(*TupleV).E[in.Index]
	case *ssa.Field:
		st.env[in] = fr.get(st, in.X).(*StructV).F[in.Field]
	case *ssa.FieldAddr:
		p := fr.get(st, in.X).(*PtrV)
		e.oblige(st, "safety", "nil-dereference", e.ptrNonNil(p))
		var alts []PtrAlt
		for _, a := range p.Alts {
			if a.Loc == nil {
				continue
			}
			l := *a.Loc
			l.Path = append(append([]int{}, a.Loc.Path...), in.Field)
			alts = append(alts, PtrAlt{a.G, &l})
		}
		if len(alts) == 0 {
			st.pc = False
			return
		}
		st.env[in] = &PtrV{alts}
	case *ssa.Index:
		st.env[in] = fr.index(st, in)
	case *ssa.IndexAddr:
		if a, ok := in.X.(*ssa.Alloc); ok && virtualArgs(a) {
			return
		}
		st.env[in] = fr.indexAddr(st, in)
	case *ssa.Lookup:
		st.env[in] = fr.lookup(st, in)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, fr.get(st, b))
		}
		st.env[in] = &FuncV{[]FuncAlt{{G: True, Fn: fn, Bind: bs}}}
	case *ssa.MakeInterface:
		st.env[in] = e.makeAny(fr.get(st, in.X), in.X.Type())
	case *ssa.MakeMap:
		r := e.newRef(st)
		e.mapInit(st, r, in.Type())
		st.env[in] = r
	case *ssa.MakeSlice:
		n := fr.get(st, in.Len).(*Term)
		c := fr.get(st, in.Cap).(*Term)
		e.oblige(st, "safety", "makeslice-bounds", And(Le(Int(0), n), Le(n, c)))
		et := under(in.Type()).(*types.Slice).Elem()
		r := e.newRef(st)
		e.zeroArr(st, r, et)
		st.env[in] = &SliceV{r, Int(0), n, c}
	case *ssa.MapUpdate:
		fr.mapUpdate(st, in)
	case *ssa.Next:
		st.env[in] = fr.next(st, in)
	case *ssa.Range:
		st.env[in] = fr.mkRange(st, in)
	case *ssa.Slice:
		if a, ok := in.X.(*ssa.Alloc); ok && virtualArgs(a) {
			st.env[in] = fr.virtualSlice(st, a)
			return
		}
		st.env[in] = fr.slice(st, in)
	case *ssa.Store:
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			if a, ok := ia.X.(*ssa.Alloc); ok && virtualArgs(a) {
				return // read where the list is used
			}
		}
		e.store(st, fr.get(st, in.Addr).(*PtrV), fr.get(st, in.Val))
	case *ssa.TypeAssert:
		st.env[in] = fr.typeAssert(st, in)
	case *ssa.Defer:
		if fr.info.inner[in.Block()] != nil && fr.summarising > 0 {
			panic(unsup("defer in a loop"))
		}
		d := deferred{call: in, pc: st.pc}
		if !in.Call.IsInvoke() {
			d.fn = fr.get(st, in.Call.Value)
		} else {
			d.fn = fr.get(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, fr.get(st, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			// executed only where the defer statement was reached
			if !impliesSyn(st.pc, d.pc) {
				if And(st.pc, d.pc).Op == "false" {
					continue
				}
				yes := st.clone()
				yes.pc = And(st.pc, d.pc)
				no := st.clone()
				no.pc = And(st.pc, Not(d.pc))
				env := st.env
				fr.callValue(yes, &d.call.Call, d.fn, d.args, d.call)
				m, _ := e.merge([]*State{yes, no}, st.pc)
				*st = *m
				st.env = env
				continue
			}
			fr.callValue(st, &d.call.Call, d.fn, d.args, d.call)
		}
	case *ssa.Go:
		panic(unsup("go statement at %s", e.pos(in.Pos())))
	default:
		panic(unsup("instruction %T", in))
	}
}

func (e *Engine) changeType(v Value, from, to types.Type) Value {
	if s, ok := v.(*StructV); ok {
		fs := under(from).(*types.Struct)
		tsx := under(to).(*types.Struct)
		r := &StructV{T: to}
		for i := range s.F {
			r.F = append(r.F, e.changeType(s.F[i], fs.Field(i).Type(), tsx.Field(i).Type()))
		}
		return r
	}
	if p, ok := v.(*PtrV); ok {
		te := under(to).(*types.Pointer).Elem()
		fe := under(from).(*types.Pointer).Elem()
		if isStruct(te) && typeKey(te) != typeKey(fe) {
			panic(unsup("pointer conversion %s to %s", from, to))
		}
		// same region (underlying types agree): retarget the root
		var alts []PtrAlt
		for _, a := range p.Alts {
			if a.Loc != nil && len(a.Loc.Path) == 0 && a.Loc.Kind != LElem && a.Loc.Kind != LGlobal {
				l := *a.Loc
				l.Root = te
				alts = append(alts, PtrAlt{a.G, &l})
			} else {
				alts = append(alts, a)
			}
		}
		return &PtrV{alts}
	}
	return v
}

// zeroInit stores zero values at a freshly allocated location.
func (e *Engine) zeroInit(st *State, l *Loc) {
	if l.Kind == LArr {
		e.zeroArr(st, l.Ref, under(l.Root).(*types.Array).Elem())
		return
	}
	mk := memKey(l.Root)
	for _, lf := range leaves(l.Root) {
		k := "H|" + mk + "|" + lf.Path
		h := e.heapGet(st, k, SArr(SInt, lf.Sort))
		e.writes = append(e.writes, Write{Key: k, Ref: l.Ref, Pc: st.pc})
		e.heapSet(st, k, Store(h, l.Ref, zeroOf(lf.Sort)))
	}
}

func (e *Engine) zeroArr(st *State, r *Term, et types.Type) {
	mk := memKey(et)
	for _, lf := range leaves(et) {
		k := "E|" + mk + "|" + lf.Path
		inner := SArr(SInt, lf.Sort)
		h := e.heapGet(st, k, SArr(SInt, inner))
		e.writes = append(e.writes, Write{Key: k, Ref: r, Pc: st.pc})
		e.heapSet(st, k, Store(h, r, ConstArr(inner, zeroOf(lf.Sort))))
	}
}

func (fr *Frame) index(st *State, in *ssa.Index) Value {
	e := fr.e
	i := fr.get(st, in.Index).(*Term)
	x := fr.get(st, in.X)
	switch x := x.(type) {
	case *Term: // string
		e.oblige(st, "safety", "index-out-of-range", And(Le(Int(0), i), Lt(i, StrLen(x))))
		return e.byteAt(st, x, i)
	case *ArrV:
		e.oblige(st, "safety", "index-out-of-range", And(Le(Int(0), i), Lt(i, Int(int64(len(x.E))))))
		r := x.E[len(x.E)-1]
		for j := len(x.E) - 2; j >= 0; j-- {
			r = iteVal(e, Eq(i, Int(int64(j))), x.E[j], r, nil)
		}
		return r
	}
	panic(unsup("index of %T", x))
}

func (e *Engine) byteAt(st *State, s, i *Term) *Term {
	c := StrOp("str.to_code", SInt, StrOp("str.at", SStr, s, i))
	if !c.isInt() {
		e.assume(st, And(Le(Int(0), c), Le(c, Int(255))))
	}
	return c
}

func (fr *Frame) indexAddr(st *State, in *ssa.IndexAddr) Value {
	e := fr.e
	i := fr.get(st, in.Index).(*Term)
	switch x := fr.get(st, in.X).(type) {
	case *SliceV:
		e.oblige(st, "safety", "index-out-of-range", And(Le(Int(0), i), Lt(i, x.Len)))
		et := under(in.X.Type()).(*types.Slice).Elem()
		return &PtrV{[]PtrAlt{{True, &Loc{Kind: LElem, Root: et, Ref: x.Arr, Idx: Add(x.Off, i)}}}}
	case *PtrV:
		at := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		e.oblige(st, "safety", "index-out-of-range", And(Le(Int(0), i), Lt(i, Int(at.Len()))))
		e.oblige(st, "safety", "nil-dereference", e.ptrNonNil(x))
		var alts []PtrAlt
		for _, a := range x.Alts {
			if a.Loc == nil {
				continue
			}
			if a.Loc.Kind == LArr {
				alts = append(alts, PtrAlt{a.G, &Loc{Kind: LElem, Root: at.Elem(), Ref: a.Loc.Ref, Idx: i}})
				continue
			}
			if !i.isInt() {
				panic(unsup("variable index into an array field"))
			}
			l := *a.Loc
			l.Path = append(append([]int{}, a.Loc.Path...), int(i.I.Int64()))
			alts = append(alts, PtrAlt{a.G, &l})
		}
		return &PtrV{alts}
	}
	panic(unsup("index address"))
}

func (fr *Frame) slice(st *State, in *ssa.Slice) Value {
	e := fr.e
	var lo, hi, mx *Term
	lo = Int(0)
	if in.Low != nil {
		lo = fr.get(st, in.Low).(*Term)
	}
	if in.High != nil {
		hi = fr.get(st, in.High).(*Term)
	}
	if in.Max != nil {
		mx = fr.get(st, in.Max).(*Term)
	}
	switch x := fr.get(st, in.X).(type) {
	case *Term:
		if hi == nil {
			hi = StrLen(x)
		}
		e.oblige(st, "safety", "slice-out-of-range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(x))))
		return Substr(x, lo, Sub(hi, lo))
	case *SliceV:
		if hi == nil {
			hi = x.Len
		}
		cp := x.Cap
		if mx != nil {
			e.oblige(st, "safety", "slice-out-of-range", And(Le(hi, mx), Le(mx, x.Cap)))
			cp = mx
		}
		e.oblige(st, "safety", "slice-out-of-range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, x.Cap)))
		return &SliceV{x.Arr, Add(x.Off, lo), Sub(hi, lo), Sub(cp, lo)}
	case *PtrV:
		at := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		if len(x.Alts) != 1 || x.Alts[0].Loc == nil || x.Alts[0].Loc.Kind != LArr {
			panic(unsup("slice of array pointer"))
		}
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.oblige(st, "safety", "slice-out-of-range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		return &SliceV{x.Alts[0].Loc.Ref, lo, Sub(hi, lo), Sub(mx, lo)}
	}
	panic(unsup("slice expression"))
}

func (fr *Frame) unop(st *State, in *ssa.UnOp) Value {
	e := fr.e
	x := fr.get(st, in.X)
	switch in.Op {
	case token.MUL:
		return e.load(st, x.(*PtrV), in.Type())
	case token.NOT:
		return Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.Sort == SFloat {
			return mk("fp.neg", SFloat, t)
		}
		return Sub(Int(0), t)
	}
	panic(unsup("unary %s", in.Op))
}

func (e *Engine) binop(st *State, op token.Token, a, b Value, xt, rt types.Type) Value {
	switch op {
	case token.EQL:
		return e.eqVal(a, b, xt)
	case token.NEQ:
		return Not(e.eqVal(a, b, xt))
	}
	x, y := a.(*Term), b.(*Term)
	switch x.Sort {
	case SStr:
		switch op {
		case token.ADD:
			return Concat(x, y)
		case token.LSS:
			return StrOp("str.<", SBool, x, y)
		case token.GTR:
			return StrOp("str.<", SBool, y, x)
		case token.LEQ:
			return Not(StrOp("str.<", SBool, y, x))
		case token.GEQ:
			return Not(StrOp("str.<", SBool, x, y))
		}
	case SFloat:
		rm := intern(&Term{Op: "raw", Name: "RNE", Sort: "RoundingMode"})
		switch op {
		case token.ADD:
			return mk("fp.add", SFloat, rm, x, y)
		case token.SUB:
			return mk("fp.sub", SFloat, rm, x, y)
		case token.MUL:
			return mk("fp.mul", SFloat, rm, x, y)
		case token.QUO:
			return mk("fp.div", SFloat, rm, x, y)
		case token.LSS:
			return mk("fp.lt", SBool, x, y)
		case token.LEQ:
			return mk("fp.leq", SBool, x, y)
		case token.GTR:
			return mk("fp.gt", SBool, x, y)
		case token.GEQ:
			return mk("fp.geq", SBool, x, y)
		}
	case SInt:
		switch op {
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Lt(y, x)
		case token.GEQ:
			return Le(y, x)
		case token.ADD:
			return e.arith(Add(x, y), rt)
		case token.SUB:
			return e.arith(Sub(x, y), rt)
		case token.MUL:
			return e.arith(Mul(x, y), rt)
		case token.QUO:
			e.oblige(st, "safety", "division-by-zero", Not(Eq(y, Int(0))))
			return goDiv(x, y)
		case token.REM:
			e.oblige(st, "safety", "division-by-zero", Not(Eq(y, Int(0))))
			return Sub(x, Mul(goDiv(x, y), y))
		case token.AND:
			return bitAnd(x, y)
		case token.OR:
			if x.isInt() && y.isInt() {
				return IntB(new(big.Int).Or(x.I, y.I))
			}
			return Sub(Add(x, y), bitAnd(x, y))
		case token.AND_NOT:
			return Sub(x, bitAnd(x, y))
		case token.XOR:
			return Sub(Add(x, y), Mul(Int(2), bitAnd(x, y)))
		case token.SHL:
			if y.isInt() {
				return e.arith(Mul(x, IntB(new(big.Int).Lsh(big.NewInt(1), uint(y.I.Int64())))), rt)
			}
		case token.SHR:
			if y.isInt() {
				return mkDiv(x, IntB(new(big.Int).Lsh(big.NewInt(1), uint(y.I.Int64()))))
			}
		}
	case SBool:
	}
	panic(unsup("binary %s on %s", op, x.Sort))
}

func mkDiv(x, y *Term) *Term {
	if x.isInt() && y.isInt() && y.I.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(x.I, y.I, m)
		return IntB(q)
	}
	return mk("div", SInt, x, y)
}
func mkMod(x, y *Term) *Term {
	if x.isInt() && y.isInt() && y.I.Sign() > 0 {
		return IntB(new(big.Int).Mod(x.I, y.I))
	}
	return mk("mod", SInt, x, y)
}

func goDiv(x, y *Term) *Term {
	if y.isInt() && y.I.Sign() > 0 {
		return Ite(Le(Int(0), x), mkDiv(x, y), Sub(Int(0), mkDiv(Sub(Int(0), x), y)))
	}
	panic(unsup("division by a variable"))
}

// bitAnd of a term and a constant by bit decomposition (non-negative values).
func bitAnd(x, y *Term) *Term {
	if x.isInt() && y.isInt() {
		return IntB(new(big.Int).And(x.I, y.I))
	}
	if x.isInt() {
		x, y = y, x
	}
	if !y.isInt() || y.I.Sign() < 0 {
		if x.Op == "ite" && y.Op == "ite" && x.Args[0] == y.Args[0] {
			return Ite(x.Args[0], bitAnd(x.Args[1], y.Args[1]), bitAnd(x.Args[2], y.Args[2]))
		}
		panic(unsup("bitwise and of two variables"))
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], bitAnd(x.Args[1], y), bitAnd(x.Args[2], y))
	}
	r := Int(0)
	for i := 0; i < y.I.BitLen(); i++ {
		if y.I.Bit(i) == 1 {
			p := IntB(new(big.Int).Lsh(big.NewInt(1), uint(i)))
			r = Add(r, Mul(p, mkMod(mkDiv(x, p), Int(2))))
		}
	}
	return r
}

// arith wraps results of narrow integer types; int/int64/uint64 are treated
// as mathematical integers (stated assumption).
func (e *Engine) arith(t *Term, rt types.Type) *Term {
	b, ok := under(rt).(*types.Basic)
	if !ok {
		return t
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return t
	case types.Uint, types.Uint64, types.Uintptr:
		if t.isInt() {
			return wrapInt(t, b)
		}
		return wrapInt(t, b)
	}
	return wrapInt(t, b)
}

func wrapInt(t *Term, b *types.Basic) *Term {
	lo, hi := intRange(b)
	if lo == nil {
		return t
	}
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if t.isInt() {
		x := new(big.Int).Sub(t.I, lo)
		x.Mod(x, mod)
		return IntB(x.Add(x, lo))
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], wrapInt(t.Args[1], b), wrapInt(t.Args[2], b))
	}
	return Ite(And(Le(IntB(lo), t), Le(t, IntB(hi))), t, Add(mkMod(Sub(t, IntB(lo)), IntB(mod)), IntB(lo)))
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		x := v.(*Term)
		fs, ts := basicSort(fb), basicSort(tb)
		switch {
		case fs == SInt && ts == SInt:
			return wrapConv(x, fb, tb)
		case fs == SFloat && ts == SFloat:
			if tb.Kind() == types.Float32 || fb.Kind() == types.Float32 {
				panic(unsup("float32 conversion"))
			}
			return x
		case fs == SStr && ts == SStr:
			return x
		case fs == SInt && ts == SFloat:
			if x.isInt() && x.I.IsInt64() {
				return Float(float64(x.I.Int64()))
			}
			return App("int2float", SFloat, x)
		case fs == SFloat && ts == SInt:
			return App("float2int", SInt, x)
		case fs == SInt && ts == SStr:
			if x.isInt() && x.I.IsInt64() {
				return Str(string(rune(x.I.Int64())))
			}
			return Ite(And(Le(Int(0), x), Lt(x, Int(128))), mk("str.from_code", SStr, x), App("rune2str", SStr, x))
		}
	}
	if fok && basicSort(fb) == SStr {
		if sl, ok := tu.(*types.Slice); ok {
			if eb, ok := under(sl.Elem()).(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return e.bytesOf(st, v.(*Term), sl.Elem())
			}
		}
	}
	if tok && basicSort(tb) == SStr {
		if sl, ok := fu.(*types.Slice); ok {
			if eb, ok := under(sl.Elem()).(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return e.stringOf(st, v.(*SliceV))
			}
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return e.changeType(v, from, to)
	}
	panic(unsup("conversion %s to %s", from, to))
}

func wrapConv(x *Term, from, to *types.Basic) *Term {
	fl, fh := intRange(from)
	tl, th := intRange(to)
	if fl != nil && tl != nil && tl.Cmp(fl) <= 0 && fh.Cmp(th) <= 0 {
		return x
	}
	return wrapInt(x, to)
}

// bytesOf converts a string to a fresh byte slice. The array content is the
// uninterpreted bytes|array of the string, related pointwise.
func (e *Engine) bytesOf(st *State, s *Term, et types.Type) Value {
	r := e.newRef(st)
	k := "E|" + memKey(et) + "|"
	h := e.heapGet(st, k, SArr(SInt, SArr(SInt, SInt)))
	arr := App("bytes|of", SArr(SInt, SInt), s)
	i := FreshBound("bi", SInt)
	e.fact(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, StrLen(s))), Eq(Select(arr, i), StrOp("str.to_code", SInt, StrOp("str.at", SStr, s, i))))))
	e.fact(Eq(App("string|of", SStr, arr, Int(0), StrLen(s)), s))
	e.writes = append(e.writes, Write{Key: k, Ref: r, Pc: st.pc})
	e.heapSet(st, k, Store(h, r, arr))
	c := e.fresh("cap", SInt)
	e.assume(st, Le(StrLen(s), c))
	return &SliceV{r, Int(0), StrLen(s), c}
}

func (e *Engine) stringOf(st *State, b *SliceV) Value {
	for _, x := range []*Term{b.Len, b.Arr, b.Off} {
		if x.Op == "ite" {
			c := x.Args[0]
			y, n := &SliceV{underCond(b.Arr, c, true), underCond(b.Off, c, true), underCond(b.Len, c, true), b.Cap}, &SliceV{underCond(b.Arr, c, false), underCond(b.Off, c, false), underCond(b.Len, c, false), b.Cap}
			s1, s2 := st.clone(), st.clone()
			s1.pc, s2.pc = And(st.pc, c), And(st.pc, Not(c))
			return Ite(c, e.stringOf(s1, y).(*Term), e.stringOf(s2, n).(*Term))
		}
	}
	k := "E|uint8|"
	h := e.heapGet(st, k, SArr(SInt, SArr(SInt, SInt)))
	if b.Len.isInt() && b.Len.I.Sign() == 0 {
		return Str("")
	}
	arr := Select(h, b.Arr)
	if arr.Op == "app" && arr.Name == "bytes|of" && b.Off.isInt() && b.Off.I.Sign() == 0 && b.Len == StrLen(arr.Args[0]) {
		return arr.Args[0]
	}
	s := App("string|of", SStr, arr, b.Off, b.Len)
	e.assume(st, Eq(StrLen(s), b.Len))
	i := FreshBound("si", SInt)
	e.assume(st, Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, b.Len)), Eq(StrOp("str.to_code", SInt, StrOp("str.at", SStr, s, i)), Select(arr, Add(b.Off, i))))))
	return s
}

func (fr *Frame) typeAssert(st *State, in *ssa.TypeAssert) Value {
	e := fr.e
	x := fr.get(st, in.X).(*Term)
	var ok *Term
	var v Value
	if _, isI := under(in.AssertedType).(*types.Interface); isI {
		ok = e.implements(x, in.AssertedType)
		v = x
		if in.CommaOk {
			v = Ite(ok, x, AnyNil)
		}
	} else {
		ok = e.isType(x, in.AssertedType)
		if ok.Op == "false" {
			v = e.zero(in.AssertedType)
		} else {
			s2 := &State{pc: And(st.pc, ok), allocB: st.allocB, allocK: st.allocK}
			v = e.unbox(x, in.AssertedType)
			e.wf(s2, e.toLeaves(v, in.AssertedType), in.AssertedType)
			if in.CommaOk && ok.Op != "true" {
				v = iteVal(e, ok, v, e.zero(in.AssertedType), in.AssertedType)
			}
		}
	}
	if in.CommaOk {
		return &TupleV{[]Value{v, ok}}
	}
	e.oblige(st, "safety", "type-assertion", ok)
	return v
}

// virtualArgs: the argument list of a call that only reads its elements (an
// uninterpreted function or a formatting function): it needs no memory.
func virtualArgs(a *ssa.Alloc) bool {
	if a.Comment != "varargs" || a.Referrers() == nil {
		return false
	}
	slices := 0
	for _, r := range *a.Referrers() {
		if r.Block() != a.Block() {
			return false
		}
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if _, ok := r.Index.(*ssa.Const); !ok || len(*r.Referrers()) != 1 {
				return false
			}
			s, ok := (*r.Referrers())[0].(*ssa.Store)
			if !ok || s.Addr != r || s.Block() != a.Block() {
				return false
			}
		case *ssa.Slice:
			slices++
			if r.Low != nil || r.High != nil || r.Max != nil || len(*r.Referrers()) != 1 {
				return false
			}
			c, ok := (*r.Referrers())[0].(*ssa.Call)
			if !ok || c.Block() != a.Block() || c.Call.StaticCallee() == nil {
				return false
			}
			fn := c.Call.StaticCallee()
			if fn.Origin() != nil {
				fn = fn.Origin()
			}
			switch fn.String() {
			case vcImport + ".UF", "fmt.Errorf", "fmt.Sprintf", "fmt.Sprint":
			default:
				return false
			}
		default:
			return false
		}
	}
	return slices == 1
}

func (fr *Frame) virtualSlice(st *State, a *ssa.Alloc) *SliceV {
	n := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	s := &SliceV{Arr: Int(1), Off: Int(0), Len: Int(n), Cap: Int(n)}
	vs := make([]Value, n)
	for _, r := range *a.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			i := ia.Index.(*ssa.Const).Int64()
			vs[i] = fr.get(st, (*ia.Referrers())[0].(*ssa.Store).Val)
		}
	}
	for _, v := range vs {
		if v == nil {
			panic(unsup("argument list with holes"))
		}
	}
	virtArgs[s] = vs
	return s
}

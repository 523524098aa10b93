package main

import (
	"fmt"
	"go/constant"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 48

func (fr *Frame) execLoop(l *loopInfo, in []edge, pcAt map[*ssa.BasicBlock]*Term) []edge {
	e := fr.e
	entry := fr.enter(l.header, in, pcAt)
	entry = entry.clone()
	// 1. concrete unrolling
	nf, no, nw, nd := len(e.facts), len(e.obls), len(e.writes), len(fr.defers)
	if exits, ok := fr.unroll(l, entry.clone()); ok {
		return exits
	}
	fr.defers = fr.defers[:nd]
	e.facts, e.obls, e.writes = e.facts[:nf], e.obls[:no], e.writes[:nw]
	if e.boundedN > 0 {
		return fr.unrollBounded(l, entry, e.boundedN)
	}
	fr.summarising++
	defer func() { fr.summarising-- }()
	return fr.summarise(l, entry)
}

// headerConst reports whether the loop condition in the header is constant in
// the given state (evaluated by running the header).
func (fr *Frame) unroll(l *loopInfo, st *State) ([]edge, bool) {
	var exits []edge
	for it := 0; it <= maxUnroll; it++ {
		r := fr.run(l, l.header, []edge{{nil, l.header, st}})
		exits = append(exits, r.exits...)
		var live []edge
		for _, b := range r.back {
			if b.st.pc.Op != "false" {
				live = append(live, b)
			}
		}
		if len(live) == 0 {
			return exits, true
		}
		// a header exit under a symbolic condition: not a constant-trip loop
		for _, x := range r.exits {
			if x.from == l.header && (it >= 4 || !smallRange(l.header, x.st)) {
				return nil, false
			}
		}
		if it == maxUnroll {
			return nil, false
		}
		st = fr.enter(l.header, live, nil).clone()
	}
	return nil, false
}

// smallRange: the loop condition compares values that have only finitely many
// constant values each.
func smallRange(h *ssa.BasicBlock, st *State) bool {
	if len(h.Instrs) == 0 {
		return false
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	small := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Const); ok {
			return c.Value != nil && c.Value.Kind() == constant.Int
		}
		t, ok := st.env[v].(*Term)
		if !ok || t.Sort != SInt {
			return false
		}
		x, _ := lin(t)
		return x == nil || x.Op == "ite" && iteConstLeaves(x, 6)
	}
	return small(b.X) && small(b.Y)
}

func (fr *Frame) unrollBounded(l *loopInfo, st *State, n int) []edge {
	e := fr.e
	e.bounded = true
	var exits []edge
	for it := 0; it <= n; it++ {
		r := fr.run(l, l.header, []edge{{nil, l.header, st}})
		exits = append(exits, r.exits...)
		var live []edge
		for _, b := range r.back {
			if b.st.pc.Op != "false" {
				live = append(live, b)
			}
		}
		if len(live) == 0 {
			return exits
		}
		st = fr.enter(l.header, live, nil).clone()
	}
	// more iterations than the bound: excluded (bounded check)
	e.fact(Not(st.pc))
	return exits
}

// ---- loop summaries ----
//
// The state at the start of iteration n (a symbol standing for an arbitrary
// reached iteration) is described by sequences: every phi, cell and array the
// body may change is a function of n. Unchanged components keep their entry
// value, counters get a linear closed form, everything else is a fresh
// function X with X(0)=entry and, for every k<n, the value computed by the
// last iteration that touched it. The forms are guessed optimistically and
// re-checked until a run of the body confirms all of them (induction step).
// Facts quantify over all earlier iterations, so nothing is bounded.

type lcomp struct {
	id   string
	sort Sort
	init *Term
	kind int // 0 unchanged, 1 linear, 2 sequence
	c    *Term
	sym  *Term
	next *Term
	// array cells
	key string
	ref *Term
}

type heapUse struct {
	key     string
	sort    Sort
	init    *Term
	cells   []*lcomp
	varying bool
	sym     *Term
	next    *Term
}

type loopCtx struct {
	fr      *Frame
	l       *loopInfo
	entry   *State
	n       *Term
	phis    []*ssa.Phi
	iters   []*ssa.Range
	comps   map[string]*lcomp
	order   []*lcomp
	heaps   map[string]*heapUse
	horder  []*heapUse
	allocs  bool
	base    *Term
	ctxArgs []*Term
	name    string
	backpc  *Term // condition of coming round again
	// what the summary relies on, to be shown from what is known before the loop
	separate []*Term
}

type mark struct {
	nf, no, nw, nc, nr, nrets, nsnap, nreq int
	box                                    map[*Term]bool
	wf                                     map[*Term][]*Term
}

func (fr *Frame) mark() *mark {
	e := fr.e
	m := &mark{nf: len(e.facts), no: len(e.obls), nw: len(e.writes), nc: len(e.covers), nrets: len(fr.rets), nsnap: len(e.snaps), nreq: len(e.requires)}
	m.box = make(map[*Term]bool, len(e.boxSeen))
	for k := range e.boxSeen {
		m.box[k] = true
	}
	m.wf = make(map[*Term][]*Term, len(e.wfSeen))
	for k, v := range e.wfSeen {
		m.wf[k] = v[:len(v):len(v)]
	}
	return m
}

func (fr *Frame) reset(m *mark) {
	e := fr.e
	e.facts, e.obls, e.writes, e.covers = e.facts[:m.nf], e.obls[:m.no], e.writes[:m.nw], e.covers[:m.nc]
	e.snaps, e.requires = e.snaps[:m.nsnap], e.requires[:m.nreq]
	fr.rets = fr.rets[:m.nrets]
	e.boxSeen = make(map[*Term]bool, len(m.box))
	for k := range m.box {
		e.boxSeen[k] = true
	}
	e.wfSeen = make(map[*Term][]*Term, len(m.wf))
	for k, v := range m.wf {
		e.wfSeen[k] = v
	}
}

func (lc *loopCtx) dep(t *Term) bool {
	n := lc.n
	return dependsOn(t, func(x *Term) bool { return x == n })
}

func (lc *loopCtx) cur(c *lcomp) *Term {
	switch c.kind {
	case 0:
		return c.init
	case 1:
		return Add(c.init, Mul(c.c, lc.n))
	}
	return c.sym
}

func (lc *loopCtx) app(name string, s Sort, last ...*Term) *Term {
	return App(name, s, append(append([]*Term{}, lc.ctxArgs...), last...)...)
}

func (lc *loopCtx) comp(id string, s Sort, init *Term) *lcomp {
	if c, ok := lc.comps[id]; ok {
		return c
	}
	c := &lcomp{id: id, sort: s, init: init}
	c.sym = lc.app(FreshName("it|"+id), s, lc.n)
	lc.comps[id] = c
	lc.order = append(lc.order, c)
	return c
}

func cellArray(key string) bool {
	return strings.HasPrefix(key, "E|") || strings.HasPrefix(key, "MD|") || strings.HasPrefix(key, "MV|")
}

func (fr *Frame) summarise(l *loopInfo, entry *State) []edge {
	e := fr.e
	e.loopsSeen[fr.fn.String()]++
	lc := &loopCtx{fr: fr, l: l, entry: entry, comps: map[string]*lcomp{}, heaps: map[string]*heapUse{}}
	lc.name = fmt.Sprintf("%s.%d", sanitize(fr.fn.Name()), l.ord)
	lc.ctxArgs = append([]*Term{}, e.ctx...)
	lc.n = e.fresh("n|"+lc.name, SInt)
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			lc.phis = append(lc.phis, p)
		}
	}
	for v, x := range entry.env {
		if r, ok := v.(*ssa.Range); ok {
			if it, ok := x.(*IterV); ok && it.Pos != nil {
				lc.iters = append(lc.iters, r)
			}
		}
	}
	sort.Slice(lc.iters, func(i, j int) bool { return lc.iters[i].Pos() < lc.iters[j].Pos() })
	mk := fr.mark()
	e.ctx = append(e.ctx, lc.n)
	defer func() { e.ctx = e.ctx[:len(lc.ctxArgs)] }()
	lc.base = e.newAllocBase()
	for round := 0; ; round++ {
		if round > 14 {
			panic(unsup("loop shape does not stabilise in %s", fr.fn))
		}
		fr.reset(mk)
		st := lc.start()
		st0 := st.clone()
		e.assume(entry, Le(Int(0), lc.n))
		r := fr.run(l, l.header, []edge{{nil, l.header, st}})
		var live []edge
		for _, b := range r.back {
			if b.st.pc.Op != "false" {
				live = append(live, b)
			}
		}
		if len(live) == 0 {
			// never comes round again
			return fr.atMostOnce(l, entry, mk)
		}
		next := fr.enter(l.header, live, nil).clone()
		if lc.update(st0, next, mk) {
			continue
		}
		return lc.finish(st0, next, r, mk)
	}
}

func (fr *Frame) atMostOnce(l *loopInfo, entry *State, mk *mark) []edge {
	e := fr.e
	fr.reset(mk)
	e.ctx = e.ctx[:len(e.ctx)-1]
	defer func() { e.ctx = append(e.ctx, nil) }()
	return fr.run(l, l.header, []edge{{nil, l.header, entry.clone()}}).exits
}

// start builds the state at the start of iteration n.
func (lc *loopCtx) start() *State {
	e := lc.fr.e
	st := lc.entry.clone()
	if lc.allocs {
		// (before the well-formedness of the loop's values is stated: they may
		// have been allocated in earlier iterations)
		st.allocB, st.allocK = lc.base, 0
	}
	for _, p := range lc.phis {
		v := lc.entry.env[p]
		if _, ok := v.(*IterV); ok {
			panic(unsup("iterator phi"))
		}
		changed := false
		init := e.toLeaves(v, p.Type())
		ts := make([]*Term, len(init))
		for i, lf := range leaves(p.Type()) {
			c := lc.comp(fmt.Sprintf("%s.%s", p.Name(), lf.Path), lf.Sort, init[i])
			ts[i] = lc.cur(c)
			changed = changed || c.kind != 0
		}
		if changed {
			e.wf(st, ts, p.Type())
			st.env[p] = e.fromLeaves(ts, p.Type())
		}
	}
	for _, r := range lc.iters {
		it := *(lc.entry.env[r].(*IterV))
		c := lc.comp("iter "+r.Name(), SInt, it.Pos)
		it.Pos = lc.cur(c)
		st.env[r] = &it
	}
	for _, h := range lc.horder {
		var t *Term
		if strings.HasPrefix(h.key, "G|") {
			t = lc.cur(h.cells[0])
		} else {
			t = h.init
			if h.varying {
				t = h.sym
			}
			for _, c := range h.cells {
				if c.kind != 0 || h.varying {
					t = Store(t, c.ref, lc.cur(c))
				}
			}
		}
		st.heap[h.key] = t
	}
	return st
}

func (lc *loopCtx) taint(sym string, ts ...*Term) bool {
	e := lc.fr.e
	changed := false
	for _, t := range ts {
		if !e.mentionsSpecial(t) {
			continue
		}
		ids := map[int64]bool{}
		e.specialsIn(t, ids, map[*Term]bool{})
		for _, id := range sortedInts(ids) {
			v, _ := e.specialOf(Int(id))
			if lc.depValue(v) {
				panic(unsup("an interior pointer or closure made in a loop outlives its iteration"))
			}
			have := false
			for _, x := range e.taint[sym] {
				if x == Int(id) {
					have = true
				}
			}
			if !have {
				e.taint[sym] = append(e.taint[sym], Int(id))
				changed = true
			}
		}
	}
	if changed {
		specialMemo = map[*Term]bool{}
	}
	return changed
}

func (lc *loopCtx) depValue(v Value) bool {
	switch v := v.(type) {
	case *PtrV:
		for _, a := range v.Alts {
			if a.Loc != nil && (a.Loc.Ref != nil && lc.dep(a.Loc.Ref) || a.Loc.Idx != nil && lc.dep(a.Loc.Idx)) {
				return true
			}
		}
	case *FuncV:
		for _, a := range v.Alts {
			for _, b := range a.Bind {
				if lc.depValue(b) {
					return true
				}
			}
			if a.Opaque != nil && lc.dep(a.Opaque) {
				return true
			}
		}
	case *Term:
		return lc.dep(v)
	case *StructV:
		for _, x := range v.F {
			if lc.depValue(x) {
				return true
			}
		}
	case *SliceV:
		return lc.dep(v.Arr) || lc.dep(v.Off) || lc.dep(v.Len)
	}
	return false
}

// step records the value after the iteration and weakens the assumed form
// when it is not confirmed.
func (lc *loopCtx) step(c *lcomp, next *Term) bool {
	c.next = next
	ch := false
	switch c.kind {
	case 0:
		if next != c.init {
			if c.sort == SInt {
				if d := Sub(next, c.init); !lc.dep(d) && d.isInt() {
					c.kind, c.c = 1, d
					return true
				}
			}
			c.kind = 2
			lc.taint(c.sym.Name, c.init, next)
			return true
		}
	case 1:
		if next != Add(c.init, Mul(c.c, Add(lc.n, Int(1)))) {
			c.kind = 2
			return true
		}
	default:
		ch = lc.taint(c.sym.Name, c.init, next)
	}
	return ch
}

func (lc *loopCtx) update(st0, next *State, mk *mark) bool {
	e := lc.fr.e
	changed := false
	if (next.allocB != st0.allocB || next.allocK != st0.allocK) && !lc.allocs {
		lc.allocs = true
		return true
	}
	for _, p := range lc.phis {
		ts := e.toLeaves(next.env[p], p.Type())
		for i, lf := range leaves(p.Type()) {
			if lc.step(lc.comps[fmt.Sprintf("%s.%s", p.Name(), lf.Path)], ts[i]) {
				changed = true
			}
		}
	}
	for _, r := range lc.iters {
		it, ok := next.env[r].(*IterV)
		if !ok {
			continue
		}
		if lc.step(lc.comps["iter "+r.Name()], it.Pos) {
			changed = true
		}
	}
	logged := map[string]bool{}
	for _, w := range e.writes[mk.nw:] {
		logged[w.Key] = true
		if _, ok := lc.heaps[w.Key]; !ok {
			init := lc.entry.heap[w.Key]
			s := e.keySort[w.Key]
			if init == nil {
				init = e.initArr(w.Key, s)
			}
			h := &heapUse{key: w.Key, sort: s, init: init}
			h.sym = lc.app(FreshName("heap|"+w.Key), s, lc.n)
			lc.heaps[w.Key] = h
			lc.horder = append(lc.horder, h)
			changed = true
		}
		h := lc.heaps[w.Key]
		if strings.HasPrefix(w.Key, "G|") {
			if len(h.cells) == 0 {
				c := lc.comp("cell "+w.Key, h.sort, h.init)
				c.key = w.Key
				h.cells = append(h.cells, c)
				changed = true
			}
			continue
		}
		if lc.dep(w.Ref) || w.Ref.bound && len(w.Q) > 0 {
			if !h.varying {
				h.varying = true
				changed = true
			}
			continue
		}
		have := false
		for _, c := range h.cells {
			if c.ref == w.Ref {
				have = true
			}
		}
		if !have {
			_, vs := arrSorts(h.sort)
			c := lc.comp(fmt.Sprintf("cell %s@%d", w.Key, w.Ref.id), vs, Select(h.init, w.Ref))
			c.key, c.ref = w.Key, w.Ref
			h.cells = append(h.cells, c)
			changed = true
		}
	}
	for k, t := range next.heap {
		old := st0.heap[k]
		if old == nil {
			old = e.initArr(k, e.keySort[k])
		}
		if old != t && !logged[k] {
			panic(unsup("unlogged change of %s in a loop", k))
		}
	}
	for _, h := range lc.horder {
		nx := next.heap[h.key]
		if nx == nil {
			nx = h.init
		}
		h.next = nx
		if strings.HasPrefix(h.key, "G|") {
			if lc.step(h.cells[0], nx) {
				changed = true
			}
			continue
		}
		for _, c := range h.cells {
			if lc.step(c, Select(nx, c.ref)) {
				changed = true
			}
		}
		if h.varying && lc.taint(h.sym.Name, h.init, h.next) {
			changed = true
		}
	}
	// iterating over a map that changes: only the current key may be touched
	for _, r := range lc.iters {
		it := lc.entry.env[r].(*IterV)
		if it.MT == nil || next.env[r] == nil || next.env[r].(*IterV).Pos == st0.env[r].(*IterV).Pos {
			continue
		}
		for _, w := range e.writes[mk.nw:] {
			if w.Key != "MD|"+mapKeyName(it.MT) || distinct(w.Ref, it.M) || isFreshRef(w.Ref) && olderThan(it.M, w.Ref) || isFreshRef(it.M) && olderThan(w.Ref, it.M) {
				continue
			}
			cur := App(it.Enum, e.keySortOf(it.MT.Key()), append(append([]*Term{}, it.Args...), st0.env[r].(*IterV).Pos)...)
			if w.MapK != cur {
				panic(unsup("the map being iterated is modified in the loop"))
			}
		}
	}
	return changed
}

// changedWhen is the condition under which next differs from cur by its
// if-then-else structure.
func changedWhen(next, cur *Term) *Term {
	if next == cur {
		return False
	}
	switch next.Op {
	case "ite":
		return Ite(next.Args[0], changedWhen(next.Args[1], cur), changedWhen(next.Args[2], cur))
	case "and":
		var rest []*Term
		has := false
		for _, a := range next.Args {
			if a == cur {
				has = true
			} else {
				rest = append(rest, a)
			}
		}
		if has {
			return Not(And(rest...))
		}
	case "or":
		var rest []*Term
		has := false
		for _, a := range next.Args {
			if a == cur {
				has = true
			} else {
				rest = append(rest, a)
			}
		}
		if has {
			return Or(rest...)
		}
	}
	return True
}

func (lc *loopCtx) sub(t, k *Term) *Term { return Subst(t, map[*Term]*Term{lc.n: k}) }

func (lc *loopCtx) finish(st0, next *State, r regionResult, mk *mark) []edge {
	e := lc.fr.e
	n := lc.n
	epc := lc.entry.pc
	var Q []*Term // facts about all iterations
	add := func(f *Term) {
		f = Implies(epc, f)
		if f.Op == "true" {
			return
		}
		if f.bound {
			f = Forall(freeBoundOf(f), f)
		}
		Q = append(Q, f)
	}
	kk := func() *Term { return FreshBound("k", SInt) }
	upto := func(k *Term) *Term { return And(Le(Int(0), k), Le(k, n)) }
	below := func(k, m *Term) *Term { return And(Le(Int(0), k), Lt(k, m)) }
	body := append([]*Term{}, e.facts[mk.nf:]...)
	lc.backpc = And(next.pc, epc)
	for _, c := range lc.order {
		if c.next != nil {
			c.next = underPC(lc.backpc, c.next)
		}
	}
	for _, h := range lc.horder {
		if h.next != nil {
			h.next = underPC(lc.backpc, h.next)
		}
	}
	{
		k := kk()
		back := And(minus(next.pc, epc)...)
		add(Implies(below(k, n), lc.sub(back, k)))
	}
	for _, f := range body {
		if lc.dep(f) {
			k := kk()
			add(Implies(below(k, n), lc.sub(f, k)))
		}
	}
	if lc.allocs {
		k := kk()
		bk := lc.sub(lc.base, k)
		ent := Add(lc.entry.allocB, Int(lc.entry.allocK))
		add(lc.fa([]*Term{k}, Implies(upto(k), Le(ent, bk)), bk))
		k1, k2 := kk(), kk()
		nb := lc.sub(Add(next.allocB, Int(next.allocK)), k1)
		b1, b2 := lc.sub(lc.base, k1), lc.sub(lc.base, k2)
		add(Forall([]*Term{k1, k2}, Implies(And(Le(Int(0), k1), Lt(k1, k2), Le(k2, n)), Le(nb, b2)), []*Term{b1, b2}))
	}
	accs := lc.accumulators(mk)
	accCell := map[*lcomp]bool{}
	accHeap := map[string]bool{}
	for _, a := range accs {
		for _, c := range []*lcomp{a.arr, a.len, a.cap} {
			accCell[c] = true
		}
		for _, k := range a.keys {
			accHeap[k] = true
		}
	}
	writes := e.writes[mk.nw:]
	for _, c := range lc.order {
		if c.kind != 2 {
			continue
		}
		if c.key != "" && cellArray(c.key) {
			lc.arrayFacts(c.sym, c.init, c.next, lc.touchedIn(c, writes), add)
			continue
		}
		k := kk()
		sk := lc.sub(c.sym, k)
		add(Eq(lc.sub(c.sym, Int(0)), c.init))
		t := changedWhen(c.next, c.sym)
		if accDebug {
			fmt.Println("SEQ", lc.name, c.id, "when", t, "next", c.next)
		}
		if t.Op == "true" {
			add(lc.fa([]*Term{k}, Implies(And(Lt(Int(0), k), Le(k, n)), Eq(sk, lc.sub(c.next, Sub(k, Int(1))))), sk))
			continue
		}
		w := lc.app(FreshName("last|"+c.id), SInt, k)
		add(lc.fa([]*Term{k}, Implies(upto(k), And(Le(Int(-1), w), Lt(w, k),
			Implies(Lt(w, Int(0)), Eq(sk, c.init)),
			Implies(Le(Int(0), w), And(lc.sub(t, w), Eq(sk, lc.sub(c.next, w)))))), sk))
		j := kk()
		add(Implies(And(upto(k), Lt(w, j), Lt(j, k)), Implies(Le(Int(0), j), Not(lc.sub(t, j)))))
	}
	for _, h := range lc.horder {
		if !h.varying {
			continue
		}
		lc.heapFacts(h, writes, accs, accHeap[h.key], add)
	}
	for _, a := range accs {
		lc.accFacts(accs, a, add)
	}
	// insert the facts about earlier iterations before those of the body
	e.facts = append(append(append([]*Term{}, e.facts[:mk.nf]...), Q...), body...)
	for _, o := range e.obls[mk.no:] {
		o.NFacts += len(Q)
	}
	for _, o := range e.covers[mk.nc:] {
		o.NFacts += len(Q)
	}
	for _, c := range lc.separate {
		e.obls = append(e.obls, &Obligation{Name: "separate-arrays", Kind: "frame", Fn: lc.fr.fn.String(), PC: epc, Cond: c, NFacts: mk.nf})
	}
	// the loop ends: some exit is taken in iteration n
	var outs []*Term
	for _, x := range r.exits {
		outs = append(outs, x.st.pc)
	}
	for _, x := range lc.fr.rets[mk.nrets:] {
		outs = append(outs, x.st.pc)
	}
	if len(outs) > 0 {
		e.fact(Implies(epc, Or(outs...)))
		e.assumes["loops terminate (partial correctness)"] = true
	}
	// writes as seen from outside
	for i := mk.nw; i < len(e.writes); i++ {
		w := e.writes[i]
		w.App = nil
		k := kk()
		m := map[*Term]*Term{n: k}
		s := func(t *Term) *Term {
			if t == nil {
				return nil
			}
			return Subst(t, m)
		}
		old := w
		w.Ref, w.Idx, w.N, w.MapK, w.Pc = s(w.Ref), s(w.Idx), s(w.N), s(w.MapK), s(w.Pc)
		if w.Ref != old.Ref || w.Idx != old.Idx || w.N != old.N || w.MapK != old.MapK || w.Pc != old.Pc {
			w.Pc = And(w.Pc, upto(k))
			w.Q = append(append([]*Term{}, w.Q...), k)
		}
		e.writes[i] = w
	}
	return r.exits
}

// minus lists the conjuncts of a not already in b.
func minus(a, b *Term) []*Term {
	have := map[*Term]bool{}
	for _, c := range conj(b) {
		have[c] = true
	}
	var out []*Term
	for _, c := range conj(a) {
		if !have[c] {
			out = append(out, c)
		}
	}
	return out
}

// fa quantifies with the given alternative triggers.
func (lc *loopCtx) fa(vs []*Term, body *Term, pats ...*Term) *Term {
	return forallPat(vs, body, pats...)
}

func quantW(w Write, c *Term) *Term {
	var q []*Term
	if c.bound {
		fb := map[*Term]bool{}
		for _, v := range freeBoundOf(c) {
			fb[v] = true
		}
		for _, v := range w.Q {
			if fb[v] {
				q = append(q, v)
			}
		}
	}
	if len(q) == 0 {
		return c
	}
	return Exists(q, c)
}

// touchedIn: iteration n may write index x of the array cell.
func (lc *loopCtx) touchedIn(c *lcomp, writes []Write) func(x *Term) *Term {
	return func(x *Term) *Term {
		r := False
		for _, w := range writes {
			if w.Key != c.key {
				continue
			}
			g := Eq(w.Ref, c.ref)
			if w.Ref != c.ref && (distinct(w.Ref, c.ref) || isFreshRef(w.Ref) && olderThan(c.ref, w.Ref) || isFreshRef(c.ref) && olderThan(w.Ref, c.ref)) {
				continue
			}
			g = And(minus(w.Pc, lc.backpc)...)
			g = And(g, Eq(w.Ref, c.ref))
			switch {
			case w.MapK != nil:
				g = And(g, Eq(x, w.MapK))
			case w.Idx != nil && w.N != nil:
				g = And(g, Le(w.Idx, x), Lt(x, Add(w.Idx, w.N)))
			case w.Idx != nil && w.App == nil:
				g = And(g, Eq(x, w.Idx))
			case w.Idx != nil:
				g = And(g, Le(w.Idx, x))
			}
			r = Or(r, quantW(w, g))
		}
		return r
	}
}

// arrayFacts: sym(k)[x] is the value given by the last iteration before k
// that touched x.
func (lc *loopCtx) arrayFacts(sym, init, next *Term, touched func(x *Term) *Term, add func(*Term)) {
	n := lc.n
	k := FreshBound("k", SInt)
	ks, _ := arrSorts(sym.Sort)
	x := FreshBound("x", ks)
	add(Eq(lc.sub(sym, Int(0)), init))
	t := touched(x)
	ax := Select(lc.sub(sym, k), x)
	rng := And(Le(Int(0), k), Le(k, n))
	// a single write per iteration, unconditional, at a linear index
	if cs := conj(t); ks == SInt && len(cs) == 1 && cs[0].Op == "=" {
		a, b := cs[0].Args[0], cs[0].Args[1]
		if b == x {
			a, b = b, a
		}
		if a == x {
			b0 := lc.sub(b, Int(0))
			if !lc.dep(b0) && Add(b0, n) == b {
				it := Sub(x, b0)
				add(lc.fa([]*Term{k, x}, Implies(rng, Eq(ax, Ite(And(Le(Int(0), it), Lt(it, k)), lc.sub(Select(next, b), it), Select(init, x)))), ax))
				return
			}
		}
	}
	// the keys of a map enumeration, one per iteration
	if cs := conj(t); len(cs) == 1 && cs[0].Op == "=" {
		a, b := cs[0].Args[0], cs[0].Args[1]
		if b == x {
			a, b = b, a
		}
		if a == x && b.Op == "app" {
			if en, ok := lc.fr.e.enums[b.Name]; ok && len(b.Args) > 0 && b.Args[len(b.Args)-1] == n && !lc.dep(en.dom) && !lc.dep(en.n) {
				it := App("pos|"+b.Name, SInt, append(append([]*Term{}, b.Args[:len(b.Args)-1]...), x)...)
				add(lc.fa([]*Term{k, x}, Implies(rng, Eq(ax, Ite(And(Select(en.dom, x), Lt(it, k)), lc.sub(Select(next, b), it), Select(init, x)))), ax))
				bk := lc.sub(b, k)
				add(lc.fa([]*Term{k}, Implies(And(rng, Lt(k, en.n)), Eq(Select(lc.sub(sym, k), bk), Select(init, bk))), Select(lc.sub(sym, k), bk)))
				return
			}
		}
	}
	w := lc.app(FreshName("lastw"), SInt, k, x)
	add(lc.fa([]*Term{k, x}, Implies(rng, And(Le(Int(-1), w), Lt(w, k),
		Implies(Lt(w, Int(0)), Eq(ax, Select(init, x))),
		Implies(Le(Int(0), w), And(lc.sub(t, w), Eq(ax, lc.sub(Select(next, x), w)))))), ax))
	j := FreshBound("j", SInt)
	add(Implies(And(rng, Lt(w, j), Lt(j, k), Le(Int(0), j)), Not(lc.sub(t, j))))
	lc.stickyFacts(sym, next, x, t, add)
}

// stickyFacts: an array of truth values that is only ever set to true stays
// true where it was set.
func (lc *loopCtx) stickyFacts(sym, next, x, t *Term, add func(*Term)) {
	// (unconditional writes are found from the last one)
	if _, vs := arrSorts(sym.Sort); vs != SBool || !dependsOn(t, func(x *Term) bool { return x == sym }) {
		return
	}
	var grows func(v *Term) bool
	grows = func(v *Term) bool {
		switch v.Op {
		case "ite":
			return grows(v.Args[1]) && grows(v.Args[2])
		case "store":
			return v.Args[2].Op == "true" && grows(v.Args[0])
		}
		return v == sym
	}
	if !grows(next) {
		return
	}
	k := FreshBound("k", SInt)
	seen := map[*Term]bool{}
	var keys func(t *Term)
	keys = func(t *Term) {
		if t.Op == "and" || t.Op == "or" {
			for _, a := range t.Args {
				keys(a)
			}
			return
		}
		if t.Op != "=" {
			return
		}
		a, b := t.Args[0], t.Args[1]
		if b == x {
			a, b = b, a
		}
		if a != x || seen[b] {
			return
		}
		seen[b] = true
		bk := lc.sub(b, k)
		pats := selectsAt(bk, k)
		if len(pats) == 0 {
			return
		}
		add(lc.fa([]*Term{k}, Implies(And(Le(Int(0), k), Lt(k, lc.n), lc.sub(Select(next, b), k)), Select(sym, bk)), pats...))
	}
	keys(t)
}

func (lc *loopCtx) ownFresh(r *Term) (*Term, bool) {
	b, i := lin(r)
	if b == lc.base && i.Sign() >= 0 {
		return IntB(i), true
	}
	return nil, false
}

func (lc *loopCtx) heapFacts(h *heapUse, writes []Write, accs []*accum, isAcc bool, add func(*Term)) {
	n := lc.n
	k := FreshBound("k", SInt)
	x := FreshBound("r", SInt)
	rng := And(Le(Int(0), k), Le(k, n))
	hk := lc.sub(h.sym, k)
	hx := Select(hk, x)
	add(Eq(lc.sub(h.sym, Int(0)), h.init))
	ent := Add(lc.entry.allocB, Int(lc.entry.allocK))
	own := map[*Term]bool{}
	allOwn := true
	touched := False
	accRef := map[*Term]bool{}
	for _, a := range accs {
		for _, d := range a.dsts {
			accRef[d] = true
		}
	}
	for _, w := range writes {
		if w.Key != h.key || !lc.dep(w.Ref) && !(w.Ref.bound && len(w.Q) > 0) {
			continue
		}
		if isAcc && accRef[w.Ref] {
			continue
		}
		if i, ok := lc.ownFresh(w.Ref); ok {
			own[i] = true
		} else {
			allOwn = false
		}
		touched = Or(touched, quantW(w, And(And(minus(w.Pc, lc.backpc)...), Eq(w.Ref, x))))
	}
	for i := range own {
		k1 := FreshBound("k", SInt)
		b1 := lc.sub(lc.base, k1)
		if i.isInt() {
			r := Add(b1, i)
			add(Forall([]*Term{k1, k}, Implies(And(Le(Int(0), k1), Lt(k1, k), rng), Eq(Select(hk, r), lc.sub(Select(h.next, Add(lc.base, i)), k1))), []*Term{b1, hk}))
		}
	}
	if isAcc {
		return // frame given by the accumulator facts
	}
	if allOwn {
		loopHeaps[h.sym.Name] = &loopHeap{base: h.init, ab: lc.entry.allocB, ak: lc.entry.allocK}
		add(lc.fa([]*Term{k, x}, Implies(And(rng, Lt(x, ent)), Eq(hx, Select(h.init, x))), hx))
		return
	}
	w := lc.app(FreshName("lastr"), SInt, k, x)
	add(lc.fa([]*Term{k, x}, Implies(rng, And(Le(Int(-1), w), Lt(w, k),
		Implies(Lt(w, Int(0)), Eq(hx, Select(h.init, x))),
		Implies(Le(Int(0), w), And(lc.sub(touched, w), Eq(hx, lc.sub(Select(h.next, x), w)))))), hx))
	j := FreshBound("j", SInt)
	add(Implies(And(rng, Lt(w, j), Lt(j, k), Le(Int(0), j)), Not(lc.sub(touched, j))))
}

// ---- append accumulators ----

type accum struct {
	arr, off, len, cap *lcomp
	keys               []string
	dsts               []*Term
	cond               *Term // an element is appended in iteration n
	m                  int64 // elements per append
	vals               map[string][]*Term
	et                 string
}

// accumulators finds slice variables that the body only appends to.
var accDebug = os.Getenv("GOVC_ACC") != ""

func (lc *loopCtx) accumulators(mk *mark) []*accum {
	e := lc.fr.e
	writes := e.writes[mk.nw:]
	// slice variables: phi leaves and cells whose .arr/.len sequences move
	type sv struct{ arr, off, len, cap *lcomp }
	var svs []sv
	for _, c := range lc.order {
		if !strings.HasSuffix(c.id, ".arr") && !strings.Contains(c.id, ".arr@") {
			continue
		}
		f := func(role string) *lcomp {
			id := c.id
			if i := strings.LastIndex(id, ".arr@"); i >= 0 {
				id = id[:i] + "." + role + id[i+4:]
			} else {
				id = strings.TrimSuffix(id, ".arr") + "." + role
			}
			return lc.comps[id]
		}
		s := sv{c, f("off"), f("len"), f("cap")}
		if s.off == nil || s.len == nil || s.cap == nil || c.kind != 2 || s.off.kind != 0 {
			continue
		}
		svs = append(svs, s)
	}
	var out []*accum
	for _, s := range svs {
		a := &accum{arr: s.arr, off: s.off, len: s.len, cap: s.cap, vals: map[string][]*Term{}}
		if accDebug {
			fmt.Println("ACC", lc.name, s.arr.id, "init", s.arr.init, "lennext", s.len.next, "arrnext", s.arr.next)
		}
		ok := true
		seen := map[string]bool{}
		for _, w := range writes {
			if w.App == nil || w.App.Arr != lc.cur(s.arr) || w.App.Len != lc.cur(s.len) {
				continue
			}
			if seen[w.Key] {
				ok = false
				break
			}
			seen[w.Key] = true
			a.keys = append(a.keys, w.Key)
			a.dsts = append(a.dsts, w.Ref)
		}
		if !ok || len(a.keys) == 0 {
			if accDebug {
				fmt.Println("  rej keys", ok, len(a.keys))
			}
			continue
		}
		// the length after the iteration
		ln := lc.cur(s.len)
		t := changedWhen(s.len.next, ln)
		d := Sub(underTrue(s.len.next, ln), ln)
		if !d.isInt() || d.I.Sign() <= 0 || d.I.Int64() != 1 {
			if accDebug {
				fmt.Println("  rej delta", d)
			}
			continue
		}
		if s.len.kind == 1 {
			t = True
		}
		a.m, a.cond = d.I.Int64(), t
		// the array moves exactly when an element is appended
		if t.Op != "true" && simpUnder(s.arr.next, Not(t)) != lc.cur(s.arr) && !onlyUnder(changedWhen(s.arr.next, lc.cur(s.arr)), t) {
			if accDebug {
				fmt.Println("  rej arr", t)
			}
			continue
		}
		match := true
		for _, dst := range a.dsts {
			if simpUnder(s.arr.next, t) != simpUnder(underPC(lc.backpc, dst), t) {
				match = false
			}
		}
		if !match {
			if accDebug {
				fmt.Println("  rej match", t, simpUnder(s.arr.next, t), a.dsts)
			}
			continue
		}
		// every other write to the same element heaps goes elsewhere
		var sep []*Term
		for _, w := range writes {
			if !seen[w.Key] {
				continue
			}
			mine := false
			for _, x := range a.dsts {
				mine = mine || x == w.Ref
			}
			if mine && w.App != nil && w.App.Arr == lc.cur(s.arr) {
				continue
			}
			if _, own := lc.ownFresh(w.Ref); own && !mine {
				continue
			}
			if w.App != nil {
				// another accumulator: its arrays are its initial one and those it
				// allocates, so they differ when the initial ones do
				other := false
				for _, s2 := range svs {
					if s2.arr != s.arr && w.App.Arr == lc.cur(s2.arr) && apart(s.arr.init, s2.arr.init) {
						other = true
					}
				}
				if other {
					continue
				}
			}
			if !lc.dep(w.Ref) && len(w.Q) == 0 && a.arr.init.isInt() && a.arr.init.I.Sign() == 0 {
				continue // an object older than the loop; the accumulator is nil or younger
			}
			if !lc.dep(w.Ref) && len(w.Q) == 0 && !w.Ref.bound && !a.arr.init.bound && !isNil(a.arr.init) {
				// an object older than the loop, to be shown different from the
				// accumulator's initial array
				sep = append(sep, Not(Eq(w.Ref, a.arr.init)))
				continue
			}
			if accDebug {
				fmt.Println("  other write", w.Key, w.Ref, w.App)
			}
			ok = false
		}
		if !ok {
			continue
		}
		lc.separate = append(lc.separate, sep...)
		out = append(out, a)
	}
	// a heap with an accumulator must have all its varying writes explained
	for {
		bad := map[string]bool{}
		for _, w := range writes {
			if !lc.dep(w.Ref) && !(w.Ref.bound && len(w.Q) > 0) {
				continue
			}
			if _, own := lc.ownFresh(w.Ref); own {
				continue
			}
			ok := false
			for _, a := range out {
				for i, k := range a.keys {
					if k == w.Key && a.dsts[i] == w.Ref && w.App != nil && w.App.Arr == lc.cur(a.arr) {
						ok = true
					}
				}
			}
			if !ok {
				bad[w.Key] = true
			}
		}
		var keep []*accum
		for _, a := range out {
			ok := true
			for _, k := range a.keys {
				if bad[k] {
					ok = false
				}
			}
			if ok {
				keep = append(keep, a)
			}
		}
		if len(keep) == len(out) {
			return out
		}
		out = keep
	}
}

// underTrue is the value of next where it differs from cur.
func underTrue(next, cur *Term) *Term {
	if next.Op == "ite" {
		if next.Args[1] == cur {
			return underTrue(next.Args[2], cur)
		}
		if next.Args[2] == cur {
			return underTrue(next.Args[1], cur)
		}
		a, b := underTrue(next.Args[1], cur), underTrue(next.Args[2], cur)
		if a == b {
			return a
		}
	}
	return next
}

func (lc *loopCtx) accFacts(accs []*accum, a *accum, add func(*Term)) {
	n := lc.n
	ent := Add(lc.entry.allocB, Int(lc.entry.allocK))
	k := FreshBound("k", SInt)
	rng := And(Le(Int(0), k), Le(k, n))
	arr0, off0, len0, cap0 := a.arr.init, a.off.init, a.len.init, a.cap.init
	ak := lc.sub(lc.cur(a.arr), k)
	lk := lc.sub(lc.cur(a.len), k)
	add(lc.fa([]*Term{k}, Implies(rng, Or(Eq(ak, arr0), And(Le(ent, ak), Lt(ak, lc.sub(lc.base, k))))), ak))
	cnt := func(t *Term) *Term { return Sub(lc.sub(lc.cur(a.len), t), len0) }
	src := func(j *Term) *Term { return j }
	if a.cond.Op != "true" {
		sname := FreshName("src")
		src = func(j *Term) *Term { return lc.app(sname, SInt, j) }
		// counting: cnt(0)=0, monotone, cnt(k) <= k
		add(lc.fa([]*Term{k}, Implies(rng, And(Le(len0, lk), Le(lk, Add(len0, k)))), lk))
		k2 := FreshBound("k", SInt)
		l2 := lc.sub(lc.cur(a.len), k2)
		add(Forall([]*Term{k, k2}, Implies(And(Le(Int(0), k), Lt(k, k2), Le(k2, n)), Le(Ite(lc.sub(a.cond, k), Add(lk, Int(1)), lk), l2)), []*Term{lk, l2}))
		// src inverts the count
		j := FreshBound("j", SInt)
		sj := src(j)
		add(lc.fa([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, cnt(n))), And(Le(Int(0), sj), Lt(sj, n), lc.sub(a.cond, sj), Eq(cnt(sj), j))), sj))
		ck := lc.sub(a.cond, k)
		add(lc.fa([]*Term{k}, Implies(And(Le(Int(0), k), Lt(k, n), ck), Eq(src(cnt(k)), k)), append(selectsAt(ck, k), lk)...))
		j2 := FreshBound("j", SInt)
		add(Forall([]*Term{j, j2}, Implies(And(Le(Int(0), j), Lt(j, j2), Lt(j2, cnt(n))), Lt(sj, src(j2))), []*Term{sj, src(j2)}))
		// earlier lengths only cover earlier iterations
		add(Forall([]*Term{k, j}, Implies(And(rng, Le(Int(0), j), Lt(j, cnt(k))), Lt(sj, k)), []*Term{lk, sj}))
		// nothing appended when no iteration qualifies
		first := lc.app(FreshName("first"), SInt)
		_ = first
	}
	for i, key := range a.keys {
		h := lc.heaps[key]
		if !h.varying {
			continue
		}
		_ = i
		hk := lc.sub(h.sym, k)
		x := FreshBound("x", SInt)
		cell := Select(Select(hk, ak), x)
		// value appended in iteration t: read from the heap after it
		nextArr := a.arr.next
		nx := underTrueArr(nextArr, lc.cur(a.arr), a.cond)
		val := Select(Select(h.next, nx), Add(off0, lc.cur(a.len)))
		val = simpUnder(val, a.cond)
		it := Sub(x, Add(off0, len0))
		add(Forall([]*Term{k, x}, Implies(And(rng, Le(Add(off0, len0), x), Lt(x, Add(off0, lk))), Eq(cell, lc.sub(val, src(it)))), []*Term{cell}))
		if a.cond.Op != "true" {
			// the value appended in iteration k, found from k
			ck := lc.sub(a.cond, k)
			pats := append(selectsAt(ck, k), lk)
			at := Select(Select(lc.sub(h.sym, n), lc.sub(lc.cur(a.arr), n)), Add(off0, lk))
			add(lc.fa([]*Term{k}, Implies(And(Le(Int(0), k), Lt(k, n), ck), Eq(at, lc.sub(val, k))), pats...))
		} else if vk := lc.sub(val, k); vk.Op == "app" && len(vk.Args) > 0 && vk.Args[len(vk.Args)-1] == k {
			at := Select(Select(lc.sub(h.sym, n), lc.sub(lc.cur(a.arr), n)), Add(Add(off0, len0), k))
			add(lc.fa([]*Term{k}, Implies(And(Le(Int(0), k), Lt(k, n)), Eq(at, vk)), vk))
		}
		if !(len0.isInt() && len0.I.Sign() == 0) {
			add(Forall([]*Term{k, x}, Implies(And(rng, Le(off0, x), Lt(x, Add(off0, len0))), Eq(cell, Select(Select(h.init, arr0), x))), []*Term{cell}))
		}
		// frame
		r := FreshBound("r", SInt)
		hr := Select(hk, r)
		nilInit := arr0.isInt() && arr0.I.Sign() == 0
		var not []*Term
		if !nilInit {
			not = append(not, Not(Eq(r, arr0)))
		}
		for _, o := range otherAccs(accs, a, key) {
			if !(o.isInt() && o.I.Sign() == 0) {
				not = append(not, Not(Eq(r, o)))
			}
		}
		add(Forall([]*Term{k, r}, Implies(And(append(not, rng, Lt(r, ent))...), Eq(hr, Select(h.init, r))), []*Term{hr}))
		if lh, ok := loopHeaps[h.sym.Name]; ok {
			if !nilInit {
				lh.except = append(lh.except, arr0)
			}
		} else {
			lh := &loopHeap{base: h.init, ab: lc.entry.allocB, ak: lc.entry.allocK}
			if !nilInit {
				lh.except = append(lh.except, arr0)
			}
			loopHeaps[h.sym.Name] = lh
		}
		if !nilInit {
			c0 := Select(Select(hk, arr0), x)
			add(Forall([]*Term{k, x}, Implies(And(rng, Or(Lt(x, Add(off0, len0)), Le(Add(off0, cap0), x))), Eq(c0, Select(Select(h.init, arr0), x))), []*Term{c0}))
		}
	}
}

// onlyUnder: a implies b, syntactically.
func onlyUnder(a, b *Term) bool {
	in := map[*Term]bool{}
	for _, c := range conj(a) {
		in[c] = true
	}
	for _, c := range conj(b) {
		if !in[c] {
			return false
		}
	}
	return true
}

// apart: the initial arrays of two accumulators differ, or one has none.
func apart(a, b *Term) bool {
	return isNil(a) || isNil(b) || Eq(a, b).Op == "false"
}

func isNil(a *Term) bool { return a.isInt() && a.I.Sign() == 0 }

// otherAccs are the initial arrays of the other accumulators in a heap.
func otherAccs(accs []*accum, a *accum, key string) []*Term {
	var out []*Term
	for _, o := range accs {
		if o == a {
			continue
		}
		for _, k := range o.keys {
			if k == key {
				out = append(out, o.arr.init)
			}
		}
	}
	return out
}

func underTrueArr(next, cur, cond *Term) *Term { return simpUnder(next, cond) }

func simpUnder(t, cond *Term) *Term {
	t = underCond(t, cond, true)
	for _, c := range conj(cond) {
		if c.Op == "not" {
			t = underCond(t, c.Args[0], false)
		} else if c.Op != "true" {
			t = underCond(t, c, true)
			if c.Op == "or" {
				t = underCond(t, Not(c), false)
			}
		}
	}
	return underPC(cond, t)
}

// selectsAt collects subterms of t that read an array at exactly k.
func selectsAt(t, k *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.Op == "select" && t.Args[1] == k && !t.Args[0].bound {
			out = append(out, t)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

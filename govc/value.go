package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term, *StructV, *SliceV, *PtrV, *FuncV, *TupleV, *ArrV, *IterV.
type Value interface{}

type StructV struct {
	T types.Type
	F []Value
}
type ArrV struct {
	T types.Type
	E []Value
}
type SliceV struct{ Arr, Off, Len, Cap *Term }

// virtArgs holds the elements of argument lists that are not in memory.
var virtArgs = map[*SliceV][]Value{}

type TupleV struct{ E []Value }

type LocKind int

const (
	LObj    LocKind = iota // object of type Root at Ref
	LElem                  // element Idx of backing array Ref, element type Root
	LArr                   // whole backing array Ref (pointer to array type Root)
	LGlobal                // package-level variable
)

type Loc struct {
	Kind   LocKind
	Root   types.Type
	Ref    *Term
	Idx    *Term
	Path   []int
	Global *ssa.Global
}

type PtrAlt struct {
	G   *Term
	Loc *Loc // nil: nil pointer
}
type PtrV struct {
	Alts []PtrAlt
}

type FuncAlt struct {
	G      *Term
	Fn     *ssa.Function
	Bind   []Value
	Opaque *Term // symbolic function value
	Sig    *types.Signature
	Model  string
}
type FuncV struct{ Alts []FuncAlt }

// IterV is a map or string iterator (range over map/string).
type IterV struct {
	M      *Term // map ref
	MT     *types.Map
	Dom    *Term // domain at the start
	Str    *Term
	Pos    *Term // iterations done so far (state; mutated via state env)
	Enum   string
	N      *Term
	Args   []*Term
	Concr  bool
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

var basicAlias = regexp.MustCompile(`(^|[\[\]*( ,])(byte\b|rune\b|interface ?\{\})`)

var tkCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if s, ok := tkCache[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	s = basicAlias.ReplaceAllStringFunc(s, func(m string) string {
		switch {
		case strings.HasSuffix(m, "byte"):
			return m[:len(m)-4] + "uint8"
		case strings.HasSuffix(m, "rune"):
			return m[:len(m)-4] + "int32"
		}
		return strings.Replace(strings.Replace(m, "interface {}", "any", 1), "interface{}", "any", 1)
	})
	tkCache[t] = s
	return s
}

// memKey names the memory region for objects of type t: named for structs,
// underlying for everything else (so that *Maximum and *float64 agree).
func memKey(t types.Type) string {
	u := under(t)
	if _, ok := u.(*types.Struct); ok {
		return typeKey(t)
	}
	return typeKey(u)
}

type Leaf struct {
	Path string
	Sort Sort
	T    types.Type // leaf type
	Role string     // "", "arr", "off", "len", "cap"
}

var leafCache = map[string][]Leaf{}

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isPtr(t types.Type) bool    { _, ok := under(t).(*types.Pointer); return ok }

func leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	var out []Leaf
	switch u := t.Underlying().(type) {
	case *types.Basic:
		out = []Leaf{{"", basicSort(u), t, ""}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		out = []Leaf{{"", SInt, t, ""}}
	case *types.Interface:
		out = []Leaf{{"", SAny, t, ""}}
	case *types.Slice:
		out = []Leaf{{".arr", SInt, t, "arr"}, {".off", SInt, t, "off"}, {".len", SInt, t, "len"}, {".cap", SInt, t, "cap"}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.Path, l.Sort, l.T, l.Role})
			}
		}
	case *types.Array:
		if u.Len() > 64 {
			panic(unsup("large array type %s", t))
		}
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				out = append(out, Leaf{fmt.Sprintf(".[%d]%s", i, l.Path), l.Sort, l.T, l.Role})
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.Sort, l.T, l.Role})
			}
		}
	default:
		panic(unsup("type %s", t))
	}
	leafCache[k] = out
	return out
}

func basicSort(b *types.Basic) Sort {
	switch {
	case b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil:
		return SInt
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsInteger != 0:
		return SInt
	case b.Info()&types.IsFloat != 0:
		return SFloat
	case b.Info()&types.IsString != 0:
		return SStr
	}
	panic(unsup("basic type %s", b))
}

type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return u.Msg }

func unsup(f string, a ...interface{}) Unsupported { return Unsupported{fmt.Sprintf(f, a...)} }

// toLeaves flattens a value of type t.
func (e *Engine) toLeaves(v Value, t types.Type) []*Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		return []*Term{s.Arr, s.Off, s.Len, s.Cap}
	case *types.Struct:
		s := v.(*StructV)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, e.toLeaves(s.F[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		var out []*Term
		for _, x := range v.(*ArrV).E {
			out = append(out, e.toLeaves(x, u.Elem())...)
		}
		return out
	case *types.Pointer:
		return []*Term{e.ptrTerm(v.(*PtrV))}
	case *types.Signature:
		return []*Term{e.funcTerm(v.(*FuncV))}
	case *types.Tuple:
		var out []*Term
		for i, x := range v.(*TupleV).E {
			out = append(out, e.toLeaves(x, u.At(i).Type())...)
		}
		return out
	}
	tm, ok := v.(*Term)
	if !ok {
		panic(unsup("leaf of %T for %s", v, t))
	}
	return []*Term{tm}
}

func (e *Engine) fromLeaves(ls []*Term, t types.Type) Value {
	v, rest := e.fromLeaves1(ls, t)
	if len(rest) != 0 {
		panic("fromLeaves: leftover")
	}
	return v
}

func (e *Engine) fromLeaves1(ls []*Term, t types.Type) (Value, []*Term) {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2], ls[3]}, ls[4:]
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ls = e.fromLeaves1(ls, u.Field(i).Type())
			s.F = append(s.F, f)
		}
		return s, ls
	case *types.Array:
		s := &ArrV{T: t}
		for i := int64(0); i < u.Len(); i++ {
			var f Value
			f, ls = e.fromLeaves1(ls, u.Elem())
			s.E = append(s.E, f)
		}
		return s, ls
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var f Value
			f, ls = e.fromLeaves1(ls, u.At(i).Type())
			s.E = append(s.E, f)
		}
		return s, ls
	case *types.Pointer:
		return e.termPtr(ls[0], u.Elem()), ls[1:]
	case *types.Signature:
		return e.termFunc(ls[0], u), ls[1:]
	}
	return ls[0], ls[1:]
}

// Special integer codes for pointers and functions that have no plain
// reference (interior pointers, globals, closures).
const specialBase = -1000000

func (e *Engine) special(v Value) *Term {
	id := int64(specialBase - len(e.specials))
	e.specials = append(e.specials, v)
	return Int(id)
}

func (e *Engine) specialOf(t *Term) (Value, bool) {
	if t.isInt() && t.I.IsInt64() && t.I.Int64() <= specialBase {
		i := int(specialBase - t.I.Int64())
		if i < len(e.specials) {
			return e.specials[i], true
		}
	}
	return nil, false
}

func (e *Engine) ptrTerm(p *PtrV) *Term {
	var r *Term
	for i := len(p.Alts) - 1; i >= 0; i-- {
		a := p.Alts[i]
		var t *Term
		switch {
		case a.Loc == nil:
			t = Int(0)
		case a.Loc.Kind == LObj && len(a.Loc.Path) == 0 || a.Loc.Kind == LArr:
			t = a.Loc.Ref
		default:
			k := locKey(a.Loc)
			if s, ok := e.specialPtr[k]; ok {
				t = s
			} else {
				t = e.special(&PtrV{[]PtrAlt{{True, a.Loc}}})
				e.specialPtr[k] = t
			}
		}
		if r == nil {
			r = t
		} else {
			r = Ite(a.G, t, r)
		}
	}
	return r
}

func locKey(l *Loc) string {
	s := fmt.Sprintf("%d|%s|%v", l.Kind, typeKeyOrNil(l.Root), l.Path)
	if l.Ref != nil {
		s += fmt.Sprintf("|r%d", l.Ref.id)
	}
	if l.Idx != nil {
		s += fmt.Sprintf("|i%d", l.Idx.id)
	}
	if l.Global != nil {
		s += "|" + l.Global.String()
	}
	return s
}

func typeKeyOrNil(t types.Type) string {
	if t == nil {
		return ""
	}
	return typeKey(t)
}

// hasSpecial reports whether an ite tree of integers has special leaves.
func (e *Engine) hasSpecial(t *Term) bool {
	if t.Op == "ite" {
		return e.hasSpecial(t.Args[1]) || e.hasSpecial(t.Args[2])
	}
	_, ok := e.specialOf(t)
	return ok
}

func (e *Engine) termPtr(t *Term, elem types.Type) *PtrV {
	if e.hasSpecial(t) {
		var alts []PtrAlt
		var walk func(t, g *Term)
		walk = func(t, g *Term) {
			if g.Op == "false" {
				return
			}
			if t.Op == "ite" {
				walk(t.Args[1], And(g, t.Args[0]))
				walk(t.Args[2], And(g, Not(t.Args[0])))
				return
			}
			if v, ok := e.specialOf(t); ok {
				alts = append(alts, PtrAlt{g, v.(*PtrV).Alts[0].Loc})
				return
			}
			alts = append(alts, PtrAlt{g, plainLoc(t, elem)})
		}
		walk(t, True)
		return &PtrV{alts}
	}
	if !t.isInt() && e.mentionsSpecial(t) {
		ids := map[int64]bool{}
		e.specialsIn(t, ids, map[*Term]bool{})
		var alts []PtrAlt
		rest := True
		for _, id := range sortedInts(ids) {
			v, ok := e.specialOf(Int(id))
			if !ok {
				continue
			}
			p, ok := v.(*PtrV)
			if !ok || p.Alts[0].Loc == nil {
				continue
			}
			_, et := pathStr(p.Alts[0].Loc.Root, p.Alts[0].Loc.Path)
			if memKey(et) != memKey(elem) {
				continue
			}
			c := Eq(t, Int(id))
			alts = append(alts, PtrAlt{And(rest, c), p.Alts[0].Loc})
			rest = And(rest, Not(c))
		}
		alts = append(alts, PtrAlt{rest, plainLoc(t, elem)})
		return &PtrV{alts}
	}
	return &PtrV{[]PtrAlt{{True, plainLoc(t, elem)}}}
}

// specialsIn collects the special codes a term may evaluate to.
func (e *Engine) specialsIn(t *Term, ids map[int64]bool, seen map[*Term]bool) {
	if t.isInt() {
		if _, ok := e.specialOf(t); ok {
			ids[t.I.Int64()] = true
		}
		return
	}
	if seen[t] || !e.mentionsSpecial(t) {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		e.specialsIn(a, ids, seen)
	}
	for _, a := range e.taint[t.Name] {
		e.specialsIn(a, ids, seen)
	}
}

func sortedInts(m map[int64]bool) []int64 {
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] > out[j] })
	return out
}

var specialMemo = map[*Term]bool{}

// mentionsSpecial: some subterm is the code of an interior pointer or closure.
func (e *Engine) mentionsSpecial(t *Term) bool {
	if t.isInt() {
		_, ok := e.specialOf(t)
		return ok
	}
	if len(t.Args) == 0 && (t.Op != "var" || len(e.taint[t.Name]) == 0) {
		return false
	}
	if r, ok := specialMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if e.mentionsSpecial(a) {
			r = true
			break
		}
	}
	for _, a := range e.taint[t.Name] {
		r = r || e.mentionsSpecial(a)
	}
	specialMemo[t] = r
	return r
}

func plainLoc(t *Term, elem types.Type) *Loc {
	if _, ok := under(elem).(*types.Array); ok {
		return &Loc{Kind: LArr, Root: elem, Ref: t}
	}
	return &Loc{Kind: LObj, Root: elem, Ref: t}
}

func (e *Engine) funcTerm(f *FuncV) *Term {
	var r *Term
	for i := len(f.Alts) - 1; i >= 0; i-- {
		a := f.Alts[i]
		var t *Term
		switch {
		case a.Opaque != nil:
			t = a.Opaque
		case a.Fn == nil && a.Model == "":
			t = Int(0)
		case len(a.Bind) == 0 && a.Fn != nil:
			if s, ok := e.specialPtr["fn|"+a.Fn.String()]; ok {
				t = s
			} else {
				t = e.special(&FuncV{[]FuncAlt{{G: True, Fn: a.Fn}}})
				e.specialPtr["fn|"+a.Fn.String()] = t
			}
		default:
			b := a
			b.G = True
			t = e.special(&FuncV{[]FuncAlt{b}})
		}
		if r == nil {
			r = t
		} else {
			r = Ite(a.G, t, r)
		}
	}
	return r
}

func (e *Engine) termFunc(t *Term, sig *types.Signature) *FuncV {
	var alts []FuncAlt
	var walk func(t, g *Term)
	walk = func(t, g *Term) {
		if g.Op == "false" {
			return
		}
		if t.Op == "ite" {
			walk(t.Args[1], And(g, t.Args[0]))
			walk(t.Args[2], And(g, Not(t.Args[0])))
			return
		}
		if v, ok := e.specialOf(t); ok {
			a := v.(*FuncV).Alts[0]
			a.G = g
			alts = append(alts, a)
			return
		}
		if t.isInt() && t.I.Sign() == 0 {
			alts = append(alts, FuncAlt{G: g})
			return
		}
		alts = append(alts, FuncAlt{G: g, Opaque: t, Sig: sig})
	}
	walk(t, True)
	return &FuncV{alts}
}

// zero value of a type
func (e *Engine) zero(t types.Type) Value {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = zeroOf(l.Sort)
	}
	return e.fromLeaves(ts, t)
}

func zeroOf(s Sort) *Term {
	switch s {
	case SBool:
		return False
	case SInt:
		return Int(0)
	case SStr:
		return Str("")
	case SFloat:
		return Float(0)
	case SAny:
		return AnyNil
	}
	panic("zeroOf " + s)
}

var AnyNil = Ctor("anil", SAny)

// ---- interfaces ----

func (e *Engine) tag(t types.Type) *Term {
	k := typeKey(t)
	if id, ok := e.tags[k]; ok {
		return Int(int64(id))
	}
	id := len(e.tags) + 1
	e.tags[k] = id
	e.tagTypes = append(e.tagTypes, types.Unalias(t))
	return Int(int64(id))
}

func anyCtor(t types.Type) (ctor, tagSel, valSel string, s Sort) {
	switch u := under(t).(type) {
	case *types.Basic:
		switch basicSort(u) {
		case SBool:
			return "vBool", "tB", "bv", SBool
		case SInt:
			return "vInt", "tI", "iv", SInt
		case SStr:
			return "vStr", "tS", "sv", SStr
		case SFloat:
			return "vFlt", "tF", "fv", SFloat
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "vRef", "tR", "rv", SInt
	}
	return "vBox", "tX", "xv", SInt
}

func (e *Engine) makeAny(v Value, t types.Type) *Term {
	if _, ok := under(t).(*types.Interface); ok {
		return v.(*Term)
	}
	c, _, _, _ := anyCtor(t)
	ls := e.toLeaves(v, t)
	if c == "vBox" {
		k := sanitize(typeKey(t))
		if len(ls) == 0 {
			return Ctor(c, SAny, e.tag(t), Int(0))
		}
		id := App("mkbox|"+k, SInt, ls...)
		if !e.boxSeen[id] {
			e.boxSeen[id] = true
			for i, l := range ls {
				e.fact(Eq(mkApp("box|"+k+"|"+fmt.Sprint(i), l.Sort, id), l))
			}
		}
		return Ctor(c, SAny, e.tag(t), id)
	}
	return Ctor(c, SAny, e.tag(t), ls[0])
}

func mkApp(n string, s Sort, args ...*Term) *Term { return App(n, s, args...) }

func (e *Engine) isType(a *Term, t types.Type) *Term {
	c, ts, _, _ := anyCtor(t)
	return And(Is(c, a), Eq(Sel(ts, SInt, a), e.tag(t)))
}

func (e *Engine) unbox(a *Term, t types.Type) Value {
	c, _, vs, s := anyCtor(t)
	x := Sel(vs, s, a)
	if c != "vBox" {
		return e.fromLeaves([]*Term{x}, t)
	}
	k := sanitize(typeKey(t))
	lv := leaves(t)
	ts := make([]*Term, len(lv))
	for i, l := range lv {
		ts[i] = unboxLeaf(x, "mkbox|"+k, "box|"+k+"|"+fmt.Sprint(i), i, l.Sort)
	}
	return e.fromLeaves(ts, t)
}

func unboxLeaf(x *Term, mkName, name string, i int, s Sort) *Term {
	if x.Op == "app" && x.Name == mkName {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], unboxLeaf(x.Args[1], mkName, name, i, s), unboxLeaf(x.Args[2], mkName, name, i, s))
	}
	return App(name, s, x)
}

// tagOf is the dynamic type tag of an interface value (0 for nil).
func tagOf(a *Term) *Term {
	if a.Op == "ite" {
		return Ite(a.Args[0], tagOf(a.Args[1]), tagOf(a.Args[2]))
	}
	if a.Op == "ctor" {
		if a.Name == "anil" {
			return Int(0)
		}
		return a.Args[0]
	}
	r := Int(0)
	for _, p := range [][2]string{{"vBox", "tX"}, {"vFlt", "tF"}, {"vBool", "tB"}, {"vInt", "tI"}, {"vStr", "tS"}, {"vRef", "tR"}} {
		r = Ite(Is(p[0], a), Sel(p[1], SInt, a), r)
	}
	return r
}

func (e *Engine) implements(a *Term, it types.Type) *Term {
	iface := under(it).(*types.Interface)
	if a.Op == "ite" {
		return Ite(a.Args[0], e.implements(a.Args[1], it), e.implements(a.Args[2], it))
	}
	if a.Op == "ctor" {
		if a.Name == "anil" {
			return False
		}
		if tg := a.Args[0]; tg.isInt() {
			return Bool(types.Implements(e.tagTypes[tg.I.Int64()-1], iface))
		}
	}
	if iface.NumMethods() == 0 {
		return Not(Is("anil", a))
	}
	k := typeKey(it)
	e.ifaces[k] = iface
	return And(Not(Is("anil", a)), App("impl|"+k, SBool, tagOf(a)))
}

// implAxioms states which known types implement the interfaces asked about.
func (e *Engine) implAxioms() []*Term {
	var out []*Term
	for k, iface := range e.ifaces {
		for i, t := range e.tagTypes {
			ap := App("impl|"+k, SBool, Int(int64(i+1)))
			if types.Implements(t, iface) {
				out = append(out, ap)
			} else {
				out = append(out, Not(ap))
			}
		}
	}
	return out
}

// anyDomain states that integers inside interfaces are in range etc. is
// handled on unboxing (see wf).

// ---- equality of values ----

func (e *Engine) eqVal(a, b Value, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		x, y := a.(*Term), b.(*Term)
		if x.Sort == SFloat {
			return fpEq(x, y)
		}
		return Eq(x, y)
	case *types.Interface:
		return Eq(a.(*Term), b.(*Term))
	case *types.Slice:
		// only comparison with nil is legal Go
		x, y := a.(*SliceV), b.(*SliceV)
		return Eq(x.Arr, y.Arr)
	case *types.Struct:
		x, y := a.(*StructV), b.(*StructV)
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, e.eqVal(x.F[i], y.F[i], u.Field(i).Type()))
		}
		return And(cs...)
	case *types.Pointer:
		return Eq(e.ptrTerm(a.(*PtrV)), e.ptrTerm(b.(*PtrV)))
	case *types.Signature:
		return Eq(e.funcTerm(a.(*FuncV)), e.funcTerm(b.(*FuncV)))
	case *types.Array:
		x, y := a.(*ArrV), b.(*ArrV)
		var cs []*Term
		for i := range x.E {
			cs = append(cs, e.eqVal(x.E[i], y.E[i], u.Elem()))
		}
		return And(cs...)
	}
	return Eq(a.(*Term), b.(*Term))
}

// sameVal is representation identity (used by vc.Same): floats compare as
// values (NaN equals NaN).
func (e *Engine) sameVal(a, b Value, t types.Type) *Term {
	x, y := e.toLeaves(a, t), e.toLeaves(b, t)
	lv := leaves(t)
	var cs []*Term
	for i := range x {
		if lv[i].Role == "cap" {
			continue
		}
		cs = append(cs, Eq(x[i], y[i]))
	}
	return And(cs...)
}

func fpEq(a, b *Term) *Term {
	if a.Op == "fp" && b.Op == "fp" && a == b && !strings.Contains(a.Name, "11111111111") {
		return True
	}
	return mk("fp.eq", SBool, a, b)
}

func iteVal(e *Engine, c *Term, a, b Value, t types.Type) Value {
	if a == b {
		return a
	}
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	switch x := a.(type) {
	case *Term:
		return Ite(c, x, b.(*Term))
	case *SliceV:
		y := b.(*SliceV)
		return &SliceV{Ite(c, x.Arr, y.Arr), Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len), Ite(c, x.Cap, y.Cap)}
	case *StructV:
		y := b.(*StructV)
		r := &StructV{T: x.T}
		for i := range x.F {
			r.F = append(r.F, iteVal(e, c, x.F[i], y.F[i], nil))
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		r := &ArrV{T: x.T}
		for i := range x.E {
			r.E = append(r.E, iteVal(e, c, x.E[i], y.E[i], nil))
		}
		return r
	case *TupleV:
		y := b.(*TupleV)
		r := &TupleV{}
		for i := range x.E {
			r.E = append(r.E, iteVal(e, c, x.E[i], y.E[i], nil))
		}
		return r
	case *PtrV:
		y := b.(*PtrV)
		if len(x.Alts) == 1 && len(y.Alts) == 1 {
			l, m := x.Alts[0].Loc, y.Alts[0].Loc
			if l != nil && m != nil && l.Kind == m.Kind && samePath(l.Path, m.Path) && l.Global == m.Global && types.Identical(l.Root, m.Root) {
				if l.Kind == LGlobal {
					return x
				}
				n := *l
				n.Ref = Ite(c, l.Ref, m.Ref)
				if l.Idx != nil {
					n.Idx = Ite(c, l.Idx, m.Idx)
				}
				return &PtrV{[]PtrAlt{{True, &n}}}
			}
			// nil constant pointer against interior pointer etc.
		}
		var alts []PtrAlt
		for _, al := range x.Alts {
			if g := And(c, al.G); g.Op != "false" {
				alts = append(alts, PtrAlt{g, al.Loc})
			}
		}
		for _, al := range y.Alts {
			if g := And(Not(c), al.G); g.Op != "false" {
				alts = append(alts, PtrAlt{g, al.Loc})
			}
		}
		return &PtrV{alts}
	case *FuncV:
		y := b.(*FuncV)
		var alts []FuncAlt
		for _, al := range x.Alts {
			al.G = And(c, al.G)
			if al.G.Op != "false" {
				alts = append(alts, al)
			}
		}
		for _, al := range y.Alts {
			al.G = And(Not(c), al.G)
			if al.G.Op != "false" {
				alts = append(alts, al)
			}
		}
		return &FuncV{alts}
	case *IterV:
		y := b.(*IterV)
		if x.Enum == y.Enum {
			n := *x
			n.Pos = Ite(c, x.Pos, y.Pos)
			return &n
		}
	case nil:
		if b == nil {
			return nil
		}
	}
	panic(unsup("merge of %T and %T", a, b))
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

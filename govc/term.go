package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

type Sort = string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "String"
	SFloat Sort = "(_ FloatingPoint 11 53)"
	SAny   Sort = "Any"
)

func SArr(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// Term is an SMT term. Op is one of: "var" (declared constant), "bound"
// (quantified variable), "int", "str", "true", "false", "forall", "exists",
// "app" (uninterpreted function Name) or an SMT-LIB operator.
type Term struct {
	Op    string
	Name  string
	Sort  Sort
	Args  []*Term
	Vars  []*Term // quantifier-bound
	Pats  [][]*Term
	I     *big.Int
	id    int
	bound bool // contains free bound variables (conservative)
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	symSeq   int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	if t.I != nil {
		sb.WriteByte('#')
		sb.WriteString(t.I.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.Vars {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(termList)
	if t.Op == "bound" {
		t.bound = true
	}
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
	}
	if len(t.Vars) > 0 {
		t.bound = hasFreeBound(t)
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func hasFreeBound(t *Term) bool {
	fv := map[*Term]bool{}
	freeBound(t, fv, map[*Term]bool{})
	return len(fv) > 0
}

var fbCache = map[*Term][]*Term{}

// freeBoundOf returns the free bound variables of t.
func freeBoundOf(t *Term) []*Term {
	if !t.bound && t.Op != "forall" && t.Op != "exists" {
		return nil
	}
	if r, ok := fbCache[t]; ok {
		return r
	}
	set := map[*Term]bool{}
	if t.Op == "bound" {
		set[t] = true
	}
	for _, a := range t.Args {
		for _, v := range freeBoundOf(a) {
			set[v] = true
		}
	}
	for _, v := range t.Vars {
		delete(set, v)
	}
	var r []*Term
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	fbCache[t] = r
	return r
}

func freeBound(t *Term, out map[*Term]bool, _ map[*Term]bool) {
	for _, v := range freeBoundOf(t) {
		out[v] = true
	}
}

func Var(name string, s Sort) *Term { return intern(&Term{Op: "var", Name: name, Sort: s}) }
func Fresh(prefix string, s Sort) *Term {
	symSeq++
	return Var(fmt.Sprintf("%s!%d", sanitize(prefix), symSeq), s)
}
func FreshBound(prefix string, s Sort) *Term {
	symSeq++
	return intern(&Term{Op: "bound", Name: fmt.Sprintf("%s?%d", sanitize(prefix), symSeq), Sort: s})
}
func FreshName(prefix string) string {
	symSeq++
	return fmt.Sprintf("%s!%d", sanitize(prefix), symSeq)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!?$%&*+-/<=>@^~", r) {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

var (
	True  = intern(&Term{Op: "true", Sort: SBool})
	False = intern(&Term{Op: "false", Sort: SBool})
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Int(i int64) *Term      { return intern(&Term{Op: "int", Sort: SInt, I: big.NewInt(i)}) }
func IntB(i *big.Int) *Term  { return intern(&Term{Op: "int", Sort: SInt, I: new(big.Int).Set(i)}) }
func Str(s string) *Term     { return intern(&Term{Op: "str", Sort: SStr, Name: s}) }
func Float(f float64) *Term {
	b := math.Float64bits(f)
	return intern(&Term{Op: "fp", Sort: SFloat, Name: fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))})
}
func App(fn string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: "app", Name: fn, Sort: s, Args: args})
}
func mk(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, Sort: s, Args: args})
}
func (t *Term) isInt() bool  { return t.Op == "int" }
func (t *Term) isStr() bool  { return t.Op == "str" }
func (t *Term) isConst() bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "true" || t.Op == "false" || t.Op == "fp"
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", SBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "true" || seen[t] {
			return true
		}
		if t.Op == "false" || seen[Not(t)] {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.Op == "false" || seen[t] {
			continue
		}
		if t.Op == "true" || seen[Not(t)] {
			return True
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if seen[Not(a)] {
					return True
				}
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (p & a) | (p & b) = p & (a|b)
	if len(out) <= 12 {
		common := map[*Term]bool{}
		for _, c := range conj(out[0]) {
			common[c] = true
		}
		for _, o := range out[1:] {
			has := map[*Term]bool{}
			for _, c := range conj(o) {
				has[c] = true
			}
			for c := range common {
				if !has[c] {
					delete(common, c)
				}
			}
		}
		if len(common) > 0 {
			var cs, rest []*Term
			for _, c := range conj(out[0]) {
				if common[c] {
					cs = append(cs, c)
				}
			}
			for _, o := range out {
				var r []*Term
				for _, c := range conj(o) {
					if !common[c] {
						r = append(r, c)
					}
				}
				rest = append(rest, And(r...))
			}
			return And(append(cs, Or(rest...))...)
		}
		// (a & X) | (!a & X) handled above; a | !a handled by seen; (a&b)|!a -> b|!a
		for i, o := range out {
			no := Not(o)
			for j, p := range out {
				if i == j || p.Op != "and" {
					continue
				}
				for _, c := range p.Args {
					if c == no {
						var r []*Term
						for _, d := range p.Args {
							if d != no {
								r = append(r, d)
							}
						}
						n := append([]*Term{}, out...)
						n[j] = And(r...)
						return Or(n...)
					}
				}
			}
		}
	}
	return mk("or", SBool, out...)
}

func conj(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	if t.Op == "true" {
		return nil
	}
	return []*Term{t}
}

func Implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return True
	}
	if b.Op == "false" {
		return Not(a)
	}
	return mk("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c.Op == "true" || a == b {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return Or(c, b)
		}
		if a.Op == "false" {
			return And(Not(c), b)
		}
		if b.Op == "true" {
			return Or(Not(c), a)
		}
		if b.Op == "false" {
			return And(c, a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", a.Sort, c, a, b)
}

// linear view: base + const
func lin(t *Term) (*Term, *big.Int) {
	if t.isInt() {
		return nil, t.I
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].isInt() {
		return t.Args[0], t.Args[1].I
	}
	return t, new(big.Int)
}

func distinct(a, b *Term) bool {
	if a.isConst() && b.isConst() {
		return a != b
	}
	if a.Sort == SInt {
		x, i := lin(a)
		y, j := lin(b)
		return x == y && i.Cmp(j) != 0
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Name != b.Name {
			return true
		}
		for i := range a.Args {
			if distinct(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch %s %s: %s / %s", a.Sort, b.Sort, a.Short(), b.Short()))
	}
	if a.Sort == SFloat {
		return mk("=", SBool, a, b)
	}
	if distinct(a, b) {
		return False
	}
	if a.Op == "ctor" && b.Op == "ctor" && a.Name == b.Name {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return Not(b)
		}
		if b.Op == "false" {
			return Not(a)
		}
	}
	if a.Op == "ite" && (b.isConst() || b.Op == "ctor") && iteConstLeaves(a, 6) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (a.isConst() || a.Op == "ctor") && iteConstLeaves(b, 6) {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if a.Sort == SInt {
		x, i := lin(a)
		y, j := lin(b)
		if x != nil && y != nil && i.Cmp(j) == 0 && (i.Sign() != 0) {
			return Eq(x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func iteConstLeaves(t *Term, depth int) bool {
	if t.isConst() || t.Op == "ctor" {
		return true
	}
	if t.Op == "ite" && depth > 0 {
		// at least one branch constant: pushing the equality inside helps
		return iteConstLeaves(t.Args[1], depth-1) || iteConstLeaves(t.Args[2], depth-1)
	}
	return false
}

func Add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Add(a.I, b.I))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.I.Sign() == 0 {
			return a
		}
		if x, i := lin(a); x != nil && x != a {
			return Add(x, IntB(new(big.Int).Add(i, b.I)))
		}
		if a.Op == "ite" && a.Args[1].isInt() && a.Args[2].isInt() {
			return Ite(a.Args[0], Add(a.Args[1], b), Add(a.Args[2], b))
		}
		return mk("+", SInt, a, b)
	}
	if x, i := lin(a); x != a {
		return Add(Add(x, b), IntB(i))
	}
	if y, j := lin(b); y != b {
		return Add(Add(a, y), IntB(j))
	}
	// (x - y) + y
	if a.Op == "-" && len(a.Args) == 2 && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Op == "-" && len(b.Args) == 2 && b.Args[1] == a {
		return b.Args[0]
	}
	return mk("+", SInt, a, b)
}

func Sub(a, b *Term) *Term {
	if b.isInt() {
		return Add(a, IntB(new(big.Int).Neg(b.I)))
	}
	if a == b {
		return Int(0)
	}
	x, i := lin(a)
	y, j := lin(b)
	if x == y && x != nil {
		return IntB(new(big.Int).Sub(i, j))
	}
	if x != nil && x != a {
		return Add(Sub(x, b), IntB(i))
	}
	if y != nil && y != b {
		return Add(Sub(a, y), IntB(new(big.Int).Neg(j)))
	}
	if a.Op == "+" && len(a.Args) == 2 {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	return mk("-", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Mul(a.I, b.I))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() && b.I.IsInt64() {
		if b.I.Int64() == 1 {
			return a
		}
		if b.I.Sign() == 0 {
			return b
		}
		if x, i := lin(a); x != nil && x != a {
			return Add(Mul(x, b), IntB(new(big.Int).Mul(i, b.I)))
		}
	}
	return mk("*", SInt, a, b)
}

func Lt(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return Bool(a.I.Cmp(b.I) < 0)
	}
	x, i := lin(a)
	y, j := lin(b)
	if x == y {
		return Bool(i.Cmp(j) < 0)
	}
	if a.Op == "str.len" && b.isInt() && b.I.Sign() <= 0 {
		return False
	}
	if b.Op == "str.len" && a.isInt() && a.I.Sign() < 0 {
		return True
	}
	if r := cmpConstLeaves(Lt, x, i, y, j); r != nil {
		return r
	}
	if a.Op == "ite" && b.isInt() && iteConstLeaves(a, 6) {
		return Ite(a.Args[0], Lt(a.Args[1], b), Lt(a.Args[2], b))
	}
	if b.Op == "ite" && a.isInt() && iteConstLeaves(b, 6) {
		return Ite(b.Args[0], Lt(a, b.Args[1]), Lt(a, b.Args[2]))
	}
	return mk("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return Bool(a.I.Cmp(b.I) <= 0)
	}
	x, i := lin(a)
	y, j := lin(b)
	if x == y {
		return Bool(i.Cmp(j) <= 0)
	}
	if b.Op == "str.len" && a.isInt() && a.I.Sign() <= 0 {
		return True
	}
	if r := cmpConstLeaves(Le, x, i, y, j); r != nil {
		return r
	}
	if a.Op == "ite" && b.isInt() && iteConstLeaves(a, 6) {
		return Ite(a.Args[0], Le(a.Args[1], b), Le(a.Args[2], b))
	}
	if b.Op == "ite" && a.isInt() && iteConstLeaves(b, 6) {
		return Ite(b.Args[0], Le(a, b.Args[1]), Le(a, b.Args[2]))
	}
	return mk("<=", SBool, a, b)
}

// cmpConstLeaves compares x+i and y+j where one of x, y is nothing and the
// other has finitely many constant values.
func cmpConstLeaves(cmp func(a, b *Term) *Term, x *Term, i *big.Int, y *Term, j *big.Int) *Term {
	d := new(big.Int).Sub(j, i)
	switch {
	case y == nil && x != nil && i.Sign() != 0 && x.Op == "ite" && iteConstLeaves(x, 6):
		return cmp(x, IntB(d))
	case x == nil && y != nil && j.Sign() != 0 && y.Op == "ite" && iteConstLeaves(y, 6):
		return cmp(IntB(d.Neg(d)), y)
	}
	return nil
}

func Select(a, i *Term) *Term {
	_, vs := arrSorts(a.Sort)
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
			// fresh references never equal older ones
			if isFreshRef(a.Args[1]) && olderThan(i, a.Args[1]) || isFreshRef(i) && olderThan(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "app" {
		if lh, ok := loopHeaps[a.Name]; ok && lh.keeps(i) {
			return Select(lh.base, i)
		}
	}
	if a.Op == "ite" {
		c := a.Args[0]
		return Ite(c, Select(a.Args[1], underCond(i, c, true)), Select(a.Args[2], underCond(i, c, false)))
	}
	if i.Op == "ite" && a.Op == "store" {
		return Ite(i.Args[0], Select(a, i.Args[1]), Select(a, i.Args[2]))
	}
	return mk("select", vs, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Op == "constarr" && a.Args[0] == v {
		return a
	}
	_, vs := arrSorts(a.Sort)
	if vs != v.Sort {
		panic("store sort mismatch " + a.Sort + " <- " + v.Sort)
	}
	return mk("store", a.Sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, v) }

// arrSorts splits "(Array K V)".
func arrSorts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[7 : len(s)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// Reference freshness: allocation bases. Base terms are "var" terms named
// alloc!N; a reference term base+k was allocated when base was current.
// refBound[t] is the allocation base (and offset) every value of t lies below.
type allocPt struct {
	base *Term
	k    int64
	seq  int
}

var allocSeq = map[*Term]int{} // allocation base -> order of creation
var refBelow = map[*Term]allocPt{}

// loopHeaps: heap arrays at the start of a loop iteration that agree with the
// entry heap (base) on all references older than the loop.
type loopHeap struct {
	base   *Term
	ab     *Term // alloc point at loop entry
	ak     int64
	except []*Term
	ctxArgs int
}

func (l *loopHeap) keeps(i *Term) bool {
	for _, x := range l.except {
		if x != i && !distinct(x, i) {
			return false
		}
		if x == i {
			return false
		}
	}
	return olderThanPt(i, l.ab, l.ak)
}

var loopHeaps = map[string]*loopHeap{}

// olderThanPt: every value of t was allocated before point (b,k).
func olderThanPt(t *Term, b *Term, k int64) bool {
	if t.isInt() {
		return t.I.Sign() == 0
	}
	if t.Op == "ite" {
		return olderThanPt(t.Args[1], b, k) && olderThanPt(t.Args[2], b, k)
	}
	if tb, ti := lin(t); tb != nil {
		if ts, ok := allocSeq[tb]; ok {
			return tb == b && ti.Cmp(big.NewInt(k)) < 0 || ts < allocSeq[b]
		}
	}
	if p, ok := refBelow[t]; ok {
		return p.base == b && p.k <= k || p.seq < allocSeq[b]
	}
	return false
}

func isFreshRef(t *Term) bool {
	b, i := lin(t)
	if b == nil || i.Sign() < 0 {
		return false
	}
	_, ok := allocSeq[b]
	return ok
}

// olderThan reports that the (arbitrary) reference t is known to be smaller
// than the fresh reference f.
func olderThan(t, f *Term) bool {
	if t.isInt() {
		return t.I.Sign() == 0
	}
	fb, fi := lin(f)
	fs := allocSeq[fb]
	if tb, ti := lin(t); tb != nil {
		if ts, ok := allocSeq[tb]; ok {
			return ts == fs && ti.Cmp(fi) < 0
		}
	}
	if t.Op == "ite" {
		return olderThan(t.Args[1], f) && olderThan(t.Args[2], f)
	}
	if p, ok := refBelow[t]; ok {
		return p.base == fb && p.k <= fi.Int64() || p.seq < fs
	}
	return false
}

func StrLen(a *Term) *Term {
	if a.isStr() {
		return Int(int64(len(a.Name)))
	}
	if a.Op == "ite" && iteConstLeaves(a, 4) {
		return Ite(a.Args[0], StrLen(a.Args[1]), StrLen(a.Args[2]))
	}
	if a.Op == "str.++" {
		r := Int(0)
		for _, x := range a.Args {
			r = Add(r, StrLen(x))
		}
		return r
	}
	return mk("str.len", SInt, a)
}

func Concat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "str.++" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.isStr() {
			if t.Name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].isStr() {
				out[n-1] = Str(out[n-1].Name + t.Name)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("str.++", SStr, out...)
}

func Substr(s, off, n *Term) *Term {
	if s.isStr() && off.isInt() && n.isInt() && off.I.IsInt64() && n.I.IsInt64() {
		o, l := off.I.Int64(), n.I.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.Name)) {
			return Str(s.Name[o : o+l])
		}
	}
	if off.isInt() && off.I.Sign() == 0 && n == StrLen(s) {
		return s
	}
	// a prefix of a concatenation that is exactly its first part
	if s.Op == "str.++" && off.isInt() && off.I.Sign() == 0 {
		l := s.Args[len(s.Args)-1]
		rest := Concat(s.Args[:len(s.Args)-1]...)
		if l.isStr() && n == Sub(StrLen(s), Int(int64(len(l.Name)))) {
			return rest
		}
		if n == StrLen(s.Args[0]) {
			return s.Args[0]
		}
	}
	// drop a constant prefix: substr(c ++ rest, |c|, n)
	if s.Op == "str.++" && s.Args[0].isStr() && off.isInt() && off.I.IsInt64() && off.I.Int64() == int64(len(s.Args[0].Name)) {
		return Substr(Concat(s.Args[1:]...), Int(0), n)
	}
	return mk("str.substr", SStr, s, off, n)
}

func StrOp(op string, s Sort, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	switch op {
	case "str.prefixof":
		if all {
			return Bool(strings.HasPrefix(args[1].Name, args[0].Name))
		}
		if args[0].isStr() && args[0].Name == "" || args[0] == args[1] {
			return True
		}
		for x := args[0]; x.Op == "str.substr" && x.Args[1].isInt() && x.Args[1].I.Sign() == 0; x = x.Args[0] {
			if x.Args[0] == args[1] {
				return True
			}
		}
		if args[1].Op == "str.++" && args[0] == args[1].Args[0] {
			return True
		}
		if args[0].isStr() && args[1].Op == "str.++" && args[1].Args[0].isStr() {
			p, q := args[0].Name, args[1].Args[0].Name
			if len(q) >= len(p) {
				return Bool(strings.HasPrefix(q, p))
			}
		}
	case "str.suffixof":
		if all {
			return Bool(strings.HasSuffix(args[1].Name, args[0].Name))
		}
		if args[1].Op == "str.++" {
			l := args[1].Args[len(args[1].Args)-1]
			if l == args[0] {
				return True
			}
			if l.isStr() && args[0].isStr() && len(l.Name) >= len(args[0].Name) {
				return Bool(strings.HasSuffix(l.Name, args[0].Name))
			}
		}
	case "str.contains":
		if all {
			return Bool(strings.Contains(args[0].Name, args[1].Name))
		}
	case "str.indexof":
		if all && args[2].I.IsInt64() {
			o := args[2].I.Int64()
			if o >= 0 && o <= int64(len(args[0].Name)) {
				i := strings.Index(args[0].Name[o:], args[1].Name)
				if i >= 0 {
					i += int(o)
				}
				return Int(int64(i))
			}
		}
	case "str.replace_all":
		if all && args[1].Name != "" {
			return Str(strings.ReplaceAll(args[0].Name, args[1].Name, args[2].Name))
		}
	case "str.<":
		if all {
			return Bool(args[0].Name < args[1].Name)
		}
		if args[0] == args[1] {
			return False
		}
	case "str.to_code":
		if all && len(args[0].Name) == 1 {
			return Int(int64(args[0].Name[0]))
		}
	case "str.at":
		if all && args[1].I.IsInt64() {
			i := args[1].I.Int64()
			if i >= 0 && i < int64(len(args[0].Name)) {
				return Str(args[0].Name[i : i+1])
			}
		}
		if args[0].Op == "str.++" && args[0].Args[0].isStr() && args[1].isInt() && args[1].I.IsInt64() {
			i := args[1].I.Int64()
			if i >= 0 && i < int64(len(args[0].Args[0].Name)) {
				return Str(args[0].Args[0].Name[i : i+1])
			}
		}
	}
	return mk(op, s, args...)
}

// Quantifiers.
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.Op == "true" || body.Op == "false" || len(vars) == 0 {
		return body
	}
	if !body.bound {
		return body
	}
	t := &Term{Op: "forall", Sort: SBool, Args: []*Term{body}, Vars: vars, Pats: pats}
	return intern(t)
}
func Exists(vars []*Term, body *Term) *Term {
	if body.Op == "true" || body.Op == "false" || !body.bound {
		return body
	}
	return intern(&Term{Op: "exists", Sort: SBool, Args: []*Term{body}, Vars: vars})
}

// Ctor/Sel/Is for datatypes.
func Ctor(name string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: "ctor", Name: name, Sort: s, Args: args})
}

var dtSels = map[string][]string{} // ctor -> selectors
func Sel(sel string, s Sort, t *Term) *Term {
	if t.Op == "ctor" {
		for i, n := range dtSels[t.Name] {
			if n == sel {
				return t.Args[i]
			}
		}
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Sel(sel, s, t.Args[1]), Sel(sel, s, t.Args[2]))
	}
	return intern(&Term{Op: "sel", Name: sel, Sort: s, Args: []*Term{t}})
}
func Is(ctor string, t *Term) *Term {
	if t.Op == "ctor" {
		return Bool(t.Name == ctor)
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Is(ctor, t.Args[1]), Is(ctor, t.Args[2]))
	}
	return intern(&Term{Op: "is", Name: ctor, Sort: SBool, Args: []*Term{t}})
}

// Subst replaces terms (usually variables) simultaneously, re-simplifying.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = rebuild(t, args, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// patsOK: a multi-pattern the solvers accept.
func patsOK(q, vars []*Term) bool {
	have := map[*Term]bool{}
	for _, x := range q {
		if x.Op != "app" && x.Op != "select" && x.Op != "bound" || !x.bound || !patOK(x) {
			return false
		}
		for _, v := range freeBoundOf(x) {
			have[v] = true
		}
	}
	for _, v := range vars {
		if !have[v] {
			return false
		}
	}
	return true
}

// Simplify rebuilds t through the constructors.
func Simplify(t *Term, memo map[*Term]*Term) *Term {
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = f(a)
		}
		r := rebuild(t, args, f)
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term, f func(*Term) *Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "str.len":
		return StrLen(a[0])
	case "str.++":
		return Concat(a...)
	case "str.substr":
		return Substr(a[0], a[1], a[2])
	case "forall":
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			if patsOK(q, t.Vars) {
				pats = append(pats, q)
			}
		}
		return Forall(t.Vars, a[0], pats...)
	case "exists":
		return Exists(t.Vars, a[0])
	case "sel":
		return Sel(t.Name, t.Sort, a[0])
	case "is":
		return Is(t.Name, a[0])
	}
	if strings.HasPrefix(t.Op, "str.") {
		return StrOp(t.Op, t.Sort, a...)
	}
	return intern(&Term{Op: t.Op, Name: t.Name, Sort: t.Sort, Args: a, Vars: t.Vars, Pats: t.Pats, I: t.I})
}

// symbols collects declared constants and functions.
func symbols(t *Term, out map[*Term]bool, fns map[string]*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "var" {
		out[t] = true
	}
	if t.Op == "app" {
		fns[t.Name] = t
	}
	for _, a := range t.Args {
		symbols(a, out, fns, seen)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			symbols(a, out, fns, seen)
		}
	}
}

func dependsOn(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if (t.Op == "var" || t.Op == "app") && pred(t) {
			return true
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (t *Term) Short() string {
	s := t.raw(6)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (t *Term) raw(depth int) string {
	switch t.Op {
	case "var", "bound":
		return t.Name
	case "int":
		return t.I.String()
	case "str":
		return fmt.Sprintf("%q", t.Name)
	case "fp":
		return t.Name
	}
	if len(t.Args) == 0 {
		if t.Name != "" {
			return t.Name
		}
		return t.Op
	}
	if depth == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.Op == "app" || t.Op == "ctor" || t.Op == "sel" || t.Op == "is" {
		if t.Op == "is" {
			sb.WriteString("is-")
		}
		sb.WriteString(t.Name)
	} else {
		sb.WriteString(t.Op)
	}
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(a.raw(depth - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}

func sortStrings(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
// underCond simplifies an ite tree under the assumption that c is v.
func underCond(t, c *Term, v bool) *Term {
	if t.Op != "ite" {
		return t
	}
	if t.Args[0] == c {
		if v {
			return underCond(t.Args[1], c, v)
		}
		return underCond(t.Args[2], c, v)
	}
	return Ite(t.Args[0], underCond(t.Args[1], c, v), underCond(t.Args[2], c, v))
}


var pcMaps = map[*Term]map[*Term]*Term{}
var iteMemo = map[*Term]bool{}

func hasIte(t *Term) bool {
	if len(t.Args) == 0 {
		return false
	}
	if r, ok := iteMemo[t]; ok {
		return r
	}
	r := t.Op == "ite"
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasIte(a)
	}
	iteMemo[t] = r
	return r
}

// underPC simplifies a term under a path condition.
func underPC(pc, t *Term) *Term {
	if t.isConst() || pc.Op == "true" || len(t.Args) == 0 {
		return t
	}
	m, ok := pcMaps[pc]
	if !ok {
		m = map[*Term]*Term{}
		for _, c := range conj(pc) {
			if c.Op == "not" {
				m[c.Args[0]] = False
			} else {
				m[c] = True
				if c.Op == "or" {
					m[Not(c)] = False
				}
			}
		}
		pcMaps[pc] = m
	}
	if r, ok := m[t]; ok {
		return r
	}
	if t.Sort != SBool && !hasIte(t) {
		return t
	}
	if sz(t) > 4000 {
		return t
	}
	return Subst(t, m)
}

var szMemo = map[*Term]int{}

// sz is the (tree) size of a term, capped.
func sz(t *Term) int {
	if len(t.Args) == 0 {
		return 1
	}
	if r, ok := szMemo[t]; ok {
		return r
	}
	n := 1
	for _, a := range t.Args {
		n += sz(a)
		if n > 1000000 {
			n = 1000000
			break
		}
	}
	szMemo[t] = n
	return n
}

package vc

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type discard struct{}
type failure struct{ name string }

type run struct {
	Checked int
	Covered map[string]int
	Strings []string
	args    []reflect.Value
	rnd     *rand.Rand
	snaps   [][]reflect.Value
}

var cur *run

// Failure is a concrete counterexample to a contract.
type Failure struct {
	Harness string `json:"harness"`
	Clause  string `json:"clause"`
	Args    string `json:"args"`
	Seed    int64  `json:"seed"`
	Iter    int    `json:"iteration"`
	Stack   string `json:"stack,omitempty"`
}

// Report is what one harness' concrete run did.
type Report struct {
	Harness   string   `json:"harness"`
	Runs      int      `json:"runs"`
	Discarded int      `json:"discarded"`
	Checked   int      `json:"clauses_checked"`
	Sample    string   `json:"sample"`
	Failure   *Failure `json:"failure,omitempty"`
}

// Gens lets a spec file register generators for types.
var Gens = map[reflect.Type]func(r *Rand) reflect.Value{}

// RegisterGen registers a generator for T.
func RegisterGen[T any](f func(r *Rand) T) {
	Gens[reflect.TypeOf((*T)(nil)).Elem()] = func(r *Rand) reflect.Value { return reflect.ValueOf(f(r)) }
}

// Rand is a source of random values with a dictionary.
type Rand struct {
	*rand.Rand
	Strs []string
	Ints []int64
	pool map[reflect.Type][]reflect.Value

	focus []string // a few strings that this run prefers, so that they meet
}

func (r *Rand) Pick(ss ...string) string { return ss[r.Intn(len(ss))] }

func (r *Rand) Str() string {
	if r.focus == nil {
		r.focus = []string{"a", "b"}
		for i := r.Intn(4); i >= 0 && len(r.Strs) > 0; i-- {
			r.focus = append(r.focus, r.Strs[r.Intn(len(r.Strs))])
		}
	}
	if r.Intn(5) < 2 {
		return r.focus[r.Intn(len(r.focus))]
	}
	switch n := r.Intn(20); {
	case n < 2:
		return ""
	case n < 13 && len(r.Strs) > 0:
		return r.Strs[r.Intn(len(r.Strs))]
	case n < 15 && len(r.Strs) > 0:
		return r.Strs[r.Intn(len(r.Strs))] + r.Strs[r.Intn(len(r.Strs))]
	case n < 16 && len(r.Strs) > 0:
		s := r.Strs[r.Intn(len(r.Strs))]
		if s == "" {
			return s
		}
		i := r.Intn(len(s))
		return s[:i] + s[i+1:]
	default:
		const alpha = "ab:=~/ .,A1-é\"\n{}"
		rs := []rune(alpha)
		k := r.Intn(6)
		var b []rune
		for i := 0; i < k; i++ {
			b = append(b, rs[r.Intn(len(rs))])
		}
		return string(b)
	}
}

func (r *Rand) Int() int64 {
	switch n := r.Intn(10); {
	case n < 3 && len(r.Ints) > 0:
		return r.Ints[r.Intn(len(r.Ints))] + int64(r.Intn(3)) - 1
	case n < 8:
		return int64(r.Intn(7)) - 2
	case n < 9:
		return int64(1)<<uint(r.Intn(63)) + int64(r.Intn(40))
	}
	return -(int64(1)<<uint(r.Intn(63)) + int64(r.Intn(3)))
}

func (r *Rand) Float() float64 {
	switch r.Intn(8) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1 - 2*r.Intn(2))
	case 2:
		return r.NormFloat64() * 10
	case 3:
		return float64(r.Intn(5)) + 0.5
	case 4:
		return math.Copysign(0, -1)
	case 5:
		return math.MaxFloat64
	}
	return float64(r.Intn(9) - 3)
}

func (r *Rand) Value(t reflect.Type, depth int) reflect.Value {
	if g, ok := Gens[t]; ok {
		return g(r).Convert(t)
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.Int()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(r.Float())
	case reflect.String:
		v.SetString(r.Str())
	case reflect.Slice:
		if r.Intn(5) == 0 {
			return v
		}
		n := r.Intn(4)
		if depth <= 0 {
			n = r.Intn(2)
		}
		if depth <= -2 {
			n = 0
		}
		c := n + r.Intn(3)
		v.Set(reflect.MakeSlice(t, n, c))
		for i := 0; i < n; i++ {
			v.Index(i).Set(r.Value(t.Elem(), depth-1))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(r.Value(t.Elem(), depth-1))
		}
	case reflect.Map:
		if r.Intn(5) == 0 {
			return v
		}
		v.Set(reflect.MakeMap(t))
		if depth > -2 {
			n := r.Intn(4)
			for i := 0; i < n; i++ {
				v.SetMapIndex(r.Value(t.Key(), depth-1), r.Value(t.Elem(), depth-1))
			}
		}
	case reflect.Pointer:
		if r.Intn(4) == 0 || depth <= -2 {
			return v
		}
		if p := r.pool[t]; len(p) > 0 && r.Intn(4) == 0 {
			return p[r.Intn(len(p))]
		}
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(r.Value(t.Elem(), depth-1))
		r.pool[t] = append(r.pool[t], v)
	case reflect.Struct:
		nf := t.NumField()
		for i := 0; i < nf; i++ {
			// large structs stay sparse
			if nf > 8 && r.Intn(4) != 0 && depth < 3 || nf > 8 && r.Intn(3) == 0 {
				continue
			}
			f := v.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			f.Set(r.Value(f.Type(), depth-1))
		}
	case reflect.Interface:
		if t.NumMethod() == 0 && r.Intn(3) > 0 {
			switch r.Intn(4) {
			case 0:
				v.Set(reflect.ValueOf(r.Str()))
			case 1:
				v.Set(reflect.ValueOf(int(r.Int())))
			case 2:
				v.Set(reflect.ValueOf(r.Intn(2) == 0))
			case 3:
				v.Set(reflect.ValueOf(r.Float()))
			}
		} else if t.String() == "error" && r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(fmt.Errorf("err %s", r.Str())))
		}
	}
	return v
}

// Run calls harness f n times with generated arguments.
func Run(name string, f any, n int, limit time.Duration, seed int64) (rep Report) {
	rep.Harness = name
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	strs := strings.Split(os.Getenv("VC_STRINGS"), "\x1f")
	var dict struct {
		Strs []string
		Ints []int64
	}
	if p := os.Getenv("VC_DICT"); p != "" {
		if b, err := os.ReadFile(p); err == nil {
			m := map[string]struct {
				Strs []string
				Ints []int64
			}{}
			_ = json.Unmarshal(b, &m)
			dict.Strs, dict.Ints = m[name].Strs, m[name].Ints
		}
	}
	_ = strs
	end := time.Now().Add(limit)
	only := -1
	if s := os.Getenv("VC_ITER"); s != "" {
		only, _ = strconv.Atoi(s)
	}
	for it := 0; it < n; it++ {
		if only >= 0 && it != only {
			continue
		}
		if it%64 == 0 && time.Now().After(end) {
			break
		}
		r := &Rand{Rand: rand.New(rand.NewSource(seed*1000003 + int64(it))), Strs: dict.Strs, Ints: dict.Ints, pool: map[reflect.Type][]reflect.Value{}}
		var args []reflect.Value
		for i := 0; i < ft.NumIn(); i++ {
			args = append(args, r.Value(ft.In(i), 3))
		}
		sh := Show(args)
		if os.Getenv("VC_SHOW") != "" {
			fmt.Println(name, it, sh)
		}
		c := &run{Covered: map[string]int{}, args: args, rnd: r.Rand, Strings: append(dict.Strs, "", "x")}
		cur = c
		var fail *Failure
		disc := false
		func() {
			defer func() {
				if p := recover(); p != nil {
					switch p := p.(type) {
					case discard:
						disc = true
					case failure:
						fail = &Failure{Harness: name, Clause: p.name, Args: sh, Seed: seed, Iter: it}
					default:
						fail = &Failure{Harness: name, Clause: fmt.Sprintf("panic: %v", p), Args: sh, Seed: seed, Iter: it, Stack: string(debug.Stack())}
					}
				}
			}()
			fv.Call(args)
		}()
		cur = nil
		rep.Runs++
		rep.Checked += c.Checked
		if disc {
			rep.Discarded++
		} else if rep.Sample == "" || it%97 == 0 {
			rep.Sample = trunc(sh, 600)
		}
		if fail != nil {
			fail.Args = trunc(fail.Args, 4000)
			rep.Failure = fail
			return
		}
	}
	return
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Show prints values deeply, omitting zero fields.
func Show(args []reflect.Value) string {
	var sb strings.Builder
	for i, a := range args {
		if i > 0 {
			sb.WriteString(", ")
		}
		show(&sb, a, 6)
	}
	return sb.String()
}

func show(sb *strings.Builder, v reflect.Value, d int) {
	if d < 0 {
		sb.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		show(sb, v.Elem(), d-1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString(v.Elem().Type().String() + "(")
		show(sb, v.Elem(), d-1)
		sb.WriteByte(')')
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			if !first {
				sb.WriteString(", ")
			}
			first = false
			sb.WriteString(v.Type().Field(i).Name + ":")
			show(sb, v.Field(i), d-1)
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%q", v.Bytes())
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			show(sb, v.Index(i), d-1)
		}
		sb.WriteByte(']')
	case reflect.Map:
		sb.WriteString("map{")
		var ks []string
		for _, k := range v.MapKeys() {
			var s strings.Builder
			show(&s, k, d-1)
			s.WriteByte(':')
			show(&s, v.MapIndex(k), d-1)
			ks = append(ks, s.String())
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ", ") + "}")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString(v.Type().String())
	default:
		switch v.Kind() {
		case reflect.Bool:
			fmt.Fprint(sb, v.Bool())
		case reflect.Float32, reflect.Float64:
			fmt.Fprint(sb, v.Float())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(sb, v.Int())
		default:
			fmt.Fprint(sb, v.Uint())
		}
	}
}

// ---- snapshots ----

// snapArgs deep-copies the arguments' reachable memory, remembering for every
// object its address, so that later contents can be compared in place.
func snapArgs(args []reflect.Value) []reflect.Value {
	s := &snapper{seen: map[snapKey]int{}}
	for _, a := range args {
		s.walk(a)
	}
	return []reflect.Value{reflect.ValueOf(s)}
}

type snapKey struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}
type snapObj struct {
	v    reflect.Value // live, addressable or map
	copy reflect.Value
	isM  bool
}
type snapper struct {
	seen map[snapKey]int
	objs []snapObj
}

func (s *snapper) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := snapKey{v.UnsafePointer(), v.Type(), 0}
		if _, ok := s.seen[k]; ok {
			return
		}
		s.seen[k] = 1
		c := reflect.New(v.Type().Elem()).Elem()
		c.Set(v.Elem())
		s.objs = append(s.objs, snapObj{v.Elem(), c, false})
		s.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			s.walk(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		k := snapKey{v.UnsafePointer(), v.Type(), v.Cap()}
		if _, ok := s.seen[k]; ok {
			return
		}
		s.seen[k] = 1
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(full.Index(i))
			s.objs = append(s.objs, snapObj{full.Index(i), c, false})
			s.walk(full.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := snapKey{v.UnsafePointer(), v.Type(), 0}
		if _, ok := s.seen[k]; ok {
			return
		}
		s.seen[k] = 1
		c := reflect.MakeMap(v.Type())
		it := v.MapRange()
		for it.Next() {
			c.SetMapIndex(it.Key(), it.Value())
			s.walk(it.Value())
		}
		hold := reflect.New(v.Type()).Elem()
		hold.Set(v)
		s.objs = append(s.objs, snapObj{hold, c, true})
	}
}

// diffArgs reports the first object whose content changed although it is not
// covered by locs.
func diffArgs(snap []reflect.Value, _ []reflect.Value, locs []any) string {
	s := snap[0].Interface().(*snapper)
	type rng struct{ lo, hi uintptr }
	var ranges []rng
	maps := map[uintptr]bool{}
	for _, l := range locs {
		v := reflect.ValueOf(l)
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				ranges = append(ranges, rng{v.Pointer(), v.Pointer() + v.Type().Elem().Size()})
			}
		case reflect.Slice:
			if v.Cap() > 0 {
				ranges = append(ranges, rng{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size()})
			}
		case reflect.Map:
			maps[v.Pointer()] = true
		}
	}
	var cmp func(live, old reflect.Value, path string) string
	cmp = func(live, old reflect.Value, path string) string {
		if live.CanAddr() && live.Type().Size() > 0 {
			a := live.Addr().Pointer()
			for _, r := range ranges {
				if a >= r.lo && a+live.Type().Size() <= r.hi {
					return ""
				}
			}
		}
		if live.Kind() == reflect.Struct {
			for i := 0; i < live.NumField(); i++ {
				if d := cmp(live.Field(i), old.Field(i), path+"."+live.Type().Field(i).Name); d != "" {
					return d
				}
			}
			return ""
		}
		if !same(live, old) {
			return path
		}
		return ""
	}
	for _, o := range s.objs {
		if o.isM {
			if maps[o.v.Pointer()] {
				continue
			}
			if o.v.Len() != o.copy.Len() {
				return "map " + o.v.Type().String()
			}
			it := o.copy.MapRange()
			for it.Next() {
				nv := o.v.MapIndex(it.Key())
				if !nv.IsValid() || !same(nv, it.Value()) {
					return "map " + o.v.Type().String()
				}
			}
			continue
		}
		if d := cmp(o.v, o.copy, o.v.Type().String()); d != "" {
			return d
		}
	}
	return ""
}

// NewRand makes a generator without a dictionary.
func NewRand(seed int64) *Rand {
	return &Rand{Rand: rand.New(rand.NewSource(seed)), pool: map[reflect.Type][]reflect.Value{}}
}

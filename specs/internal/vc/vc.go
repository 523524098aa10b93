// Package vc is the vocabulary of the contracts in /verif/specs. Each function
// has a logical meaning interpreted by the verification-condition generator
// (govc) and an executable meaning used when a contract is run on concrete
// values to search for, or replay, a counterexample.
package vc

import (
	"fmt"
	"math"
	"reflect"
)

// Requires states a precondition. Concrete runs that violate it are discarded.
func Requires(b bool) {
	if !b {
		panic(discard{})
	}
}

// Assume is a logical assumption (listed as such); concretely it is Requires.
func Assume(b bool) { Requires(b) }

// Ensures states a postcondition (an obligation).
func Ensures(name string, b bool) {
	if cur != nil {
		cur.Checked++
	}
	if !b {
		panic(failure{name})
	}
}

// Cover asks that the point is reachable with b true (vacuity guard).
func Cover(name string, b bool) {
	if b && cur != nil {
		cur.Covered[name]++
	}
}

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func Forall(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallString quantifies over all strings; concretely over the strings of
// the current run.
func ForallString(f func(string) bool) bool {
	if cur == nil {
		return true
	}
	for _, s := range cur.Strings {
		if !f(s) {
			return false
		}
	}
	return true
}

func ForallKey[K comparable, V any](m map[K]V, f func(K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func ExistsKey[K comparable, V any](m map[K]V, f func(K) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

// Same is identity of representation: same scalars, same pointers, same
// slices and maps (shallow).
func Same[T any](a, b T) bool {
	return same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}

func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float64, reflect.Float32:
		x, y := a.Float(), b.Float()
		return math.Float64bits(x) == math.Float64bits(y) || math.IsNaN(x) && math.IsNaN(y)
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && (a.Len() == 0 || a.Pointer() == b.Pointer())
	case reflect.Map, reflect.Pointer, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Elem().Type() == b.Elem().Type() && same(a.Elem(), b.Elem())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	panic("vc.Same: " + a.Kind().String())
}

// Snapshot is the state of memory at one moment.
type Snapshot struct{ id int }

// Snap records the memory reachable from the contract's arguments.
func Snap() Snapshot {
	if cur == nil {
		return Snapshot{}
	}
	cur.snaps = append(cur.snaps, snapArgs(cur.args))
	return Snapshot{len(cur.snaps) - 1}
}

// OnlyModifies states that memory that existed at the snapshot is unchanged,
// except for the listed locations (pointers), slice contents and maps.
func OnlyModifies(s Snapshot, name string, locs ...any) {
	if cur == nil {
		return
	}
	cur.Checked++
	if d := diffArgs(cur.snaps[s.id], cur.args, locs); d != "" {
		panic(failure{name + ": modified " + d})
	}
}

// Any is an arbitrary value (logical only).
func Any[T any](name string) T {
	var z T
	panic(fmt.Sprintf("vc.Any has no executable meaning (%s)", name))
	return z
}

func Havoc[T any](p *T) { panic("vc.Havoc has no executable meaning") }

// UF is an uninterpreted (deterministic) function of its arguments.
func UF[T any](name string, args ...any) T {
	panic("vc.UF has no executable meaning")
}

// Unroll makes the rest of the contract a bounded check: loops that cannot be
// summarised run at most n times.
func Unroll(n int) {}

// Closed lists the dynamic types an interface type may hold (ptr is (*I)(nil)).
func Closed(ptr any, types ...any) {}

// Recursion allows n nested activations of a function to be inlined.
func Recursion(n int) {}

// NoSafety turns panics-freedom obligations off.
func NoSafety() {}

func SameDyn(a, b any) bool { return reflect.TypeOf(a) == reflect.TypeOf(b) }

// AnyIndex is an arbitrary index below n (-1 when there is none).
func AnyIndex(n int) int {
	if n == 0 || cur == nil {
		return -1
	}
	return cur.rnd.Intn(n)
}

// Apart: two slices have different backing arrays (or one is empty).
func Apart[T any](a, b []T) bool {
	return len(a) == 0 || len(b) == 0 || &a[:cap(a)][cap(a)-1] != &b[:cap(b)][cap(b)-1]
}

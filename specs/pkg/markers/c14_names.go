package markers

import (
	"strings"
	"sync"

	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C14: marker names resolve to the right definition.

// Running the initialisation once is running it whenever it has not run:
// c14Done says whether it has.
var c14Done bool

//vc:stub (*sync.Once).Do
func c14Do(o *sync.Once, f func()) {
	if !c14Done {
		c14Done = true
		f()
	}
}

//vc:stub (*sync.RWMutex).Lock
func c14Lock(m *sync.RWMutex) {}

//vc:stub (*sync.RWMutex).Unlock
func c14Unlock(m *sync.RWMutex) {}

//vc:stub (*sync.RWMutex).RLock
func c14RLock(m *sync.RWMutex) {}

//vc:stub (*sync.RWMutex).RUnlock
func c14RUnlock(m *sync.RWMutex) {}

func VC_C14_split(raw string) {
	vc.Requires(strings.HasPrefix(raw, "+"))
	text := raw[1:]
	name, anon, rest := splitMarker(raw)
	if eq := strings.Index(text, "="); eq >= 0 {
		vc.Ensures("the anonymous name is all before the first equals sign", anon == text[:eq])
		vc.Ensures("the arguments are all after the first equals sign", rest == text[eq+1:])
	} else {
		vc.Ensures("without arguments the name is the whole text", name == text && anon == text && rest == "")
		return
	}
	if colon := strings.LastIndex(anon, ":"); colon >= 0 {
		vc.Ensures("the field form drops the last name component", name == anon[:colon])
	} else {
		vc.Ensures("a single component is the name", name == anon)
	}
}

// c14Reg assumes a registry as it is after any history.
func c14Reg(r *Registry) {
	vc.Requires(r != nil)
	vc.Requires(!c14Done || r.forPkg != nil && r.forType != nil && r.forField != nil && r.helpFor != nil)
	vc.Requires(r.forPkg == nil || !vc.Same(r.forPkg, r.forType))
	vc.Requires(r.forPkg == nil || !vc.Same(r.forPkg, r.forField))
	vc.Requires(r.forType == nil || !vc.Same(r.forType, r.forField))
}

//vc:logical
func VC_C14_lookup(r *Registry, text string, target TargetType) {
	c14Reg(r)
	defs := map[TargetType]map[string]*Definition{DescribesPackage: r.forPkg, DescribesType: r.forType, DescribesField: r.forField}[target]
	full := text
	if eq := strings.Index(text, "="); eq >= 0 {
		full = text[:eq]
	}
	want, ok := defs[full]
	if !ok && strings.Contains(text, "=") {
		if colon := strings.LastIndex(full, ":"); colon >= 0 {
			want = defs[full[:colon]]
		}
	}
	got := r.Lookup("+"+text, target)
	vc.Ensures("the definition of the full name, else of the name without the field", got == want)
}

//vc:logical
func VC_C14_register(r *Registry, def *Definition, name string) {
	c14Reg(r)
	vc.Requires(def != nil)
	p, hasP := r.forPkg[name]
	t, hasT := r.forType[name]
	f, hasF := r.forField[name]
	target, dname := def.Target, def.Name
	err := r.Register(def)
	known := target == DescribesPackage || target == DescribesType || target == DescribesField
	vc.Ensures("an unknown kind of target is an error", (err == nil) == known)
	p2, hasP2 := r.forPkg[name]
	t2, hasT2 := r.forType[name]
	f2, hasF2 := r.forField[name]
	if target == DescribesPackage && name == dname {
		vc.Ensures("the last registration for packages wins", hasP2 && p2 == def)
	} else {
		vc.Ensures("other definitions for packages stay", hasP2 == hasP && p2 == p)
	}
	if target == DescribesType && name == dname {
		vc.Ensures("the last registration for types wins", hasT2 && t2 == def)
	} else {
		vc.Ensures("other definitions for types stay", hasT2 == hasT && t2 == t)
	}
	if target == DescribesField && name == dname {
		vc.Ensures("the last registration for fields wins", hasF2 && f2 == def)
	} else {
		vc.Ensures("other definitions for fields stay", hasF2 == hasF && f2 == f)
	}
	vc.Ensures("the definition is registered as it is", def.Name == dname && def.Target == target)
}

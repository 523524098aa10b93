package deepcopy

import (
	"go/types"
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// Contracts for C21: which types get methods, and which values may be copied
// by assignment.

//vc:stub sigs.k8s.io/controller-tools/pkg/markers.PackageMarkers
func c21PackageMarkers(c *markers.Collector, pkg *loader.Package) (markers.MarkerValues, error) {
	return vc.UF[markers.MarkerValues]("pkgMarkers", c, pkg), vc.UF[error]("pkgMarkersErr", c, pkg)
}

const (
	c21Gen        = "kubebuilder:object:generate"
	c21Legacy     = "k8s:deepcopy-gen"
	c21Root       = "kubebuilder:object:root"
	c21Interfaces = "k8s:deepcopy-gen:interfaces"
)

// c21Defs: the definitions as they are initialised.
func c21Defs() {
	vc.Requires(enablePkgMarker != nil && enablePkgMarker.Name == c21Gen)
	vc.Requires(enableTypeMarker != nil && enableTypeMarker.Name == c21Gen)
	vc.Requires(legacyEnablePkgMarker != nil && legacyEnablePkgMarker.Name == c21Legacy)
	vc.Requires(legacyEnableTypeMarker != nil && legacyEnableTypeMarker.Name == c21Legacy)
	vc.Requires(isObjectMarker != nil && isObjectMarker.Name == c21Root)
	vc.Requires(legacyIsObjectMarker != nil && legacyIsObjectMarker.Name == c21Interfaces)
}

// c21First is the value a marker has, if it is there.
func c21First(ms markers.MarkerValues, name string) (any, bool) {
	vs := ms[name]
	if len(vs) == 0 {
		return nil, false
	}
	return vs[0], true
}

// c21Bool, c21Raw: what the registered definitions guarantee of the values.
func c21Bool(ms markers.MarkerValues, name string) (bool, bool) {
	v, ok := c21First(ms, name)
	if !ok {
		return false, false
	}
	b, is := v.(bool)
	vc.Requires(is)
	return b, true
}

func c21RawArg(ms markers.MarkerValues, name string) (string, bool) {
	v, ok := c21First(ms, name)
	if !ok {
		return "", false
	}
	b, is := v.(markers.RawArguments)
	vc.Requires(is)
	return string(b), true
}

//vc:logical
func VC_C21_package(col *markers.Collector, pkg *loader.Package) {
	c21Defs()
	ms, merr := c21PackageMarkers(col, pkg)
	on, has := c21Bool(ms, c21Gen)
	legacy, hasLegacy := c21RawArg(ms, c21Legacy)
	got, err := enabledOnPackage(col, pkg)
	if merr != nil {
		vc.Ensures("errors are passed on", err == merr)
		return
	}
	vc.Ensures("there is no other error", err == nil)
	switch {
	case has:
		vc.Ensures("the marker decides", got == on)
	case hasLegacy:
		first := legacy
		if i := strings.Index(legacy, ","); i >= 0 {
			first = legacy[:i]
		}
		vc.Ensures("the legacy marker enables the package", got == (first == "package"))
	default:
		vc.Ensures("off by default", !got)
	}
}

// c21Object: the type is an API root object.
func c21Object(ms markers.MarkerValues) bool {
	if on, has := c21Bool(ms, c21Root); has {
		return on
	}
	vs := ms[c21Interfaces]
	return vc.Exists(0, len(vs), func(i int) bool { return vs[i] == any("k8s.io/apimachinery/pkg/runtime.Object") })
}

func VC_C21_object(info *markers.TypeInfo) {
	vc.Requires(info != nil)
	c21Defs()
	want := c21Object(info.Markers)
	s := vc.Snap()
	vc.Ensures("an object is what the marker says, or what a legacy marker says", genObjectInterface(info) == want)
	vc.OnlyModifies(s, "nothing changes")
}

func VC_C21_type(allTypes bool, info *markers.TypeInfo) {
	vc.Requires(info != nil)
	c21Defs()
	object := c21Object(info.Markers)
	on, has := c21Bool(info.Markers, c21Gen)
	legacy, hasLegacy := c21RawArg(info.Markers, c21Legacy)
	got := enabledOnType(allTypes, info)
	switch {
	case has:
		vc.Ensures("its own marker decides", got == on)
	case hasLegacy:
		vc.Ensures("then its legacy marker", got == (legacy == "true"))
	default:
		vc.Ensures("then the package, or being an object", got == (allTypes || object))
	}
}

//vc:stub (*go/types.Named).Underlying
func c21NamedUnderlying(n *types.Named) types.Type { return c21Underlying(n) }

//vc:stub (*go/types.Alias).Underlying
func c21AliasUnderlying(n *types.Alias) types.Type { return c21Underlying(n) }

//vc:stub iface:go/types.Type.Underlying
func c21Underlying(t types.Type) types.Type {
	u := vc.UF[types.Type]("underlying", t)
	vc.Assume(u != nil)
	return u
}

func c21Types() {
	vc.Closed((*types.Type)(nil), (*types.Basic)(nil), (*types.Named)(nil), (*types.Alias)(nil), (*types.TypeParam)(nil),
		(*types.Pointer)(nil), (*types.Slice)(nil), (*types.Array)(nil), (*types.Map)(nil), (*types.Struct)(nil),
		(*types.Interface)(nil), (*types.Chan)(nil), (*types.Signature)(nil), (*types.Tuple)(nil), (*types.Union)(nil))
}

//vc:stub (*go/types.Struct).NumFields
func c21NumFields(s *types.Struct) int {
	n := vc.UF[int]("numFields", s)
	vc.Assume(n >= 0)
	return n
}

//vc:stub (*go/types.Struct).Field
func c21Field(s *types.Struct, i int) *types.Var {
	vc.Requires(0 <= i && i < c21NumFields(s))
	f := vc.UF[*types.Var]("field", s, i)
	vc.Assume(f != nil)
	return f
}

// c21Shallow: the induction hypothesis, values of the type can be copied by
// assignment.
//
//vc:stub sigs.k8s.io/controller-tools/pkg/deepcopy.fineToShallowCopy
func c21Shallow(t types.Type) bool { return vc.UF[bool]("shallow", t) }

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/deepcopy.fineToShallowCopy
func VC_C21_shallow(t types.Type) {
	c21Types()
	vc.Requires(t != nil)
	want := false
	switch x := t.(type) {
	case *types.Basic:
		vc.Requires(x != nil)
		want = x.Kind() != types.Invalid && x.Kind() != types.UnsafePointer
	case *types.Named, *types.Alias:
		want = c21Shallow(t.Underlying())
	case *types.Struct:
		vc.Requires(x != nil)
		want = vc.Forall(0, x.NumFields(), func(i int) bool { return c21Shallow(x.Field(i).Type()) })
	}
	got := fineToShallowCopy(t)
	vc.Ensures("values without references can be copied by assignment, others cannot", got == want)
}

// c21Ref: values of the type are references, by whatever name.
func VC_C21_byReference(t types.Type) {
	c21Types()
	want := false
	switch t.(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		want = true
	}
	vc.Ensures("slices, maps and pointers pass by reference", passesByReference(t) == want)
}

//vc:stub sigs.k8s.io/controller-tools/pkg/deepcopy.usePtrReceiver
func c21UsePtr(t types.Type) bool { return vc.UF[bool]("usePtr", t) }

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/deepcopy.usePtrReceiver
func VC_C21_receiver(t types.Type) {
	c21Types()
	vc.Requires(t != nil)
	want := true
	switch t.(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		want = false
	case *types.Named, *types.Alias:
		want = c21UsePtr(t.Underlying())
	}
	vc.Ensures("methods have a pointer receiver unless the type is a reference", usePtrReceiver(t) == want)
}

//vc:logical
func VC_C21_eventual(t types.Type) {
	c21Types()
	vc.Requires(t != nil)
	// only names have another type below them, and never a name
	vc.Requires(c21Underlying(c21Underlying(t)) == c21Underlying(t))
	vc.Ensures("the eventual type is what is below all names", eventualUnderlyingType(t) == c21Underlying(t))
}

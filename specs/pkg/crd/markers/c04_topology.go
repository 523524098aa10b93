package markers

import (
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C04: the list/map/struct topology markers.

func VC_C04_ListType(m ListType, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "array" && (m == "map" || m == "set" || m == "atomic")
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly for map, set and atomic on arrays", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets x-kubernetes-list-type", s.XListType != nil && *s.XListType == string(m))
		vc.OnlyModifies(snap, "changes only the list type", &s.XListType)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C04_ListMapKey(m ListMapKey, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "array" && s.XListType != nil && *s.XListType == "map"
	keys := s.XListMapKeys
	n := len(keys)
	old := make([]string, n)
	copy(old, keys)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on arrays that are maps", (err == nil) == ok)
	if err == nil {
		vc.Ensures("adds one key", len(s.XListMapKeys) == n+1)
		vc.Ensures("the added key is the marker's, at the end", s.XListMapKeys[n] == string(m))
		vc.Ensures("earlier keys keep their order", vc.Forall(0, n, func(i int) bool {
			return s.XListMapKeys[i] == old[i]
		}))
		vc.OnlyModifies(snap, "changes only the list map keys", &s.XListMapKeys, keys)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C04_MapType(m MapType, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "object" && (m == "granular" || m == "atomic")
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly for granular and atomic on objects", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets x-kubernetes-map-type", s.XMapType != nil && *s.XMapType == string(m))
		vc.OnlyModifies(snap, "changes only the map type", &s.XMapType)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C04_StructType(m StructType, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := (s.Type == "object" || s.Type == "") && (m == "granular" || m == "atomic")
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly for granular and atomic on objects", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets x-kubernetes-map-type", s.XMapType != nil && *s.XMapType == string(m))
		vc.OnlyModifies(snap, "changes only the map type", &s.XMapType)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

// A list type is applied before the markers that depend on it.
func VC_C04_Order(l ListType, k ListMapKey) {
	_, has := any(k).(interface{ ApplyPriority() ApplyPriority })
	vc.Ensures("list map keys come at the default priority", !has)
	vc.Ensures("the list type comes before them", l.ApplyPriority() < ApplyPriorityDefault)
}

package markers

import (
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C05: a CRD-level marker changes only the entry of its version.

// c05Find is the index of the first entry for a version, -1 if there is none.
func c05Find(vs []apiext.CustomResourceDefinitionVersion, version string) int {
	for i := range vs {
		if vs[i].Name == version {
			return i
		}
	}
	return -1
}

func VC_C05_Status(crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	vs := crd.Versions
	k := c05Find(vs, version)
	var want apiext.CustomResourceDefinitionVersion
	var subs *apiext.CustomResourceSubresources
	var sub apiext.CustomResourceSubresources
	if k >= 0 {
		want = vs[k]
		subs = want.Subresources
		if subs != nil {
			sub = *subs
		}
	}
	snap := vc.Snap()
	err := SubresourceStatus{}.ApplyToCRD(crd, version)
	vc.Ensures("an error exactly when the version is absent", (err == nil) == (k >= 0))
	if k < 0 {
		vc.OnlyModifies(snap, "an absent version changes nothing")
		return
	}
	got := vs[k]
	vc.Ensures("the version has subresources", got.Subresources != nil)
	vc.Ensures("status is on", got.Subresources.Status != nil)
	vc.Ensures("scale is kept", got.Subresources.Scale == sub.Scale)
	rest := want
	rest.Subresources = got.Subresources
	vc.Ensures("the rest of the entry is kept", vc.Same(got, rest))
	if subs != nil {
		vc.OnlyModifies(snap, "changes only the status subresource", &subs.Status)
	} else {
		vc.OnlyModifies(snap, "changes only the subresources of the version", &vs[k].Subresources)
	}
}

func VC_C05_Scale(s SubresourceScale, crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	vs := crd.Versions
	k := c05Find(vs, version)
	var subs *apiext.CustomResourceSubresources
	var status *apiext.CustomResourceSubresourceStatus
	if k >= 0 {
		subs = vs[k].Subresources
		if subs != nil {
			status = subs.Status
		}
	}
	snap := vc.Snap()
	err := s.ApplyToCRD(crd, version)
	vc.Ensures("an error exactly when the version is absent", (err == nil) == (k >= 0))
	if k < 0 {
		vc.OnlyModifies(snap, "an absent version changes nothing")
		return
	}
	got := vs[k].Subresources
	vc.Ensures("the version has a scale subresource", got != nil && got.Scale != nil)
	vc.Ensures("with the marker's paths", got.Scale.SpecReplicasPath == s.SpecPath && got.Scale.StatusReplicasPath == s.StatusPath)
	vc.Ensures("and the marker's selector path", (got.Scale.LabelSelectorPath == nil) == (s.SelectorPath == nil) &&
		(s.SelectorPath == nil || *got.Scale.LabelSelectorPath == *s.SelectorPath))
	vc.Ensures("status is kept", got.Status == status)
	if subs != nil {
		vc.OnlyModifies(snap, "changes only the scale subresource", &subs.Scale)
	} else {
		vc.OnlyModifies(snap, "changes only the subresources of the version", &vs[k].Subresources)
	}
}

func VC_C05_Storage(crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	vs := crd.Versions
	k := -1
	if version != "" {
		k = c05Find(vs, version)
	}
	snap := vc.Snap()
	err := StorageVersion{}.ApplyToCRD(crd, version)
	vc.Ensures("never an error", err == nil)
	if k < 0 {
		vc.OnlyModifies(snap, "an absent version changes nothing")
		return
	}
	vc.Ensures("the version is stored", vs[k].Storage)
	vc.OnlyModifies(snap, "changes only the storage flag of the version", &vs[k].Storage)
}

func VC_C05_Unserved(crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	vs := crd.Versions
	k := c05Find(vs, version)
	snap := vc.Snap()
	err := UnservedVersion{}.ApplyToCRD(crd, version)
	vc.Ensures("never an error", err == nil)
	if k < 0 {
		vc.OnlyModifies(snap, "an absent version changes nothing")
		return
	}
	vc.Ensures("the version is not served", !vs[k].Served)
	vc.OnlyModifies(snap, "changes only the served flag of the version", &vs[k].Served)
}

func VC_C05_Deprecated(m DeprecatedVersion, crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	vs := crd.Versions
	k := -1
	if version != "" {
		k = c05Find(vs, version)
	}
	snap := vc.Snap()
	err := m.ApplyToCRD(crd, version)
	vc.Ensures("never an error", err == nil)
	if k < 0 {
		vc.OnlyModifies(snap, "an absent version changes nothing")
		return
	}
	vc.Ensures("the version is deprecated", vs[k].Deprecated)
	w := vs[k].DeprecationWarning
	vc.Ensures("with the marker's warning", (w == nil) == (m.Warning == nil) && (w == nil || *w == *m.Warning))
	vc.OnlyModifies(snap, "changes only the deprecation of the version", &vs[k].Deprecated, &vs[k].DeprecationWarning)
}

func VC_C05_Skip(crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	vs := crd.Versions
	snap := vc.Snap()
	err := SkipVersion{}.ApplyToCRD(crd, version)
	vc.Ensures("an error exactly for the only version", (err == nil) == (version != ""))
	if version == "" {
		vc.OnlyModifies(snap, "a rejected marker changes nothing")
		return
	}
	got := crd.Versions
	vc.Ensures("the version is gone", vc.Forall(0, len(got), func(i int) bool { return got[i].Name != version }))
	vc.Ensures("every other version stays", vc.Forall(0, len(vs), func(i int) bool {
		return vs[i].Name == version || vc.Exists(0, len(got), func(j int) bool { return vc.Same(got[j], vs[i]) })
	}))
	vc.Ensures("nothing is made up", vc.Forall(0, len(got), func(j int) bool {
		return vc.Exists(0, len(vs), func(i int) bool { return vc.Same(got[j], vs[i]) })
	}))
	vc.OnlyModifies(snap, "changes only the list of versions", &crd.Versions)
}

func VC_C05_PrintColumn(m PrintColumn, crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	vs := crd.Versions
	k := c05Find(vs, version)
	var old []apiext.CustomResourceColumnDefinition
	if k >= 0 {
		old = vs[k].AdditionalPrinterColumns
	}
	i := vc.AnyIndex(len(old))
	var before apiext.CustomResourceColumnDefinition
	if i >= 0 {
		before = old[i]
	}
	snap := vc.Snap()
	err := m.ApplyToCRD(crd, version)
	vc.Ensures("an error exactly when the version is absent", (err == nil) == (k >= 0))
	if k < 0 {
		vc.OnlyModifies(snap, "an absent version changes nothing")
		return
	}
	got := vs[k].AdditionalPrinterColumns
	n := len(old)
	vc.Ensures("adds one column", len(got) == n+1)
	vc.Ensures("the column is the marker's, at the end", got[n] == apiext.CustomResourceColumnDefinition{
		Name: m.Name, Type: m.Type, Format: m.Format, Description: m.Description, Priority: m.Priority, JSONPath: m.JSONPath,
	})
	vc.Ensures("earlier columns are kept", i < 0 || got[i] == before)
	vc.OnlyModifies(snap, "changes only the columns of the version", &vs[k].AdditionalPrinterColumns, &vs[k].Subresources, old)
}

func VC_C05_SelectableField(m SelectableField, crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	vs := crd.Versions
	k := c05Find(vs, version)
	var old []apiext.SelectableField
	if k >= 0 {
		old = vs[k].SelectableFields
	}
	i := vc.AnyIndex(len(old))
	var before apiext.SelectableField
	if i >= 0 {
		before = old[i]
	}
	snap := vc.Snap()
	err := m.ApplyToCRD(crd, version)
	vc.Ensures("an error exactly when the version is absent", (err == nil) == (k >= 0))
	if k < 0 {
		vc.OnlyModifies(snap, "an absent version changes nothing")
		return
	}
	got := vs[k].SelectableFields
	n := len(old)
	vc.Ensures("adds one field", len(got) == n+1)
	vc.Ensures("the field is the marker's, at the end", got[n].JSONPath == m.JSONPath)
	vc.Ensures("earlier fields are kept", i < 0 || got[i] == before)
	vc.OnlyModifies(snap, "changes only the selectable fields of the version", &vs[k].SelectableFields, old)
}

func VC_C05_Resource(m Resource, crd *apiext.CustomResourceDefinitionSpec, version string) {
	vc.Requires(crd != nil)
	old := crd.Names
	snap := vc.Snap()
	err := m.ApplyToCRD(crd, version)
	vc.Ensures("never an error", err == nil)
	names := old
	if m.Path != "" {
		names.Plural = m.Path
	}
	if m.Singular != "" {
		names.Singular = m.Singular
	}
	vc.Ensures("names given are set and names not given are kept",
		crd.Names.Plural == names.Plural && crd.Names.Singular == names.Singular &&
			crd.Names.Kind == names.Kind && crd.Names.ListKind == names.ListKind)
	vc.Ensures("short names are the marker's", len(crd.Names.ShortNames) == len(m.ShortName) && vc.Forall(0, len(m.ShortName), func(i int) bool {
		return crd.Names.ShortNames[i] == m.ShortName[i]
	}))
	vc.Ensures("categories are the marker's", len(crd.Names.Categories) == len(m.Categories) && vc.Forall(0, len(m.Categories), func(i int) bool {
		return crd.Names.Categories[i] == m.Categories[i]
	}))
	vc.Ensures("scope is the marker's, namespaced by default",
		m.Scope == "" && crd.Scope == "Namespaced" || m.Scope != "" && string(crd.Scope) == m.Scope)
	vc.OnlyModifies(snap, "changes only names and scope", &crd.Names, &crd.Scope)
}

// c05Value is the value the last entry for a key gives it, if any.
func c05Value(entries []string, key, value string, has bool) (string, bool) {
	for _, s := range entries {
		i := strings.Index(s, "=")
		if i >= 0 && s[:i] == key {
			value, has = s[i+1:], true
		}
	}
	return value, has
}

func VC_C05_Metadata(m Metadata, crd *apiext.CustomResourceDefinition, version, key string) {
	vc.Requires(crd != nil)
	ok := vc.Forall(0, len(m.Annotations), func(i int) bool { return strings.Contains(m.Annotations[i], "=") }) &&
		vc.Forall(0, len(m.Labels), func(i int) bool { return strings.Contains(m.Labels[i], "=") })
	anns, labels := crd.Annotations, crd.Labels
	vc.Requires(anns == nil || labels == nil || !vc.Same(anns, labels))
	av, ah := anns[key]
	lv, lh := labels[key]
	snap := vc.Snap()
	err := m.ApplyToCRD(crd, version)
	vc.Ensures("an error exactly when an entry has no =", (err == nil) == ok)
	vc.OnlyModifies(snap, "changes only annotations and labels", &crd.Annotations, &crd.Labels, anns, labels)
	if err != nil {
		return
	}
	wantA, hasA := c05Value(m.Annotations, key, av, ah)
	wantL, hasL := c05Value(m.Labels, key, lv, lh)
	gotA, okA := crd.Annotations[key]
	gotL, okL := crd.Labels[key]
	vc.Ensures("an annotation is present exactly when it was or is given", okA == hasA)
	vc.Ensures("an annotation has the value given, or its old one", gotA == wantA)
	vc.Ensures("a label is present exactly when it was or is given", okL == hasL)
	vc.Ensures("a label has the value given, or its old one", gotL == wantL)
}

package crd

import (
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-tools/internal/vc"
	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

// Contracts for C06: what holds of an assembled definition, whatever its
// markers did.

var (
	c06Err   bool
	c06Quiet bool
)

//vc:stub (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func c06AddError(p *loader.Package, err error) {
	vc.Requires(err != nil)
	c06Err = true
}

//vc:stub sigs.k8s.io/controller-tools/pkg/loader.ErrFromNode
func c06ErrFromNode(err error, n loader.Node) error { return err }

//vc:stub iface:sigs.k8s.io/controller-tools/pkg/crd.SpecMarker.ApplyToCRD
func c06ApplySpec(m SpecMarker, crd *apiext.CustomResourceDefinitionSpec, version string) error {
	if c06Quiet {
		return nil
	}
	*crd = vc.UF[apiext.CustomResourceDefinitionSpec]("c06spec", m, version)
	return vc.UF[error]("c06err", m, version)
}

//vc:stub iface:sigs.k8s.io/controller-tools/pkg/crd.Marker.ApplyToCRD
func c06ApplyCRD(m Marker, crd *apiext.CustomResourceDefinition, version string) error {
	if c06Quiet {
		return nil
	}
	*crd = vc.UF[apiext.CustomResourceDefinition]("c06crd", m, version)
	return vc.UF[error]("c06err2", m, version)
}

// the marker that drops a version is under contract for C05
//
//vc:stub (sigs.k8s.io/controller-tools/pkg/crd/markers.SkipVersion).ApplyToCRD
func c06Skip(m crdmarkers.SkipVersion, crd *apiext.CustomResourceDefinitionSpec, version string) error {
	if c06Quiet {
		return nil
	}
	*crd = vc.UF[apiext.CustomResourceDefinitionSpec]("c06skip", version)
	return vc.UF[error]("c06err3", version)
}

//vc:stub (*sigs.k8s.io/controller-tools/pkg/crd.Parser).NeedFlattenedSchemaFor
func c06Flattened(p *Parser, typ TypeIdent) {}

//vc:stub (*sigs.k8s.io/controller-tools/pkg/crd.Parser).init
func c06Init(p *Parser) {}

//vc:stub (*k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1.JSONSchemaProps).DeepCopy
func c06DeepCopy(s *apiext.JSONSchemaProps) *apiext.JSONSchemaProps {
	c := *s
	return &c
}

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.TruncateDescription
func c06Truncate(s *apiext.JSONSchemaProps, n int) {}

//vc:stub github.com/gobuffalo/flect.Pluralize
func c06Pluralize(s string) string { return vc.UF[string]("c06plural", s) }

//vc:logical
func VC_C06_result(p *Parser, gk schema.GroupKind, maxDescLen *int) {
	vc.Requires(p != nil && p.CustomResourceDefinitions != nil)
	_, had := p.CustomResourceDefinitions[gk]
	vc.Requires(!had)
	c06Err, c06Quiet = false, false
	p.NeedCRDFor(gk, maxDescLen)
	crd, ok := p.CustomResourceDefinitions[gk]
	if !ok {
		return
	}
	vc.Ensures("a definition has a version", len(crd.Spec.Versions) > 0)
	vc.Ensures("its name is the plural in force and the group", crd.Name == crd.Spec.Names.Plural+"."+gk.Group)
	vc.Ensures("its versions are in ascending order", vc.Forall(1, len(crd.Spec.Versions), func(i int) bool {
		return !(crd.Spec.Versions[i].Name < crd.Spec.Versions[i-1].Name)
	}))
	vc.Ensures("a single version is stored", len(crd.Spec.Versions) != 1 || crd.Spec.Versions[0].Storage)
	stored := vc.Exists(0, len(crd.Spec.Versions), func(i int) bool { return crd.Spec.Versions[i].Storage })
	served := vc.Exists(0, len(crd.Spec.Versions), func(i int) bool { return crd.Spec.Versions[i].Served })
	vc.Ensures("no stored version is an error", stored || c06Err)
	vc.Ensures("no served version is an error", served || c06Err)
}

// With markers that change nothing: a declared kind is generated, and each of
// its versions has a schema.
//
//vc:logical
func VC_C06_versions(p *Parser, gk schema.GroupKind, pkg *loader.Package) {
	vc.Requires(p != nil && p.CustomResourceDefinitions != nil)
	_, had := p.CustomResourceDefinitions[gk]
	vc.Requires(!had)
	gv, known := p.GroupVersions[pkg]
	declares := known && gv.Group == gk.Group && p.Types[TypeIdent{Package: pkg, Name: gk.Kind}] != nil
	c06Err, c06Quiet = false, true
	p.NeedCRDFor(gk, nil)
	crd, ok := p.CustomResourceDefinitions[gk]
	vc.Ensures("a kind that is declared is generated", ok || !declares)
	if !ok {
		return
	}
	vc.Ensures("group and kind", crd.Spec.Group == gk.Group && crd.Spec.Names.Kind == gk.Kind && crd.Spec.Names.ListKind == gk.Kind+"List")
	i := vc.AnyIndex(len(crd.Spec.Versions))
	v := crd.Spec.Versions[i]
	vc.Ensures("an entry has a schema", v.Schema != nil && v.Schema.OpenAPIV3Schema != nil)
}

package crd

import (
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C07: what a schema refers to and what it says itself are both
// kept, and every branch is merged.

func VC_C07_preserve(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps) {
	vc.Requires(dst != nil)
	old := *dst
	preserveFields(dst, src)
	vc.Ensures("both are branches", len(dst.AllOf) == 2)
	vc.Ensures("all of the referenced schema is kept", vc.Same(dst.AllOf[0], old))
	want := src
	want.Description, want.Title, want.ExternalDocs, want.Example, want.Ref = "", "", nil, nil, nil
	vc.Ensures("all of the field's schema but its documentation and reference is kept", vc.Same(dst.AllOf[1], want))
	top := apiext.JSONSchemaProps{Description: src.Description, Title: src.Title, ExternalDocs: src.ExternalDocs, Example: src.Example}
	if top.Description == "" {
		top.Description = old.Description
	}
	if top.Title == "" {
		top.Title = old.Title
	}
	if top.ExternalDocs == nil {
		top.ExternalDocs = old.ExternalDocs
	}
	if top.Example == nil {
		top.Example = old.Example
	}
	top.AllOf = dst.AllOf
	vc.Ensures("the documentation is the field's, else that of the type, and nothing else is said at the top", vc.Same(*dst, top))
}

var (
	c07Dst      *apiext.JSONSchemaProps
	c07Branches []apiext.JSONSchemaProps
	c07Errors   ErrorRecorder
	c07Merged   int
)

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.flattenAllOfInto
func c07Merge(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, errRec ErrorRecorder) {
	vc.Requires(dst == c07Dst)
	vc.Requires(errRec == c07Errors)
	vc.Requires(c07Merged < len(c07Branches))
	vc.Requires(dst.AllOf == nil)
	vc.Requires(vc.Same(src, c07Branches[c07Merged]))
	c07Merged++
}

//vc:logical
func VC_C07_branches(v *allOfVisitor, schema *apiext.JSONSchemaProps) {
	vc.Requires(v != nil)
	if schema == nil {
		vc.Ensures("the end of a node is no reason to stop", v.Visit(schema) == SchemaVisitor(v))
		return
	}
	c07Dst, c07Branches, c07Errors, c07Merged = schema, schema.AllOf, v.errRec, 0
	next := v.Visit(schema)
	vc.Ensures("every branch is merged, once and in order", c07Merged == len(c07Branches))
	vc.Ensures("the schemas inside are merged, too", next == SchemaVisitor(v))
}

package crd

import (
	"go/ast"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// Contracts for C13: in which order markers of one name are applied, and to
// what.

var (
	c13Vals  []any
	c13Props *apiext.JSONSchemaProps
	c13Last  crdmarkers.ApplyPriority
	c13Watch bool
)

//vc:stub (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func c13AddError(p *loader.Package, err error) {
	vc.Requires(err != nil)
}

//vc:stub sigs.k8s.io/controller-tools/pkg/loader.ErrFromNode
func c13ErrFromNode(err error, n loader.Node) error { return err }

// c13Apply: what every application has to satisfy.
//
//vc:stub iface:sigs.k8s.io/controller-tools/pkg/crd.SchemaMarker.ApplyToSchema
func c13Apply(m SchemaMarker, s *apiext.JSONSchemaProps) error {
	vc.Requires(m != nil)
	if c13Watch {
		// in ascending priority
		vc.Requires(c13Last <= c13Prio(m))
		c13Last = c13Prio(m)
	} else {
		// only markers of the set, and to the schema given
		vc.Requires(s == c13Props)
		vc.Requires(vc.Exists(0, len(c13Vals), func(i int) bool { return c13Vals[i] == any(m) }))
	}
	return vc.UF[error]("applyErr", m)
}

// c13Prio is the priority a marker has.
func c13Prio(m SchemaMarker) crdmarkers.ApplyPriority {
	if p, is := m.(crdmarkers.ApplyPriorityMarker); is {
		return p.ApplyPriority()
	}
	if _, is := m.(applyFirstMarker); is {
		return 1
	}
	return 10
}

//vc:stub iface:sigs.k8s.io/controller-tools/pkg/crd/markers.ApplyPriorityMarker.ApplyPriority
func c13Priority(m crdmarkers.ApplyPriorityMarker) crdmarkers.ApplyPriority {
	return vc.UF[crdmarkers.ApplyPriority]("prio", m)
}

// Schema markers with and without a priority, and another value.
type c13A struct{ ID int }

func (c13A) ApplyToSchema(*apiext.JSONSchemaProps) error { return nil }
func (c13A) ApplyPriority() crdmarkers.ApplyPriority     { return 0 }

type c13B struct{ ID int }

func (c13B) ApplyToSchema(*apiext.JSONSchemaProps) error { return nil }
func (c13B) ApplyFirst()                                 {}

type c13C struct{ ID int }

func (c13C) ApplyToSchema(*apiext.JSONSchemaProps) error { return nil }

//vc:logical
func VC_C13_only(ctx *schemaContext, name string, vals []any, props *apiext.JSONSchemaProps, node ast.Node) {
	vc.Closed((*any)(nil), c13A{}, c13B{}, c13C{}, "")
	vc.Requires(ctx != nil && props != nil && node != nil)
	vc.Requires(!strings.HasPrefix(name, crdmarkers.ValidationItemsPrefix))
	c13Vals, c13Props, c13Watch = vals, props, false
	applyMarkers(ctx, markers.MarkerValues{name: vals}, props, node)
}

//vc:logical
func VC_C13_order(ctx *schemaContext, name string, vals []any, props *apiext.JSONSchemaProps, node ast.Node) {
	vc.Closed((*any)(nil), c13A{}, c13B{}, c13C{}, "")
	vc.Requires(ctx != nil && props != nil && node != nil)
	vc.Requires(!strings.HasPrefix(name, crdmarkers.ValidationItemsPrefix))
	c13Watch = true
	c13Last = -1 << 62
	vc.Requires(vc.Forall(0, len(vals), func(i int) bool {
		m, is := vals[i].(SchemaMarker)
		return !is || c13Prio(m) >= c13Last
	}))
	applyMarkers(ctx, markers.MarkerValues{name: vals}, props, node)
}

//vc:logical
func VC_C13_items(ctx *schemaContext, name string, vals []any, props *apiext.JSONSchemaProps, node ast.Node) {
	vc.Closed((*any)(nil), c13A{}, c13B{}, c13C{}, "")
	vc.Requires(ctx != nil && props != nil && node != nil)
	vc.Requires(strings.HasPrefix(name, crdmarkers.ValidationItemsPrefix))
	c13Vals, c13Props, c13Watch = nil, nil, false
	if props.Type == "array" && props.Items != nil && props.Items.Schema != nil {
		// only to the items; otherwise to nothing
		c13Vals, c13Props = vals, props.Items.Schema
	}
	applyMarkers(ctx, markers.MarkerValues{name: vals}, props, node)
}

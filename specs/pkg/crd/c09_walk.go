package crd

import (
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C09: schema walks reach every sub-schema once and keep edits.
//
// Walking a node with a visitor is abstracted by its effect on the node: the
// visitor's edit. walkSchema is proved against that contract with its
// recursive calls replaced by it.

//vc:stub (sigs.k8s.io/controller-tools/pkg/crd.schemaWalker).walkSchema
func c09Walk(w schemaWalker, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	s.Title = vc.UF[string]("walked", w.visitor, s.Title)
}

//vc:logical
func VC_C09_map(v SchemaVisitor, defs map[string]apiext.JSONSchemaProps, k string) {
	old, had := defs[k]
	schemaWalker{visitor: v}.walkMap(defs)
	now, has := defs[k]
	vc.Ensures("no entry appears or disappears", had == has)
	if had {
		c09Walk(schemaWalker{visitor: v}, &old)
		vc.Ensures("every entry is walked once and its edits are kept", now.Title == old.Title)
		vc.Ensures("and nothing else changes", now.Format == old.Format && now.Not == old.Not && now.Type == old.Type && now.MaxLength == old.MaxLength && vc.Same(now.Required, old.Required))
	}
}

//vc:logical
func VC_C09_slice(v SchemaVisitor, defs []apiext.JSONSchemaProps) {
	i := vc.AnyIndex(len(defs))
	var old apiext.JSONSchemaProps
	if i >= 0 {
		old = defs[i]
	}
	schemaWalker{visitor: v}.walkSlice(defs)
	if i >= 0 {
		c09Walk(schemaWalker{visitor: v}, &old)
		vc.Ensures("every element is walked once in place", vc.Same(defs[i], old))
	}
}

//vc:logical
func VC_C09_ptr(v SchemaVisitor, def *apiext.JSONSchemaProps) {
	var old apiext.JSONSchemaProps
	if def != nil {
		old = *def
	}
	schemaWalker{visitor: v}.walkPtr(def)
	if def != nil {
		c09Walk(schemaWalker{visitor: v}, &old)
		vc.Ensures("walked once in place", vc.Same(*def, old))
	}
}

// Visits of one node: c09On is the visitor it is given to, c09Open the visitor
// that has not been told of completion yet.
var (
	c09Visits int
	c09On     SchemaVisitor
	c09Done   int
	c09Last   SchemaVisitor
)

//vc:stub iface:sigs.k8s.io/controller-tools/pkg/crd.SchemaVisitor.Visit
func c09Visit(v SchemaVisitor, s *apiext.JSONSchemaProps) SchemaVisitor {
	if s == nil {
		c09Done++
		c09Last = v
		return vc.UF[SchemaVisitor]("done", v)
	}
	c09Visits++
	c09On = v
	s.Title = vc.UF[string]("visited", v, s.Title)
	return vc.UF[SchemaVisitor]("sub", v, s.Title)
}

//vc:logical
//vc:verifies (sigs.k8s.io/controller-tools/pkg/crd.schemaWalker).walkSchema
func VC_C09_node(v SchemaVisitor, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil && v != nil)
	c09Visits, c09Done = 0, 0
	title := s.Title
	sub := vc.UF[SchemaVisitor]("sub", v, vc.UF[string]("visited", v, title))
	vc.Requires(sub == nil)
	snap := vc.Snap()
	schemaWalker{visitor: v}.walkSchema(s)
	vc.Ensures("the node is visited once", c09Visits == 1 && c09On == v)
	vc.Ensures("without a visitor for the children there is no completion", c09Done == 0)
	vc.Ensures("the visitor's edit is kept", s.Title == vc.UF[string]("visited", v, title))
	vc.OnlyModifies(snap, "no child is touched", &s.Title, &c09Visits, &c09On)
}

// c09Title is the title after a walk.
func c09Title(v SchemaVisitor, t string) string { return vc.UF[string]("walked", v, t) }

//vc:logical
//vc:verifies (sigs.k8s.io/controller-tools/pkg/crd.schemaWalker).walkSchema
func VC_C09_children(v SchemaVisitor, s *apiext.JSONSchemaProps, p, d, q string) {
	vc.Requires(s != nil && v != nil)
	c09Visits, c09Done = 0, 0
	sub := vc.UF[SchemaVisitor]("sub", v, vc.UF[string]("visited", v, s.Title))
	vc.Requires(sub != nil)
	s.Dependencies = nil
	// the schema is a tree
	not := s.Not
	vc.Requires(not != s)
	var item, addP, addI *apiext.JSONSchemaProps
	if s.Items != nil {
		item = s.Items.Schema
	}
	if s.AdditionalProperties != nil {
		addP = s.AdditionalProperties.Schema
	}
	if s.AdditionalItems != nil {
		addI = s.AdditionalItems.Schema
	}
	vc.Requires(item != s && addP != s && addI != s)
	vc.Requires(not == nil || not != item && not != addP && not != addI)
	vc.Requires(item == nil || item != addP && item != addI)
	vc.Requires(addP == nil || addP != addI)
	s.AllOf = nil
	s.AnyOf = nil
	s.OneOf = nil
	vc.Requires(s.Items == nil || len(s.Items.JSONSchemas) == 0)
	s.Properties = nil
	s.Definitions = nil
	s.PatternProperties = nil
	var tn, ti, tp, ta string
	if not != nil {
		tn = not.Title
	}
	if item != nil {
		ti = item.Title
	}
	if addP != nil {
		tp = addP.Title
	}
	if addI != nil {
		ta = addI.Title
	}
	schemaWalker{visitor: v}.walkSchema(s)
	vc.Ensures("the node is visited once", c09Visits == 1 && c09On == v)
	vc.Ensures("completion is told once, to the visitor of the children", c09Done == 1 && c09Last == sub)
	vc.Ensures("not is walked once", not == nil || not.Title == c09Title(sub, tn))
	vc.Ensures("items is walked once", item == nil || item.Title == c09Title(sub, ti))
	vc.Ensures("additionalProperties is walked once", addP == nil || addP.Title == c09Title(sub, tp))
	vc.Ensures("additionalItems is walked once", addI == nil || addI.Title == c09Title(sub, ta))
}

//vc:logical
//vc:verifies (sigs.k8s.io/controller-tools/pkg/crd.schemaWalker).walkSchema
func VC_C09_lists(v SchemaVisitor, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil && v != nil)
	sub := vc.UF[SchemaVisitor]("sub", v, vc.UF[string]("visited", v, s.Title))
	vc.Requires(sub != nil)
	s.Dependencies = nil
	s.Not = nil
	s.AdditionalItems = nil
	s.AdditionalProperties = nil
	s.Properties = nil
	s.Definitions = nil
	s.PatternProperties = nil
	var items []apiext.JSONSchemaProps
	if s.Items != nil {
		vc.Requires(s.Items.Schema == nil)
		items = s.Items.JSONSchemas
	}
	all, one, any := s.AllOf, s.OneOf, s.AnyOf
	vc.Requires(vc.Apart(all, one) && vc.Apart(all, any) && vc.Apart(one, any))
	vc.Requires(vc.Apart(items, all) && vc.Apart(items, one) && vc.Apart(items, any))
	i, j, k, l := vc.AnyIndex(len(all)), vc.AnyIndex(len(one)), vc.AnyIndex(len(any)), vc.AnyIndex(len(items))
	var ti, tj, tk, tl string
	if i >= 0 {
		ti = all[i].Title
	}
	if j >= 0 {
		tj = one[j].Title
	}
	if k >= 0 {
		tk = any[k].Title
	}
	if l >= 0 {
		tl = items[l].Title
	}
	schemaWalker{visitor: v}.walkSchema(s)
	vc.Ensures("every element of allOf is walked once", i < 0 || all[i].Title == c09Title(sub, ti))
	vc.Ensures("every element of oneOf is walked once", j < 0 || one[j].Title == c09Title(sub, tj))
	vc.Ensures("every element of anyOf is walked once", k < 0 || any[k].Title == c09Title(sub, tk))
	vc.Ensures("every element of items is walked once", l < 0 || items[l].Title == c09Title(sub, tl))
}

//vc:logical
//vc:verifies (sigs.k8s.io/controller-tools/pkg/crd.schemaWalker).walkSchema
func VC_C09_maps(v SchemaVisitor, s *apiext.JSONSchemaProps, a, b, c string) {
	vc.Requires(s != nil && v != nil)
	sub := vc.UF[SchemaVisitor]("sub", v, vc.UF[string]("visited", v, s.Title))
	vc.Requires(sub != nil)
	s.Dependencies = nil
	s.Not = nil
	s.AdditionalItems = nil
	s.AdditionalProperties = nil
	s.Items = nil
	s.AllOf = nil
	s.AnyOf = nil
	s.OneOf = nil
	p, q, d := s.Properties, s.PatternProperties, s.Definitions
	vc.Requires(p == nil || !vc.Same(p, q) && !vc.Same(p, d))
	vc.Requires(q == nil || !vc.Same(q, d))
	pa, hasA := p[a]
	qb, hasB := q[b]
	dc, hasC := d[c]
	schemaWalker{visitor: v}.walkSchema(s)
	pa2, hasA2 := p[a]
	qb2, hasB2 := q[b]
	dc2, hasC2 := d[c]
	vc.Ensures("the keys stay", hasA == hasA2 && hasB == hasB2 && hasC == hasC2)
	vc.Ensures("every property is walked once", !hasA || pa2.Title == c09Title(sub, pa.Title))
	vc.Ensures("every pattern property is walked once", !hasB || qb2.Title == c09Title(sub, qb.Title))
	vc.Ensures("every definition is walked once", !hasC || dc2.Title == c09Title(sub, dc.Title))
}

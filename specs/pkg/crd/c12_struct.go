package crd

import (
	"go/ast"
	"reflect"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// Contracts for C12: what one field of a struct becomes, in the schema of the
// struct, for any field and any schema built from the fields before it.

// c12Errors counts the errors attached to packages.
var c12Errors int

//vc:stub (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func c12AddError(p *loader.Package, err error) {
	vc.Requires(err != nil)
	c12Errors++
}

//vc:stub sigs.k8s.io/controller-tools/pkg/loader.ErrFromNode
func c12ErrFromNode(err error, n loader.Node) error { return err }

//vc:stub (reflect.StructTag).Lookup
func c12Lookup(tag reflect.StructTag, key string) (string, bool) {
	if !vc.UF[bool]("hasTag", tag, key) {
		return "", false
	}
	return vc.UF[string]("tag", tag, key), true
}

//vc:stub go/ast.IsExported
func c12IsExported(name string) bool { return vc.UF[bool]("exported", name) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.typeToSchema
func c12TypeToSchema(ctx *schemaContext, t ast.Expr) *apiext.JSONSchemaProps {
	return &apiext.JSONSchemaProps{Format: vc.UF[string]("schemaOf", t), Description: vc.UF[string]("descOf", t)}
}

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.applyMarkers
func c12ApplyMarkers(ctx *schemaContext, ms markers.MarkerValues, props *apiext.JSONSchemaProps, node ast.Node) {
	vc.Requires(props != nil)
	props.Title = vc.UF[string]("marked", ms, props.Title, props.Format, props.Description)
}

// c12Split: the parts of a text; there is always one.
//
//vc:stub strings.Split
func c12Split(s, sep string) []string {
	parts := vc.UF[[]string]("split", s, sep)
	vc.Assume(len(parts) > 0)
	return parts
}

// c12Field is the outcome for one field.
type c12Field struct {
	left     bool // not part of the schema
	bad      bool // reported
	inline   bool
	name     string
	required bool
}

// c12Has: the option is one of those of the tag.
func c12Has(tag, opt string) bool {
	opts := strings.Split(tag, ",")
	return vc.Exists(1, len(opts), func(i int) bool { return opts[i] == opt })
}

func c12Want(ctx *schemaContext, f markers.FieldInfo) c12Field {
	if f.Name != "" && ctx.ignoreUnexportedFields && !c12IsExported(f.Name) {
		return c12Field{left: true}
	}
	tag, has := c12Lookup(f.Tag, "json")
	if !has {
		return c12Field{left: true, bad: true}
	}
	if opts := strings.Split(tag, ","); len(opts) == 1 && opts[0] == "-" {
		return c12Field{left: true}
	}
	opts := strings.Split(tag, ",")
	w := c12Field{name: opts[0]}
	w.inline = w.name == "" || c12Has(tag, "inline")
	w.required = ctx.PackageMarkers.Get("kubebuilder:validation:Optional") == nil && !c12Has(tag, "omitempty")
	switch {
	case f.Markers.Get("kubebuilder:validation:Optional") != nil:
		w.required = false
	case f.Markers.Get("kubebuilder:validation:Required") != nil:
		w.required = true
	case f.Markers.Get("optional") != nil:
		w.required = false
	case f.Markers.Get("required") != nil:
		w.required = true
	}
	w.required = w.required && !w.inline
	return w
}

func c12Setup(ctx *schemaContext, st *ast.StructType, f markers.FieldInfo) {
	vc.Requires(ctx != nil && ctx.info != nil && ctx.info.RawSpec != nil && st != nil && f.RawField != nil)
	vc.Requires(ctx.info.RawSpec.Type == ast.Expr(st))
	ctx.info.Fields = []markers.FieldInfo{f}
	c12Errors = 0
}

//vc:logical
func VC_C12_skipped(ctx *schemaContext, st *ast.StructType, f markers.FieldInfo, other string) {
	c12Setup(ctx, st, f)
	w := c12Want(ctx, f)
	vc.Requires(w.left)
	got := structToSchema(ctx, st)
	_, has := got.Properties[other]
	vc.Ensures("structs are objects", got.Type == "object" && got.Properties != nil)
	vc.Ensures("skipped fields leave no trace", len(got.Required) == 0 && len(got.AllOf) == 0 && !has)
	if w.bad {
		vc.Ensures("fields without a JSON tag are reported", c12Errors == 1)
	} else {
		vc.Ensures("other fields are not reported", c12Errors == 0)
	}
}

//vc:logical
func VC_C12_required(ctx *schemaContext, st *ast.StructType, f markers.FieldInfo) {
	c12Setup(ctx, st, f)
	w := c12Want(ctx, f)
	vc.Requires(!w.left && w.required)
	got := structToSchema(ctx, st)
	vc.Ensures("structs are objects", got.Type == "object" && got.Properties != nil)
	vc.Ensures("required fields are required by name", len(got.Required) == 1 && got.Required[0] == w.name)
	vc.Ensures("nothing is reported", c12Errors == 0)
}

//vc:logical
func VC_C12_optional(ctx *schemaContext, st *ast.StructType, f markers.FieldInfo) {
	c12Setup(ctx, st, f)
	w := c12Want(ctx, f)
	vc.Requires(!w.left && !w.required)
	got := structToSchema(ctx, st)
	vc.Ensures("structs are objects", got.Type == "object" && got.Properties != nil)
	vc.Ensures("optional fields are not required", len(got.Required) == 0)
	vc.Ensures("nothing is reported", c12Errors == 0)
}

//vc:logical
func VC_C12_inlined(ctx *schemaContext, st *ast.StructType, f markers.FieldInfo, other string) {
	c12Setup(ctx, st, f)
	w := c12Want(ctx, f)
	vc.Requires(!w.left && w.inline)
	got := structToSchema(ctx, st)
	_, has := got.Properties[other]
	format := c12Format(f)
	title := vc.UF[string]("marked", f.Markers, "", format, f.Doc)
	vc.Ensures("inlined fields are no properties", !has)
	vc.Ensures("inlined fields are merged in", len(got.AllOf) == 1)
	vc.Ensures("with their schema, markers and documentation", got.AllOf[0].Format == format && got.AllOf[0].Title == title && got.AllOf[0].Description == f.Doc)
}

// c12Format: the schema of the field's type, unless it is to have none.
func c12Format(f markers.FieldInfo) string {
	if f.Markers.Get("kubebuilder:validation:Schemaless") != nil {
		return ""
	}
	return vc.UF[string]("schemaOf", f.RawField.Type)
}

//vc:logical
func VC_C12_property(ctx *schemaContext, st *ast.StructType, f markers.FieldInfo, other string) {
	c12Setup(ctx, st, f)
	w := c12Want(ctx, f)
	vc.Requires(!w.left && !w.inline)
	got := structToSchema(ctx, st)
	p, has := got.Properties[w.name]
	_, hasOther := got.Properties[other]
	format := c12Format(f)
	title := vc.UF[string]("marked", f.Markers, "", format, f.Doc)
	vc.Ensures("only inlined fields are merged in", len(got.AllOf) == 0)
	vc.Ensures("other fields are properties under their name", has && hasOther == (other == w.name))
	vc.Ensures("with their schema", p.Format == format)
	vc.Ensures("markers and documentation", p.Title == title && p.Description == f.Doc)
}

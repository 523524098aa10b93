package crd

import (
	"go/ast"
	"go/types"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// Contracts for C11: Go types map to the JSON type their serialisation has.

// c11Errors counts the errors attached to packages.
var c11Errors int

//vc:stub (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func c11AddError(p *loader.Package, err error) {
	vc.Requires(err != nil)
	c11Errors++
}

//vc:stub sigs.k8s.io/controller-tools/pkg/loader.ErrFromNode
func c11ErrFromNode(err error, n loader.Node) error { return err }

// c11Ctx: the context of a type-checked package.
func c11Ctx(ctx *schemaContext) bool {
	return ctx != nil && ctx.pkg != nil && ctx.pkg.Package != nil && ctx.pkg.TypesInfo != nil
}

//vc:stub (*go/types.Basic).String
func c11BasicString(b *types.Basic) string { return vc.UF[string]("basicString", b) }

//vc:logical
func VC_C11_basic(b *types.Basic, dangerous bool) {
	vc.Requires(b != nil)
	info, kind := b.Info(), b.Kind()
	// the table of package go/types
	vc.Requires((info&types.IsInteger != 0) == (kind >= types.Int && kind <= types.Uintptr || kind == types.UntypedInt || kind == types.UntypedRune))
	vc.Requires((info&types.IsBoolean != 0) == (kind == types.Bool || kind == types.UntypedBool))
	vc.Requires((info&types.IsString != 0) == (kind == types.String || kind == types.UntypedString))
	vc.Requires((info&types.IsFloat != 0) == (kind == types.Float32 || kind == types.Float64 || kind == types.UntypedFloat))
	typ, format, err := builtinToType(b, dangerous)
	float := kind == types.Float32 || kind == types.Float64 || kind == types.UntypedFloat
	switch {
	case kind == types.Bool:
		vc.Ensures("booleans are boolean", err == nil && typ == "boolean" && format == "")
	case kind == types.String:
		vc.Ensures("strings are string", err == nil && typ == "string" && format == "")
	case kind == types.Int32 || kind == types.Uint32:
		vc.Ensures("32-bit integers are integer of format int32", err == nil && typ == "integer" && format == "int32")
	case kind == types.Int64 || kind == types.Uint64:
		vc.Ensures("64-bit integers are integer of format int64", err == nil && typ == "integer" && format == "int64")
	case kind >= types.Int && kind <= types.Uintptr:
		vc.Ensures("other integers are integer", err == nil && typ == "integer" && format == "")
	case float:
		vc.Ensures("floats are number only when allowed", (err == nil) == dangerous)
		if dangerous {
			vc.Ensures("allowed floats are number", typ == "number" && format == "")
		} else {
			vc.Ensures("a float that is not allowed has no type", typ == "" && format == "")
		}
	case kind == types.Complex64 || kind == types.Complex128 || kind == types.UnsafePointer || kind == types.UntypedNil || kind == types.Invalid:
		vc.Ensures("other kinds are errors", err != nil && typ == "" && format == "")
	}
}

//vc:stub (*go/types.Info).TypeOf
func c11TypeOf(i *types.Info, e ast.Expr) types.Type { return vc.UF[types.Type]("typeOf", e) }

// c11SchemaOf is the schema of a type expression without markers; asking for
// it may report errors.
func c11SchemaOf(e ast.Expr) *apiext.JSONSchemaProps {
	s := vc.UF[*apiext.JSONSchemaProps]("schemaOf", e)
	vc.Assume(s != nil)
	return s
}

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.typeToSchema
func c11TypeToSchema(ctx *schemaContext, e ast.Expr) *apiext.JSONSchemaProps { return c11SchemaOf(e) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.localNamedToSchema
func c11Local(ctx *schemaContext, e *ast.Ident) *apiext.JSONSchemaProps { return c11SchemaOf(e) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.namedToSchema
func c11Named(ctx *schemaContext, e *ast.SelectorExpr) *apiext.JSONSchemaProps { return c11SchemaOf(e) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.arrayToSchema
func c11Array(ctx *schemaContext, e *ast.ArrayType) *apiext.JSONSchemaProps { return c11SchemaOf(e) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.mapToSchema
func c11Map(ctx *schemaContext, e *ast.MapType) *apiext.JSONSchemaProps { return c11SchemaOf(e) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.structToSchema
func c11Struct(ctx *schemaContext, e *ast.StructType) *apiext.JSONSchemaProps { return c11SchemaOf(e) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.applyMarkers
func c11Markers(ctx *schemaContext, ms markers.MarkerValues, props *apiext.JSONSchemaProps, n ast.Node) {
}

//vc:stub go/types.Identical
func c11Identical(a, b types.Type) bool { return vc.UF[bool]("identical", a, b) }

//vc:stub (*go/types.Named).Underlying
func c11NamedUnderlying(n *types.Named) types.Type { return c11Underlying(n) }

//vc:stub (*go/types.Alias).Underlying
func c11AliasUnderlying(n *types.Alias) types.Type { return c11Underlying(n) }

//vc:stub iface:go/types.Type.Underlying
func c11Underlying(t types.Type) types.Type {
	u := vc.UF[types.Type]("underlying", t)
	c11NotNamed(u)
	return u
}

//vc:stub iface:go/types.Type.String
func c11TypeString(t types.Type) string { return vc.UF[string]("typeString", t) }

// c11NotNamed: underlying types are not names.
func c11NotNamed(u types.Type) {
	c11Type(u)
	_, named := u.(*types.Named)
	_, alias := u.(*types.Alias)
	vc.Assume(!named && !alias)
}

// c11Type: types are not nil.
func c11Type(t types.Type) {
	vc.Assume(t != nil)
	if b, ok := t.(*types.Basic); ok {
		vc.Assume(b != nil)
	}
}

// c11StringKey: the type is a string type, by whatever name.
func c11StringKey(k types.Type) bool {
	switch n := k.(type) {
	case *types.Named:
		k = n.Underlying()
	case *types.Alias:
		k = n.Underlying()
	}
	b, basic := k.(*types.Basic)
	return basic && b.Info()&types.IsString != 0
}

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/crd.mapToSchema
func VC_C11_mapKeys(ctx *schemaContext, m *ast.MapType) {
	vc.Requires(c11Ctx(ctx) && m != nil)
	key := ctx.pkg.TypesInfo.TypeOf(m.Key)
	c11Type(key)
	good := c11StringKey(key)
	vc.Requires(!good)
	c11Errors = 0
	got := mapToSchema(ctx, m)
	vc.Ensures("other keys than strings are reported", c11Errors == 1)
	vc.Ensures("and get no schema", got.Type == "" && got.AdditionalProperties == nil && got.Ref == nil)
}

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/crd.mapToSchema
func VC_C11_map(ctx *schemaContext, m *ast.MapType) {
	vc.Requires(c11Ctx(ctx) && m != nil)
	key := ctx.pkg.TypesInfo.TypeOf(m.Key)
	c11Type(key)
	vc.Requires(c11StringKey(key))
	supported := false
	switch m.Value.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.ArrayType, *ast.StarExpr, *ast.MapType:
		supported = true
	}
	c11Errors = 0
	got := mapToSchema(ctx, m)
	if supported {
		vc.Ensures("maps are objects", got.Type == "object" && got.Format == "" && len(got.Properties) == 0 && got.AdditionalProperties != nil && c11Errors == 0)
		if got.AdditionalProperties != nil {
			vc.Ensures("whose values have the element's schema", got.AdditionalProperties.Schema == c11SchemaOf(m.Value) && got.AdditionalProperties.Allows)
		}
	} else {
		vc.Ensures("other value types are reported and get no schema", c11Errors == 1 && got.Type == "" && got.AdditionalProperties == nil)
	}
}

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/crd.typeToSchema
func VC_C11_dispatch(ctx *schemaContext, e ast.Expr) {
	vc.Requires(c11Ctx(ctx) && ctx.info != nil)
	c11Errors = 0
	want := e
	known := false
	switch x := e.(type) {
	case *ast.StarExpr:
		vc.Requires(x != nil)
		want = x.X
		known = true
	case *ast.Ident, *ast.SelectorExpr, *ast.ArrayType, *ast.MapType, *ast.StructType:
		known = true
	}
	got := typeToSchema(ctx, e)
	if known {
		vc.Ensures("a pointer has the schema of what it points to, other types their own", got == c11SchemaOf(want) && c11Errors == 0)
	} else {
		vc.Ensures("other kinds of types are reported and get no schema", c11Errors == 1 && got.Type == "" && got.Ref == nil)
	}
}

// c11Asked is the last schema that was asked for.
var c11AskedPkg, c11AskedName string
var c11Asked int

//vc:stub (*sigs.k8s.io/controller-tools/pkg/crd.schemaContext).requestSchema
func c11Request(c *schemaContext, pkgPath, typeName string) {
	c11Asked++
	c11AskedPkg, c11AskedName = pkgPath, typeName
}

//vc:stub sigs.k8s.io/controller-tools/pkg/loader.NonVendorPath
func c11NonVendor(p string) string { return vc.UF[string]("nonVendor", p) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.TypeRefLink
func c11Link(pkg, name string) string { return vc.UF[string]("link", pkg, name) }

//vc:stub (*go/types.Named).Obj
func c11NamedObj(n *types.Named) *types.TypeName { return c11Obj(n) }

//vc:stub (*go/types.Alias).Obj
func c11AliasObj(n *types.Alias) *types.TypeName { return c11Obj(n) }

//vc:stub (*go/types.TypeParam).Obj
func c11ParamObj(n *types.TypeParam) *types.TypeName { return c11Obj(n) }

func c11Obj(t types.Type) *types.TypeName {
	o := vc.UF[*types.TypeName]("obj", t)
	vc.Assume(o != nil)
	return o
}

//vc:stub (*go/types.Alias).Rhs
func c11Rhs(n *types.Alias) types.Type {
	r := vc.UF[types.Type]("rhs", n)
	c11Type(r)
	return r
}

func c11Types() {
	vc.Closed((*types.Type)(nil), (*types.Basic)(nil), (*types.Named)(nil), (*types.Alias)(nil), (*types.TypeParam)(nil),
		(*types.Pointer)(nil), (*types.Slice)(nil), (*types.Array)(nil), (*types.Map)(nil), (*types.Struct)(nil),
		(*types.Interface)(nil), (*types.Chan)(nil), (*types.Signature)(nil), (*types.Tuple)(nil), (*types.Union)(nil))
	vc.Closed((*interface{ Obj() *types.TypeName })(nil), (*types.Named)(nil), (*types.Alias)(nil), (*types.TypeParam)(nil))
	vc.Assume(len(types.Typ) == int(types.UntypedNil)+1)
}

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/crd.localNamedToSchema
func VC_C11_local(ctx *schemaContext, id *ast.Ident) {
	c11Types()
	vc.Requires(c11Ctx(ctx) && id != nil)
	t := ctx.pkg.TypesInfo.TypeOf(id)
	c11Type(t)
	vc.Requires(t != types.Type(types.Typ[types.Invalid]))
	a, alias := t.(*types.Alias)
	if alias {
		t = a.Rhs()
	}
	c11Errors, c11Asked = 0, 0
	got := localNamedToSchema(ctx, id)
	if b, basic := t.(*types.Basic); basic {
		typ, format, err := builtinToType(b, ctx.allowDangerousTypes)
		vc.Ensures("a basic type has its type", got.Type == typ && got.Format == format)
		vc.Ensures("and is reported when it is not supported", (c11Errors == 1) == (err != nil) && (c11Errors == 0) == (err == nil))
		return
	}
	var obj *types.TypeName
	switch t.(type) {
	case *types.Named, *types.Alias, *types.TypeParam:
		obj = c11Obj(t)
	default:
		if alias {
			obj = c11Obj(a)
		}
	}
	if obj == nil || obj.Pkg() == nil {
		vc.Ensures("predeclared types of other kinds are reported", c11Errors == 1 && c11Asked == 0)
		vc.Ensures("and get no schema", got.Type == "" && got.Ref == nil)
		return
	}
	path := ""
	if obj.Pkg() != ctx.pkg.Types {
		path = c11NonVendor(obj.Pkg().Path())
	}
	vc.Ensures("a named type is a reference to it", got.Ref != nil && *got.Ref == c11Link(path, obj.Name()) && got.Type == "" && c11Errors == 0)
	vc.Ensures("and its schema is asked for", c11Asked == 1 && c11AskedPkg == path && c11AskedName == obj.Name())
}

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/crd.namedToSchema
func VC_C11_named(ctx *schemaContext, sel *ast.SelectorExpr) {
	c11Types()
	vc.Requires(c11Ctx(ctx) && sel != nil && sel.Sel != nil)
	t := ctx.pkg.TypesInfo.TypeOf(sel)
	c11Type(t)
	vc.Requires(t != types.Type(types.Typ[types.Invalid]))
	c11Errors, c11Asked = 0, 0
	var obj *types.TypeName
	switch t.(type) {
	case *types.Named, *types.Alias, *types.TypeParam:
		obj = c11Obj(t)
		// types of other packages are not predeclared
		vc.Requires(obj.Pkg() != nil)
	}
	got := namedToSchema(ctx, sel)
	if obj == nil {
		vc.Ensures("types without a declaration are reported", c11Errors == 1 && c11Asked == 0)
		vc.Ensures("and get no schema", got.Type == "" && got.Ref == nil)
		return
	}
	path := c11NonVendor(obj.Pkg().Path())
	vc.Ensures("a named type is a reference to it", got.Ref != nil && *got.Ref == c11Link(path, obj.Name()) && got.Type == "" && c11Errors == 0)
	vc.Ensures("and its schema is asked for", c11Asked == 1 && c11AskedPkg == path && c11AskedName == obj.Name())
}

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/crd.arrayToSchema
func VC_C11_array(ctx *schemaContext, array *ast.ArrayType) {
	vc.Requires(c11Ctx(ctx) && array != nil)
	bytes := array.Len == nil && types.Identical(ctx.pkg.TypesInfo.TypeOf(array.Elt), byteType)
	c11Errors = 0
	got := arrayToSchema(ctx, array)
	vc.Ensures("no error is reported for the array itself", c11Errors == 0)
	if bytes {
		vc.Ensures("byte slices are base64 strings", got.Type == "string" && got.Format == "byte" && got.Items == nil)
		return
	}
	vc.Ensures("slices and arrays are arrays", got.Type == "array" && got.Format == "" && got.Items != nil)
	if got.Items != nil {
		vc.Ensures("of the element's schema", got.Items.Schema == c11SchemaOf(array.Elt) && len(got.Items.JSONSchemas) == 0)
	}
}

From d68452ce2e9bcd33f0d3119a984804b90da5b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 01/27] fix: report a malformed metadata label instead of
 panicking

---
 pkg/crd/markers/crd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index bd3cef5..d4a035d 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -384,6 +384,9 @@ func (s Metadata) ApplyToCRD(crd *apiext.CustomResourceDefinition, _ string) err
 		}
 		for _, str := range s.Labels {
 			kv := strings.SplitN(str, "=", 2)
+			if len(kv) < 2 {
+				return fmt.Errorf("label %s is not in 'xxx=xxx' format", str)
+			}
 			crd.Labels[kv[0]] = kv[1]
 		}
 	}
-- 
2.43.0


From 278385295699aca548d98481b3c756b57d55f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 02/27] fix: reject webhook timeouts beyond 32 bits instead of
 wrapping them

---
 pkg/webhook/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 832edeb..416fcd8 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -24,6 +24,7 @@ package webhook
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -382,7 +383,8 @@ func (c Config) sideEffects() *admissionregv1.SideEffectClass {
 // timeoutSeconds returns the timeoutSeconds config for a webhook.
 func (c Config) timeoutSeconds() *int32 {
 	if c.TimeoutSeconds != 0 {
-		timeoutSeconds := int32(c.TimeoutSeconds)
+		// saturate instead of wrapping around, so that the range check sees it
+		timeoutSeconds := int32(min(max(c.TimeoutSeconds, math.MinInt32), math.MaxInt32))
 		return &timeoutSeconds
 	}
 	return nil
-- 
2.43.0


From 9bed8a254f7abed226e5f5a08eefe83574dbcdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 03/27] fix: do not cut characters in half when truncating
 descriptions

---
 pkg/crd/desc_visitor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/desc_visitor.go b/pkg/crd/desc_visitor.go
index 1a5698b..475c593 100644
--- a/pkg/crd/desc_visitor.go
+++ b/pkg/crd/desc_visitor.go
@@ -19,6 +19,7 @@ package crd
 import (
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
@@ -64,11 +65,17 @@ func truncateString(desc string, maxLen int) string {
 		return desc
 	}
 
+	// Do not cut a multi-byte character in half.
+	for maxLen > 0 && !utf8.RuneStart(desc[maxLen]) {
+		maxLen--
+	}
 	desc = desc[0:maxLen]
 
 	// Trying to chop off at closest sentence boundary.
 	if n := strings.LastIndexFunc(desc, isSentenceTerminal); n > 0 {
-		return desc[0 : n+1]
+		// The terminal itself may be more than one byte long.
+		_, size := utf8.DecodeRuneInString(desc[n:])
+		return desc[0 : n+size]
 	}
 
 	// Trying to chop off at closest word boundary (i.e. whitespace).
-- 
2.43.0


From 3c4a39506bfe253172051a82b46fbc8b5a705acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 04/27] fix: make reference links of packages with a tilde in
 their path decodable

---
 pkg/crd/flatten.go | 17 ++++++++---------
 pkg/crd/schema.go  |  8 +++++---
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index cf02c9b..03fde63 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -293,17 +293,16 @@ func RefParts(ref string) (typ string, pkgName string, err error) {
 		return "", "", fmt.Errorf("non-standard reference link %q", ref)
 	}
 	ref = ref[len(defPrefix):]
-	// decode the json pointer encodings
-	ref = strings.ReplaceAll(ref, "~1", "/")
-	ref = strings.ReplaceAll(ref, "~0", "~")
-	nameParts := strings.SplitN(ref, "~", 2)
-
-	if len(nameParts) == 1 {
+	// package paths may contain (escaped) tildes, type names may not
+	sep := strings.LastIndex(ref, "~0")
+	if sep == -1 {
 		// local reference
-		return nameParts[0], "", nil
+		return ref, "", nil
 	}
-	// cross-package reference
-	return nameParts[1], nameParts[0], nil
+	// cross-package reference: decode the json pointer encodings
+	pkgName = strings.ReplaceAll(ref[:sep], "~1", "/")
+	pkgName = strings.ReplaceAll(pkgName, "~0", "~")
+	return ref[sep+len("~0"):], pkgName, nil
 }
 
 // identFromRef converts the given schema ref from the given package back
diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 616141c..1c67ca8 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -242,11 +242,13 @@ func typeToSchema(ctx *schemaContext, rawType ast.Expr) *apiext.JSONSchemaProps
 
 // qualifiedName constructs a JSONSchema-safe qualified name for a type
 // (`<typeName>` or `<safePkgPath>~0<typeName>`, where `<safePkgPath>`
-// is the package path with `/` replaced by `~1`, according to JSONPointer
-// escapes).
+// is the package path with `~` replaced by `~0` and `/` replaced by `~1`,
+// according to JSONPointer escapes).
 func qualifiedName(pkgName, typeName string) string {
 	if pkgName != "" {
-		return strings.ReplaceAll(pkgName, "/", "~1") + "~0" + typeName
+		safePkgPath := strings.ReplaceAll(pkgName, "~", "~0")
+		safePkgPath = strings.ReplaceAll(safePkgPath, "/", "~1")
+		return safePkgPath + "~0" + typeName
 	}
 	return typeName
 }
-- 
2.43.0


From 2bcc20a3bd12302eb7e79c8d48872ff42cda3e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 05/27] fix: do not panic on aliases of unnamed types, any,
 error and unsafe.Pointer

---
 pkg/crd/schema.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 1c67ca8..7160f39 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -268,7 +268,8 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// This reproduces the behavior we had pre gotypesalias=1 (needed if this
 	// project is compiled with default settings and Go >= 1.23).
-	if aliasInfo, isAlias := typeInfo.(*types.Alias); isAlias {
+	aliasInfo, isAlias := typeInfo.(*types.Alias)
+	if isAlias {
 		typeInfo = aliasInfo.Rhs()
 	}
 	if basicInfo, isBasic := typeInfo.(*types.Basic); isBasic {
@@ -297,7 +298,17 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// NB(directxman12): if there are dot imports, this might be an external reference,
 	// so use typechecking info to get the actual object
-	typeNameInfo := typeInfo.(interface{ Obj() *types.TypeName }).Obj()
+	namedInfo, isNamed := typeInfo.(interface{ Obj() *types.TypeName })
+	if !isNamed && isAlias {
+		// an alias for a type without a name: refer to the alias itself
+		namedInfo, isNamed = aliasInfo, true
+	}
+	if !isNamed || namedInfo.Obj().Pkg() == nil {
+		// predeclared types other than the basic ones, like error and any
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %s", ident.Name), ident))
+		return &apiext.JSONSchemaProps{}
+	}
+	typeNameInfo := namedInfo.Obj()
 	pkg := typeNameInfo.Pkg()
 	pkgPath := loader.NonVendorPath(pkg.Path())
 	if pkg == ctx.pkg.Types {
@@ -317,7 +328,12 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unknown type %v.%s", named.X, named.Sel.Name), named))
 		return &apiext.JSONSchemaProps{}
 	}
-	typeInfo := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	typeInfo, isNamed := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	if !isNamed {
+		// unsafe.Pointer
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %v.%s", named.X, named.Sel.Name), named))
+		return &apiext.JSONSchemaProps{}
+	}
 	typeNameInfo := typeInfo.Obj()
 	nonVendorPath := loader.NonVendorPath(typeNameInfo.Pkg().Path())
 	ctx.requestSchema(nonVendorPath, typeNameInfo.Name())
-- 
2.43.0


From 1a2e5996cf730e5f6a0ad471ea5200e203e129d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 06/27] fix: represent []uint8 and slices of byte aliases as
 base64 strings

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 7160f39..209c2ce 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -348,7 +348,7 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 // with the special `[]byte` type (according to OpenAPI standards).
 func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaProps {
 	eltType := ctx.pkg.TypesInfo.TypeOf(array.Elt)
-	if eltType == byteType && array.Len == nil {
+	if types.Identical(eltType, byteType) && array.Len == nil {
 		// byte slices are represented as base64-encoded strings
 		// (the format is defined in OpenAPI v3, but not JSON Schema)
 		return &apiext.JSONSchemaProps{
-- 
2.43.0


From 0b242f1d9775378f1d9fa642be9415bdd35f6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 07/27] fix: accept aliases of strings as map keys

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 209c2ce..163cd85 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -378,7 +378,7 @@ func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaPro
 				return &apiext.JSONSchemaProps{}
 			}
 			keyInfo = nil // stop iterating
-		case *types.Named:
+		case *types.Named, *types.Alias:
 			keyInfo = typedKey.Underlying()
 		default:
 			ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("map keys must be strings, not %s", keyInfo.String()), mapType.Key))
-- 
2.43.0


From 33e2de38eed527a550cecc9851c98796fce6aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 08/27] fix: skip versions that do not have the kind when
 patching schemata

---
 pkg/schemapatcher/gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 063a7cf..3348176 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -127,6 +127,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			}
 
 			typeIdent := crdgen.TypeIdent{Package: pkg, Name: groupKind.Kind}
+			if _, known := parser.Types[typeIdent]; !known {
+				// not every version needs to have every kind
+				continue
+			}
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
-- 
2.43.0


From 5bdf1ece93a9f1653e351ffff08ca54282e3981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 09/27] fix: report versions without a name instead of
 panicking

---
 pkg/schemapatcher/gen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 3348176..6ad8e53 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -305,8 +305,11 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 	}
 
 	for i, verNode := range versions.Content {
-		nameNode, _, _ := yamlop.GetNode(verNode, "name")
-		if nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
+		nameNode, hasName, err := yamlop.GetNode(verNode, "name")
+		if err != nil {
+			return fmt.Errorf("spec.versions[%d]: %w", i, err)
+		}
+		if !hasName || nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
 			return fmt.Errorf("version name was not a string at spec.versions[%d]", i)
 		}
 		name := nameNode.Value
-- 
2.43.0


From 417ac24ad5b98a83e2ff72cecaa1abc62705f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 10/27] fix: do not lose permissions when merged RBAC rules
 have the same targets

---
 pkg/rbac/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 6521d26..e987364 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -277,6 +277,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.Groups = append(rule.Groups, mergeRule.Groups...)
 			}
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// the merged rule may apply to the same targets as another one
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
@@ -296,6 +301,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.URLs = append(rule.URLs, mergeRule.URLs...)
 			}
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// the merged rule may apply to the same targets as another one
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
-- 
2.43.0


From 2e774ead6c4fc062a86ae3755510a3a8d2074552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 11/27] fix: tell RBAC rules with different targets apart when
 merging them

---
 pkg/rbac/parser.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index e987364..d28e108 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -85,31 +85,47 @@ func (keys ruleKeys) Less(i, j int) bool { return keys[i].String() < keys[j].Str
 func (r *Rule) key() ruleKey {
 	r.normalize()
 	return ruleKey{
-		Groups:        strings.Join(r.Groups, "&"),
-		Resources:     strings.Join(r.Resources, "&"),
-		ResourceNames: strings.Join(r.ResourceNames, "&"),
-		URLs:          strings.Join(r.URLs, "&"),
+		Groups:        joinKey(r.Groups),
+		Resources:     joinKey(r.Resources),
+		ResourceNames: joinKey(r.ResourceNames),
+		URLs:          joinKey(r.URLs),
 	}
 }
 
 func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinKey(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.ResourceNames, key.URLs, verbs)
 }
 
 func (r *Rule) keyWithResourcesResourceNamesURLsVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinKey(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Resources, key.ResourceNames, key.URLs, verbs)
 }
 
 func (r *Rule) keyWitGroupResourcesResourceNamesVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinKey(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.Resources, key.ResourceNames, verbs)
 }
 
+// keyEscaper escapes what separates the parts of keys.
+var keyEscaper = strings.NewReplacer("\x00", `\0`, `\`, `\\`, "&", `\&`, " ", `\ `)
+
+// joinKey joins strs to a part of a key, such that different lists never have the same key.
+func joinKey(strs []string) string {
+	if len(strs) == 0 {
+		// not the same as a single empty string, which is the core group
+		return "\x00"
+	}
+	escaped := make([]string, len(strs))
+	for i, str := range strs {
+		escaped[i] = keyEscaper.Replace(str)
+	}
+	return strings.Join(escaped, "&")
+}
+
 // addVerbs adds new verbs into a Rule.
 // The duplicates in `r.Verbs` will be removed, and then `r.Verbs` will be sorted.
 func (r *Rule) addVerbs(verbs []string) {
-- 
2.43.0


From 326623e79b037902e6a9ae1421252cd38057b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 12/27] fix: report an empty option as unknown instead of
 panicking

---
 pkg/genall/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 192235b..080e9f9 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -124,7 +124,7 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	gensByName := make(map[string]*Generator)
 
 	for _, rawOpt := range options {
-		if rawOpt[0] != '+' {
+		if !strings.HasPrefix(rawOpt, "+") {
 			rawOpt = "+" + rawOpt // add a `+` to make it acceptable for usage with the registry
 		}
 		defn := optionsRegistry.Lookup(rawOpt, markers.DescribesPackage)
-- 
2.43.0


From b4a97aa4e7997ff7dcfa567c83c0e31b3a98138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 13/27] fix: never alias an import in generated code to a name
 that is invalid, or that hides or is hidden by another

---
 pkg/deepcopy/traverse.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b7bed1d..ef07214 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -19,6 +19,7 @@ package deepcopy
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
 	"go/types"
 	"io"
 	"path"
@@ -106,7 +107,7 @@ func (l *importsList) NeedImport(importPath string) string {
 	// otherwise, calculate an import alias by joining path parts till we get something unique
 	restPath, nextWord := path.Split(importPath)
 
-	for otherPath, exists := "", true; exists && otherPath != importPath; otherPath, exists = l.byAlias[alias] {
+	for otherPath, exists := "", true; (exists && otherPath != importPath) || !l.usableAlias(alias); otherPath, exists = l.byAlias[alias] {
 		if restPath == "" {
 			// do something else to disambiguate if we're run out of parts and
 			// still have duplicates, somehow
@@ -137,6 +138,21 @@ func (l *importsList) NeedImport(importPath string) string {
 	return alias
 }
 
+// usableAlias checks if generated code can refer to an import by the given alias:
+// it must be a valid identifier that doesn't hide, and isn't hidden by, anything else.
+func (l *importsList) usableAlias(alias string) bool {
+	switch alias {
+	case "_", "init":
+		return false // identifiers, but not for imports
+	case "in", "out", "i", "key", "val", "inVal", "outVal", "x", "clone", "c":
+		return false // local variables of generated methods
+	}
+	if !token.IsIdentifier(alias) || types.Universe.Lookup(alias) != nil {
+		return false
+	}
+	return l.pkg == nil || l.pkg.Types == nil || l.pkg.Types.Scope().Lookup(alias) == nil
+}
+
 // ImportSpecs returns a string form of each import spec
 // (i.e. `alias "path/to/import").  Aliases are only present
 // when they don't match the package name.
-- 
2.43.0


From 6efb7cba2f995617510bd31b867927ae33f4ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 14/27] fix: treat type aliases like the types they name when
 generating deepcopy methods

---
 pkg/deepcopy/traverse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index ef07214..4229ad7 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -363,7 +363,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		switch {
 		case hasDeepCopyInto || hasDeepCopy:
 			// use the manually-written methods
-			_, fieldIsPtr := mapType.Elem().(*types.Pointer)                       // is "out" actually a pointer
+			_, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer)        // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
 			if hasDeepCopy {
 				// If we're calling DeepCopy, check if it's receiver needs a pointer
@@ -477,7 +477,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			// never execute there, because they're pretty clearly invalid
 			// syntax).
 
-			_, fieldIsPtr := field.Type().(*types.Pointer)
+			_, fieldIsPtr := types.Unalias(field.Type()).(*types.Pointer)
 			inIsPtr := resultWillBePointer(field.Type(), hasDeepCopy, copyOnPtr)
 			if fieldIsPtr {
 				// we'll need a if block to check for nilness
@@ -590,7 +590,7 @@ func usePtrReceiver(typeInfo types.Type) bool {
 		return false
 	case *types.Slice:
 		return false
-	case *types.Named:
+	case *types.Named, *types.Alias:
 		return usePtrReceiver(typeInfo.Underlying())
 	default:
 		return true
@@ -615,7 +615,7 @@ func resultWillBePointer(typeInfo types.Type, hasDeepCopy, deepCopyOnPtr bool) b
 		return false
 	case *types.Slice:
 		return false
-	case *types.Named:
+	case *types.Named, *types.Alias:
 		return resultWillBePointer(typeInfo.Underlying(), false, false)
 	default:
 		return true
@@ -780,7 +780,7 @@ func fineToShallowCopy(typeInfo types.Type) bool {
 		default:
 			return true
 		}
-	case *types.Named:
+	case *types.Named, *types.Alias:
 		// aliases are fine to shallow-copy as long as they resolve to a shallow-copyable type
 		return fineToShallowCopy(typeInfo.Underlying())
 	case *types.Struct:
-- 
2.43.0


From df817f0c87b0b8584872a94fd4c0192a279b8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 15/27] fix: generate compiling deepcopy code for slices of
 pointers to types with manually written methods

---
 pkg/deepcopy/traverse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 4229ad7..a562060 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -426,8 +426,10 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c.pkg, c.importsList))
 
 	// check if we need to do anything special, or just copy each element appropriately
+	// (pointers need to be allocated first, so they're handled below)
+	_, elemIsPtr := underlyingElem.(*types.Pointer)
 	switch {
-	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
+	case !elemIsPtr && hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
 		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
 		c.For("i := range *in", func() {
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
-- 
2.43.0


From 1b64d8594d9b469ccb4204dc276be644c4bcb38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 16/27] fix: generate compiling deepcopy code for pointers to
 named maps and slices

---
 pkg/deepcopy/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index a562060..6ecacf0 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -563,7 +563,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 
 	// pass-by-reference types get delegated to the main switch
 	if passesByReference(underlyingElem) {
-		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
 			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
-- 
2.43.0


From 9467caa0d3b799c64c161c5aabacfca2bc289a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 17/27] fix: generate correct deepcopy code for pointers to
 pointers to types with manually written methods

---
 pkg/deepcopy/traverse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 6ecacf0..1c48da5 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -538,9 +538,11 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
 	// if we have a manually written deepcopy, just use that
+	// (unless it's on what another pointer points to)
+	_, elemIsPtr := underlyingElem.(*types.Pointer)
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
-	if hasDeepCopyInto || hasDeepCopy {
+	if !elemIsPtr && (hasDeepCopyInto || hasDeepCopy) {
 		outNeedsPtr := resultWillBePointer(pointerType.Elem(), hasDeepCopy, copyOnPtr)
 		if hasDeepCopy {
 			outNeedsPtr = copyOnPtr
-- 
2.43.0


From ec4a893ef2c35f1528484f740884794c2f9ff5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:45 +0000
Subject: [PATCH 18/27] fix: apply markers of one name and priority in source
 order, however many there are

---
 pkg/crd/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 163cd85..d48342e 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -189,8 +189,8 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 
 		return iPriority < jPriority
 	}
-	sort.Slice(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
-	sort.Slice(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
+	sort.SliceStable(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
+	sort.SliceStable(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
 
 	for _, schemaMarker := range markers {
 		if err := schemaMarker.SchemaMarker.ApplyToSchema(props); err != nil {
-- 
2.43.0


From e09d60c486707693fee53199e3c4be4e61edcc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:45 +0000
Subject: [PATCH 19/27] fix: never require the (missing) property of an inlined
 field

---
 pkg/crd/schema.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index d48342e..fa3292b 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -468,12 +468,16 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			// explicitly optional - kubebuilder
 		case field.Markers.Get("kubebuilder:validation:Required") != nil:
 			// explicitly required - kubebuilder
-			props.Required = append(props.Required, fieldName)
+			if !inline {
+				props.Required = append(props.Required, fieldName)
+			}
 		case field.Markers.Get("optional") != nil:
 			// explicitly optional - kubernetes
 		case field.Markers.Get("required") != nil:
 			// explicitly required - kubernetes
-			props.Required = append(props.Required, fieldName)
+			if !inline {
+				props.Required = append(props.Required, fieldName)
+			}
 
 		// if this package isn't set to optional default...
 		case defaultMode == "required":
-- 
2.43.0


From dc64142021abce24ec04dd91951322f1c08d47a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:47 +0000
Subject: [PATCH 20/27] fix: keep bare marker strings that are followed by
 whitespace and a separator

Peeking past whitespace resets the scanner's current token, so the end of
the string was computed from an empty token: `{foo , bar}` lost its foo.
---
 pkg/markers/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index f42dec0..083dc24 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -402,11 +402,13 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 	// separator), ';' (the slice separator), ':' (the map separator), or '}'
 	// (delimitted slice ender)
 	startPos := scanner.Position.Offset
+	// NB: peeking past whitespace forgets the current token, so note its end before doing that
+	endPos := scanner.Position.Offset + len(scanner.TokenText())
 	for hint := peekNoSpace(scanner); hint != ',' && hint != ';' && hint != ':' && hint != '}' && hint != sc.EOF; hint = peekNoSpace(scanner) {
 		// skip this token
 		scanner.Scan()
+		endPos = scanner.Position.Offset + len(scanner.TokenText())
 	}
-	endPos := scanner.Position.Offset + len(scanner.TokenText())
 	castAndSet(out, reflect.ValueOf(raw[startPos:endPos]))
 }
 
-- 
2.43.0


From 11bcc1d61edc2c4050980f2462648121608076ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:48 +0000
Subject: [PATCH 21/27] fix: accept whitespace before negative numbers in
 markers

`{"a": 1}` was accepted, `{"a": -1}` was an error.
---
 pkg/markers/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 083dc24..d93072c 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -518,7 +518,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			}
 		}
 	case NumberType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
@@ -544,7 +544,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 
 		castAndSet(out, reflect.ValueOf(val))
 	case IntType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
-- 
2.43.0


From 3bd11836320af73c04616d0a4137adaaba0d40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:49 +0000
Subject: [PATCH 22/27] fix: report marker integers that do not fit their type

Values for int32 arguments were silently truncated.
---
 pkg/markers/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index d93072c..2eede27 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -553,7 +553,6 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 		if !expect(scanner, sc.Int, "integer") {
 			return
 		}
-		// TODO(directxman12): respect the size when parsing
 		text := scanner.TokenText()
 		if isNegative {
 			text = "-" + text
@@ -563,6 +562,10 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %v", err))
 			return
 		}
+		if out.CanInt() && out.OverflowInt(int64(val)) {
+			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %q is out of range for %s", text, out.Type()))
+			return
+		}
 		castAndSet(out, reflect.ValueOf(val))
 	case StringType:
 		// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
-- 
2.43.0


From ee4445eec22b3cbca1a9897a38e016bdd49d99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:49 +0000
Subject: [PATCH 23/27] fix: don't take the separator after an empty marker
 string for its content

`a=,b=5` parsed as the single argument a of value ",b=5", and `;apps` as
a single group of that name.
---
 pkg/markers/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 2eede27..ae2804c 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -383,6 +383,13 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 		scanner.Mode = oldMode
 	}()
 
+	// an empty bare string: don't take the separator after it for its content
+	switch peekNoSpace(scanner) {
+	case ',', ';', ':', '}':
+		castAndSet(out, reflect.ValueOf(""))
+		return
+	}
+
 	// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
 	// the "hard" case (present for backwards compat) is a bare sequence of tokens that aren't
 	// a comma.
-- 
2.43.0


From dd8074d3574848a6dd73f493f305a6655b44f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:50 +0000
Subject: [PATCH 24/27] fix: don't add errors of concurrently parsed files to a
 package concurrently

Errors of some files could get lost.
---
 pkg/loader/loader.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 8062b72..174a002 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -105,6 +105,7 @@ func (p *Package) NeedSyntax() {
 		return
 	}
 	out := make([]*ast.File, len(p.CompiledGoFiles))
+	errs := make([]error, len(p.CompiledGoFiles))
 	var wg sync.WaitGroup
 	wg.Add(len(p.CompiledGoFiles))
 	for i, filename := range p.CompiledGoFiles {
@@ -112,17 +113,19 @@ func (p *Package) NeedSyntax() {
 			defer wg.Done()
 			src, err := os.ReadFile(filename)
 			if err != nil {
-				p.AddError(err)
-				return
-			}
-			out[i], err = p.loader.parseFile(filename, src)
-			if err != nil {
-				p.AddError(err)
+				errs[i] = err
 				return
 			}
+			out[i], errs[i] = p.loader.parseFile(filename, src)
 		}(i, filename)
 	}
 	wg.Wait()
+	// AddError is not safe for concurrent use, so only record the errors once all files were read
+	for _, err := range errs {
+		if err != nil {
+			p.AddError(err)
+		}
+	}
 	for _, file := range out {
 		if file == nil {
 			return
-- 
2.43.0


From 6303fc28138fa2b917a6e4233a3d21a919427917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 25/27] fix: keep exclusive limits together with their limit
 when flattening

---
 pkg/crd/flatten.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 03fde63..7cacb7f 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -57,7 +57,7 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 	}
 
 	dstVal := reflect.Indirect(reflect.ValueOf(dst))
-	srcVal := reflect.ValueOf(src)
+	srcVal := reflect.Indirect(reflect.ValueOf(&src))
 	typ := dstVal.Type()
 
 	srcRemainder := apiext.JSONSchemaProps{}
@@ -158,6 +158,16 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 			dstRemVal.Field(i).Set(dstField)
 			// ...and clear the original
 			dstField.Set(zeroVal)
+
+			// whether a limit is exclusive belongs to that limit, so take it along
+			switch fieldName {
+			case "Maximum":
+				srcRemainder.ExclusiveMaximum, src.ExclusiveMaximum = src.ExclusiveMaximum, false
+				dstRemainder.ExclusiveMaximum, dst.ExclusiveMaximum = dst.ExclusiveMaximum, false
+			case "Minimum":
+				srcRemainder.ExclusiveMinimum, src.ExclusiveMinimum = src.ExclusiveMinimum, false
+				dstRemainder.ExclusiveMinimum, dst.ExclusiveMinimum = dst.ExclusiveMinimum, false
+			}
 		}
 	}
 
-- 
2.43.0


From 298f62724e581923a2ea6719f546b82befdc8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 26/27] fix: don't write an empty CRD for a kind whose versions
 are all skipped

---
 pkg/crd/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 5fad65a..1485a4f 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -179,7 +179,11 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 
 	for _, groupKind := range kubeKinds {
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
-		crdRaw := parser.CustomResourceDefinitions[groupKind]
+		crdRaw, exists := parser.CustomResourceDefinitions[groupKind]
+		if !exists {
+			// all versions are skipped, so there's nothing to write
+			continue
+		}
 		addAttribution(&crdRaw)
 
 		// Prevent the top level metadata for the CRD to be generate regardless of the intention in the arguments
-- 
2.43.0


From 6efe8c0d7483b7597604cce608684384fe44a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 27/27] fix: apply CRD markers in a stable order and skip
 versions last

---
 pkg/crd/spec.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e4cbe3f..3398e43 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -24,6 +24,7 @@ import (
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
 	"sigs.k8s.io/controller-tools/pkg/loader"
 )
 
@@ -60,6 +61,14 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		packages = append(packages, pkg)
 	}
+	// use a stable order, so that markers are always applied in the same order
+	sort.Slice(packages, func(i, j int) bool {
+		verI, verJ := p.GroupVersions[packages[i]].Version, p.GroupVersions[packages[j]].Version
+		if verI != verJ {
+			return verI < verJ
+		}
+		return packages[i].PkgPath < packages[j].PkgPath
+	})
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
@@ -113,8 +122,21 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		ver := p.GroupVersions[pkg].Version
 
-		for _, markerVals := range typeInfo.Markers {
-			for _, val := range markerVals {
+		// apply the markers in a stable order, and drop a skipped version only
+		// once all its other markers have been applied
+		markerNames := make([]string, 0, len(typeInfo.Markers))
+		for name := range typeInfo.Markers {
+			markerNames = append(markerNames, name)
+		}
+		sort.Strings(markerNames)
+		skipped := false
+
+		for _, name := range markerNames {
+			for _, val := range typeInfo.Markers[name] {
+				if _, isSkip := val.(crdmarkers.SkipVersion); isSkip {
+					skipped = true
+					continue
+				}
 				if specMarker, isSpecMarker := val.(SpecMarker); isSpecMarker {
 					if err := specMarker.ApplyToCRD(&crd.Spec, ver); err != nil {
 						pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
@@ -126,6 +148,11 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 				}
 			}
 		}
+		if skipped {
+			if err := (crdmarkers.SkipVersion{}).ApplyToCRD(&crd.Spec, ver); err != nil {
+				pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
+			}
+		}
 	}
 
 	// fix the name if the plural was changed (this is the form the name *has* to take, so no harm in changing it).
-- 
2.43.0


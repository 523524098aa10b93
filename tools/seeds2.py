import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed

RBAC='''package rbac

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
	rbacv1 "k8s.io/api/rbac/v1"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

func roles(t *testing.T, src string) []interface{} {
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module m.test/m\\n\\ngo 1.22\\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "x.go"), []byte(src+"\\npackage m\\n"), 0o644)
	roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, ".")
	if err != nil {
		t.Fatal(err)
	}
	reg := &markers.Registry{}
	if err := reg.Register(RuleDefinition); err != nil {
		t.Fatal(err)
	}
	objs, err := GenerateRoles(&genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Roots: roots}, "r")
	if err != nil {
		t.Fatal(err)
	}
	return objs
}

func allowed(rules []rbacv1.PolicyRule, group, res, name, verb string) bool {
	has := func(l []string, x string) bool {
		for _, y := range l {
			if y == x {
				return true
			}
		}
		return false
	}
	for _, r := range rules {
		if has(r.APIGroups, group) && has(r.Resources, res) && has(r.Verbs, verb) && (len(r.ResourceNames) == 0 || has(r.ResourceNames, name)) {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
'''

mkseed("c01-merge-names","C01","two rules with the same resources and verbs for two groups, each limited to other resource names",
 "when rules of several groups are merged, the resource names of one of them are lost",
 [("pkg/rbac/parser.go",'''	return fmt.Sprintf("%s + %s + %s + %s", key.Resources, key.ResourceNames, key.URLs, verbs)''',
 '''	return fmt.Sprintf("%s + %s + %s", key.Resources, key.URLs, verbs)''')],"pkg/rbac",RBAC+'''
func TestDemo(t *testing.T) {
	objs := roles(t, "// +kubebuilder:rbac:groups=a,resources=r,resourceNames=x,verbs=get\\n// +kubebuilder:rbac:groups=b,resources=r,resourceNames=y,verbs=get\\n")
	rules := objs[0].(rbacv1.ClusterRole).Rules
	for _, g := range []string{"a", "b"} {
		for _, n := range []string{"x", "y"} {
			want := g == "a" && n == "x" || g == "b" && n == "y"
			if allowed(rules, g, "r", n, "get") != want {
				t.Errorf("%s/%s: want %v in %v", g, n, want, rules)
			}
		}
	}
}
''')

mkseed("c02-url-order","C02","two rules without resources for different URLs and verbs in one role",
 "the order of rules that differ only in their URLs depends on the iteration order of a map",
 [("pkg/rbac/parser.go",'''	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.Resources, key.ResourceNames, key.URLs)
''','''	return fmt.Sprintf("%s + %s + %s", key.Groups, key.Resources, key.ResourceNames)
''')],"pkg/rbac",RBAC+'''
func TestDemo(t *testing.T) {
	src := ""
	for i := 0; i < 6; i++ {
		src += fmt.Sprintf("// +kubebuilder:rbac:urls=/u%d,verbs=v%d\\n", i, i)
	}
	first := fmt.Sprint(roles(t, src))
	for i := 0; i < 12; i++ {
		if got := fmt.Sprint(roles(t, src)); got != first {
			t.Fatalf("%s\\n%s", first, got)
		}
	}
}
''')

mkseed("c06-unserved-single","C06","a kind of a single version that is not served",
 "a definition whose only version is not served is no longer reported as an error",
 [("pkg/crd/spec.go",'''	if !served {
''','''	if !served && len(crd.Spec.Versions) > 1 {
''')],"pkg/crd",'''package crd

import (
	"testing"

	"golang.org/x/tools/go/packages"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

func TestDemo(t *testing.T) {
	p := &Parser{}
	p.init()
	pkg := &loader.Package{Package: &packages.Package{PkgPath: "m.test/v1"}}
	p.packages[pkg] = struct{}{}
	p.GroupVersions[pkg] = schema.GroupVersion{Group: "g", Version: "v1"}
	id := TypeIdent{Package: pkg, Name: "Foo"}
	p.Types[id] = &markers.TypeInfo{Name: "Foo", Markers: markers.MarkerValues{"kubebuilder:unservedversion": {crdmarkers.UnservedVersion{}}}}
	p.Schemata[id] = apiext.JSONSchemaProps{Type: "object"}
	p.FlattenedSchemata[id] = apiext.JSONSchemaProps{Type: "object"}
	gk := schema.GroupKind{Group: "g", Kind: "Foo"}
	p.NeedCRDFor(gk, nil)
	if len(pkg.Errors) == 0 {
		t.Fatalf("no error: %+v", p.CustomResourceDefinitions[gk].Spec.Versions)
	}
}
''')

mkseed("c07-hoist-twice","C07","four allOf branches with different patterns, so that a conflict is hoisted twice at one level",
 "the branches of a first conflict are dropped when a second conflict is hoisted",
 [("pkg/crd/flatten.go",'''		dst.AllOf = append(dst.AllOf, dstRemainder, srcRemainder)''','''		dst.AllOf = []apiext.JSONSchemaProps{dstRemainder, srcRemainder}''')],"pkg/crd",'''package crd

import (
	"encoding/json"
	"strings"
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

type noErrs struct{ t *testing.T }

func (n noErrs) AddError(err error) { n.t.Error(err) }

func TestDemo(t *testing.T) {
	s := &apiext.JSONSchemaProps{AllOf: []apiext.JSONSchemaProps{{Pattern: "^a"}, {Pattern: "^b"}, {Pattern: "^c"}, {Pattern: "^d"}}}
	out, _ := json.Marshal(FlattenEmbedded(s, noErrs{t}))
	for _, want := range []string{"^a", "^b", "^c", "^d"} {
		if !strings.Contains(string(out), want) {
			t.Errorf("%s lost: %s", want, out)
		}
	}
}
''')

mkseed("c08-path-suffix","C08","a package whose import path ends with the path of a package it imports, both with a type of the same name",
 "a reference to a type of the imported package is resolved to the type of the importing package",
 [("pkg/crd/flatten.go",'''	if pkgName == "" {
		// a local reference''','''	if pkgName == "" || strings.HasSuffix(contextPkg.PkgPath, "/"+pkgName) {
		// a local reference''')],"pkg/crd",'''package crd

import (
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.MkdirAll(filepath.Join(dir, "x/net/url"), 0o755)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module m.test/m\\n\\ngo 1.22\\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "x/net/url/x.go"), []byte("package url\\n\\nimport \\"net/url\\"\\n\\ntype URL struct{ A url.URL }\\n"), 0o644)
	roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, "./x/net/url")
	if err != nil {
		t.Fatal(err)
	}
	id, err := identFromRef(TypeRefLink("net/url", "URL"), roots[0])
	if err != nil || id.Package == nil || id.Package.PkgPath != "net/url" {
		t.Fatal(id, err)
	}
}
''')

mkseed("c09-items-list","C09","a schema whose items are both a single schema and a list of schemas",
 "the list of item schemas is not visited when there is a single one too",
 [("pkg/crd/schema_visitor.go",'''		subWalker.walkPtr(schema.Items.Schema)
		subWalker.walkSlice(schema.Items.JSONSchemas)''','''		if schema.Items.Schema != nil {
			subWalker.walkPtr(schema.Items.Schema)
		} else {
			subWalker.walkSlice(schema.Items.JSONSchemas)
		}''')],"pkg/crd",'''package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

type clearDesc struct{}

func (c clearDesc) Visit(s *apiext.JSONSchemaProps) SchemaVisitor {
	if s != nil {
		s.Description = ""
	}
	return c
}

func TestDemo(t *testing.T) {
	s := &apiext.JSONSchemaProps{Items: &apiext.JSONSchemaPropsOrArray{
		Schema:      &apiext.JSONSchemaProps{Description: "a"},
		JSONSchemas: []apiext.JSONSchemaProps{{Description: "b"}},
	}}
	EditSchema(s, clearDesc{})
	if s.Items.Schema.Description != "" || s.Items.JSONSchemas[0].Description != "" {
		t.Fatal("not visited")
	}
}
''')

mkseed("c10-latin-only","C10","a description whose sentences end with a mark that is not Latin",
 "only full stops, exclamation and question marks count as ends of sentences",
 [("pkg/crd/desc_visitor.go",'''	return unicode.Is(unicode.STerm, r)''','''	return strings.ContainsRune(".!?", r)''')],"pkg/crd",'''package crd

import "testing"

func TestDemo(t *testing.T) {
	for in, want := range map[string]string{
		"\\u5b57\\u3002\\u5b57\\u5b57\\u5b57\\u5b57": "\\u5b57\\u3002",
		"One. Two three four":                       "One.",
	} {
		if got := truncateString(in, 12); got != want {
			t.Errorf("%q: %q", in, got)
		}
	}
}
''')

mkseed("c11-uint-format","C11","a field of type uint",
 "a uint gets the format int64, which the values of the type do not fit",
 [("pkg/crd/schema.go",'''	case types.Int64, types.Uint64:
		format = "int64"''','''	case types.Int64, types.Uint64, types.Uint:
		format = "int64"''')],"pkg/crd",'''package crd

import (
	"go/types"
	"testing"
)

func TestDemo(t *testing.T) {
	want := map[types.BasicKind]string{types.Int32: "int32", types.Uint32: "int32", types.Int64: "int64", types.Uint64: "int64"}
	for k := types.Int; k <= types.Uint64; k++ {
		typ, format, err := builtinToType(types.Typ[k], false)
		if err != nil || typ != "integer" || format != want[k] {
			t.Errorf("%v: %s %s %v", types.Typ[k], typ, format, err)
		}
	}
}
''')

package e2e

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"gopkg.in/yaml.v3"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
)

// c20Kinds: the kinds each version of the group declares.
var c20Kinds = map[string][]string{"v1": {"A", "B"}, "v2": {"A"}, "v3": {"A", "B"}}

func c20Module(t *vc.E2E) string {
	files := map[string]string{}
	for v, kinds := range c20Kinds {
		src := "// +groupName=g.test\n// +versionName=" + v + "\npackage " + v + "\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n"
		for _, k := range kinds {
			same := v
			if k == "B" {
				same = "same"
			}
			src += fmt.Sprintf("\n// %s is a kind of %s.\n// +kubebuilder:object:root=true\ntype %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\t// Spec is 'it'. It: # is.\n\tSpec %sSpec `json:\"spec\"`\n}\n\ntype %sSpec struct {\n\t// +kubebuilder:validation:MaxLength=7\n\tF%s string `json:\"f%s\"`\n\tL []int32 `json:\"l,omitempty\"`\n}\n", k, same, k, k, k, same, same)
		}
		files[v+"/x.go"] = src
	}
	return module(t, files)
}

// c20Schemas are the schemata that are generated for the kinds.
func c20Schemas(roots []*loader.Package, max *int) map[string]string {
	reg := &markers.Registry{}
	g := crd.Generator{}
	if err := g.RegisterMarkers(reg); err != nil {
		panic(err)
	}
	p := &crd.Parser{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{g.CheckFilter()}}}
	crd.AddKnownTypes(p)
	out := map[string]string{}
	for _, r := range roots {
		p.NeedPackage(r)
		for _, k := range c20Kinds[r.Name] {
			id := crd.TypeIdent{Package: r, Name: k}
			p.NeedFlattenedSchemaFor(id)
			full := p.FlattenedSchemata[id]
			s := *full.DeepCopy()
			s.Properties["metadata"] = apiext.JSONSchemaProps{Type: "object"}
			if max != nil {
				crd.TruncateDescription(&s, *max)
			}
			out[k+"/"+r.Name] = js(s)
		}
	}
	return out
}

func c20Child(n *yaml.Node, key string) *yaml.Node {
	if n == nil || n.Kind != yaml.MappingNode {
		return nil
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == key {
			return n.Content[i+1]
		}
	}
	return nil
}

// c20Keys are the keys of a mapping in order.
func c20Keys(n *yaml.Node) []string {
	var out []string
	for i := 0; i+1 < len(n.Content); i += 2 {
		out = append(out, n.Content[i].Value)
	}
	return out
}

// c20Same compares what two nodes say, with comments and the order of keys,
// except below the paths to skip.
func c20Same(a, b *yaml.Node, at string, skip func(path string) bool) string {
	if a.Kind != b.Kind || a.ShortTag() != b.ShortTag() || a.Value != b.Value {
		return at
	}
	for _, c := range [][2]string{{a.HeadComment, b.HeadComment}, {a.LineComment, b.LineComment}, {a.FootComment, b.FootComment}} {
		if c[0] != c[1] {
			return at + " comment"
		}
	}
	if a.Kind == yaml.MappingNode {
		keep := func(ks []string) (out []string) {
			for _, k := range ks {
				if !skip(at + "." + k) {
					out = append(out, k)
				}
			}
			return
		}
		if x, y := keep(c20Keys(a)), keep(c20Keys(b)); strings.Join(x, "|") != strings.Join(y, "|") {
			return fmt.Sprintf("%s: keys %v became %v", at, x, y)
		}
		for _, k := range keep(c20Keys(a)) {
			if d := c20Same(c20Child(a, k), c20Child(b, k), at+"."+k, skip); d != "" {
				return d
			}
		}
		return ""
	}
	if len(a.Content) != len(b.Content) {
		return at + " length"
	}
	for i := range a.Content {
		if d := c20Same(a.Content[i], b.Content[i], at+"["+itoa(i)+"]", skip); d != "" {
			return d
		}
	}
	return ""
}

func c20Node(text string) *yaml.Node {
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(text), &n); err != nil {
		panic(err.Error() + "\n" + text)
	}
	return n.Content[0]
}

func E2E_C20_patch(t *vc.E2E) {
	t.Rule = "random manifests (versions with and without Go types, in any order, with old schemata, comments, legacy validation, several files of one kind, malformed version entries) patched with the schemata of three Go packages"
	dir := c20Module(t)
	defer rmModule(t, dir)
	var roots []*loader.Package
	for i := 0; i < t.N(2000, 30000) && t.More(); i++ {
		t.Reseed(i)
		if i%60 == 0 {
			var err error
			if roots, err = loadMod(dir, "m.test/m/v1", "m.test/m/v2", "m.test/m/v3"); err != nil {
				panic(err)
			}
		}
		var max *int
		if t.Intn(3) == 0 {
			n := t.Intn(20)
			max = &n
		}
		c20Patch(t, roots, max)
	}
}

func c20Patch(t *vc.E2E, roots []*loader.Package, max *int) {
	schemas := c20Schemas(roots, max)
	man := filepath.Join(t.Work, "manifests")
	_ = os.RemoveAll(man)
	if err := os.MkdirAll(man, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(man)
	texts := map[string]string{}
	kinds := map[string]string{}
	versions := map[string][]string{} // of a file
	malformed := ""
	malKind := ""
	wanted := map[string]bool{} // kind/version with a schema
	in := fmt.Sprintf("max description %v", max)
	if max != nil {
		in = fmt.Sprintf("max description %d", *max)
	}
	nf := 1 + t.Intn(3)
	for f := 0; f < nf; f++ {
		name := fmt.Sprintf("f%d.yaml", f)
		kind := t.Pick("A", "A", "B", "C")
		txt := ""
		if t.Intn(3) == 0 {
			txt += "# about this file\n"
		}
		txt += "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nmetadata:\n  name: x.g.test # the name\n  annotations:\n    b: \"1\"\n    a: \"yes\"\nspec:\n  scope: Namespaced\n  group: g.test\n"
		legacy := t.Intn(3)
		if legacy == 1 {
			txt += "  validation:\n    openAPIV3Schema:\n      type: object\n"
		}
		txt += "  names:\n    kind: " + kind + "\n    plural: xs\n"
		txt += "  versions:\n"
		seen := map[string]bool{}
		for n := 1 + t.Intn(4); n > 0; n-- {
			v := t.Pick("v1", "v2", "v3", "v4", "v1beta1")
			if seen[v] {
				continue
			}
			seen[v] = true
			versions[name] = append(versions[name], v)
			// the name may come last
			var parts []string
			bad := 0
			if t.Intn(40) == 0 {
				bad = 1 + t.Intn(4)
				malKind = kind
			}
			switch bad {
			case 0:
				parts = append(parts, "name: "+v)
			case 1:
				malformed += "no name; "
			case 2:
				malformed += "name is empty; "
				parts = append(parts, "name: \"\"")
			case 3:
				malformed += "name is a list; "
				parts = append(parts, "name: [a]")
			case 4:
				malformed += "name is a number; "
				parts = append(parts, "name: 1")
			}
			parts = append(parts, "served: true", "storage: false")
			switch t.Intn(5) {
			case 0:
				parts = append(parts, "schema:\n        openAPIV3Schema:\n          description: old\n          type: object\n          maxProperties: 3")
			case 1:
				parts = append(parts, "schema: {}")
			case 2:
				parts = append(parts, "schema:\n        # this comment and key stay\n        x: 1\n        openAPIV3Schema: {type: string}")
			}
			if t.Intn(2) == 0 {
				parts = append(parts, "subresources:\n        status: {}")
			}
			for j := range parts {
				k := t.Intn(len(parts))
				parts[j], parts[k] = parts[k], parts[j]
			}
			txt += "    - " + strings.Join(parts, "\n      ") + "\n"
		}
		txt += "  conversion: {strategy: None}\n"
		if legacy == 2 {
			txt += "  validation: {}\n"
		}
		if t.Intn(2) == 0 {
			txt += "status:\n  storedVersions: []\n"
		}
		texts[name], kinds[name] = txt, kind
		if err := os.WriteFile(filepath.Join(man, name), []byte(txt), 0o644); err != nil {
			panic(err)
		}
		in += "\n--- " + name + "\n" + txt
	}
	// versions of a kind in any of its files are patched
	for f, k := range kinds {
		for _, v := range versions[f] {
			if _, ok := schemas[k+"/"+v]; ok {
				wanted[k] = true
			}
		}
	}
	t.Case(in)
	t.Try("panic", in, func() {
		g := schemapatcher.Generator{ManifestsPath: man, MaxDescLen: max}
		out, err := runGen(g, roots)
		if malformed != "" {
			// a manifest that is no CRD at all is left alone; otherwise it is an
			// error as soon as the kind is patched
			_ = malKind
			if err == nil && malformed == "no name; " && c20Patched(kinds, texts, malKind) {
				t.Fail("malformed accepted", "%s\n%s", malformed, in)
			}
			return
		}
		if err != nil {
			t.Fail("refused", "%v\n%s", err, in)
			return
		}
		for f, txt := range texts {
			if out.files[f] == nil {
				t.Fail("file lost", "%s\n%s", f, in)
				continue
			}
			if out.opens[f] != 1 {
				t.Fail("file written again", "%s %d times\n%s", f, out.opens[f], in)
			}
			a, b := c20Node(txt), c20Node(out.files[f].String())
			patched := false
			skip := func(p string) bool {
				return patched && (p == ".spec.validation" || strings.HasPrefix(p, ".spec.versions[") && (strings.HasSuffix(p, "].schema")))
			}
			patched = wanted[kinds[f]]
			if d := c20Same(a, b, "", skip); d != "" {
				t.Fail("other changes", "at %s\n%s\noutput\n%s", d, in, out.files[f].String())
				continue
			}
			if !patched {
				continue
			}
			if c20Child(c20Child(b, "spec"), "validation") != nil {
				t.Fail("legacy schema", "%s\noutput\n%s", in, out.files[f].String())
			}
			va, vb := c20Child(c20Child(a, "spec"), "versions").Content, c20Child(c20Child(b, "spec"), "versions").Content
			for i := range vb {
				ver := c20Child(vb[i], "name").Value
				old, now := c20Child(va[i], "schema"), c20Child(vb[i], "schema")
				want, has := schemas[kinds[f]+"/"+ver]
				if !has {
					if now != nil {
						t.Fail("schema without type", "%s version %s\n%s\noutput\n%s", f, ver, in, out.files[f].String())
					}
					continue
				}
				s := c20Child(now, "openAPIV3Schema")
				if s == nil || c20JSON(s) != c20JSON(c20Node(want)) {
					t.Fail("schema", "%s version %s\nwant %s\n%s\noutput\n%s", f, ver, want, in, out.files[f].String())
					continue
				}
				if old != nil && old.Kind == yaml.MappingNode {
					if d := c20Same(old, now, "", func(p string) bool { return p == ".openAPIV3Schema" }); d != "" {
						t.Fail("schema neighbours", "%s version %s at %s\n%s", f, ver, d, in)
					}
				}
			}
		}
	})
}

// c20Patched: some version of the kind with a Go type remains named.
func c20Patched(kinds, texts map[string]string, kind string) bool {
	for f, k := range kinds {
		if k != kind {
			continue
		}
		for v, ks := range c20Kinds {
			for _, k := range ks {
				if k == kind && strings.Contains(texts[f], "name: "+v+"\n") {
					return true
				}
			}
		}
	}
	return false
}

func c20JSON(n *yaml.Node) string {
	var v any
	if err := n.Decode(&v); err != nil {
		panic(err)
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

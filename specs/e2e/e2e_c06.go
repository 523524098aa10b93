package e2e

import (
	"fmt"
	"sort"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/yaml"
)

// c06Ver is one package version that declares the kind.
type c06Ver struct {
	name                             string
	resource                         bool
	storage, unserved, skip, status  bool
	column, deprecated, desc, inRoot bool
}

func (v c06Ver) String() string {
	s := v.name
	for _, f := range []struct {
		on bool
		n  string
	}{{v.resource, "resource"}, {v.storage, "storageversion"}, {v.unserved, "unservedversion"}, {v.skip, "skipversion"}, {v.status, "subresource:status"}, {v.column, "printcolumn"}, {v.deprecated, "deprecatedversion"}} {
		if f.on {
			s += "+" + f.n
		}
	}
	return s
}

func E2E_C06_assemble(t *vc.E2E) {
	t.Rule = "scratch modules with one to four package versions of a group, one or two kinds and random CRD markers on each version; every module generated several times"
	for i := 0; i < t.N(40, 500) && t.More(); i++ {
		t.Reseed(i)
		group := t.Pick("g.test", "apps.example.com", "x")
		names := []string{"v1", "v1alpha1", "v1beta1", "v2", "v10", "v3"}
		n := 1 + t.Intn(4)
		perm := t.Perm(len(names))[:n]
		kind := t.Pick("Widget", "Policy", "Box", "Sheep")
		plural := map[string]string{"Widget": "widgets", "Policy": "policies", "Box": "boxes", "Sheep": "sheep"}[kind]
		single := strings.ToLower(kind)
		wantScope := "Namespaced"
		resMarker := ""
		if t.Intn(2) == 0 {
			args := []string{}
			if t.Intn(2) == 0 {
				plural = t.Pick("things", "wdg", "policys")
				args = append(args, "path="+plural)
			}
			if t.Intn(3) == 0 {
				single = "one"
				args = append(args, "singular=one")
			}
			if t.Intn(2) == 0 {
				wantScope = "Cluster"
				args = append(args, "scope=Cluster")
			}
			args = append(args, "shortName=w;wd")
			resMarker = "// +kubebuilder:resource:" + strings.Join(args, ",") + "\n"
		}
		files := map[string]string{}
		var vers []c06Ver
		var pats []string
		resAt := t.Intn(n)
		for k, pi := range perm {
			v := c06Ver{name: names[pi]}
			v.resource = resMarker != "" && (k == resAt || t.Intn(3) == 0)
			v.storage = t.Intn(3) == 0
			v.unserved = t.Intn(3) == 0
			v.skip = t.Intn(4) == 0
			v.status = t.Intn(2) == 0
			v.column = t.Intn(2) == 0
			v.deprecated = t.Intn(4) == 0
			vers = append(vers, v)
			dirName, header := v.name, ""
			if t.Intn(4) == 0 {
				dirName = "pkg" + itoa(k)
				header = "// +versionName=" + v.name + "\n"
			}
			m := []string{"// +kubebuilder:object:root=true\n"}
			if v.resource {
				m = append(m, resMarker)
			}
			if v.storage {
				m = append(m, "// +kubebuilder:storageversion\n")
			}
			if v.unserved {
				m = append(m, "// +kubebuilder:unservedversion\n")
			}
			if v.skip {
				m = append(m, "// +kubebuilder:skipversion\n")
			}
			if v.status {
				m = append(m, "// +kubebuilder:subresource:status\n")
			}
			if v.column {
				m = append(m, "// +kubebuilder:printcolumn:name=Col"+v.name+",type=string,JSONPath=`.spec.x`\n")
			}
			if v.deprecated {
				m = append(m, "// +kubebuilder:deprecatedversion:warning=\"gone "+v.name+"\"\n")
			}
			t.Shuffle(len(m), func(a, b int) { m[a], m[b] = m[b], m[a] })
			body := "// +groupName=" + group + "\n" + header + "package " + dirName + "\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n" +
				strings.Join(m, "") + "// " + kind + " is " + v.name + " of it.\ntype " + kind + " struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec" +
				strings.ToUpper(v.name[:1]) + v.name[1:] + " string `json:\"spec" + v.name + "\"`\n}\n"
			if t.Intn(3) == 0 {
				// another kind in the same package must not interfere
				body += "\n// +kubebuilder:object:root=true\n// +kubebuilder:storageversion\n// +kubebuilder:resource:path=others" + itoa(k) + ",scope=Cluster\ntype Other" + itoa(k) + " struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tO int `json:\"o\"`\n}\n"
			}
			files[dirName+"/x.go"] = body
			pats = append(pats, "./"+dirName)
		}
		// a version of the same group without the kind, and one of another group with it
		if t.Intn(3) == 0 {
			files["v5/x.go"] = "// +groupName=" + group + "\npackage v5\n\ntype Unrelated struct{ A int `json:\"a\"` }\n"
			pats = append(pats, "./v5")
		}
		in := fmt.Sprintf("group %s, kind %s, resource %q, versions %v", group, kind, strings.TrimSpace(resMarker), vers)
		t.Case(in)
		dir := module(t, files)
		for rep := 0; rep < 3; rep++ {
			t.Try("panic", in, func() { c06Run(t, in, dir, pats, group, kind, plural, single, wantScope, vers) })
		}
		rmModule(t, dir)
	}
}

func c06Run(t *vc.E2E, in, dir string, pats []string, group, kind, plural, single, wantScope string, vers []c06Ver) {
	roots, err := loadMod(dir, pats...)
	if err != nil {
		t.Fail("load", "%s\n%v", in, err)
		return
	}
	out, err := runGen(crd.Generator{}, roots)
	if err != nil {
		t.Fail("generate", "%s\n%v", in, err)
		return
	}
	errs := strings.Join(pkgErrs(roots), "\n")
	var kept []c06Ver
	for _, v := range vers {
		if !v.skip {
			kept = append(kept, v)
		}
	}
	sort.Slice(kept, func(a, b int) bool { return kept[a].name < kept[b].name })
	var crds []apiext.CustomResourceDefinition
	for name, b := range out.files {
		for _, d := range yamlDocs(b.String()) {
			var c apiext.CustomResourceDefinition
			if err := yaml.UnmarshalStrict([]byte(d), &c); err != nil {
				t.Fail("yaml", "%s\n%s: %v", in, name, err)
				return
			}
			if name != c.Spec.Group+"_"+c.Spec.Names.Plural+".yaml" || c.Spec.Names.Plural == "" || c.Name == "" {
				t.Fail("file name", "%s\n%s holds %s %s", in, name, c.Name, c.Spec.Names.Plural)
			}
			if strings.HasPrefix(c.Spec.Names.Kind, "Other") {
				if c.Name != c.Spec.Names.Plural+"."+group || len(c.Spec.Versions) != 1 || !c.Spec.Versions[0].Storage || string(c.Spec.Scope) != "Cluster" {
					t.Fail("other kind", "%s\n%s", in, d)
				}
				continue
			}
			crds = append(crds, c)
		}
	}
	if len(kept) == 0 {
		if len(crds) != 0 {
			t.Fail("no version left", "%s\ngenerated %v", in, crds)
		}
		if errs != "" {
			t.Fail("errors for skipped versions", "%s\n%s", in, errs)
		}
		return
	}
	if len(crds) != 1 {
		t.Fail("count", "%s\n%d definitions generated", in, len(crds))
		return
	}
	c := crds[0]
	bad := func(what string, got, want interface{}) {
		t.Fail(what, "%s\n%s is %v, want %v", in, what, got, want)
	}
	if c.Name != plural+"."+group {
		bad("name", c.Name, plural+"."+group)
	}
	if c.APIVersion != "apiextensions.k8s.io/v1" || c.Kind != "CustomResourceDefinition" {
		bad("type", c.TypeMeta, "v1 CustomResourceDefinition")
	}
	nm := c.Spec.Names
	if c.Spec.Group != group || nm.Kind != kind || nm.ListKind != kind+"List" || nm.Plural != plural || nm.Singular != single {
		bad("names", fmt.Sprint(c.Spec.Group, nm), fmt.Sprint(group, kind, plural, single))
	}
	if string(c.Spec.Scope) != wantScope {
		bad("scope", c.Spec.Scope, wantScope)
	}
	if len(c.Spec.Versions) != len(kept) {
		bad("versions", len(c.Spec.Versions), kept)
		return
	}
	stored, served := false, false
	for i, v := range kept {
		g := c.Spec.Versions[i]
		if g.Name != v.name {
			bad("version order", g.Name, v.name)
			return
		}
		wantStored := v.storage || len(kept) == 1
		if g.Storage != wantStored || g.Served == v.unserved || g.Deprecated != v.deprecated {
			bad("version flags", fmt.Sprint(g.Name, g.Storage, g.Served, g.Deprecated), v)
		}
		stored = stored || wantStored
		served = served || !v.unserved
		hasStatus := g.Subresources != nil && g.Subresources.Status != nil
		if hasStatus != v.status {
			bad("status of "+v.name, hasStatus, v.status)
		}
		if (len(g.AdditionalPrinterColumns) == 1) != v.column || v.column && g.AdditionalPrinterColumns[0].Name != "Col"+v.name {
			bad("columns of version", g.AdditionalPrinterColumns, v)
		}
		s := g.Schema.OpenAPIV3Schema
		if s.Description != kind+" is "+v.name+" of it." {
			bad("schema of version", s.Description, v)
		}
		if _, ok := s.Properties["spec"+v.name]; !ok || len(s.Properties) != 4 {
			bad("schema properties of version", js(*s), v)
		}
	}
	if strings.Contains(errs, "no storage version") == stored {
		bad("storage error", errs, fmt.Sprintf("stored=%v", stored))
	}
	if strings.Contains(errs, "does not serve any version") == served {
		bad("served error", errs, fmt.Sprintf("served=%v", served))
	}
	if stored && served && errs != "" {
		bad("errors", errs, "none")
	}
}

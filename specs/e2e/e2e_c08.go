package e2e

import (
	"fmt"
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

func E2E_C08_links(t *vc.E2E) {
	t.Rule = "random import paths of up to 80 elements over the characters Go allows (and the escape sequences themselves), random type names"
	links := map[string]string{}
	for i := 0; i < t.N(20000, 400000) && t.More(); i++ {
		t.Reseed(i)
		pkg := ""
		n := t.Intn(9)
		if t.Intn(8) == 0 {
			n = t.Intn(80)
		}
		for j := n; j > 0; j-- {
			pkg += t.Pick("~", "~0", "~1", "/", "a", "b", ".", "-", "_", "+", "0", "1", "git.sr.ht/~u", "#", "definitions", "é")
		}
		typ := t.Pick("T", "Foo", "A1", "Ünï", "T_0", "T1", "G[x.y/z.T]")
		key := pkg + " " + typ
		t.Case(key)
		t.Try("panic", key, func() {
			l := crd.TypeRefLink(pkg, typ)
			gt, gp, err := crd.RefParts(l)
			if err != nil || gt != typ || gp != pkg {
				t.Fail("round trip", "type %q of package %q: link %q decodes to type %q of package %q, error %v", typ, pkg, l, gt, gp, err)
			}
			if o, ok := links[l]; ok && o != key {
				t.Fail("clash", "%q and %q have the same link %q", o, key, l)
			}
			links[l] = key
			for _, bad := range []string{pkg + l, "#/definition/" + typ, strings.ToUpper(l), "", "#" + l} {
				if strings.HasPrefix(bad, "#/definitions/") {
					continue
				}
				if _, _, err := crd.RefParts(bad); err == nil {
					t.Fail("reject", "%q is accepted as a link", bad)
				}
			}
		})
	}
}

func E2E_C08_packages(t *vc.E2E) {
	t.Rule = "a module whose packages have unusual import paths and all declare a type T; a root type refers to each of them"
	dirs := []string{"~u/a", "x~0y", "x~1y", "a-b", "a_b", "a.b/c", "a+b", "p/q", "p~q", "deep/~/~z/x", "l/o/n/g/p/a/t/h/~/w/i/t/h/m/a/n/y/e/l/e/m/e/n/t/s"}
	files := map[string]string{}
	var imp, use string
	for i, d := range dirs {
		files[d+"/t.go"] = fmt.Sprintf("package pk%d\n\ntype T struct {\n\tF%d Inner `json:\"f%d\"`\n}\n\ntype Inner struct {\n\tG%d string `json:\"g%d\"`\n}\n", i, i, i, i, i)
		imp += fmt.Sprintf("import pk%d \"m.test/m/%s\"\n", i, d)
		use += fmt.Sprintf("\tA%d pk%d.T `json:\"a%d\"`\n", i, i, i)
	}
	files["root/r.go"] = "package root\n\n" + imp + "\ntype Root struct {\n" + use + "\tL T `json:\"l\"`\n}\n\ntype T struct {\n\tLocal string `json:\"local\"`\n}\n"
	dir := module(t, files)
	roots, err := loadMod(dir, "m.test/m/root")
	if err != nil || len(roots) != 1 {
		t.Fail("load", "%v", err)
		return
	}
	t.Case(files["root/r.go"])
	t.Try("panic", files["root/r.go"], func() {
		reg := &markers.Registry{}
		g := crd.Generator{}
		if err := g.RegisterMarkers(reg); err != nil {
			t.Fail("register", "%v", err)
			return
		}
		p := &crd.Parser{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{g.CheckFilter()}}}
		p.NeedPackage(roots[0])
		id := crd.TypeIdent{Package: roots[0], Name: "Root"}
		p.NeedFlattenedSchemaFor(id)
		s := p.FlattenedSchemata[id]
		for i := range dirs {
			a := s.Properties[fmt.Sprintf("a%d", i)]
			f, ok := a.Properties[fmt.Sprintf("f%d", i)]
			if _, ok2 := f.Properties[fmt.Sprintf("g%d", i)]; !ok || !ok2 {
				t.Fail("resolve", "the field of type T of %q has schema %s", dirs[i], js(a))
			}
		}
		if _, ok := s.Properties["l"].Properties["local"]; !ok {
			t.Fail("local", "the field of the local type T has schema %s", js(s.Properties["l"]))
		}
		if e := pkgErrs(roots); len(e) > 0 {
			t.Fail("errors", "%v", e)
		}
	})
}

func E2E_C08_suffix(t *vc.E2E) {
	t.Rule = "packages whose import path ends with the path of a package they import, and that declare a type of the same name"
	for _, c := range [][2]string{{"image", "Point"}, {"net/url", "URL"}, {"text/template/parse", "Tree"}, {"time", "Location"}} {
		base := c[0][strings.LastIndex(c[0], "/")+1:]
		src := fmt.Sprintf("package %s\n\nimport ext %q\n\ntype Root struct {\n\tP ext.%s `json:\"p\"`\n\tL %s `json:\"l\"`\n}\n\ntype %s struct {\n\tLocal string `json:\"local\"`\n}\n", base, c[0], c[1], c[1], c[1])
		dir := module(t, map[string]string{"deep/" + c[0] + "/r.go": src})
		t.Case(src)
		t.Try("panic", src, func() {
			roots, err := loadMod(dir, "m.test/m/deep/"+c[0])
			if err != nil || len(roots) != 1 {
				t.Fail("load", "%v", err)
				return
			}
			reg := &markers.Registry{}
			g := crd.Generator{}
			if err := g.RegisterMarkers(reg); err != nil {
				t.Fail("register", "%v", err)
				return
			}
			p := &crd.Parser{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{g.CheckFilter()}}}
			p.NeedPackage(roots[0])
			id := crd.TypeIdent{Package: roots[0], Name: "Root"}
			p.NeedFlattenedSchemaFor(id)
			s := p.FlattenedSchemata[id]
			if _, ok := s.Properties["l"].Properties["local"]; !ok {
				t.Fail("local", "%s\nthe field of the local type has schema %s", src, js(s.Properties["l"]))
			}
			if _, ok := s.Properties["p"].Properties["local"]; ok {
				t.Fail("suffix", "%s\nthe field of the imported type has schema %s", src, js(s.Properties["p"]))
			}
		})
		rmModule(t, dir)
	}
}

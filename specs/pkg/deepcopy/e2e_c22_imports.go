package deepcopy

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

// names of path elements, harmless and awkward ones
var c22Parts = []string{
	"api", "v1", "v1alpha1", "meta", "runtime", "core", "apps", "k8s.io", "github.com", "x", "go", "type", "func", "map", "string", "error", "nil", "len", "in", "out",
	"1", "123", "2fa", "9p", "_", "__", "-", ".", "a.b", "a-b", "a_b", "foo-go", "go-", "init", "main", "range", "import", "default", "true", "key", "val", "i", "é", "日本", "٣x", "~u", "é", "v2", "gopkg.in", "yaml.v3", "p", "own", "Kind",
}

// E2E_C22_aliases requests aliases for random sequences of import paths.
func E2E_C22_aliases(t *vc.E2E) {
	n := t.N(3000, 60000)
	for k := 0; k < n && t.More(); k++ {
		t.Reseed(k)
		tp := types.NewPackage("m.test/own", "own")
		// what the package declares itself
		declared := []string{}
		for i := t.Intn(3); i > 0; i-- {
			name := c22Parts[t.Intn(len(c22Parts))]
			if token.IsIdentifier(name) && name != "_" {
				declared = append(declared, name)
				tp.Scope().Insert(types.NewTypeName(token.NoPos, tp, name, types.Typ[types.Int]))
			}
		}
		pkg := &loader.Package{Package: &packages.Package{Name: "own", PkgPath: "m.test/own", Types: tp}}
		l := &importsList{byPath: map[string]string{}, byAlias: map[string]string{"own": ""}, pkg: pkg}
		var asked []string
		got := map[string]string{}
		for i := 1 + t.Intn(12); i > 0; i-- {
			var parts []string
			for j := 1 + t.Intn(4); j > 0; j-- {
				parts = append(parts, c22Parts[t.Intn(len(c22Parts))])
			}
			p := strings.Join(parts, "/")
			full := p
			if t.Intn(6) == 0 {
				full = "m.test/own/vendor/" + p
			}
			if len(asked) > 0 && t.Intn(4) == 0 {
				full = asked[t.Intn(len(asked))]
				p = full[strings.LastIndex("/"+full, "/vendor/")+1:]
				if i := strings.LastIndex(full, "/vendor/"); i >= 0 {
					p = full[i+len("/vendor/"):]
				} else {
					p = full
				}
			}
			asked = append(asked, full)
			alias := ""
			t.Try("panics", asked, func() { alias = l.NeedImport(full) })
			t.Case(fmt.Sprint(asked))
			switch {
			case !token.IsIdentifier(alias) || alias == "_" || alias == "init":
				t.Fail("alias is no identifier", "imports %q: alias %q of %q is not a usable identifier", asked, alias, full)
			case alias == "own":
				t.Fail("alias is the package name", "imports %q: alias %q of %q", asked, alias, full)
			case types.Universe.Lookup(alias) != nil:
				t.Fail("alias hides a predeclared name", "imports %q: alias %q of %q", asked, alias, full)
			case tp.Scope().Lookup(alias) != nil:
				t.Fail("alias is declared in the package", "package declares %q, imports %q: alias %q of %q", declared, asked, alias, full)
			case alias == "in" || alias == "out" || alias == "key" || alias == "val" || alias == "i" || alias == "inVal" || alias == "outVal":
				t.Fail("alias is hidden by a local variable", "imports %q: alias %q of %q", asked, alias, full)
			}
			if a, ok := got[p]; ok && a != alias {
				t.Fail("a path changes its alias", "imports %q: %q is %q and then %q", asked, p, a, alias)
			}
			for q, a := range got {
				if q != p && a == alias {
					t.Fail("two paths share an alias", "imports %q: %q and %q are both %q", asked, p, q, alias)
				}
			}
			got[p] = alias
		}
	}
}

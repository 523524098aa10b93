package e2e

import (
	"fmt"
	"sort"
	"strings"

	rbacv1 "k8s.io/api/rbac/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/yaml"
)

type c01Rule struct {
	groups, res, names, verbs, urls []string
	ns                              string
}

func (r c01Rule) text(t *vc.E2E) string {
	var parts []string
	list := func(k string, v []string) {
		if v == nil {
			return
		}
		q := make([]string, len(v))
		curly := len(v) == 0 || t.Intn(3) == 0
		for i, s := range v {
			q[i] = s
			if s == "" || strings.ContainsAny(s, "*&+ ;,/") || t.Intn(4) == 0 {
				q[i] = mq(s)
			}
		}
		if curly {
			parts = append(parts, k+"={"+strings.Join(q, ",")+"}")
		} else {
			parts = append(parts, k+"="+strings.Join(q, ";"))
		}
	}
	list("groups", r.groups)
	list("resources", r.res)
	list("resourceNames", r.names)
	list("verbs", r.verbs)
	list("urls", r.urls)
	if r.ns != "" {
		parts = append(parts, "namespace="+r.ns)
	}
	t.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return "// +kubebuilder:rbac:" + strings.Join(parts, ",")
}

// c01Pick picks some of the values, with repetitions.
func c01Pick(t *vc.E2E, min, max int, vals ...string) []string {
	out := []string{}
	for n := min + t.Intn(max-min+1); n > 0; n-- {
		out = append(out, t.Pick(vals...))
	}
	return out
}

// c01Universe is the alphabet of one module; small ones make rules overlap.
type c01Universe struct{ groups, res, names, verbs, urls, ns []string }

var c01Universes = []c01Universe{
	{[]string{"g1", "g2"}, []string{"r"}, nil, []string{"get", "list"}, nil, []string{""}},
	{[]string{"core", "", "apps"}, []string{"pods", "jobs"}, []string{"a"}, []string{"get", "*"}, nil, []string{""}},
	{[]string{"g1", "g2"}, []string{"r", "s"}, []string{"a", "b"}, []string{"get", "list"}, []string{"/u", "/v"}, []string{"", "n"}},
	{nil, nil, nil, []string{"get", "post", "*"}, []string{"/u", "/v", "/w"}, []string{"", "n"}},
	{[]string{"core", "g1", ""}, []string{"r", "r/status", "*"}, []string{"a", "b", "a&b", "", "a b", "a + b"}, []string{"get", "list", "*"}, []string{"/u", "/u&/v", "/v", "*"}, []string{"", "n", "m"}},
	{[]string{"g1", "g2", "g3", "*"}, []string{"r", "s", "q"}, nil, []string{"get", "list", "watch"}, nil, []string{"", "n"}},
	{[]string{""}, []string{"r", ""}, []string{"", "\\", "\\&", "&", "a&", "&a", " + ", "\\ + "}, []string{"get", "list"}, []string{"", "/u", " "}, []string{""}},
}

func (u c01Universe) rule(t *vc.E2E) c01Rule {
	r := c01Rule{verbs: c01Pick(t, 1, 2, u.verbs...), ns: t.Pick(u.ns...)}
	url := len(u.urls) > 0 && (len(u.res) == 0 || t.Intn(4) == 0)
	if url {
		r.urls = c01Pick(t, 1, 2, u.urls...)
	}
	if !url || len(u.res) > 0 && t.Intn(4) == 0 {
		r.groups = c01Pick(t, 1, 2, u.groups...)
		r.res = c01Pick(t, 1, 3, u.res...)
		if len(u.names) > 0 && t.Intn(2) == 0 {
			r.names = c01Pick(t, 1, 2, u.names...)
		}
	}
	if t.Intn(12) == 0 && len(u.groups) > 0 {
		// a marker that allows nothing, or only its URLs
		r.res = nil
		if t.Intn(2) == 0 {
			r.groups = c01Pick(t, 0, 2, u.groups...)
		}
	}
	return r
}

type c01Perm struct{ ns, group, res, name, verb, url string }

func c01Has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// c01Asked are the permissions markers ask for. The name "\x00" stands for
// any object and the verb "\x00" for any verb.
func c01Asked(into map[c01Perm]bool, ns string, groups, res, names, verbs, urls []string) {
	if len(names) == 0 {
		names = []string{"\x00"}
	}
	for _, v := range verbs {
		if v == "*" {
			v = "\x00"
		}
		for _, g := range groups {
			for _, r := range res {
				for _, n := range names {
					into[c01Perm{ns: ns, group: g, res: r, name: n, verb: v}] = true
				}
			}
		}
		for _, u := range urls {
			into[c01Perm{ns: ns, verb: v, url: "u" + u}] = true
		}
	}
}

// c01Missing lists what of the one set the other does not cover.
func c01Missing(s, in map[c01Perm]bool) string {
	var out []string
	for p := range s {
		covered := false
		for _, n := range []string{p.name, "\x00"} {
			for _, v := range []string{p.verb, "\x00"} {
				q := p
				if p.url == "" {
					q.name = n
				}
				q.verb = v
				covered = covered || in[q]
			}
		}
		if !covered {
			out = append(out, fmt.Sprintf("%+q", p))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// c01Roles reads a manifest.
func c01Roles(text string) ([]rbacv1.Role, error) {
	var out []rbacv1.Role
	for _, d := range yamlDocs(text) {
		var r rbacv1.Role
		if err := yaml.UnmarshalStrict([]byte(d), &r); err != nil {
			return nil, err
		}
		out = append(out, r)
	}
	return out, nil
}

func c01Run(t *vc.E2E, what string, f func(in string, rules []c01Rule, text string, roots []*loader.Package)) {
	const perMod = 24
	n := t.N(6000, 120000)
	for i := 0; i < n && t.More(); {
		t.Reseed(i)
		u := c01Universes[t.Intn(len(c01Universes))]
		files := map[string]string{}
		rules := make([][]c01Rule, perMod)
		var pats, texts []string
		for p := 0; p < perMod; p++ {
			var marks []string
			for k := 1 + t.Intn(2); k > 0; k-- {
				r := u.rule(t)
				rules[p] = append(rules[p], r)
				marks = append(marks, r.text(t))
			}
			files[fmt.Sprintf("p%d/x.go", p)] = strings.Join(marks, "\n") + fmt.Sprintf("\n\npackage p%d\n", p)
			pats = append(pats, fmt.Sprintf("m.test/m/p%d", p))
			texts = append(texts, strings.Join(marks, "\n"))
		}
		dir := module(t, files)
		for k := 0; k < 200 && i < n && t.More(); k++ {
			i++
			pick := t.Perm(perMod)[:1+t.Intn(6)]
			var all []c01Rule
			var in []string
			for _, p := range pick {
				all = append(all, rules[p]...)
				in = append(in, texts[p])
			}
			roots := c01Loaded(dir, pats, pick)
			text := strings.Join(in, "\n\n")
			t.Case(text)
			t.Try("panic", text, func() {
				out, err := runGen(rbac.Generator{RoleName: "ro"}, roots)
				if errs := pkgErrs(roots); err != nil || len(errs) > 0 {
					t.Fail("refused", "%v %v\n%s", err, errs, text)
					return
				}
				got := ""
				if b := out.files["role.yaml"]; b != nil {
					got = b.String()
				}
				f(text, all, got, roots)
			})
		}
		rmModule(t, dir)
	}
}

var c01Dir string
var c01Roots []*loader.Package

func c01Loaded(dir string, pats []string, pick []int) []*loader.Package {
	if dir != c01Dir {
		roots, err := loadMod(dir, pats...)
		if err != nil {
			panic(err)
		}
		c01Dir, c01Roots = dir, roots
	}
	byPath := map[string]*loader.Package{}
	for _, r := range c01Roots {
		byPath[r.PkgPath] = r
	}
	var out []*loader.Package
	for _, p := range pick {
		out = append(out, byPath[pats[p]])
	}
	return out
}

package e2e

import (
	"fmt"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/rbac"
)

func c01Sorted(l []string) bool {
	for i := 1; i < len(l); i++ {
		if l[i-1] >= l[i] {
			return false
		}
	}
	return true
}

func E2E_C02_canonical(t *vc.E2E) {
	t.Rule = "random sets of rbac markers; the manifest is the same for every order and repetition of the packages and markers, and is in normal form"
	c01Run(t, "canonical", func(in string, rules []c01Rule, text string, roots []*loader.Package) {
		for k := 0; k < 3; k++ {
			other := append([]*loader.Package{}, roots...)
			if k > 0 {
				other = append(other, roots[t.Intn(len(roots))])
				t.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
			}
			out, err := runGen(rbac.Generator{RoleName: "ro"}, other)
			again := ""
			if b := out.files["role.yaml"]; b != nil {
				again = b.String()
			}
			if err != nil || again != text {
				t.Fail("not the same again", "%v\nmarkers\n%s\nfirst\n%s\nagain\n%s", err, in, text, again)
				return
			}
		}
		roles, err := c01Roles(text)
		if err != nil {
			t.Fail("not a role", "%v\n%s\n%s", err, in, text)
			return
		}
		for i, r := range roles {
			if i > 0 && roles[i-1].Namespace >= r.Namespace {
				t.Fail("order of roles", "%s\n%s", in, text)
			}
			seen := map[string]bool{}
			for _, pr := range r.Rules {
				for _, l := range [][]string{pr.APIGroups, pr.Resources, pr.ResourceNames, pr.Verbs, pr.NonResourceURLs} {
					if !c01Sorted(l) {
						t.Fail("list not sorted", "%q\n%s\n%s", l, in, text)
					}
				}
				if len(pr.Verbs) > 1 && c01Has(pr.Verbs, "*") {
					t.Fail("verb besides *", "%s\n%s", in, text)
				}
				k := fmt.Sprintf("%q %q %q %q", pr.APIGroups, pr.Resources, pr.ResourceNames, pr.NonResourceURLs)
				if seen[k] {
					t.Fail("two rules for the same targets", "%s\n%s\n%s", k, in, text)
				}
				seen[k] = true
			}
		}
	})
}

package e2e

import (
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

func E2E_C01_grants(t *vc.E2E) {
	t.Rule = "random sets of rbac markers over small alphabets (so that rules overlap), spread over packages; the permissions of the generated roles are compared with those of the markers"
	c01Run(t, "grants", func(in string, rules []c01Rule, text string, _ []*loader.Package) {
		want := map[c01Perm]bool{}
		for _, r := range rules {
			gs := append([]string{}, r.groups...)
			for i := range gs {
				if gs[i] == "core" {
					gs[i] = ""
				}
			}
			c01Asked(want, r.ns, gs, r.res, r.names, r.verbs, r.urls)
		}
		roles, err := c01Roles(text)
		if err != nil {
			t.Fail("not a role", "%v\n%s\n%s", err, in, text)
			return
		}
		got := map[c01Perm]bool{}
		for _, r := range roles {
			if r.Name != "ro" || r.APIVersion != "rbac.authorization.k8s.io/v1" || (r.Namespace == "") != (r.Kind == "ClusterRole") || r.Namespace != "" && r.Kind != "Role" {
				t.Fail("kind of role", "%s\n%s", in, text)
			}
			for _, pr := range r.Rules {
				c01Asked(got, r.Namespace, pr.APIGroups, pr.Resources, pr.ResourceNames, pr.Verbs, pr.NonResourceURLs)
			}
		}
		if l := c01Missing(want, got); l != "" {
			t.Fail("lost", "%s\nmarkers\n%s\nroles\n%s", l, in, text)
		}
		if l := c01Missing(got, want); l != "" {
			t.Fail("added", "%s\nmarkers\n%s\nroles\n%s", l, in, text)
		}
	})
}

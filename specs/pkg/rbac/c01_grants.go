package rbac

import "sigs.k8s.io/controller-tools/internal/vc"

func VC_C01_toRule(r *Rule) {
	vc.Requires(r != nil)
	snap := vc.Snap()
	p := r.ToRule()
	vc.Ensures("groups", vc.Same(p.APIGroups, r.Groups))
	vc.Ensures("resources", vc.Same(p.Resources, r.Resources))
	vc.Ensures("names", vc.Same(p.ResourceNames, r.ResourceNames))
	vc.Ensures("URLs", vc.Same(p.NonResourceURLs, r.URLs))
	vc.Ensures("verbs", vc.Same(p.Verbs, r.Verbs))
	vc.OnlyModifies(snap, "nothing changes")
}

func VC_C01_addVerbsNew(r *Rule, verbs []string) {
	vc.Requires(r != nil && len(verbs) > 0 && vc.Apart(r.Verbs, verbs))
	j := vc.AnyIndex(len(verbs))
	v := verbs[j]
	r.addVerbs(verbs)
	vc.Ensures("the new verbs are there", inList(r.Verbs, v))
}

func VC_C01_addVerbsOld(r *Rule, verbs []string) {
	vc.Requires(r != nil && len(r.Verbs) > 0 && vc.Apart(r.Verbs, verbs))
	j := vc.AnyIndex(len(r.Verbs))
	v := r.Verbs[j]
	r.addVerbs(verbs)
	vc.Ensures("the old verbs stay", inList(r.Verbs, v))
}

func VC_C01_addVerbsOnly(r *Rule, verbs []string, v string) {
	vc.Requires(r != nil && vc.Apart(r.Verbs, verbs))
	asked := inList(r.Verbs, v) || inList(verbs, v)
	g, rs, n, u := r.Groups, r.Resources, r.ResourceNames, r.URLs
	r.addVerbs(verbs)
	if !asked {
		vc.Ensures("no other verb", !inList(r.Verbs, v))
	}
	vc.Ensures("the targets stay", vc.Same(g, r.Groups) && vc.Same(rs, r.Resources) && vc.Same(n, r.ResourceNames) && vc.Same(u, r.URLs))
}

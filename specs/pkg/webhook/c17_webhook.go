package webhook

import (
	"strings"

	admissionregv1 "k8s.io/api/admissionregistration/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C17: a webhook marker becomes one webhook with exactly what it
// says.

// c17OneOf is the known value equal to s but for letter case, s if none is.
func c17OneOf(s string, known ...string) string {
	for _, k := range known {
		if strings.ToLower(s) == strings.ToLower(k) {
			return k
		}
	}
	return s
}

func c17Known(s string, known ...string) bool {
	for _, k := range known {
		if strings.ToLower(s) == strings.ToLower(k) {
			return true
		}
	}
	return false
}

func c17Ok(c Config) bool {
	oneTarget := (c.Path == "") != (c.URL == "")
	policy := strings.ToLower(c.MatchPolicy) == "" || c17Known(c.MatchPolicy, "Exact", "Equivalent")
	return oneTarget && policy
}

func c17Strings(got, want []string) bool {
	return len(got) == len(want) && vc.Forall(0, len(want), func(i int) bool { return got[i] == want[i] })
}

func c17Client(name string, c Config, cc admissionregv1.WebhookClientConfig) {
	vc.Ensures(name+"url exactly as given", (cc.URL == nil) == (c.URL == "") && (cc.URL == nil || *cc.URL == c.URL))
	vc.Ensures(name+"a service exactly without url", (cc.Service == nil) == (c.URL != ""))
	if cc.Service != nil {
		s := cc.Service
		sn, ns := c.ServiceName, c.ServiceNamespace
		if sn == "" {
			sn = "webhook-service"
		}
		if ns == "" {
			ns = "system"
		}
		vc.Ensures(name+"service name and namespace, or their defaults", s.Name == sn && s.Namespace == ns)
		vc.Ensures(name+"the path", s.Path != nil && *s.Path == c.Path)
		vc.Ensures(name+"the port", (s.Port == nil) == (c.ServicePort == nil) && (s.Port == nil || *s.Port == *c.ServicePort))
	}
	vc.Ensures(name+"no CA bundle", len(cc.CABundle) == 0)
}

func c17Rules(name string, c Config, groups, verbs []string, rules []admissionregv1.RuleWithOperations) {
	vc.Ensures(name+"one rule", len(rules) == 1)
	r := rules[0]
	vc.Ensures(name+"the groups, core as the empty group", len(r.APIGroups) == len(groups) && vc.Forall(0, len(groups), func(i int) bool {
		return groups[i] == "core" && r.APIGroups[i] == "" || groups[i] != "core" && r.APIGroups[i] == groups[i]
	}))
	vc.Ensures(name+"the versions", c17Strings(r.APIVersions, c.Versions))
	vc.Ensures(name+"the resources", c17Strings(r.Resources, c.Resources))
	vc.Ensures(name+"the verbs", len(r.Operations) == len(verbs) && vc.Forall(0, len(verbs), func(i int) bool {
		return string(r.Operations[i]) == c17OneOf(verbs[i], "CREATE", "UPDATE", "DELETE", "CONNECT", "*")
	}))
	vc.Ensures(name+"no scope", r.Scope == nil)
}

func c17Policies(name string, c Config, fp *admissionregv1.FailurePolicyType, mp *admissionregv1.MatchPolicyType, se *admissionregv1.SideEffectClass, to *int32) {
	vc.Ensures(name+"the failure policy", fp != nil && string(*fp) == c17OneOf(c.FailurePolicy, "Ignore", "Fail"))
	vc.Ensures(name+"the match policy", (mp == nil) == (strings.ToLower(c.MatchPolicy) == "") && (mp == nil || string(*mp) == c17OneOf(c.MatchPolicy, "Exact", "Equivalent")))
	known := c17Known(c.SideEffects, "None", "NoneOnDryRun", "Some")
	vc.Ensures(name+"the side effects", (se == nil) == !known && (se == nil || string(*se) == c17OneOf(c.SideEffects, "None", "NoneOnDryRun", "Some")))
	vc.Ensures(name+"the timeout, if any", (to == nil) == (c.TimeoutSeconds == 0))
	if to != nil {
		in := 1 <= c.TimeoutSeconds && c.TimeoutSeconds <= 30
		vc.Ensures(name+"a valid timeout is the marker's", !in || int(*to) == c.TimeoutSeconds)
		vc.Ensures(name+"an invalid timeout stays invalid", in || *to < 1 || *to > 30)
	}
}

func VC_C17_Mutating(c Config) {
	groups := make([]string, len(c.Groups))
	copy(groups, c.Groups)
	verbs := make([]string, len(c.Verbs))
	copy(verbs, c.Verbs)
	ok := c.Mutating && c17Ok(c)
	snap := vc.Snap()
	w, err := c.ToMutatingWebhook()
	vc.Ensures("an error exactly when it is not mutating, has no single target or a bad match policy", (err == nil) == ok)
	vc.OnlyModifies(snap, "changes nothing but the spelling of core", c.Groups)
	if err != nil {
		return
	}
	vc.Ensures("its name", w.Name == c.Name)
	c17Rules("", c, groups, verbs, w.Rules)
	c17Client("", c, w.ClientConfig)
	c17Policies("", c, w.FailurePolicy, w.MatchPolicy, w.SideEffects, w.TimeoutSeconds)
	vc.Ensures("the review versions", c17Strings(w.AdmissionReviewVersions, c.AdmissionReviewVersions))
	known := c17Known(c.ReinvocationPolicy, "Never", "IfNeeded")
	vc.Ensures("the reinvocation policy", (w.ReinvocationPolicy == nil) == !known &&
		(w.ReinvocationPolicy == nil || string(*w.ReinvocationPolicy) == c17OneOf(c.ReinvocationPolicy, "Never", "IfNeeded")))
	vc.Ensures("no selectors or conditions", w.NamespaceSelector == nil && w.ObjectSelector == nil && len(w.MatchConditions) == 0)
}

func VC_C17_Validating(c Config) {
	groups := make([]string, len(c.Groups))
	copy(groups, c.Groups)
	verbs := make([]string, len(c.Verbs))
	copy(verbs, c.Verbs)
	ok := !c.Mutating && c17Ok(c)
	snap := vc.Snap()
	w, err := c.ToValidatingWebhook()
	vc.Ensures("an error exactly when it is mutating, has no single target or a bad match policy", (err == nil) == ok)
	vc.OnlyModifies(snap, "changes nothing but the spelling of core", c.Groups)
	if err != nil {
		return
	}
	vc.Ensures("its name", w.Name == c.Name)
	c17Rules("", c, groups, verbs, w.Rules)
	c17Client("", c, w.ClientConfig)
	c17Policies("", c, w.FailurePolicy, w.MatchPolicy, w.SideEffects, w.TimeoutSeconds)
	vc.Ensures("the review versions", c17Strings(w.AdmissionReviewVersions, c.AdmissionReviewVersions))
	vc.Ensures("no selectors or conditions", w.NamespaceSelector == nil && w.ObjectSelector == nil && len(w.MatchConditions) == 0)
}

func VC_C17_MutatingConfiguration(c WebhookConfig) {
	snap := vc.Snap()
	w, err := c.ToMutatingWebhookConfiguration()
	vc.Ensures("an error exactly when it is validating", (err == nil) == c.Mutating)
	vc.Ensures("its name", err != nil || w.Name == c.Name)
	vc.Ensures("no webhooks yet", len(w.Webhooks) == 0)
	vc.OnlyModifies(snap, "changes nothing")
}

func VC_C17_ValidatingConfiguration(c WebhookConfig) {
	snap := vc.Snap()
	w, err := c.ToValidatingWebhookConfiguration()
	vc.Ensures("an error exactly when it is mutating", (err == nil) == !c.Mutating)
	vc.Ensures("its name", err != nil || w.Name == c.Name)
	vc.Ensures("no webhooks yet", len(w.Webhooks) == 0)
	vc.OnlyModifies(snap, "changes nothing")
}

func VC_C17_SideEffects(s *admissionregv1.SideEffectClass) {
	err := checkSideEffectsForV1(s)
	vc.Ensures("None and NoneOnDryRun pass", s == nil || *s != "None" && *s != "NoneOnDryRun" || err == nil)
	vc.Ensures("nothing, Some and Unknown do not", s != nil && *s != "Some" && *s != "Unknown" || err != nil)
}

func VC_C17_Timeout(t *int32) {
	err := checkTimeoutSeconds(t)
	vc.Ensures("accepted exactly when absent or 1 to 30", (err == nil) == (t == nil || 1 <= *t && *t <= 30))
}

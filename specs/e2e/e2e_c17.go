package e2e

import (
	"fmt"
	"sort"
	"strings"

	admissionregv1 "k8s.io/api/admissionregistration/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/yaml"
)

type c17Hook struct {
	kv                                           map[string]string // as written
	mutating                                     bool
	name                                         string
	fail                                         string
	groups, versions, resources, verbs, arv, whv []string
	match, side, svc, ns, path, url, reinv       *string
	timeout                                      *int64
	port                                         *int64
}

func c17Canon(s string, known ...string) (string, bool) {
	for _, k := range known {
		if strings.EqualFold(k, s) {
			return k, true
		}
	}
	return s, false
}

func c17List(t *vc.E2E, min int, vals ...string) []string {
	n := min + t.Intn(3)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, vals[t.Intn(len(vals))])
	}
	return out
}

// valid reports why the marker cannot be a valid webhook ("" when it can).
func (h *c17Hook) bad() string {
	if (h.path == nil || *h.path == "") == (h.url == nil || *h.url == "") {
		return "url and path"
	}
	if h.match != nil && *h.match != "" {
		if _, ok := c17Canon(*h.match, "Exact", "Equivalent"); !ok {
			return "match policy"
		}
	}
	for _, v := range h.whv {
		if v != "v1" {
			return "webhook version"
		}
	}
	if h.side == nil {
		return "no side effects"
	}
	if s, _ := c17Canon(*h.side, "None", "NoneOnDryRun"); s != "None" && s != "NoneOnDryRun" {
		return "side effects"
	}
	if h.timeout != nil && *h.timeout != 0 && (*h.timeout < 1 || *h.timeout > 30) {
		return "timeout"
	}
	if len(h.arv) == 0 {
		return "review versions"
	}
	return ""
}

func (h *c17Hook) text(t *vc.E2E) string {
	var parts []string
	str := func(k, v string) {
		plain := v != ""
		for _, c := range v {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.' || c == '/') {
				plain = false
			}
		}
		if plain && t.Intn(3) > 0 {
			parts = append(parts, k+"="+v)
		} else {
			parts = append(parts, k+"="+mq(v))
		}
	}
	list := func(k string, v []string) {
		q := make([]string, len(v))
		curly := len(v) == 0 || t.Intn(3) == 0
		for i, s := range v {
			q[i] = s
			if s == "" || s == "*" || strings.ContainsAny(s, "*/ ") || t.Intn(4) == 0 {
				q[i] = mq(s)
			}
		}
		if curly {
			parts = append(parts, k+"={"+strings.Join(q, ",")+"}")
		} else {
			parts = append(parts, k+"="+strings.Join(q, ";"))
		}
	}
	opt := func(k string, p *string) {
		if p != nil {
			str(k, *p)
		}
	}
	parts = append(parts, fmt.Sprintf("mutating=%v", h.mutating))
	str("name", h.name)
	str("failurePolicy", h.fail)
	list("groups", h.groups)
	list("versions", h.versions)
	list("resources", h.resources)
	list("verbs", h.verbs)
	list("admissionReviewVersions", h.arv)
	if h.whv != nil {
		list("webhookVersions", h.whv)
	}
	opt("matchPolicy", h.match)
	opt("sideEffects", h.side)
	opt("serviceName", h.svc)
	opt("serviceNamespace", h.ns)
	opt("path", h.path)
	opt("url", h.url)
	opt("reinvocationPolicy", h.reinv)
	if h.timeout != nil {
		parts = append(parts, fmt.Sprintf("timeoutSeconds=%d", *h.timeout))
	}
	if h.port != nil {
		parts = append(parts, fmt.Sprintf("servicePort=%d", *h.port))
	}
	t.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return "// +kubebuilder:webhook:" + strings.Join(parts, ",")
}

func c17Rand(t *vc.E2E, bad bool) *c17Hook {
	p := func(ss ...string) *string { s := t.Pick(ss...); return &s }
	n := func(ii ...int64) *int64 { i := ii[t.Intn(len(ii))]; return &i }
	h := &c17Hook{mutating: t.Intn(2) == 0, name: t.Pick("a.b.c", "z.b.c", "m.x.io", "default.example.com", "b"),
		fail:   t.Pick("fail", "Fail", "ignore", "IGNORE", "ignore", "Other"),
		groups: c17List(t, 0, "core", "apps", "batch.x.io", ""), versions: c17List(t, 1, "v1", "v2", "v1beta1"), resources: c17List(t, 1, "pods", "jobs", "pods/status", "*"),
		verbs: c17List(t, 1, "create", "UPDATE", "Delete", "connect", "*", "other"), arv: c17List(t, 1, "v1", "v1beta1")}
	h.side = p("None", "none", "NoneOnDryRun", "noneondryrun")
	if t.Intn(3) == 0 {
		h.url = p("https://x.y:1/z", "https://host/p?q=1,2")
		if t.Intn(4) == 0 {
			h.svc = p("svc")
		}
	} else {
		h.path = p("/validate", "/mutate-x-v1", "x")
		if t.Intn(3) == 0 {
			h.svc = p("svc", "other-svc", "")
		}
		if t.Intn(3) == 0 {
			h.ns = p("ns", "")
		}
		if t.Intn(3) == 0 {
			h.port = n(0, 443, 8443, 65535)
		}
	}
	if t.Intn(3) == 0 {
		h.match = p("exact", "Exact", "EQUIVALENT", "Equivalent", "")
	}
	if t.Intn(2) == 0 {
		h.timeout = n(1, 2, 10, 29, 30)
	}
	if t.Intn(3) == 0 {
		h.reinv = p("never", "Never", "IfNeeded", "ifneeded", "bogus")
	}
	if t.Intn(3) == 0 {
		h.whv = []string{"v1"}
		if t.Intn(3) == 0 {
			h.whv = []string{"v1", "v1"}
		}
	}
	if bad {
		switch t.Intn(9) {
		case 0:
			h.path, h.url = nil, nil
		case 1:
			h.path, h.url = p("/x"), p("https://h/x")
		case 2:
			h.match = p("Exac", "any")
		case 3:
			h.whv = [][]string{{"v1beta1"}, {"v1", "v2"}, {""}}[t.Intn(3)]
		case 4:
			h.side = p("Some", "some", "Unknown", "unknown", "Non", "")
		case 5:
			h.side = nil
		case 6:
			h.timeout = n(31, -1, 60, 4294967297, 4294967306, -4294967291, 2147483648, 1<<40+5)
		case 7:
			h.arv = nil
		case 8:
			h.path = p("")
		}
	}
	return h
}

func c17Deref[T any](p *T, d T) T {
	if p == nil {
		return d
	}
	return *p
}

// expectation of one webhook, as text
func (h *c17Hook) want() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "name %q\n", h.name)
	gs := append([]string{}, h.groups...)
	for i := range gs {
		if gs[i] == "core" {
			gs[i] = ""
		}
	}
	vs := append([]string{}, h.verbs...)
	for i := range vs {
		vs[i], _ = c17Canon(vs[i], "CREATE", "UPDATE", "DELETE", "CONNECT", "*")
	}
	fmt.Fprintf(&sb, "rules %q %q %q %q\n", gs, h.versions, h.resources, vs)
	fp, _ := c17Canon(h.fail, "Ignore", "Fail")
	fmt.Fprintf(&sb, "failure %q\n", fp)
	mp, _ := c17Canon(c17Deref(h.match, ""), "Exact", "Equivalent")
	fmt.Fprintf(&sb, "match %q\n", mp)
	se, _ := c17Canon(c17Deref(h.side, ""), "None", "NoneOnDryRun")
	fmt.Fprintf(&sb, "side %q\n", se)
	fmt.Fprintf(&sb, "timeout %d\n", c17Deref(h.timeout, 0))
	fmt.Fprintf(&sb, "review %q\n", h.arv)
	if c17Deref(h.url, "") != "" {
		fmt.Fprintf(&sb, "url %q\n", *h.url)
	} else {
		s, n := c17Deref(h.svc, ""), c17Deref(h.ns, "")
		if s == "" {
			s = "webhook-service"
		}
		if n == "" {
			n = "system"
		}
		fmt.Fprintf(&sb, "service %q %q %q %d\n", s, n, *h.path, c17Deref(h.port, -1))
	}
	if h.mutating {
		r, ok := c17Canon(c17Deref(h.reinv, ""), "Never", "IfNeeded")
		if !ok {
			r = ""
		}
		fmt.Fprintf(&sb, "reinvocation %q\n", r)
	}
	return sb.String()
}

func c17Got(mut bool, name string, rules []admissionregv1.RuleWithOperations, fp *admissionregv1.FailurePolicyType, mp *admissionregv1.MatchPolicyType, se *admissionregv1.SideEffectClass, to *int32, arv []string, cc admissionregv1.WebhookClientConfig, re *admissionregv1.ReinvocationPolicyType) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "name %q\n", name)
	for _, r := range rules {
		ops := []string{}
		for _, o := range r.Operations {
			ops = append(ops, string(o))
		}
		fmt.Fprintf(&sb, "rules %q %q %q %q\n", append([]string{}, r.APIGroups...), r.APIVersions, r.Resources, ops)
	}
	fmt.Fprintf(&sb, "failure %q\n", c17Deref(fp, "none"))
	fmt.Fprintf(&sb, "match %q\n", c17Deref(mp, ""))
	fmt.Fprintf(&sb, "side %q\n", c17Deref(se, ""))
	fmt.Fprintf(&sb, "timeout %d\n", c17Deref(to, 0))
	fmt.Fprintf(&sb, "review %q\n", arv)
	if cc.URL != nil {
		fmt.Fprintf(&sb, "url %q\n", *cc.URL)
	}
	if s := cc.Service; s != nil {
		fmt.Fprintf(&sb, "service %q %q %q %d\n", s.Name, s.Namespace, c17Deref(s.Path, "none"), c17Deref(s.Port, -1))
	}
	if mut {
		fmt.Fprintf(&sb, "reinvocation %q\n", c17Deref(re, ""))
	}
	return sb.String()
}

// Whole runs of the webhook generator over random webhook markers.
func E2E_C17_generate(t *vc.E2E) {
	t.Rule = "random kubebuilder:webhook and webhookconfiguration markers over 1-3 packages, every third case with one marker that must be rejected; compared with the manifest the property asks for"
	n := t.N(1200, 6000)
	type pkgCase struct {
		hooks      []*c17Hook
		mutN, valN string
	}
	files := map[string]string{}
	var cases []pkgCase
	for i := 0; i < n; i++ {
		t.Reseed(i)
		var c pkgCase
		k := t.Intn(4)
		badAt := -1
		if t.Intn(3) == 0 {
			k++
			badAt = t.Intn(k)
		}
		var lines []string
		for j := 0; j < k; j++ {
			h := c17Rand(t, j == badAt)
			c.hooks = append(c.hooks, h)
			lines = append(lines, h.text(t))
		}
		if t.Intn(4) == 0 {
			c.mutN = t.Pick("mut-cfg", "m")
			lines = append(lines, "// +kubebuilder:webhookconfiguration:mutating=true,name="+c.mutN)
		}
		if t.Intn(4) == 0 {
			c.valN = t.Pick("val-cfg", "v")
			lines = append(lines, "// +kubebuilder:webhookconfiguration:mutating=false,name="+c.valN)
		}
		files[fmt.Sprintf("p/c%04d/x.go", i)] = "package p\n\n" + strings.Join(lines, "\n") + "\n\nvar X int\n"
		cases = append(cases, c)
	}
	dir := module(t, files)
	roots, err := loadMod(dir, "m.test/m/p/...")
	if err != nil || len(roots) != n {
		t.Fail("load", "loading the scratch module: %v (%d packages)", err, len(roots))
		return
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].PkgPath < roots[j].PkgPath })
	for i := 0; i < n && t.More(); i++ {
		t.Reseed(100000 + i)
		k := 1
		if i%3 == 0 {
			k = 1 + t.Intn(3)
		}
		if i+k > n {
			k = 1
		}
		var desc []string
		var mut, val []string
		mutN, valN, why := "", "", ""
		for j := i; j < i+k; j++ {
			desc = append(desc, files[fmt.Sprintf("p/c%04d/x.go", j)])
			hs := append([]*c17Hook{}, cases[j].hooks...)
			sort.SliceStable(hs, func(a, b int) bool { return hs[a].name < hs[b].name })
			for _, h := range hs {
				if b := h.bad(); b != "" {
					why = b
					continue
				}
				if h.mutating {
					mut = append(mut, h.want())
				} else {
					val = append(val, h.want())
				}
			}
			if cases[j].mutN != "" {
				mutN = cases[j].mutN
			}
			if cases[j].valN != "" {
				valN = cases[j].valN
			}
		}
		input := strings.Join(desc, "\n----\n")
		t.Case(input)
		t.Try("panic", input, func() {
			var g webhook.Generator
			out, err := runGen(g, roots[i:i+k])
			for _, p := range roots[i : i+k] {
				if len(p.Errors) > 0 && err == nil {
					err = p.Errors[0]
				}
			}
			if why != "" {
				if err == nil {
					t.Fail("accepted: "+why, "%s\nis accepted, giving\n%v", input, out.files["manifests.yaml"])
				}
				return
			}
			if err != nil {
				t.Fail("rejected", "%s\nis rejected: %v", input, err)
				return
			}
			if len(mut)+len(val) == 0 {
				if len(out.files) != 0 {
					t.Fail("empty", "%s\noutput without webhooks", input)
				}
				return
			}
			if len(out.files) != 1 || out.files["manifests.yaml"] == nil {
				t.Fail("files", "%s\nfiles %v", input, out.opens)
				return
			}
			var gm, gv []string
			gmn, gvn := "", ""
			nm, nv := 0, 0
			for _, d := range yamlDocs(out.files["manifests.yaml"].String()) {
				var tm struct{ Kind, APIVersion string }
				_ = yaml.Unmarshal([]byte(d), &tm)
				if tm.APIVersion != "admissionregistration.k8s.io/v1" {
					t.Fail("apiVersion", "%s\n%s", input, d)
				}
				switch tm.Kind {
				case "MutatingWebhookConfiguration":
					nm++
					var o admissionregv1.MutatingWebhookConfiguration
					if err := yaml.UnmarshalStrict([]byte(d), &o); err != nil {
						t.Fail("decode", "%s\n%v", input, err)
					}
					gmn = o.Name
					for _, w := range o.Webhooks {
						gm = append(gm, c17Got(true, w.Name, w.Rules, w.FailurePolicy, w.MatchPolicy, w.SideEffects, w.TimeoutSeconds, w.AdmissionReviewVersions, w.ClientConfig, w.ReinvocationPolicy))
					}
				case "ValidatingWebhookConfiguration":
					nv++
					var o admissionregv1.ValidatingWebhookConfiguration
					if err := yaml.UnmarshalStrict([]byte(d), &o); err != nil {
						t.Fail("decode", "%s\n%v", input, err)
					}
					gvn = o.Name
					for _, w := range o.Webhooks {
						gv = append(gv, c17Got(false, w.Name, w.Rules, w.FailurePolicy, w.MatchPolicy, w.SideEffects, w.TimeoutSeconds, w.AdmissionReviewVersions, w.ClientConfig, nil))
					}
				default:
					t.Fail("kind", "%s\n%s", input, d)
				}
			}
			want := func(name, def string) string {
				if name == "" {
					return def
				}
				return name
			}
			if nm > 1 || nv > 1 || (nm == 1) != (len(mut) > 0) || (nv == 1) != (len(val) > 0) {
				t.Fail("objects", "%s\n%d mutating and %d validating objects", input, nm, nv)
			}
			if strings.Join(gm, "\n") != strings.Join(mut, "\n") {
				t.Fail("mutating", "%s\ngot\n%s\nwant\n%s", input, strings.Join(gm, "\n"), strings.Join(mut, "\n"))
			}
			if strings.Join(gv, "\n") != strings.Join(val, "\n") {
				t.Fail("validating", "%s\ngot\n%s\nwant\n%s", input, strings.Join(gv, "\n"), strings.Join(val, "\n"))
			}
			if nm == 1 && gmn != want(mutN, "mutating-webhook-configuration") || nv == 1 && gvn != want(valN, "validating-webhook-configuration") {
				t.Fail("configuration name", "%s\n%s / %s", input, gmn, gvn)
			}
		})
	}
}

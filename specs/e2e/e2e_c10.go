package e2e

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
)

func c10Check(old, got string, n int) string {
	if n < 0 || len(old) <= n && n > 0 {
		if got != old {
			return "changed although within the limit"
		}
		return ""
	}
	if n == 0 {
		if got != "" {
			return "not removed"
		}
		return ""
	}
	if utf8.ValidString(old) && !utf8.ValidString(got) {
		return "not valid UTF-8"
	}
	// the longest prefix of whole characters within the limit
	lim := 0
	for i, r := range old {
		if i+utf8.RuneLen(r) <= n {
			lim = i + utf8.RuneLen(r)
		}
	}
	pre := old[:lim]
	last, space := -1, -1
	for i, r := range pre {
		if unicode.Is(unicode.STerm, r) {
			last = i + utf8.RuneLen(r)
			if i == 0 {
				last = -1
			}
		}
		if unicode.Is(unicode.White_Space, r) {
			space = i
		}
	}
	// a terminator at the very start is no end of a sentence
	want := ""
	switch {
	case last > 0:
		want = pre[:last]
	case space > 0:
		want = pre[:space] + "..."
	default:
		want = pre + "..."
	}
	if got != want {
		return fmt.Sprintf("want %q", want)
	}
	return ""
}

func E2E_C10_truncate(t *vc.E2E) {
	t.Rule = "random schema trees with texts of mixed one- to four-byte characters, every limit from -1 to beyond the text"
	for i := 0; i < t.N(6000, 200000) && t.More(); i++ {
		t.Reseed(i)
		s := randSchema(t, t.Intn(4))
		n := t.Intn(60) - 1
		if t.Intn(4) == 0 {
			n = len(s.Description) - 2 + t.Intn(4)
		}
		c := s.DeepCopy()
		in := fmt.Sprintf("limit %d, schema %s", n, js(s))
		t.Case(in)
		t.Try("panic", in, func() {
			crd.TruncateDescription(c, n)
			ok := pairs(&s, c, "", func(p string, a, b *apiext.JSONSchemaProps) {
				if why := c10Check(a.Description, b.Description, n); why != "" {
					t.Fail("description", "%s\nat %s: %q became %q: %s", in, p, a.Description, b.Description, why)
				}
			})
			clear := func(x *apiext.JSONSchemaProps) { x.Description = "" }
			editAll(&s, clear)
			editAll(c, clear)
			if !ok || js(s) != js(c) {
				t.Fail("other changes", "%s\nafter: %s", in, js(c))
			}
		})
	}
	_ = strings.Join
}

package e2e

import (
	"encoding/json"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// texts with sentence ends, long words and multi-byte characters
func randText(t *vc.E2E) string {
	n := t.Intn(14)
	var s string
	for i := 0; i < n; i++ {
		s += t.Pick("word", "a", "Ünï", "日本語", "。", "! ", "? ", ". ", " ", "\n", "…", "longerword", "😀", "é", ".", "x.y", "...", "\u3000", "，")
	}
	return s
}

func jsonVal(t *vc.E2E) apiext.JSON {
	return apiext.JSON{Raw: []byte(t.Pick("1", `"a"`, "true", `{"a":1}`, "[1]"))}
}

func ptr[T any](v T) *T { return &v }

// randSchema is a random schema; every sub-schema position is used.
func randSchema(t *vc.E2E, depth int) apiext.JSONSchemaProps {
	s := apiext.JSONSchemaProps{Description: randText(t), Type: t.Pick("", "object", "string", "integer", "array")}
	one := func(n int) bool { return t.Intn(n) == 0 }
	if one(4) {
		s.Title = randText(t)
	}
	if one(5) {
		s.Format = t.Pick("int32", "date", "x")
	}
	if one(5) {
		s.Maximum = ptr(float64(t.Intn(5)))
	}
	if one(5) {
		s.MinLength = ptr(int64(t.Intn(5)))
	}
	if one(6) {
		s.Required = []string{t.Pick("a", "b"), "c"}
	}
	if one(6) {
		j := jsonVal(t)
		s.Default = &j
	}
	if one(6) {
		s.Enum = []apiext.JSON{jsonVal(t), jsonVal(t)}
	}
	if one(6) {
		s.Pattern = randText(t)
	}
	if one(6) {
		s.XValidations = apiext.ValidationRules{{Rule: "self.x", Message: randText(t)}}
	}
	if one(6) {
		s.ExternalDocs = &apiext.ExternalDocumentation{Description: randText(t), URL: "u"}
	}
	if depth <= 0 {
		return s
	}
	sub := func() *apiext.JSONSchemaProps {
		if one(3) {
			return nil
		}
		x := randSchema(t, depth-1)
		return &x
	}
	list := func() []apiext.JSONSchemaProps {
		var out []apiext.JSONSchemaProps
		for i := t.Intn(3); i > 0; i-- {
			out = append(out, randSchema(t, depth-1))
		}
		return out
	}
	mp := func() map[string]apiext.JSONSchemaProps {
		out := map[string]apiext.JSONSchemaProps{}
		for i := t.Intn(3); i > 0; i-- {
			out[t.Pick("a", "b", "c", "description", "")] = randSchema(t, depth-1)
		}
		return out
	}
	if one(3) {
		s.Items = &apiext.JSONSchemaPropsOrArray{Schema: sub(), JSONSchemas: list()}
	}
	if one(3) {
		s.AllOf = list()
	}
	if one(4) {
		s.OneOf = list()
	}
	if one(4) {
		s.AnyOf = list()
	}
	if one(4) {
		s.Not = sub()
	}
	if one(2) {
		s.Properties = mp()
	}
	if one(4) {
		s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: one(2), Schema: sub()}
	}
	if one(4) {
		s.PatternProperties = mp()
	}
	if one(4) {
		s.Dependencies = apiext.JSONSchemaDependencies{"p": {Schema: sub()}, "q": {Property: []string{"r"}}}
	}
	if one(4) {
		s.AdditionalItems = &apiext.JSONSchemaPropsOrBool{Schema: sub()}
	}
	if one(4) {
		s.Definitions = mp()
	}
	return s
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "marshal: " + err.Error()
	}
	return string(b)
}

// pairs calls f for corresponding nodes of two schemas of the same shape (and
// reports whether the shapes agree), written independently of the repository's
// walker.
func pairs(a, b *apiext.JSONSchemaProps, path string, f func(path string, a, b *apiext.JSONSchemaProps)) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	f(path, a, b)
	ok := true
	list := func(n string, x, y []apiext.JSONSchemaProps) {
		if len(x) != len(y) {
			ok = false
			return
		}
		for i := range x {
			ok = pairs(&x[i], &y[i], path+"/"+n, f) && ok
		}
	}
	mp := func(n string, x, y map[string]apiext.JSONSchemaProps) {
		if len(x) != len(y) {
			ok = false
			return
		}
		for k, v := range x {
			w, has := y[k]
			if !has {
				ok = false
				continue
			}
			ok = pairs(&v, &w, path+"/"+n+"["+k+"]", f) && ok
		}
	}
	if (a.Items == nil) != (b.Items == nil) || (a.AdditionalProperties == nil) != (b.AdditionalProperties == nil) || (a.AdditionalItems == nil) != (b.AdditionalItems == nil) {
		return false
	}
	if a.Items != nil {
		ok = pairs(a.Items.Schema, b.Items.Schema, path+"/items", f) && ok
		list("itemsList", a.Items.JSONSchemas, b.Items.JSONSchemas)
	}
	list("allOf", a.AllOf, b.AllOf)
	list("oneOf", a.OneOf, b.OneOf)
	list("anyOf", a.AnyOf, b.AnyOf)
	ok = pairs(a.Not, b.Not, path+"/not", f) && ok
	mp("properties", a.Properties, b.Properties)
	if a.AdditionalProperties != nil {
		ok = pairs(a.AdditionalProperties.Schema, b.AdditionalProperties.Schema, path+"/additionalProperties", f) && ok
	}
	mp("patternProperties", a.PatternProperties, b.PatternProperties)
	if len(a.Dependencies) != len(b.Dependencies) {
		return false
	}
	for k, v := range a.Dependencies {
		ok = pairs(v.Schema, b.Dependencies[k].Schema, path+"/dependencies["+k+"]", f) && ok
	}
	if a.AdditionalItems != nil {
		ok = pairs(a.AdditionalItems.Schema, b.AdditionalItems.Schema, path+"/additionalItems", f) && ok
	}
	mp("definitions", a.Definitions, b.Definitions)
	return ok
}

// editAll applies f to every node, children first, in place.
func editAll(s *apiext.JSONSchemaProps, f func(*apiext.JSONSchemaProps)) {
	if s == nil {
		return
	}
	f(s)
	list := func(x []apiext.JSONSchemaProps) {
		for i := range x {
			editAll(&x[i], f)
		}
	}
	mp := func(x map[string]apiext.JSONSchemaProps) {
		for k, v := range x {
			editAll(&v, f)
			x[k] = v
		}
	}
	if s.Items != nil {
		editAll(s.Items.Schema, f)
		list(s.Items.JSONSchemas)
	}
	list(s.AllOf)
	list(s.OneOf)
	list(s.AnyOf)
	editAll(s.Not, f)
	mp(s.Properties)
	if s.AdditionalProperties != nil {
		editAll(s.AdditionalProperties.Schema, f)
	}
	mp(s.PatternProperties)
	for _, d := range s.Dependencies {
		editAll(d.Schema, f)
	}
	if s.AdditionalItems != nil {
		editAll(s.AdditionalItems.Schema, f)
	}
	mp(s.Definitions)
}

// children calls f for the direct sub-schemas, keeping its edits.
func children(s *apiext.JSONSchemaProps, f func(*apiext.JSONSchemaProps)) {
	list := func(x []apiext.JSONSchemaProps) {
		for i := range x {
			f(&x[i])
		}
	}
	mp := func(x map[string]apiext.JSONSchemaProps) {
		for k, v := range x {
			f(&v)
			x[k] = v
		}
	}
	one := func(x *apiext.JSONSchemaProps) {
		if x != nil {
			f(x)
		}
	}
	if s.Items != nil {
		one(s.Items.Schema)
		list(s.Items.JSONSchemas)
	}
	list(s.AllOf)
	list(s.OneOf)
	list(s.AnyOf)
	one(s.Not)
	mp(s.Properties)
	if s.AdditionalProperties != nil {
		one(s.AdditionalProperties.Schema)
	}
	mp(s.PatternProperties)
	for _, d := range s.Dependencies {
		one(d.Schema)
	}
	if s.AdditionalItems != nil {
		one(s.AdditionalItems.Schema)
	}
	mp(s.Definitions)
}

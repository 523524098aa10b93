package e2e

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// c07Atoms collects what a schema demands, as texts that name the place (through
// properties, items and additional properties) and the demand: the branches of
// allOf demand at the place of the schema itself.
type c07Atoms struct {
	atoms    map[string]bool
	types    map[string]map[string]bool // by place: the types demanded
	resolve  func(ref string, pkg *loader.Package) (apiext.JSONSchemaProps, *loader.Package)
	conflict bool
}

func c07Collect(s *apiext.JSONSchemaProps) *c07Atoms {
	a := &c07Atoms{atoms: map[string]bool{}, types: map[string]map[string]bool{}}
	a.add(s, "", nil)
	return a
}

func (a *c07Atoms) add(s *apiext.JSONSchemaProps, at string, pkg *loader.Package) {
	put := func(what string, v any) { a.atoms[at+" "+what+" "+js(v)] = true }
	if s.Ref != nil && a.resolve != nil {
		to, toPkg := a.resolve(*s.Ref, pkg)
		a.add(&to, at, toPkg)
	} else if s.Ref != nil {
		put("$ref", *s.Ref)
	}
	if s.Type != "" {
		if a.types[at] == nil {
			a.types[at] = map[string]bool{}
		}
		a.types[at][s.Type] = true
	}
	if s.Maximum != nil {
		put("maximum", fmt.Sprint(*s.Maximum, s.ExclusiveMaximum))
	}
	if s.Minimum != nil {
		put("minimum", fmt.Sprint(*s.Minimum, s.ExclusiveMinimum))
	}
	for _, r := range s.Required {
		put("required", r)
	}
	for _, v := range s.XValidations {
		put("rule", v)
	}
	if s.Nullable {
		put("nullable", true)
	}
	if s.UniqueItems {
		put("unique", true)
	}
	if s.XEmbeddedResource {
		put("embedded", true)
	}
	if s.XIntOrString {
		put("int-or-string", true)
	}
	if s.XPreserveUnknownFields != nil {
		put("preserve", "")
	}
	if s.XMapType != nil {
		put("map type", "")
	}
	if s.Format != "" {
		put("format", s.Format)
	}
	if s.Pattern != "" {
		put("pattern", s.Pattern)
	}
	if s.ID != "" {
		put("id", s.ID)
	}
	if s.Schema != "" {
		put("schema", s.Schema)
	}
	for n, p := range map[string]*int64{"maxLength": s.MaxLength, "minLength": s.MinLength, "maxItems": s.MaxItems, "minItems": s.MinItems, "maxProperties": s.MaxProperties, "minProperties": s.MinProperties} {
		if p != nil {
			put(n, *p)
		}
	}
	if s.MultipleOf != nil {
		put("multipleOf", *s.MultipleOf)
	}
	if s.Enum != nil {
		put("enum", s.Enum)
	}
	if s.Default != nil {
		put("default", s.Default)
	}
	if s.XListType != nil {
		put("list type", *s.XListType)
	}
	if s.XListMapKeys != nil {
		put("list map keys", s.XListMapKeys)
	}
	if s.OneOf != nil {
		put("oneOf", s.OneOf)
	}
	if s.AnyOf != nil {
		put("anyOf", s.AnyOf)
	}
	if s.Not != nil {
		put("not", s.Not)
	}
	if s.PatternProperties != nil {
		put("patternProperties", s.PatternProperties)
	}
	if s.Dependencies != nil {
		put("dependencies", s.Dependencies)
	}
	if s.AdditionalItems != nil {
		put("additionalItems", s.AdditionalItems)
	}
	if s.Definitions != nil {
		put("definitions", s.Definitions)
	}
	for i := range s.AllOf {
		a.add(&s.AllOf[i], at, pkg)
	}
	for k := range s.Properties {
		p := s.Properties[k]
		put("property", k)
		a.add(&p, at+"."+strconv.Quote(k), pkg)
	}
	if s.AdditionalProperties != nil {
		put("additional properties", "")
		if s.AdditionalProperties.Schema != nil {
			a.add(s.AdditionalProperties.Schema, at+".*", pkg)
		}
	}
	if s.Items != nil {
		put("items", len(s.Items.JSONSchemas))
		if s.Items.Schema != nil {
			a.add(s.Items.Schema, at+"[]", pkg)
		}
		for i := range s.Items.JSONSchemas {
			a.add(&s.Items.JSONSchemas[i], at+"["+itoa(i)+"]", pkg)
		}
	}
}

// clash is whether two types are demanded of one place; places below items are
// kept apart in branches of allOf and so cannot clash.
func (a *c07Atoms) clash() bool {
	for at, ts := range a.types {
		if len(ts) > 1 && !strings.Contains(at, "[") {
			return true
		}
	}
	return false
}

// diff says what is lost or made up, but for types of places that clash.
func (a *c07Atoms) diff(b *c07Atoms) string {
	var out []string
	for x := range a.atoms {
		if !b.atoms[x] {
			out = append(out, "lost: "+x)
		}
	}
	for x := range b.atoms {
		if !a.atoms[x] {
			out = append(out, "made up: "+x)
		}
	}
	for at, ts := range a.types {
		if len(b.types[at]) == 0 {
			out = append(out, "lost: type of "+at)
		}
		for ty := range ts {
			if len(ts) == 1 && !b.types[at][ty] {
				out = append(out, "lost: type "+ty+" of "+at)
			}
		}
		for ty := range b.types[at] {
			if !ts[ty] {
				out = append(out, "made up: type "+ty+" of "+at)
			}
		}
	}
	for at := range b.types {
		if a.types[at] == nil {
			out = append(out, "made up: type of "+at)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// c07Keywords is how many different keywords a random schema can set.
const c07Keywords = 33

func c07Set(t *vc.E2E, s *apiext.JSONSchemaProps, k, depth int) {
	leaf := func() apiext.JSONSchemaProps {
		return apiext.JSONSchemaProps{Type: t.Pick("", "string", "integer"), Pattern: t.Pick("", "p", "q")}
	}
	sub := func() apiext.JSONSchemaProps {
		if depth <= 0 {
			return leaf()
		}
		return c07Schema(t, depth-1)
	}
	switch k {
	case 0:
		s.Maximum = ptr(float64(t.Intn(3)))
		s.ExclusiveMaximum = t.Intn(2) == 0
	case 1:
		s.Minimum = ptr(float64(t.Intn(3)))
		s.ExclusiveMinimum = t.Intn(2) == 0
	case 2:
		s.MaxLength = ptr(int64(t.Intn(3)))
	case 3:
		s.MinLength = ptr(int64(t.Intn(3)))
	case 4:
		s.MaxItems = ptr(int64(t.Intn(3)))
	case 5:
		s.MinItems = ptr(int64(t.Intn(3)))
	case 6:
		s.MaxProperties = ptr(int64(t.Intn(3)))
	case 7:
		s.MinProperties = ptr(int64(t.Intn(3)))
	case 8:
		s.Pattern = t.Pick("^a", "b$", "c")
	case 9:
		s.Format = t.Pick("date", "int32")
	case 10:
		s.MultipleOf = ptr(float64(2 + t.Intn(2)))
	case 11:
		s.UniqueItems = true
	case 12:
		s.Enum = []apiext.JSON{jsonVal(t)}
	case 13, 14:
		for i := 1 + t.Intn(3); i > 0; i-- {
			s.Required = append(s.Required, t.Pick("a", "b", "c", "d"))
		}
	case 15:
		s.XValidations = append(s.XValidations, apiext.ValidationRule{Rule: t.Pick("self.x", "self.y"), Message: t.Pick("", "m")})
	case 16:
		s.Nullable = true
	case 17:
		s.XEmbeddedResource = true
	case 18:
		s.XIntOrString = true
	case 19:
		s.XPreserveUnknownFields = ptr(true)
	case 20:
		s.XMapType = ptr(t.Pick("atomic", "granular"))
	case 21:
		s.XListType = ptr(t.Pick("set", "map"))
	case 22:
		s.XListMapKeys = []string{t.Pick("k", "l")}
	case 23:
		j := jsonVal(t)
		s.Default = &j
	case 24:
		s.OneOf = []apiext.JSONSchemaProps{leaf()}
	case 25:
		s.AnyOf = []apiext.JSONSchemaProps{leaf(), leaf()}
	case 26:
		n := leaf()
		s.Not = &n
	case 27:
		l := leaf()
		s.PatternProperties = map[string]apiext.JSONSchemaProps{"p": l}
	case 28:
		s.Dependencies = apiext.JSONSchemaDependencies{"q": {Property: []string{t.Pick("r", "s")}}}
	case 29, 30:
		s.Properties = map[string]apiext.JSONSchemaProps{}
		for i := 1 + t.Intn(2); i > 0; i-- {
			s.Properties[t.Pick("a", "b", "c")] = sub()
		}
	case 31:
		x := sub()
		s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Schema: &x, Allows: true}
		if t.Intn(4) == 0 {
			s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true}
		}
	case 32:
		x := sub()
		s.Items = &apiext.JSONSchemaPropsOrArray{Schema: &x}
	}
}

// c07Schema is a random schema of a few keywords and branches.
func c07Schema(t *vc.E2E, depth int) apiext.JSONSchemaProps {
	var s apiext.JSONSchemaProps
	if t.Intn(3) == 0 {
		s.Type = t.Pick("object", "object", "object", "string", "integer", "array")
	}
	for n := t.Intn(5); n > 0; n-- {
		c07Set(t, &s, t.Intn(c07Keywords), depth)
	}
	if depth > 0 && t.Intn(2) == 0 {
		for n := 1 + t.Intn(3); n > 0; n-- {
			s.AllOf = append(s.AllOf, c07Schema(t, depth-1))
		}
	}
	return s
}

type c07Errors struct{ errs []error }

func (e *c07Errors) AddError(err error) { e.errs = append(e.errs, err) }

// E2E_C07_merge merges branches of allOf.
func E2E_C07_merge(t *vc.E2E) {
	t.Rule = "every pair of 33 keywords on the two sides of a merge (twice each, random values), then random schemas of 0..4 keywords per node with nested branches of allOf, properties, items: the demands of the result (place, keyword, value) are those of the input; conflicting types are errors, required names sorted without duplicates, the input untouched"
	check := func(in apiext.JSONSchemaProps) bool {
		desc := js(in)
		t.Case(desc)
		rec := &c07Errors{}
		var out *apiext.JSONSchemaProps
		t.Try("panic", desc, func() { out = crd.FlattenEmbedded(&in, rec) })
		if out == nil {
			return false
		}
		if js(in) != desc {
			t.Fail("input", "the schema given is changed\nbefore: %s\nafter:  %s", desc, js(in))
			return false
		}
		want, got := c07Collect(&in), c07Collect(out)
		if d := want.diff(got); d != "" {
			t.Fail("demands", "schema: %s\nmerged: %s\n%s", desc, js(out), d)
			return false
		}
		if want.clash() && len(rec.errs) == 0 {
			t.Fail("conflict", "schema: %s\nmerged: %s\nconflicting types are not reported", desc, js(out))
			return false
		}
		if len(rec.errs) > 0 {
			bad := true
			for _, ts := range want.types {
				bad = bad && len(ts) < 2
			}
			if bad {
				t.Fail("conflict", "schema: %s\nmerged: %s\nerrors without conflict: %v", desc, js(out), rec.errs)
				return false
			}
		}
		ok := true
		editAll(out, func(s *apiext.JSONSchemaProps) {
			for i := 1; i < len(s.Required); i++ {
				ok = ok && (len(in.AllOf) == 0 || s.Required[i-1] < s.Required[i])
			}
		})
		top := out.Required
		for i := 1; i < len(top); i++ {
			if len(in.AllOf) > 0 && top[i-1] >= top[i] {
				t.Fail("required", "schema: %s\nmerged: %s\nrequired names are not sorted or not unique", desc, js(out))
				return false
			}
		}
		return true
	}
	for round := 0; round < t.N(2, 10); round++ {
		for a := 0; a < c07Keywords; a++ {
			for b := 0; b < c07Keywords; b++ {
				var in apiext.JSONSchemaProps
				var x, y apiext.JSONSchemaProps
				c07Set(t, &x, a, 0)
				c07Set(t, &x, b, 0)
				c07Set(t, &y, b, 0)
				if round%2 == 1 {
					c07Set(t, &in, a, 0)
					in.AllOf = []apiext.JSONSchemaProps{y}
				} else {
					in.AllOf = []apiext.JSONSchemaProps{x, y}
				}
				if !check(in) {
					return
				}
			}
		}
	}
	for n := t.N(6000, 60000); n > 0 && t.More(); n-- {
		if !check(c07Schema(t, 3)) {
			return
		}
	}
}

var c07FieldMarkers = []string{"", "", "", "+kubebuilder:validation:MaxLength=5", "+kubebuilder:validation:MaxLength=7", "+kubebuilder:validation:Pattern=`^a`", "+kubebuilder:validation:Pattern=`b$`", "+kubebuilder:validation:XValidation:rule=\"self.x\"", "+kubebuilder:validation:XValidation:rule=\"self.y\",message=\"m\"", "+nullable", "+optional", "+kubebuilder:validation:Enum=a;b", "+kubebuilder:validation:Enum=b;c"}
var c07IntMarkers = []string{"", "", "+kubebuilder:validation:Maximum=5", "+kubebuilder:validation:Maximum=7", "+kubebuilder:validation:Maximum=5\n// +kubebuilder:validation:ExclusiveMaximum=true", "+kubebuilder:validation:Minimum=1", "+kubebuilder:validation:Minimum=1\n// +kubebuilder:validation:ExclusiveMinimum=true", "+kubebuilder:validation:MultipleOf=2"}

// E2E_C07_types flattens types of programs.
func E2E_C07_types(t *vc.E2E) {
	t.Rule = "random modules of two packages with 2 string, 2 integer, 1 list and 4 struct types (no cycles), fields of these types with validation markers and comments of their own, embedded structs: the demands of each flattened type are those of its schema with references replaced, descriptions of fields before those of types; flattening twice and in any order gives the same"
	for n := t.N(60, 600); n > 0 && t.More(); n-- {
		if !c07Program(t) {
			return
		}
	}
}

func c07Program(t *vc.E2E) bool {
	comment := func(indent string, set []string) string {
		out := ""
		typ := ""
		if len(set) > 0 && strings.HasPrefix(set[0], "type ") {
			typ, set = indent+"// +kubebuilder:validation:Type="+set[0][5:]+"\n", set[1:]
		}
		if t.Intn(2) == 0 {
			out += indent + "// Text " + itoa(t.Intn(1000)) + ".\n"
		}
		for i := t.Intn(3); i > 0; i-- {
			if m := set[t.Intn(len(set))]; m != "" {
				out += typ
				typ = ""
				out += indent + "// " + strings.ReplaceAll(m, "\n", "\n"+indent) + "\n"
			}
		}
		return out
	}
	src := map[string]string{"p": "package p\n\nimport \"m.test/m/q\"\n\nvar _ q.S0\n\n", "q": "package q\n\n"}
	for _, p := range []string{"p", "q"} {
		for i := 0; i < 2; i++ {
			src[p] += comment("", c07FieldMarkers) + "type S" + itoa(i) + " string\n\n"
			src[p] += comment("", c07IntMarkers) + "type I" + itoa(i) + " int32\n\n"
		}
		src[p] += comment("", []string{"+listType=set", ""}) + "type L []S0\n\n"
		for i := 0; i < 4; i++ {
			body := ""
			pick := []string{"S0", "S1", "I0", "I1", "L", "map[string]S0", "[]S1", "string", "int32"}
			for j := 0; j < i; j++ {
				pick = append(pick, "T"+itoa(j), "T"+itoa(j), "*T"+itoa(j), "[]T"+itoa(j))
			}
			if p == "p" {
				pick = append(pick, "q.S0", "q.I1", "q.T1", "q.T3", "q.L", "map[string]q.T2")
			}
			if i > 0 && t.Intn(2) == 0 {
				body += comment("\t", []string{"type object", "+kubebuilder:validation:XValidation:rule=\"self.e\"", "+kubebuilder:validation:MinProperties=1"}) + "\tT" + itoa(t.Intn(i)) + " `json:\",inline\"`\n"
			}
			for j := 1 + t.Intn(4); j > 0; j-- {
				ty := pick[t.Intn(len(pick))]
				set := []string{"", "+optional", "+nullable"}
				base := strings.TrimPrefix(ty, "q.")
				switch {
				case base == "string":
					set = c07FieldMarkers
				case base[0] == 'S':
					set = append([]string{"type string"}, c07FieldMarkers...)
				case base == "int32":
					set = c07IntMarkers
				case base[0] == 'I':
					set = append([]string{"type integer"}, c07IntMarkers...)
				case base[0] == 'T' || base[0] == '*':
					set = []string{"type object", "", "", "+kubebuilder:validation:XValidation:rule=\"self.f\"", "+kubebuilder:validation:MaxProperties=4", "+nullable", "+mapType=atomic"}
				case base == "L":
					set = []string{"type array", "", "+kubebuilder:validation:MaxItems=4", "+kubebuilder:validation:MinItems=1"}
				case base[0] == '[':
					set = []string{"", "+kubebuilder:validation:MaxItems=4", "+kubebuilder:validation:MinItems=1"}
				}
				body += comment("\t", set) + "\tF" + itoa(i) + itoa(j) + " " + ty + " `json:\"" + t.Pick("a", "b", "c") + itoa(i) + itoa(j) + "\"`\n"
			}
			src[p] += comment("", []string{"", "+kubebuilder:validation:XValidation:rule=\"self.t\"", "+kubebuilder:validation:MaxProperties=9", "+mapType=granular"}) + "type T" + itoa(i) + " struct {\n" + body + "}\n\n"
		}
	}
	dir := module(t, map[string]string{"p/x.go": src["p"], "q/x.go": src["q"]})
	defer rmModule(t, dir)
	roots, err := loadMod(dir, "./p")
	if err != nil || len(roots) != 1 {
		t.Fail("load", "%v", err)
		return false
	}
	reg := &markers.Registry{}
	if err := crdmarkers.Register(reg); err != nil {
		panic(err)
	}
	parser := &crd.Parser{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{}}}
	crd.AddKnownTypes(parser)
	pkgs := []*loader.Package{roots[0], roots[0].Imports()["m.test/m/q"]}
	for _, p := range pkgs {
		parser.NeedPackage(p)
	}
	input := "package p:\n" + src["p"] + "\npackage q:\n" + src["q"]
	var idents []crd.TypeIdent
	for _, p := range pkgs {
		for i := 0; i < 4; i++ {
			idents = append(idents, crd.TypeIdent{Package: p, Name: "T" + itoa(i)})
		}
	}
	ok := true
	t.Try("panic", input, func() {
		for _, i := range t.Perm(len(idents)) {
			id := idents[i]
			parser.NeedSchemaFor(id)
		}
		for _, i := range t.Perm(len(idents)) {
			id := idents[i]
			parser.NeedFlattenedSchemaFor(id)
			got, have := parser.FlattenedSchemata[id]
			if !have || len(pkgErrs(roots)) > 0 {
				t.Fail("flatten", "%s\n%s is not flattened: %v", input, id, pkgErrs(roots))
				ok = false
				return
			}
			t.Case(fmt.Sprintf("%s\n%s", input, id))
			res := func(ref string, from *loader.Package) (apiext.JSONSchemaProps, *loader.Package) {
				name, pkg, err := crd.RefParts(ref)
				if err != nil {
					panic(err)
				}
				to := from
				if pkg != "" {
					to = from.Imports()[pkg]
				}
				s, have := parser.Schemata[crd.TypeIdent{Package: to, Name: name}]
				if !have {
					panic("no schema of " + ref)
				}
				return s, to
			}
			base := parser.Schemata[id]
			want := &c07Atoms{atoms: map[string]bool{}, types: map[string]map[string]bool{}, resolve: res}
			want.add(&base, "", id.Package)
			if d := want.diff(c07Collect(&got)); d != "" {
				t.Fail("program", "%s\n%s\nflattened: %s\n%s", input, id, js(got), d)
				ok = false
				return
			}
			if d := c07Docs(&base, &got, id.Package, res, ""); d != "" {
				t.Fail("docs", "%s\n%s\nflattened: %s\n%s", input, id, js(got), d)
				ok = false
				return
			}
		}
	})
	return ok
}

type c07Resolve = func(ref string, from *loader.Package) (apiext.JSONSchemaProps, *loader.Package)

// c07Doc is the description in force: the schema's own, else that of what it refers to.
func c07Doc(s *apiext.JSONSchemaProps, pkg *loader.Package, res c07Resolve) string {
	if s.Description == "" && s.Ref != nil {
		to, toPkg := res(*s.Ref, pkg)
		return c07Doc(&to, toPkg, res)
	}
	return s.Description
}

func c07Docs(s, got *apiext.JSONSchemaProps, pkg *loader.Package, res c07Resolve, at string) string {
	if want := c07Doc(s, pkg, res); got.Description != want {
		return fmt.Sprintf("the description of %q is %q, not %q", at, got.Description, want)
	}
	for s.Ref != nil {
		to, toPkg := res(*s.Ref, pkg)
		s, pkg = &to, toPkg
	}
	for k := range s.Properties {
		p, g := s.Properties[k], got.Properties[k]
		if d := c07Docs(&p, &g, pkg, res, at+"."+k); d != "" {
			return d
		}
	}
	if s.Items != nil && s.Items.Schema != nil && got.Items != nil && got.Items.Schema != nil {
		return c07Docs(s.Items.Schema, got.Items.Schema, pkg, res, at+"[]")
	}
	return ""
}

package e2e

import (
	"fmt"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

type c12Field struct {
	lines []string // comment lines, then the field itself
	name  string   // JSON name
	left  bool     // not in the schema
	bad   bool     // has to be reported
	in    string   // type it is inlined from
	req   bool
	typ   string
	doc   string
	max   int64
	raw   string
}

func c12RandField(t *vc.E2E, i int, pkgOptional, ignore bool) c12Field {
	f := c12Field{}
	goName := fmt.Sprintf("F%d", i)
	exported := t.Intn(6) > 0
	if !exported {
		goName = fmt.Sprintf("f%d", i)
	}
	names := []string{goName, "n", "x-y", "a.b", "a/b", "$ref", "inline", "omitempty", "Ünï", "required"}
	f.name = names[t.Intn(len(names))]
	if f.name != goName {
		f.name += itoa(i)
	}
	goTypes := []string{"string", "int32", "[]string", "*string", "E0", "*E1", "map[string]string"}
	goType := goTypes[t.Intn(len(goTypes))]
	embedded := t.Intn(7) == 0
	if embedded {
		goName, exported = "", true
		goType = fmt.Sprintf("E%d", i) // each at most once
	}
	if t.Intn(3) > 0 {
		f.doc = fmt.Sprintf("%s is documented%s.", f.name, strings.Repeat("!", t.Intn(3)))
		f.lines = append(f.lines, "// "+f.doc)
	}
	has := map[string]bool{}
	for _, m := range []string{"kubebuilder:validation:Optional", "kubebuilder:validation:Required", "optional", "required", "k8s:optional", "kubebuilder:validation:Schemaless"} {
		if t.Intn(5) == 0 {
			if strings.HasPrefix(m, "k8s:opt") && !embedded {
				continue
			}
			has[m] = true
			f.lines = append(f.lines, "// +"+m)
		}
	}
	if goType == "string" && !has["kubebuilder:validation:Schemaless"] && t.Intn(2) == 0 {
		f.max = int64(1 + t.Intn(50))
		f.lines = append(f.lines, fmt.Sprintf("// +kubebuilder:validation:MaxLength=%d", f.max))
	}
	opts := []string{}
	omit, inl := false, false
	for k := t.Intn(4); k > 0; k-- {
		o := []string{"omitempty", "inline", "string", "omitzero", "", "Omitempty", "omitempty", "omitempty"}[t.Intn(8)]
		if o == "inline" && !strings.HasPrefix(goType, "E") && !strings.HasPrefix(goType, "*E") {
			continue
		}
		opts = append(opts, o)
		omit, inl = omit || o == "omitempty", inl || o == "inline"
	}
	tag := f.name
	switch k := t.Intn(12); {
	case k == 0:
		tag, f.name = "-", "-"
		if len(opts) == 0 {
			f.left = true
		}
	case k == 1 || embedded && k < 8:
		if strings.HasPrefix(goType, "E") || strings.HasPrefix(goType, "*E") {
			tag, f.name = "", ""
		}
	}
	inl = inl || f.name == ""
	if inl && !strings.HasPrefix(goType, "E") && !strings.HasPrefix(goType, "*E") {
		panic("inlined " + goType)
	}
	if inl {
		f.in = strings.TrimPrefix(goType, "*")
	}
	full := fmt.Sprintf("json:%q", strings.Join(append([]string{tag}, opts...), ","))
	if t.Intn(8) == 0 {
		full = "" // no JSON tag
		if t.Intn(2) == 0 {
			full = `protobuf:"bytes,1,opt,name=json" xjson:"z"`
		}
		f.bad, f.left, f.in = true, true, ""
	} else if t.Intn(4) == 0 {
		full = `protobuf:"bytes,1,opt" ` + full
	}
	if goName != "" && !exported && ignore {
		f.left, f.bad = true, false
	}
	if f.left {
		f.in = ""
	}
	f.req = !pkgOptional && !omit
	switch {
	case has["kubebuilder:validation:Optional"]:
		f.req = false
	case has["kubebuilder:validation:Required"]:
		f.req = true
	case has["optional"]:
		f.req = false
	case has["required"]:
		f.req = true
	}
	f.req = f.req && !inl && !f.left
	switch {
	case has["kubebuilder:validation:Schemaless"]:
		f.typ = ""
	case goType == "string" || goType == "*string":
		f.typ = "string"
	case goType == "int32":
		f.typ = "integer"
	case goType == "[]string":
		f.typ = "array"
	case goType == "map[string]string":
		f.typ = "object"
	default:
		f.typ = "ref " + strings.TrimPrefix(goType, "*")
	}
	f.raw = strings.TrimSpace(goName + " " + goType)
	if full != "" {
		f.raw += " `" + full + "`"
	}
	f.lines = append(f.lines, f.raw)
	return f
}

// E2E_C12_structs compares the schemata of random structs with what their
// fields ask for.
func E2E_C12_structs(t *vc.E2E) {
	t.Rule = "random packages of 30 structs of up to 8 fields: all JSON tag options, embedded and unexported fields, all requiredness markers, both package defaults, with and without unexported fields"
	for i := 0; i < t.N(25, 600) && t.More(); i++ {
		t.Reseed(i)
		pkgOptional, ignore := t.Intn(2) == 0, t.Intn(2) == 0
		var fields [][]c12Field
		src := []string{}
		switch {
		case pkgOptional:
			src = append(src, "// +kubebuilder:validation:Optional")
		case t.Intn(2) == 0:
			src = append(src, "// +kubebuilder:validation:Required")
		}
		src = append(src, "package p", "")
		for j := 0; j < 8; j++ {
			src = append(src, fmt.Sprintf("type E%d struct {\n\tEx int `json:\"ex,omitempty\"`\n}", j))
		}
		src = strings.Split(strings.Join(src, "\n"), "\n")
		at := map[int][2]int{} // line of a field -> which
		for j := 0; j < 30; j++ {
			src = append(src, "", fmt.Sprintf("type T%d struct {", j))
			var fs []c12Field
			for k := t.Intn(8); k >= 0; k-- {
				f := c12RandField(t, len(fs), pkgOptional, ignore)
				dup := false
				for _, o := range fs {
					dup = dup || o.name == f.name && f.name != ""
				}
				if dup {
					continue
				}
				for _, l := range f.lines {
					src = append(src, "\t"+l)
					at[len(src)] = [2]int{j, len(fs)}
				}
				fs = append(fs, f)
			}
			src = append(src, "}")
			fields = append(fields, fs)
		}
		text := strings.Join(src, "\n") + "\n"
		dir := module(t, map[string]string{"p/p.go": text})
		c12Run(t, dir, text, fields, at, pkgOptional, ignore)
		rmModule(t, dir)
	}
}

func c12Run(t *vc.E2E, dir, text string, fields [][]c12Field, at map[int][2]int, pkgOptional, ignore bool) {
	roots, err := loadMod(dir, "m.test/m/p")
	if err != nil {
		panic(err)
	}
	gen := crd.Generator{}
	reg := &markers.Registry{}
	if err := gen.RegisterMarkers(reg); err != nil {
		panic(err)
	}
	p := &crd.Parser{
		Collector:              &markers.Collector{Registry: reg},
		Checker:                &loader.TypeChecker{NodeFilters: []loader.NodeFilter{gen.CheckFilter()}},
		IgnoreUnexportedFields: ignore,
	}
	crd.AddKnownTypes(p)
	p.NeedPackage(roots[0])
	if len(roots[0].Errors) > 0 {
		panic(fmt.Sprint("the generated program is not valid: ", roots[0].Errors, "\n", text))
	}
	for j, fs := range fields {
		desc := fmt.Sprintf("package optional by default: %v, unexported fields ignored: %v", pkgOptional, ignore)
		for _, f := range fs {
			desc += "\n\t" + strings.Join(f.lines, "\n\t")
		}
		t.Case(desc)
		ident := crd.TypeIdent{Package: roots[0], Name: fmt.Sprintf("T%d", j)}
		t.Try("panic", desc, func() { p.NeedSchemaFor(ident) })
		got, ok := p.Schemata[ident]
		if !ok {
			t.Fail("missing", "no schema for the struct\n%s", desc)
			continue
		}
		var props, req, allOf []string
		for _, f := range fs {
			switch {
			case f.left:
			case f.in != "":
				ref := ""
				if f.typ != "" {
					ref = "#/definitions/" + f.in
				}
				allOf = append(allOf, ref+" "+f.doc)
			default:
				typ := f.typ
				props = append(props, fmt.Sprintf("%q: %s %q %d", f.name, typ, f.doc, f.max))
			}
			if f.req {
				req = append(req, f.name)
			}
		}
		var gotProps, gotReq, gotAllOf []string
		for n, s := range got.Properties {
			typ := s.Type
			if s.Ref != nil {
				typ = "ref " + strings.TrimPrefix(*s.Ref, "#/definitions/")
			}
			max := int64(0)
			if s.MaxLength != nil {
				max = *s.MaxLength
			}
			gotProps = append(gotProps, fmt.Sprintf("%q: %s %q %d", n, typ, s.Description, max))
		}
		for _, s := range got.AllOf {
			ref := ""
			if s.Ref != nil {
				ref = *s.Ref
			}
			gotAllOf = append(gotAllOf, ref+" "+s.Description)
		}
		gotReq = append(gotReq, got.Required...)
		for _, l := range [][]string{props, req, gotProps, gotReq} {
			sort.Strings(l)
		}
		if a, b := strings.Join(gotProps, "\n"), strings.Join(props, "\n"); a != b {
			t.Fail("properties", "the properties are\n%s\ninstead of\n%s\nfor\n%s", a, b, desc)
		}
		if a, b := fmt.Sprintf("%q", gotReq), fmt.Sprintf("%q", req); a != b {
			t.Fail("required", "%s are required instead of %s for\n%s", a, b, desc)
		}
		if a, b := fmt.Sprintf("%q", gotAllOf), fmt.Sprintf("%q", allOf); a != b {
			t.Fail("inlined", "%s are inlined instead of %s for\n%s", a, b, desc)
		}
	}
	// reports
	bad := map[[2]int]int{}
	for _, e := range roots[0].Errors {
		parts := strings.Split(e.Pos, ":")
		line := 0
		if len(parts) >= 2 {
			fmt.Sscan(parts[len(parts)-2], &line)
		}
		w, ok := at[line]
		if !ok || !fields[w[0]][w[1]].bad {
			t.Fail("report", "%v was reported for\n%s", e, text)
			continue
		}
		bad[w]++
	}
	for j, fs := range fields {
		for k, f := range fs {
			if f.bad && bad[[2]int{j, k}] == 0 {
				t.Fail("untagged", "no report of a field without JSON tag: %s\n%s", f.raw, text)
			}
		}
	}
}

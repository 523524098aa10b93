package e2e

import (
	"fmt"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// c11Type is a Go type expression with what it has to become: sch is nil when
// it has to be reported.
type c11Type struct {
	expr string // as written in package p
	sch  *apiext.JSONSchemaProps
	key  bool // usable as a map key
	byt  bool // byte itself, by any alias
	nmb  bool // a named byte (its slices are not generated)
	cmp  bool // may be a map key for the Go compiler
	val  bool // supported syntactically as a map value
	inP  bool // mentions names of package p
	// lines on which the report is due: the line of the use and declarations
	decl []string
}

type c11Gen struct {
	t         *vc.E2E
	dangerous bool
	pool      []c11Type
	decls     map[string][]string // package -> declarations
	n         int
}

func c11S(typ, format string) *apiext.JSONSchemaProps {
	return &apiext.JSONSchemaProps{Type: typ, Format: format}
}

func (g *c11Gen) basics() {
	add := func(name string, s *apiext.JSONSchemaProps, key, byt bool) {
		g.pool = append(g.pool, c11Type{expr: name, sch: s, key: key, byt: byt, cmp: true, val: true})
	}
	add("bool", c11S("boolean", ""), false, false)
	add("string", c11S("string", ""), true, false)
	for _, n := range []string{"int", "int8", "int16", "uint", "uint16", "uintptr"} {
		add(n, c11S("integer", ""), false, false)
	}
	add("int32", c11S("integer", "int32"), false, false)
	add("rune", c11S("integer", "int32"), false, false)
	add("uint32", c11S("integer", "int32"), false, false)
	add("int64", c11S("integer", "int64"), false, false)
	add("uint64", c11S("integer", "int64"), false, false)
	add("byte", c11S("integer", ""), false, true)
	add("uint8", c11S("integer", ""), false, true)
	for _, n := range []string{"float32", "float64"} {
		if g.dangerous {
			add(n, c11S("number", ""), false, false)
		} else {
			add(n, nil, false, false)
		}
	}
	add("complex64", nil, false, false)
	add("complex128", nil, false, false)
	add("any", nil, false, false)
	add("error", nil, false, false)
	add("interface{}", nil, false, false)
	g.pool[len(g.pool)-1].val = false
	add("chan int", nil, false, false)
	g.pool[len(g.pool)-1].val = false
	add("func()", nil, false, false)
	g.pool[len(g.pool)-1].val = false
	g.pool[len(g.pool)-1].cmp = false
	add("unsafe.Pointer", nil, false, false)
	g.pool = append(g.pool,
		c11Type{expr: "Text", sch: c11S("string", ""), val: true, cmp: true, inP: true},
		c11Type{expr: "PText", sch: c11S("string", ""), val: true, cmp: true, inP: true},
		c11Type{expr: "Marsh", sch: c11S("integer", ""), val: true, cmp: true, inP: true},
		c11Type{expr: "Str", sch: &apiext.JSONSchemaProps{Type: "object", Properties: map[string]apiext.JSONSchemaProps{"x": {Type: "integer"}}, Required: []string{"x"}}, val: true, cmp: true, inP: true},
	)
}

// pick prefers the types that are newest.
func (g *c11Gen) pick(ok func(c c11Type) bool) c11Type {
	for {
		i := g.t.Intn(len(g.pool))
		if g.t.Intn(3) == 0 {
			i = len(g.pool) - 1 - g.t.Intn(min(len(g.pool), 12))
		}
		// mostly types that have a schema
		if c := g.pool[i]; ok(c) && (c.sch != nil || g.t.Intn(6) == 0) {
			return c
		}
	}
}

func (g *c11Gen) composite(in string) (c11Type, string) {
	c := g.composite1(in)
	if in == "q" {
		return c, strings.ReplaceAll(c.expr, "q.", "")
	}
	return c, c.expr
}

func (g *c11Gen) composite1(in string) c11Type {
	deep := func(c c11Type) bool { return len(c.expr) < 40 && !(in == "q" && c.inP) }
	switch g.t.Intn(7) {
	case 0, 1:
		c := g.pick(func(c c11Type) bool { return deep(c) && !c.nmb })
		r := c11Type{expr: "[]" + c.expr, val: true, decl: c.decl, inP: c.inP}
		if c.sch != nil {
			r.sch = &apiext.JSONSchemaProps{Type: "array", Items: &apiext.JSONSchemaPropsOrArray{Schema: c.sch}}
		}
		if c.byt {
			r.sch = c11S("string", "byte")
		}
		return r
	case 2:
		c := g.pick(deep)
		r := c11Type{expr: "[3]" + c.expr, val: true, cmp: c.cmp, decl: c.decl, inP: c.inP}
		if c.sch != nil {
			r.sch = &apiext.JSONSchemaProps{Type: "array", Items: &apiext.JSONSchemaPropsOrArray{Schema: c.sch}}
		}
		return r
	case 3, 4:
		k := g.pick(func(c c11Type) bool { return deep(c) && c.cmp && (c.key || g.t.Intn(8) == 0) })
		v := g.pick(deep)
		r := c11Type{expr: "map[" + k.expr + "]" + v.expr, val: true, decl: append(append([]string{}, k.decl...), v.decl...), inP: k.inP || v.inP}
		if k.key && v.sch != nil && v.val {
			r.sch = &apiext.JSONSchemaProps{Type: "object", AdditionalProperties: &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: v.sch}}
		}
		return r
	case 5:
		c := g.pick(deep)
		return c11Type{expr: "*" + c.expr, sch: c.sch, val: true, cmp: true, decl: c.decl, inP: c.inP}
	}
	c := g.pick(deep)
	return c
}

// declare adds a named type or an alias to a package.
func (g *c11Gen) declare() {
	in := "p"
	if g.t.Intn(3) == 0 {
		in = "q"
	}
	c, text := g.composite(in)
	g.n++
	name := fmt.Sprintf("N%d", g.n)
	alias := g.t.Intn(2) == 0
	// methods of embedded or aliased marshalers do not matter here
	sep := " "
	if alias {
		sep = " = "
	}
	line := "type " + name + sep + text
	g.decls[in] = append(g.decls[in], line)
	r := c11Type{expr: name, sch: c.sch, key: c.key, cmp: c.cmp, val: true, decl: append([]string{line}, c.decl...)}
	ptr := strings.HasPrefix(text, "*")
	if alias {
		r.byt, r.nmb = c.byt, c.nmb
	} else {
		r.nmb = c.byt || c.nmb
		if ptr && c.key {
			r.key = false
		}
		// a new name drops the methods of Text and PText
		if strings.Contains(text, "Text") && (text == "Text" || text == "PText") {
			r.sch = &apiext.JSONSchemaProps{Type: "object"}
		}
	}
	r.inP = true
	if in == "q" {
		r.expr, r.inP = "q."+name, false
	}
	g.pool = append(g.pool, r)
}

func E2E_C11_types(t *vc.E2E) {
	t.Rule = "random declarations of named types and aliases in two packages over all basic types, slices, arrays, maps, pointers, interfaces, channels and functions; every type as a field, with and without dangerous types"
	for i := 0; i < t.N(14, 400) && t.More(); i++ {
		t.Reseed(i)
		g := &c11Gen{t: t, dangerous: i%2 == 0, decls: map[string][]string{}}
		g.basics()
		for j := 0; j < 40; j++ {
			g.declare()
		}
		var fields []c11Type
		for _, c := range g.pool {
			fields = append(fields, c)
		}
		for j := 0; j < 30; j++ {
			c, text := g.composite("p")
			c.expr = text
			fields = append(fields, c)
		}
		// every field in a type of its own
		p := "package p\n\nimport (\n\t\"unsafe\"\n\t\"m.test/m/q\"\n)\n\nvar _ unsafe.Pointer\nvar _ q.Q\n\n" +
			"type Text struct{ s string }\nfunc (t Text) MarshalText() ([]byte, error) { return nil, nil }\n" +
			"type PText struct{ s string }\nfunc (t *PText) MarshalText() ([]byte, error) { return nil, nil }\n" +
			"// +kubebuilder:validation:Type=integer\ntype Marsh struct{ s string }\nfunc (t *Marsh) MarshalJSON() ([]byte, error) { return nil, nil }\n" +
			"type Str struct {\n\tX int `json:\"x\"`\n}\n" +
			strings.Join(g.decls["p"], "\n") + "\n"
		for j, f := range fields {
			p += fmt.Sprintf("type F%d struct {\n\tX %s `json:\"x\"`\n}\n", j, f.expr)
		}
		q := "package q\n\nimport \"unsafe\"\n\ntype Q struct{}\nvar _ unsafe.Pointer\n" + strings.Join(g.decls["q"], "\n") + "\n"
		dir := module(t, map[string]string{"p/p.go": p, "q/q.go": q})
		c11Run(t, g, dir, p, q, fields)
		rmModule(t, dir)
	}
}

func c11Run(t *vc.E2E, g *c11Gen, dir, p, q string, fields []c11Type) {
	for j, f := range fields {
		in := fmt.Sprintf("field of type %s, dangerous types allowed: %v, declarations:\n%s\n--- package q\n%s", f.expr, g.dangerous, strings.Join(g.decls["p"], "\n"), strings.Join(g.decls["q"], "\n"))
		t.Case(f.expr + strings.Join(f.decl, ";"))
		if j%40 == 0 {
			// a fresh parse keeps the reports apart
			roots, err := loadMod(dir, "m.test/m/p")
			if err != nil {
				panic(err)
			}
			c11roots = roots
			gen := crd.Generator{}
			c11reg = &markers.Registry{}
			if err := gen.RegisterMarkers(c11reg); err != nil {
				panic(err)
			}
			c11parser = &crd.Parser{
				Collector:           &markers.Collector{Registry: c11reg},
				Checker:             &loader.TypeChecker{NodeFilters: []loader.NodeFilter{gen.CheckFilter()}},
				AllowDangerousTypes: g.dangerous,
			}
			crd.AddKnownTypes(c11parser)
			t.Try("panic", in, func() { c11parser.NeedPackage(roots[0]) })
			for _, e := range roots[0].Errors {
				if strings.Contains(e.Error(), "typecheck") {
					panic("the generated program is not valid: " + e.Error() + "\n" + p + q)
				}
			}
		}
		ident := crd.TypeIdent{Package: c11roots[0], Name: fmt.Sprintf("F%d", j)}
		before := len(c11errs())
		t.Try("panic", in, func() {
			c11parser.NeedFlattenedSchemaFor(ident)
		})
		_ = before
		errs := c11errs()
		full := c11parser.FlattenedSchemata[ident]
		got := full.Properties["x"]
		if f.sch == nil {
			// reported on the line of the field or of a declaration it uses
			if !c11Reported(errs, p, q, fmt.Sprintf("\tX %s `json", f.expr), f.decl, fmt.Sprintf("type F%d struct", j)) {
				t.Fail("unreported", "%s\nno error, schema %s\nerrors: %v", in, js(got), errs)
			}
			continue
		}
		if js(got) != js(*f.sch) {
			t.Fail("schema", "%s\nwant %s\ngot  %s\nerrors %v", in, js(*f.sch), js(got), errs)
		}
		if c11Reported(errs, p, q, "", nil, fmt.Sprintf("type F%d struct", j)) {
			t.Fail("rejected", "%s\nerrors: %v", in, errs)
		}
	}
}

var (
	c11roots  []*loader.Package
	c11parser *crd.Parser
	c11reg    *markers.Registry
)

func c11errs() []string {
	out := pkgErrs(c11roots)
	return out
}

// c11Reported: an error is reported for the field of the type after the line
// with head, or for one of the declarations.
func c11Reported(errs []string, p, q, field string, decls []string, head string) bool {
	for file, src := range map[string]string{"p/p.go": p, "q/q.go": q} {
		lines := strings.Split(src, "\n")
		for n, l := range lines {
			hit := file == "p/p.go" && n > 0 && strings.HasPrefix(lines[n-1], head)
			for _, d := range decls {
				hit = hit || l == d
			}
			if !hit {
				continue
			}
			for _, e := range errs {
				if strings.Contains(e, fmt.Sprintf("%s:%d:", file, n+1)) {
					return true
				}
			}
		}
	}
	return false
}

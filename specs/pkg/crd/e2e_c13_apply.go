package crd

import (
	"fmt"
	"go/ast"
	"go/token"
	"strings"

	"golang.org/x/tools/go/packages"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// Oracle for C13: markers that write down when they are applied, and to what.

type c13Log struct {
	ids    []int
	on     []*apiext.JSONSchemaProps
	schema *apiext.JSONSchemaProps
	items  *apiext.JSONSchemaProps
}

type c13Plain struct {
	id   int
	log  *c13Log
	fail bool
	do   func(*apiext.JSONSchemaProps)
}

func (m c13Plain) ApplyToSchema(s *apiext.JSONSchemaProps) error {
	m.log.ids = append(m.log.ids, m.id)
	m.log.on = append(m.log.on, s)
	if m.do != nil {
		m.do(s)
	}
	if m.fail {
		return fmt.Errorf("marker %d fails", m.id)
	}
	return nil
}

type c13First struct{ c13Plain }

func (m c13First) ApplyFirst() {}

type c13WithPrio struct {
	c13Plain
	prio crdmarkers.ApplyPriority
}

func (m c13WithPrio) ApplyPriority() crdmarkers.ApplyPriority { return m.prio }

// c13Both has a priority, which counts, and wants to be first.
type c13Both struct{ c13WithPrio }

func (m c13Both) ApplyFirst() {}

type c13Other struct{ id int }

func E2E_C13_apply(t *vc.E2E) {
	t.Rule = "random sets of up to 60 markers with up to 6 names, default, first and explicit priorities, failing and not, on arrays and others; markers that turn the schema into an array or back; every map order the runtime picks"
	fset := token.NewFileSet()
	roots, err := loader.LoadRootsWithConfig(&packages.Config{Fset: fset}, "errors")
	if err != nil || len(roots) != 1 {
		panic(fmt.Sprint("cannot load a package: ", err))
	}
	pkg := roots[0]
	file := fset.AddFile("/src/x.go", -1, 1000)
	file.SetLines([]int{0, 100, 200, 300})
	for i := 0; i < t.N(6000, 300000) && t.More(); i++ {
		t.Reseed(i)
		pkg.Errors = nil
		ctx := &schemaContext{pkg: pkg}
		node := &ast.Ident{NamePos: file.Pos(100 + t.Intn(300)), Name: "x"}
		log := &c13Log{}
		s := &apiext.JSONSchemaProps{}
		switch t.Intn(5) {
		case 0:
			s.Type = "string"
		case 1:
			s.Type = "array"
		case 2:
			s.Type = "array"
			s.Items = &apiext.JSONSchemaPropsOrArray{}
		default:
			s.Type = "array"
			s.Items = &apiext.JSONSchemaPropsOrArray{Schema: &apiext.JSONSchemaProps{Type: "string"}}
		}
		type one struct {
			prio  int
			items bool
			name  string
			at    int
			fail  bool
			flip  bool
		}
		var all []one // by id
		set := markers.MarkerValues{}
		desc := "schema of type " + s.Type
		for n := t.Intn(7); n > 0; n-- {
			name := fmt.Sprintf("m%d", n)
			items := t.Intn(3) == 0
			if items {
				name = crdmarkers.ValidationItemsPrefix + name
			}
			max := 4
			if t.Intn(4) == 0 {
				max = 25
			}
			base := t.Intn(4)
			for k := t.Intn(max); k > 0; k-- {
				if t.Intn(6) == 0 {
					set[name] = append(set[name], []any{c13Other{k}, "text", nil, true}[t.Intn(4)])
					continue
				}
				p := c13Plain{id: len(all), log: log, fail: t.Intn(6) == 0}
				o := one{items: items, name: name, at: len(set[name]), fail: p.fail, prio: 10}
				if !items && t.Intn(12) == 0 {
					o.flip = true
					p.do = func(s *apiext.JSONSchemaProps) {
						if s.Items == nil {
							s.Type = "array"
							s.Items = &apiext.JSONSchemaPropsOrArray{Schema: &apiext.JSONSchemaProps{}}
						} else {
							s.Items = nil
						}
					}
				}
				kind := base
				if t.Intn(3) == 0 {
					kind = t.Intn(4)
				}
				switch kind {
				case 0:
					set[name] = append(set[name], p)
				case 1:
					o.prio = 1
					set[name] = append(set[name], c13First{p})
				case 2:
					o.prio = []int{-3, 0, 1, 2, 9, 10, 11, 100}[t.Intn(8)]
					set[name] = append(set[name], c13WithPrio{p, crdmarkers.ApplyPriority(o.prio)})
				default:
					o.prio = []int{5, 9, 10, 11}[t.Intn(4)]
					v := c13Both{c13WithPrio{p, crdmarkers.ApplyPriority(o.prio)}}
					if t.Intn(2) == 0 {
						set[name] = append(set[name], &v)
					} else {
						set[name] = append(set[name], v)
					}
				}
				desc += fmt.Sprintf("\n%d: %s priority %d fails %v changes the type %v", p.id, name, o.prio, o.fail, o.flip)
				all = append(all, o)
			}
		}
		t.Case(desc)
		ok := false
		t.Try("panic", desc, func() { applyMarkers(ctx, set, s, node); ok = true })
		if !ok {
			continue
		}
		isItems := s.Type == "array" && s.Items != nil && s.Items.Schema != nil
		times := make([]int, len(all))
		errs := 0
		for k, id := range log.ids {
			o := all[id]
			times[id]++
			if o.fail {
				errs++
			}
			if o.items && (!isItems || log.on[k] != s.Items.Schema) || !o.items && log.on[k] != s {
				t.Fail("target", "marker %d was applied to the wrong schema\n%s", id, desc)
			}
			if k == 0 {
				continue
			}
			p := all[log.ids[k-1]]
			switch {
			case p.items && !o.items:
				t.Fail("items", "items marker %d was applied before marker %d\n%s", log.ids[k-1], id, desc)
			case p.items == o.items && p.prio > o.prio:
				t.Fail("priority", "marker %d of priority %d was applied before marker %d of priority %d\n%s", log.ids[k-1], p.prio, id, o.prio, desc)
			}
		}
		pos := map[int]int{}
		for k, id := range log.ids {
			pos[id] = k
		}
		for a := range all {
			for b := range all {
				if a < b && all[a].name == all[b].name && all[a].prio == all[b].prio && times[a] == 1 && times[b] == 1 && pos[a] > pos[b] {
					t.Fail("order", "markers %d and %d of one name and priority were not applied in source order\n%s", a, b, desc)
				}
			}
		}
		for id, o := range all {
			want := 1
			if o.items && !isItems {
				want = 0
				errs++
			}
			if times[id] != want {
				t.Fail("once", "marker %d was applied %d times instead of %d\n%s", id, times[id], want, desc)
			}
		}
		if len(pkg.Errors) != errs {
			t.Fail("errors", "%d errors were reported instead of %d: %v\n%s", len(pkg.Errors), errs, pkg.Errors, desc)
		}
		want := fset.Position(node.Pos()).String()
		for _, e := range pkg.Errors {
			if e.Pos != want {
				t.Fail("position", "an error was reported at %s instead of %s\n%s", e.Pos, want, desc)
			}
		}
		for id, o := range all {
			if o.fail && times[id] == 1 {
				found := false
				for _, e := range pkg.Errors {
					found = found || strings.Contains(e.Msg, fmt.Sprintf("marker %d fails", id))
				}
				if !found {
					t.Fail("lost", "the error of marker %d is not among %v\n%s", id, pkg.Errors, desc)
				}
			}
		}
	}
}

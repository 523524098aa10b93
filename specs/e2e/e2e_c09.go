package e2e

import (
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
)

// c09Node is a node of the tree of visitors: the visitor returned for a node
// of the schema visits that node's children.
type c09Rec struct {
	events []string // "+id" a visit, "-id" completion of node id's children
	parent map[string]string
	prune  map[string]bool
}

type c09Visitor struct {
	r  *c09Rec
	of string // node whose children it visits
}

func (v *c09Visitor) Visit(s *apiext.JSONSchemaProps) crd.SchemaVisitor {
	if s == nil {
		v.r.events = append(v.r.events, "-"+v.of)
		return nil
	}
	id := s.ID
	v.r.events = append(v.r.events, "+"+id)
	v.r.parent[id] = v.of
	// edits of scalar, pointer, slice and map fields
	s.Title += "!"
	s.Required = append([]string{"x" + id}, s.Required...)
	s.MaxLength = ptr(int64(len(id)))
	s.Nullable = !s.Nullable
	if v.r.prune[id] {
		return nil
	}
	return &c09Visitor{v.r, id}
}

func E2E_C09_walk(t *vc.E2E) {
	t.Rule = "random schemas over every keyword with unique node ids; a recording visitor that edits every node and prunes random ones"
	for i := 0; i < t.N(3000, 60000) && t.More(); i++ {
		t.Reseed(i)
		s := randSchema(t, 1+t.Intn(3))
		n := 0
		parent := map[string]string{}
		kids := map[string]int{}
		var number func(s *apiext.JSONSchemaProps, up string)
		number = func(s *apiext.JSONSchemaProps, up string) {
			if s == nil {
				return
			}
			n++
			s.ID = "n" + itoa(n)
			if t.Intn(6) == 0 {
				s.Ref = ptr(t.Pick("#/definitions/X", "", "#/definitions/Y"))
			}
			parent[s.ID] = up
			kids[up]++
			id := s.ID
			children(s, func(c *apiext.JSONSchemaProps) { number(c, id) })
		}
		number(&s, "")
		prune := map[string]bool{}
		if t.Intn(2) == 0 {
			for k := 1; k <= n; k++ {
				if t.Intn(6) == 0 {
					prune["n"+itoa(k)] = true
				}
			}
		}
		hidden := func(id string) bool {
			for p := parent[id]; p != ""; p = parent[p] {
				if prune[p] {
					return true
				}
			}
			return false
		}
		before := js(s)
		want := s.DeepCopy()
		var edit func(s *apiext.JSONSchemaProps)
		edit = func(s *apiext.JSONSchemaProps) {
			if s == nil {
				return
			}
			s.Title += "!"
			s.Required = append([]string{"x" + s.ID}, s.Required...)
			s.MaxLength = ptr(int64(len(s.ID)))
			s.Nullable = !s.Nullable
			if !prune[s.ID] {
				children(s, edit)
			}
		}
		edit(want)
		rec := &c09Rec{parent: map[string]string{}, prune: prune}
		t.Case(before)
		t.Try("panic", before, func() {
			crd.EditSchema(&s, &c09Visitor{rec, ""})
			if js(s) != js(want) {
				t.Fail("edits", "schema %s\nedited to %s\nwanted %s", before, js(s), js(want))
			}
			seen, done := map[string]int{}, map[string]int{}
			for _, e := range rec.events {
				id := e[1:]
				if e[0] == '-' {
					done[id]++
					if seen[id] == 0 {
						t.Fail("completion before visit", "%s: %v", before, rec.events)
					}
					continue
				}
				seen[id]++
				if p := parent[id]; p != "" && (seen[p] == 0 || done[p] > 0) {
					t.Fail("order", "schema %s: %s is visited outside its parent %s: %v", before, id, p, rec.events)
				}
				if rec.parent[id] != parent[id] {
					t.Fail("visitor", "schema %s: %s is visited by the visitor of %q", before, id, rec.parent[id])
				}
			}
			for id := range parent {
				w := 1
				if hidden(id) {
					w = 0
				}
				d := w
				if prune[id] {
					d = 0
				}
				if seen[id] != w || done[id] != d {
					t.Fail("count", "schema %s (pruned %v): node %s is visited %d times, completed %d times", before, prune, id, seen[id], done[id])
				}
			}
		})
	}
}

type c09Chain struct {
	n      int
	events *[]string
}

func (v c09Chain) Visit(s *apiext.JSONSchemaProps) crd.SchemaVisitor {
	if s == nil {
		*v.events = append(*v.events, "-"+itoa(v.n))
		return nil
	}
	*v.events = append(*v.events, "+"+itoa(v.n))
	if s.Ref != nil && *s.Ref == "a" {
		s.Ref = ptr("b")
	} else if s.Ref != nil && *s.Ref == "b" && v.n < 9 {
		s.Ref = ptr("a")
	}
	return c09Chain{v.n + 1, v.events}
}

// A visitor that replaces references sees the node again until the chain of
// references ends or comes round.
func E2E_C09_cycles(t *vc.E2E) {
	t.Rule = "a visitor that replaces references in a circle"
	t.Case("a->b->a")
	t.Try("panic", "", func() {
		var ev []string
		s := &apiext.JSONSchemaProps{Ref: ptr("a")}
		crd.EditSchema(s, c09Chain{0, &ev})
		open := map[string]int{}
		for _, e := range ev {
			if e[0] == '+' {
				open[e[1:]]++
			}
		}
		if len(ev) == 0 || len(ev) > 10 {
			t.Fail("circular references", "%v", ev)
		}
	})
}

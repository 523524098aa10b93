package yaml

import (
	"fmt"
	"strings"

	"gopkg.in/yaml.v3"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// c20Doc is a document: a scalar, a list or a mapping with ordered keys.
type c20Doc struct {
	scalar string
	list   bool
	items  []*c20Doc
	keys   []string // of a mapping (nil when it is none)
	isMap  bool
}

func c20Rand(t *vc.E2E, depth int) *c20Doc {
	switch k := t.Intn(6); {
	case depth == 0 || k == 0:
		return &c20Doc{scalar: t.Pick("a", "7", "null", "true", "\"\"", "spec")}
	case k == 1:
		d := &c20Doc{list: true}
		for n := t.Intn(3); n > 0; n-- {
			d.items = append(d.items, c20Rand(t, depth-1))
		}
		return d
	}
	d := &c20Doc{isMap: true}
	for n := t.Intn(5); n > 0; n-- {
		key := c20Key(t)
		for _, k := range d.keys {
			if k == key {
				key = ""
			}
		}
		if key != "" {
			d.keys = append(d.keys, key)
			d.items = append(d.items, c20Rand(t, depth-1))
		}
	}
	return d
}

func c20Key(t *vc.E2E) string {
	return t.Pick("spec", "versions", "validation", "schema", "a", "b", "7", "openAPIV3Schema", "x y", "A")
}

// flow is the document in one line (styles and comments do not matter here).
func (d *c20Doc) flow() string {
	var parts []string
	switch {
	case d.isMap:
		for i, k := range d.keys {
			parts = append(parts, fmt.Sprintf("%q: %s", k, d.items[i].flow()))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case d.list:
		for _, i := range d.items {
			parts = append(parts, i.flow())
		}
		return "[" + strings.Join(parts, ", ") + "]"
	}
	return d.scalar
}

func (d *c20Doc) child(key string) *c20Doc {
	for i, k := range d.keys {
		if k == key {
			return d.items[i]
		}
	}
	return nil
}

// follow is the node the path leads to; bad when it leads through something
// that is not a mapping.
func (d *c20Doc) follow(path []string) (at *c20Doc, bad bool) {
	for _, k := range path {
		if !d.isMap {
			return nil, true
		}
		if d = d.child(k); d == nil {
			return nil, false
		}
	}
	return d, false
}

func (d *c20Doc) set(path []string, v *c20Doc) bool {
	if len(path) == 0 {
		*d = *v
		return true
	}
	if !d.isMap {
		return false
	}
	c := d.child(path[0])
	if c == nil {
		c = &c20Doc{isMap: true}
		d.keys, d.items = append(d.keys, path[0]), append(d.items, c)
	}
	return c.set(path[1:], v)
}

func (d *c20Doc) del(path []string) bool {
	if !d.isMap {
		return false
	}
	c := d.child(path[0])
	if len(path) > 1 {
		return c == nil || c.del(path[1:])
	}
	for i, k := range d.keys {
		if k == path[0] {
			d.keys = append(append([]string{}, d.keys[:i]...), d.keys[i+1:]...)
			d.items = append(append([]*c20Doc{}, d.items[:i]...), d.items[i+1:]...)
			break
		}
	}
	return true
}

func c20Parse(text string) *yaml.Node {
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(text), &n); err != nil {
		panic(err.Error() + text)
	}
	return &n
}

// c20Text is a canonical text of what a node says.
func c20Text(n *yaml.Node) string {
	var parts []string
	switch n.Kind {
	case yaml.DocumentNode:
		return c20Text(n.Content[0])
	case yaml.MappingNode:
		for i := 0; i+1 < len(n.Content); i += 2 {
			parts = append(parts, fmt.Sprintf("%q: %s", n.Content[i].Value, c20Text(n.Content[i+1])))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case yaml.SequenceNode:
		for _, c := range n.Content {
			parts = append(parts, c20Text(c))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	}
	if n.Value == "" {
		return `""`
	}
	return n.Value
}

func E2E_C20_paths(t *vc.E2E) {
	t.Rule = "random documents up to depth four, histories of up to five reads, settings and deletions of random paths of up to four keys"
	for i := 0; i < t.N(20000, 800000) && t.More(); i++ {
		t.Reseed(i)
		doc := c20Rand(t, 4)
		if t.Intn(4) > 0 && !doc.isMap {
			continue
		}
		hist := "document " + doc.flow()
		root := c20Parse(doc.flow())
		for n := 1 + t.Intn(5); n > 0; n-- {
			var path []string
			for d, l := doc, 1+t.Intn(4); l > 0; l-- {
				k := c20Key(t)
				// mostly along what is there
				if d != nil && len(d.keys) > 0 && t.Intn(4) > 0 {
					k = d.keys[t.Intn(len(d.keys))]
				}
				path = append(path, k)
				if d != nil {
					d = d.child(k)
				}
			}
			var err error
			ok := true
			switch t.Intn(3) {
			case 0:
				if t.Intn(5) == 0 {
					path = path[:0]
				}
				hist += fmt.Sprintf("\nget %q", path)
				want, bad := doc.follow(path)
				t.Try("panic", hist, func() {
					var got *yaml.Node
					var found bool
					got, found, err = GetNode(root, path...)
					if err == nil && !bad && (found != (want != nil) || found && c20Text(got) != want.flow()) {
						t.Fail("read", "%s\nfound %v, should be there: %v", hist, found, want != nil)
					}
				})
				ok = !bad
			case 1:
				v := c20Rand(t, 2)
				hist += fmt.Sprintf("\nset %q to %s", path, v.flow())
				before := doc.flow()
				// (the reference is set on a copy so that a refusal changes nothing)
				c := c20FromNode(c20Parse(before))
				if ok = c.set(path, v); ok {
					doc = c
				}
				val := c20Parse(v.flow()).Content[0]
				t.Try("panic", hist, func() {
					err = SetNode(root, *val, path...)
					if err == nil && ok {
						if got, found, err := GetNode(root, path...); err != nil || !found || c20Text(got) != v.flow() {
							t.Fail("read what was set", "%s\nfound %v, %v", hist, found, err)
						}
					}
				})
			case 2:
				hist += fmt.Sprintf("\ndelete %q", path)
				ok = doc.del(path)
				t.Try("panic", hist, func() {
					err = DeleteNode(root, path...)
					if _, found, e := GetNode(root, path...); err == nil && (found || e != nil) {
						t.Fail("deleted", "%s\nstill found %v, %v", hist, found, e)
					}
				})
			}
			t.Case(hist)
			if (err == nil) != ok {
				t.Fail("refusal", "%s\nerror %v, should be accepted: %v", hist, err, ok)
				break
			}
			if got := c20Text(root); got != doc.flow() {
				t.Fail("document", "%s\nis   %s\nwant %s", hist, got, doc.flow())
				break
			}
		}
	}
}

func c20FromNode(n *yaml.Node) *c20Doc {
	switch n.Kind {
	case yaml.DocumentNode:
		return c20FromNode(n.Content[0])
	case yaml.MappingNode:
		d := &c20Doc{isMap: true}
		for i := 0; i+1 < len(n.Content); i += 2 {
			d.keys = append(d.keys, n.Content[i].Value)
			d.items = append(d.items, c20FromNode(n.Content[i+1]))
		}
		return d
	case yaml.SequenceNode:
		d := &c20Doc{list: true}
		for _, c := range n.Content {
			d.items = append(d.items, c20FromNode(c))
		}
		return d
	}
	return &c20Doc{scalar: c20Text(n)}
}

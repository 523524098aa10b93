package yaml

import (
	"gopkg.in/yaml.v3"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C20: YAML manifests are edited only where asked.

// c20Find is the index of the first key in a mapping (-1 when it is absent).
func c20Find(content []*yaml.Node, key string) int {
	for i := 0; i < len(content)/2; i++ {
		if content[i*2].Value == key {
			return i
		}
	}
	return -1
}

// c20Content: the children are there.
func c20Content(n *yaml.Node) bool {
	return vc.Forall(0, len(n.Content), func(i int) bool { return n.Content[i] != nil })
}

//vc:logical
func VC_C20_value(root *yaml.Node, key string) {
	vc.Requires(root != nil && c20Content(root))
	snap := vc.Snap()
	got, err := ValueInMapping(root, key)
	vc.OnlyModifies(snap, "reading changes nothing")
	if root.Kind != yaml.MappingNode {
		vc.Ensures("what is not a mapping is an error", err != nil && got == nil)
		return
	}
	vc.Ensures("a mapping can be read", err == nil)
	if i := c20Find(root.Content, key); i >= 0 {
		vc.Ensures("the value of the key", got == root.Content[i*2+1])
	} else {
		vc.Ensures("nothing for an absent key", got == nil)
	}
}

//vc:logical
func VC_C20_delete(root *yaml.Node, key string) {
	vc.Requires(root != nil && c20Content(root) && root.Kind != yaml.DocumentNode)
	old := root.Content
	kind := root.Kind
	at := c20Find(old, key)
	n := len(old)
	j := vc.AnyIndex(len(old))
	var e *yaml.Node
	if j >= 0 {
		e = old[j]
	}
	snap := vc.Snap()
	err := DeleteNode(root, key)
	vc.OnlyModifies(snap, "only the list of children changes", &root.Content, old)
	vc.Ensures("only mappings have keys", (err != nil) == (kind != yaml.MappingNode))
	if err != nil || at < 0 {
		vc.Ensures("nothing changes", len(root.Content) == n && vc.Same(root.Content, old))
		return
	}
	vc.Ensures("the entry is removed", len(root.Content) == n-2)
	if len(root.Content) == n-2 && j >= 0 {
		if j < 2*at {
			vc.Ensures("entries before it stay", root.Content[j] == e)
		}
		if j > 2*at+1 {
			vc.Ensures("entries after it stay in order", root.Content[j-2] == e)
		}
	}
}

// c20Top is the node a path starts from.
func c20Top(root *yaml.Node) *yaml.Node {
	if root.Kind == yaml.DocumentNode && len(root.Content) > 0 {
		return root.Content[0]
	}
	return root
}

// c20Child is the value of a key (nil when it is absent) of a mapping.
func c20Child(n *yaml.Node, key string) *yaml.Node {
	if i := c20Find(n.Content, key); i >= 0 {
		return n.Content[i*2+1]
	}
	return nil
}

//vc:logical
func VC_C20_get(root *yaml.Node, a, b string) {
	vc.Requires(root != nil && c20Content(root))
	top := c20Top(root)
	vc.Requires(c20Content(top))
	one := c20Child(top, a)
	vc.Requires(one == nil || c20Content(one))
	snap := vc.Snap()
	got, found, err := GetNode(root, a, b)
	all, foundAll, errAll := GetNode(root)
	first, foundFirst, errFirst := GetNode(root, a)
	vc.OnlyModifies(snap, "reading changes nothing")
	vc.Ensures("the empty path is the whole document", all == top && foundAll && errAll == nil)
	if top.Kind != yaml.MappingNode {
		vc.Ensures("a path through another node is an error", err != nil && errFirst != nil)
		return
	}
	vc.Ensures("one key", errFirst == nil && foundFirst == (one != nil) && first == one)
	if one == nil {
		vc.Ensures("beyond an absent key there is nothing", err == nil && !found && got == nil)
		return
	}
	if one.Kind != yaml.MappingNode {
		vc.Ensures("a path through another node is an error", err != nil)
		return
	}
	two := c20Child(one, b)
	vc.Ensures("two keys", err == nil && found == (two != nil) && got == two)
}

//vc:logical
func VC_C20_delete2(root *yaml.Node, a, key string) {
	vc.Requires(root != nil && c20Content(root))
	top := c20Top(root)
	vc.Requires(c20Content(top))
	n := c20Child(top, a)
	vc.Requires(n == nil || c20Content(n))
	snap := vc.Snap()
	if top.Kind != yaml.MappingNode {
		vc.Ensures("a path through another node is an error", DeleteNode(root, a, key) != nil)
		vc.OnlyModifies(snap, "that changes nothing")
		return
	}
	if n == nil {
		vc.Ensures("what is absent stays absent", DeleteNode(root, a, key) == nil)
		vc.OnlyModifies(snap, "and nothing changes")
		return
	}
	old := n.Content
	at := c20Find(old, key)
	size := len(old)
	j := vc.AnyIndex(size)
	var e *yaml.Node
	if j >= 0 {
		e = old[j]
	}
	err := DeleteNode(root, a, key)
	vc.OnlyModifies(snap, "only the list of children changes", &n.Content, old)
	vc.Ensures("only mappings have keys", (err != nil) == (n.Kind != yaml.MappingNode))
	if err != nil || at < 0 {
		vc.Ensures("nothing changes", len(n.Content) == size && vc.Same(n.Content, old))
		return
	}
	vc.Ensures("the entry is removed", len(n.Content) == size-2)
	if len(n.Content) == size-2 && j >= 0 {
		if j < 2*at {
			vc.Ensures("entries before it stay", n.Content[j] == e)
		}
		if j > 2*at+1 {
			vc.Ensures("entries after it stay in order", n.Content[j-2] == e)
		}
	}
}

//vc:logical
func VC_C20_set1(root *yaml.Node, a string, val yaml.Node) {
	vc.Requires(root != nil && c20Content(root))
	top := c20Top(root)
	vc.Requires(c20Content(top))
	one := c20Child(top, a)
	vc.Requires(one != top && (one != nil || top.Kind != yaml.MappingNode))
	snap := vc.Snap()
	err := SetNode(root, val, a)
	vc.Ensures("only mappings have keys", (err != nil) == (top.Kind != yaml.MappingNode))
	if err != nil {
		vc.OnlyModifies(snap, "a refused change changes nothing")
		return
	}
	vc.OnlyModifies(snap, "only the value changes", one)
	vc.Ensures("the value is set", one.Kind == val.Kind && one.Value == val.Value && one.Tag == val.Tag && vc.Same(one.Content, val.Content))
}

//vc:logical
func VC_C20_add1(root *yaml.Node, a string, val yaml.Node) {
	vc.Requires(root != nil && c20Content(root))
	top := c20Top(root)
	vc.Requires(c20Content(top) && top.Kind == yaml.MappingNode)
	vc.Requires(c20Child(top, a) == nil)
	old := top.Content
	n := len(old)
	j := vc.AnyIndex(n)
	var e *yaml.Node
	if j >= 0 {
		e = old[j]
	}
	snap := vc.Snap()
	err := SetNode(root, val, a)
	vc.Ensures("mappings have keys", err == nil)
	vc.OnlyModifies(snap, "only the mapping gets longer", &top.Content, old)
	vc.Ensures("one entry is added", len(top.Content) == n+2)
	if len(top.Content) == n+2 {
		vc.Ensures("behind the others", j < 0 || top.Content[j] == e)
		vc.Ensures("it has the key", top.Content[n].Value == a && top.Content[n].Kind == yaml.ScalarNode)
		vc.Ensures("and the value", vc.Same(*top.Content[n+1], val))
	}
}

//vc:logical
func VC_C20_set2(root *yaml.Node, a, b string, val yaml.Node) {
	vc.Requires(root != nil && c20Content(root))
	top := c20Top(root)
	vc.Requires(c20Content(top) && top.Kind == yaml.MappingNode)
	one := c20Child(top, a)
	vc.Requires(one != nil && one != top && c20Content(one))
	two := c20Child(one, b)
	vc.Requires(two != one && two != top && (two != nil || one.Kind != yaml.MappingNode))
	snap := vc.Snap()
	err := SetNode(root, val, a, b)
	vc.Ensures("only mappings have keys", (err != nil) == (one.Kind != yaml.MappingNode))
	if err != nil {
		vc.OnlyModifies(snap, "a refused change changes nothing")
		return
	}
	vc.OnlyModifies(snap, "only the value changes", two)
	vc.Ensures("the value is set", two.Kind == val.Kind && two.Value == val.Value && two.Tag == val.Tag && vc.Same(two.Content, val.Content))
}

//vc:logical
func VC_C20_add2(root *yaml.Node, a, b string, val yaml.Node) {
	vc.Requires(root != nil && c20Content(root))
	top := c20Top(root)
	vc.Requires(c20Content(top) && top.Kind == yaml.MappingNode)
	one := c20Child(top, a)
	vc.Requires(one != nil && one != top && one.Kind == yaml.MappingNode && c20Content(one))
	vc.Requires(c20Child(one, b) == nil)
	old := one.Content
	n := len(old)
	j := vc.AnyIndex(n)
	var e *yaml.Node
	if j >= 0 {
		e = old[j]
	}
	snap := vc.Snap()
	err := SetNode(root, val, a, b)
	vc.Ensures("mappings have keys", err == nil)
	vc.OnlyModifies(snap, "only the mapping gets longer", &one.Content, old)
	vc.Ensures("one entry is added", len(one.Content) == n+2)
	if len(one.Content) == n+2 {
		vc.Ensures("behind the others", j < 0 || one.Content[j] == e)
		vc.Ensures("it has the key", one.Content[n].Value == b && one.Content[n].Kind == yaml.ScalarNode)
		v := one.Content[n+1]
		vc.Ensures("and the value", v.Kind == val.Kind && v.Value == val.Value && v.Tag == val.Tag && vc.Same(v.Content, val.Content))
	}
}

//vc:logical
func VC_C20_make2(root *yaml.Node, a, b string, val yaml.Node) {
	vc.Requires(root != nil && c20Content(root))
	top := c20Top(root)
	vc.Requires(c20Content(top) && top.Kind == yaml.MappingNode)
	vc.Requires(c20Child(top, a) == nil)
	old := top.Content
	n := len(old)
	j := vc.AnyIndex(n)
	var e *yaml.Node
	if j >= 0 {
		e = old[j]
	}
	snap := vc.Snap()
	err := SetNode(root, val, a, b)
	vc.Ensures("mappings have keys", err == nil)
	vc.OnlyModifies(snap, "only the mapping gets longer", &top.Content, old)
	vc.Ensures("one entry is added", len(top.Content) == n+2)
	if len(top.Content) == n+2 {
		vc.Ensures("behind the others", j < 0 || top.Content[j] == e)
		vc.Ensures("it has the key", top.Content[n].Value == a && top.Content[n].Kind == yaml.ScalarNode)
		m := top.Content[n+1]
		vc.Ensures("and a new mapping", m.Kind == yaml.MappingNode && len(m.Content) == 2)
		if len(m.Content) == 2 {
			vc.Ensures("with the other key", m.Content[0].Value == b && m.Content[0].Kind == yaml.ScalarNode)
			v := m.Content[1]
			vc.Ensures("and the value", v.Kind == val.Kind && v.Value == val.Value && v.Tag == val.Tag && vc.Same(v.Content, val.Content))
		}
	}
}

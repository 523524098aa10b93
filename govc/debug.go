package main

import "strings"

// String shows a term (for debugging).
func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if t == nil {
		return "<nil>"
	}
	if t.isInt() {
		return t.I.String()
	}
	n := t.Op
	if t.Name != "" {
		n += ":" + t.Name
	}
	if len(t.Args) == 0 {
		return n
	}
	if d > 7 {
		return "…"
	}
	var a []string
	for _, x := range t.Args {
		a = append(a, x.show(d+1))
	}
	return "(" + n + " " + strings.Join(a, " ") + ")"
}

package e2e

import (
	"fmt"
	"go/ast"
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// c16Line is one line of a comment, without what makes it a comment.
func c16Line(t *vc.E2E, block bool) string {
	switch t.Intn(16) {
	case 0, 1:
		return ""
	case 2:
		return []string{"TODO fix this", "TODO(me): fix this", "TODO", "TODOS are many"}[t.Intn(4)]
	case 3:
		return []string{"---", "--- and so on", "----"}[t.Intn(3)]
	case 4, 5:
		return []string{"```", "~~~", "```go", "~~~~"}[t.Intn(4)]
	case 6:
		return []string{"not TODO this", " TODO indented", "-- no end", " --- indented", "todo small", "`` no fence", " ``` indented"}[t.Intn(7)]
	case 7, 8:
		return []string{"+marker", "+kubebuilder:validation:MaxLength=3", "  +optional", "\t+x=y", "+", "+ spaced"}[t.Intn(6)]
	case 9:
		return []string{"a+b", "- +x", "\\+x", "++x"}[t.Intn(4)]
	case 10:
		return []string{"  - item", "\tcode", "    four", "trailing  ", "trailing\t"}[t.Intn(5)]
	case 11:
		return []string{"日本語。", "é", "“quoted”", "% \\ \" '", "// nested", "/* nested", "#"}[t.Intn(5)]
	}
	w := []string{"The", "spec", "of", "it", "is", "long.", "Foo", "x=1", "[a]", "e.g."}
	n := 1 + t.Intn(4)
	var s []string
	for ; n > 0; n-- {
		s = append(s, w[t.Intn(len(w))])
	}
	return strings.Join(s, " ")
}

type c16Part struct {
	block bool
	tight bool // no space after //
	lines []string
}

// c16Comment is a random comment: its source lines and its description.
func c16Comment(t *vc.E2E) ([]string, string) {
	var parts []c16Part
	switch t.Intn(10) {
	case 0:
		return nil, ""
	case 1:
		// one block comment
		p := c16Part{block: true}
		for n := 1 + t.Intn(6); n > 0; n-- {
			p.lines = append(p.lines, c16Line(t, true))
		}
		parts = append(parts, p)
	default:
		for n := 1 + t.Intn(9); n > 0; n-- {
			parts = append(parts, c16Part{tight: t.Intn(8) == 0, lines: []string{c16Line(t, false)}})
		}
	}
	var src, text []string
	blocks, none := false, true
	for _, p := range parts {
		if p.block {
			blocks = true
			for i, l := range p.lines {
				p.lines[i] = strings.ReplaceAll(strings.ReplaceAll(l, "*/", ""), "/*", "")
			}
			src = append(src, "/*")
			src = append(src, p.lines...)
			src = append(src, "*/")
			text = append(text, "")
			text = append(text, p.lines...)
			text = append(text, "")
			continue
		}
		l := p.lines[0]
		if p.tight {
			src = append(src, "//"+l)
			// one leading space belongs to the comment mark
			l = strings.TrimPrefix(l, " ")
		} else {
			src = append(src, "// "+l)
		}
		if strings.HasPrefix(strings.TrimSpace(l), "+") {
			none = false
			continue // a marker
		}
		text = append(text, l)
	}
	_ = none
	// blank lines at the start and end are no part of a text, and several of
	// them are one; so is space at the end of a line
	var lines []string
	for _, l := range text {
		l = strings.TrimRight(l, " \t\r")
		if l == "" && (len(lines) == 0 || lines[len(lines)-1] == "") {
			continue
		}
		lines = append(lines, l)
	}
	for len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	var out []string
	code := false
	for _, l := range lines {
		if blocks {
			l = strings.TrimSpace(l)
		}
		if strings.HasPrefix(l, "```") || strings.HasPrefix(l, "~~~") {
			code = !code
		}
		if !code && strings.HasPrefix(l, "---") {
			break
		}
		if !code && strings.HasPrefix(l, "TODO") {
			continue
		}
		out = append(out, l)
	}
	return src, strings.Join(out, "\n")
}

// E2E_C16_docs compares the descriptions of types and fields with what their
// comments say.
func E2E_C16_docs(t *vc.E2E) {
	t.Rule = "random comments (line and block comments, markers, notes, ends, code blocks, blank and indented lines) on grouped and single types and on fields with no, one and several names"
	for i := 0; i < t.N(40, 1500) && t.More(); i++ {
		t.Reseed(i)
		want := map[string]string{}
		from := map[string]string{}
		src := []string{"package p", ""}
		put := func(indent string, c []string) {
			for _, l := range c {
				src = append(src, indent+l)
			}
		}
		n := 0
		typ := func(indent, kw, fallback string, fallbackSrc []string) {
			name := fmt.Sprintf("T%d", n)
			n++
			c, d := c16Comment(t)
			if kw == "type " {
				// the comment of a single declaration is that of its type
				put("", c)
			} else {
				put(indent, c)
			}
			want[name], from[name] = d, strings.Join(c, "\n")
			if t.Intn(2) == 0 {
				src = append(src, indent+kw+name+" int")
				src = append(src, "")
				return
			}
			src = append(src, indent+kw+name+" struct {")
			for k := t.Intn(4); k > 0; k-- {
				c, d := c16Comment(t)
				if t.Intn(4) == 0 {
					src = append(src, "")
				}
				put(indent+"\t", c)
				names := []string{fmt.Sprintf("F%d", k)}
				if t.Intn(4) == 0 {
					names = append(names, fmt.Sprintf("G%d", k))
				}
				for _, f := range names {
					want[name+"."+f], from[name+"."+f] = d, strings.Join(c, "\n")
				}
				src = append(src, indent+"\t"+strings.Join(names, ", ")+" string `json:\"x\"` // beside", "")
			}
			if t.Intn(4) == 0 {
				c, d := c16Comment(t)
				put(indent+"\t", c)
				want[name+"."], from[name+"."] = d, strings.Join(c, "\n")
				src = append(src, indent+"\tEmb")
			}
			src = append(src, indent+"}", "")
		}
		for j := 0; j < 25; j++ {
			if t.Intn(3) > 0 {
				typ("", "type ", "", nil)
				continue
			}
			c, _ := c16Comment(t)
			put("", c)
			src = append(src, "type (")
			for k := t.Intn(4); k > 0; k-- {
				typ("\t", "", "", nil)
			}
			src = append(src, ")", "")
		}
		src = append(src, "type Emb struct{}")
		want["Emb"] = ""
		text := strings.Join(src, "\n") + "\n"
		dir := module(t, map[string]string{"p/p.go": text})
		roots, err := loadMod(dir, "m.test/m/p")
		if err != nil {
			panic(err)
		}
		col := &markers.Collector{Registry: &markers.Registry{}}
		got := map[string]string{}
		t.Try("panic", text, func() {
			err = markers.EachType(col, roots[0], func(info *markers.TypeInfo) {
				got[info.Name] = info.Doc
				for _, f := range info.Fields {
					got[info.Name+"."+f.Name] = f.Doc
				}
				if info.RawSpec == nil || info.RawSpec.Name.Name != info.Name || info.RawDecl == nil {
					t.Fail("raw", "the syntax of type %s is not its own", info.Name)
				}
				if st, is := info.RawSpec.Type.(*ast.StructType); is && st.Fields.NumFields() != len(info.Fields) {
					t.Fail("fields", "type %s has %d fields instead of %d\n%s", info.Name, len(info.Fields), st.Fields.NumFields(), text)
				}
			})
		})
		if err != nil || len(roots[0].Errors) > 0 {
			panic(fmt.Sprint("the generated program is not valid: ", err, roots[0].Errors, "\n", text))
		}
		for name, w := range want {
			t.Case(from[name])
			if g, has := got[name]; !has || g != w {
				t.Fail("description", "%s is described (%v) as\n%q\ninstead of\n%q\nfor\n%s", name, has, g, w, from[name])
			}
		}
		if len(got) != len(want) {
			t.Fail("number", "%d types and fields were found instead of %d\n%s", len(got), len(want), text)
		}
		rmModule(t, dir)
	}
}

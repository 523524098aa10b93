package markers

import (
	"go/ast"

	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C16: which lines of which comment make a description.

var (
	c16Groups int
	c16List   []*ast.Comment
	c16Out    []string
)

// c16Text is the text of the comments given, whatever it is.
//
//vc:stub (*go/ast.CommentGroup).Text
func c16Text(g *ast.CommentGroup) string {
	c16Groups++
	c16List = g.List
	return vc.UF[string]("text")
}

//vc:stub strings.Split
func c16Split(s, sep string) []string {
	vc.Requires(sep == "\n")
	parts := vc.UF[[]string]("lines", s)
	vc.Assume(len(parts) > 0)
	return parts
}

//vc:stub strings.Join
func c16Join(parts []string, sep string) string {
	vc.Requires(sep == "\n")
	c16Out = parts
	return vc.UF[string]("joined")
}

//vc:stub strings.TrimSpace
func c16Trim(s string) string { return vc.UF[string]("trim", s) }

// c16HasPrefix: prefixes are not looked into.
//
//vc:stub strings.HasPrefix
func c16HasPrefix(s, prefix string) bool { return vc.UF[bool]("hasPrefix", s, prefix) }

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/markers.isMarkerComment
func VC_C16_marker(text string) {
	vc.Requires(len(text) >= 2) // every comment starts with // or /*
	rest := c16Trim(text[2:])
	vc.Ensures("markers are line comments that start with a plus", isMarkerComment(text) == (text[0] == '/' && text[1] == '/' && len(rest) > 0 && rest[0] == '+'))
}

//vc:stub sigs.k8s.io/controller-tools/pkg/markers.isMarkerComment
func c16IsMarker(text string) bool { return vc.UF[bool]("isMarker", text) }

// c16Docs is the comment that belongs to a node.
func c16Docs(node ast.Node, decl *ast.GenDecl) *ast.CommentGroup {
	switch n := node.(type) {
	case *ast.Field:
		vc.Requires(n != nil)
		return n.Doc
	case *ast.File:
		vc.Requires(n != nil)
		return n.Doc
	case *ast.GenDecl:
		vc.Requires(n != nil)
		return n.Doc
	case *ast.TypeSpec:
		vc.Requires(n != nil && decl != nil)
		if n.Doc != nil {
			return n.Doc
		}
		if !decl.Lparen.IsValid() {
			return decl.Doc
		}
	}
	return nil
}

//vc:logical
func VC_C16_comment(node ast.Node, decl *ast.GenDecl) {
	vc.Closed((*ast.Node)(nil), (*ast.Field)(nil), (*ast.File)(nil), (*ast.GenDecl)(nil), (*ast.TypeSpec)(nil), (*ast.Ident)(nil))
	docs := c16Docs(node, decl)
	if docs != nil {
		vc.Requires(vc.Forall(0, len(docs.List), func(i int) bool { return docs.List[i] != nil }))
	}
	c16Groups = 0
	got := extractDoc(node, decl)
	if docs == nil {
		vc.Ensures("without a comment there is no description", got == "" && c16Groups == 0)
		return
	}
	vc.Ensures("the description is that of one comment", c16Groups == 1)
	vc.Ensures("of lines that are no markers", vc.Forall(0, len(c16List), func(i int) bool {
		return c16List[i] != nil && !c16IsMarker(c16List[i].Text)
	}))
	i := vc.AnyIndex(len(docs.List))
	if i >= 0 && !c16IsMarker(docs.List[i].Text) {
		vc.Ensures("of all of them", vc.Exists(0, len(c16List), func(j int) bool { return c16List[j] == docs.List[i] }))
	}
	vc.Ensures("and of its own", vc.Forall(0, len(c16List), func(j int) bool {
		return vc.Exists(0, len(docs.List), func(i int) bool { return docs.List[i] == c16List[j] })
	}))
}

// c16Lines: the lines of any text .
func c16Lines() []string {
	// (comments only matter for their text and for being line comments)
	lines := c16Split(vc.UF[string]("text"), "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	return lines
}

// (which lines are kept is checked by the oracle)
//
//vc:logical
func VC_C16_lines() {
	lines := c16Lines()
	got := extractDoc(&ast.Field{Doc: &ast.CommentGroup{}}, nil)
	vc.Ensures("the lines make the description", got == vc.UF[string]("joined"))
	vc.Ensures("nothing is made up", len(c16Out) <= len(lines))
}

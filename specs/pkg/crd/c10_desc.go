package crd

import (
	"strings"
	"unicode"
	"unicode/utf8"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C10: description truncation is bounded and never corrupts text.

func c10Terminal(r rune) bool { return unicode.Is(unicode.STerm, r) }

//vc:stub sigs.k8s.io/controller-tools/pkg/crd.truncateString
func c10Truncate(desc string, maxLen int) string {
	return vc.UF[string]("truncated", desc, maxLen)
}

//vc:verifies sigs.k8s.io/controller-tools/pkg/crd.truncateString
func VC_C10_truncateString(desc string, maxLen int) {
	vc.Requires(maxLen > 0)
	got := truncateString(desc, maxLen)
	if len(desc) <= maxLen {
		vc.Ensures("a description within the limit is kept", got == desc)
		return
	}
	cut := len(got)
	if !(cut <= maxLen && strings.HasPrefix(desc, got)) {
		vc.Ensures("what is not a prefix within the limit is marked", strings.HasSuffix(got, "..."))
		cut -= 3
	}
	vc.Ensures("the limit holds but for the mark", cut <= maxLen)
	vc.Ensures("the result is a piece of the text", got[:cut] == desc[:cut])
	vc.Ensures("valid text stays valid", vc.Implies(utf8.ValidString(desc), utf8.ValidString(got)))
	// the longest prefix of whole characters within the limit
	lim := maxLen
	for lim > 0 && !utf8.RuneStart(desc[lim]) {
		lim--
	}
	n := strings.LastIndexFunc(desc[:lim], c10Terminal)
	if n > 0 {
		_, size := utf8.DecodeRuneInString(desc[n:lim])
		vc.Ensures("it ends with the last sentence terminator", got == desc[:n+size])
	} else {
		vc.Ensures("without a terminator it is marked", strings.HasSuffix(got, "..."))
	}
}

func VC_C10_Visit(s *apiext.JSONSchemaProps, maxLen int) {
	vc.Requires(s != nil)
	v := descVisitor{maxLen: maxLen}
	snap := vc.Snap()
	old := s.Description
	sub := v.Visit(s)
	vc.OnlyModifies(snap, "nothing but the description changes", &s.Description)
	switch {
	case maxLen < 0:
		vc.Ensures("no limit changes nothing", s.Description == old)
	case maxLen == 0:
		vc.Ensures("zero removes the description", s.Description == "")
	case len(old) <= maxLen:
		vc.Ensures("within the limit it is kept", s.Description == old)
	default:
		vc.Ensures("beyond the limit it is truncated", s.Description == truncateString(old, maxLen))
	}
	if maxLen >= 0 {
		w, ok := sub.(descVisitor)
		vc.Ensures("the children get the same limit", ok && w.maxLen == maxLen)
		end := v.Visit(nil)
		vc.Ensures("completion changes nothing", vc.SameDyn(end, end))
	}
}

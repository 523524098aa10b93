package crd

import (
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

// Contracts for C08: reference links identify their type.

// c08Lemma: escaping a package path for a JSON pointer can be undone. A fact
// about strings.ReplaceAll that is beyond the solvers (it needs induction over
// the string); assumed, and executed on concrete strings.
func c08Lemma(p string) {
	e := strings.ReplaceAll(strings.ReplaceAll(p, "~", "~0"), "/", "~1")
	vc.Assume(strings.ReplaceAll(strings.ReplaceAll(e, "~1", "/"), "~0", "~") == p)
}

func VC_C08_roundTrip(pkg, typ string) {
	vc.Requires(!strings.Contains(typ, "~"))
	c08Lemma(pkg)
	link := TypeRefLink(pkg, typ)
	t, p, err := RefParts(link)
	vc.Ensures("a generated link is accepted", err == nil)
	vc.Ensures("it decodes to the type name", t == typ)
	vc.Ensures("it decodes to the package path", p == pkg)
}

func VC_C08_injective(pkg1, typ1, pkg2, typ2 string) {
	vc.Requires(!strings.Contains(typ1, "~") && !strings.Contains(typ2, "~"))
	c08Lemma(pkg1)
	c08Lemma(pkg2)
	link := TypeRefLink(pkg1, typ1)
	vc.Requires(link == TypeRefLink(pkg2, typ2))
	// decoding is a function of the link
	t, p, _ := RefParts(link)
	vc.Ensures("links of different types differ", typ1 == typ2 && pkg1 == pkg2)
	vc.Ensures("both decode alike", t == typ2 && p == pkg2)
}

func VC_C08_reject(ref string) {
	_, _, err := RefParts(ref)
	vc.Ensures("exactly definition links are accepted", (err == nil) == strings.HasPrefix(ref, "#/definitions/"))
}

//vc:stub (*sigs.k8s.io/controller-tools/pkg/loader.Package).Imports
func c08Imports(p *loader.Package) map[string]*loader.Package {
	return vc.UF[map[string]*loader.Package]("imports", p)
}

//vc:logical
func VC_C08_identFromRef(pkg, typ string, in *loader.Package) {
	vc.Requires(in != nil && !strings.Contains(typ, "~"))
	c08Lemma(pkg)
	id, err := identFromRef(TypeRefLink(pkg, typ), in)
	vc.Ensures("a generated link resolves", err == nil)
	vc.Ensures("to the type's name", id.Name == typ)
	if pkg == "" {
		vc.Ensures("without a package: in the package it is read in", id.Package == in)
	} else {
		vc.Ensures("with a package: to that import", id.Package == in.Imports()[pkg])
	}
}

//vc:logical
func VC_C08_identReject(ref string, in *loader.Package) {
	vc.Requires(in != nil)
	_, err := identFromRef(ref, in)
	vc.Ensures("exactly definition links resolve", (err == nil) == strings.HasPrefix(ref, "#/definitions/"))
}

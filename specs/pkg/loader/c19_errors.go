package loader

import (
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"os"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C19: errors are attached to packages, and printed, without loss.

func VC_C19_maybe(errs []error) {
	err := MaybeErrList(errs)
	vc.Ensures("no errors are no error, some are", (err == nil) == (len(errs) == 0))
	if list, ok := err.(ErrList); ok {
		vc.Ensures("all of them", vc.Same([]error(list), errs))
	} else {
		vc.Ensures("as a list", err == nil)
	}
}

//vc:stub iface:error.Error
func c19Text(err error) string { return vc.UF[string]("text", err) }

//vc:stub (go/token.Position).String
func c19PosString(p token.Position) string { return vc.UF[string]("pos", p) }

//vc:stub (*go/token.FileSet).Position
func c19Position(fset *token.FileSet, p token.Pos) token.Position {
	return vc.UF[token.Position]("position", fset, p)
}

// c19Added checks that exactly one error was added to those of a package.
func c19Added(p *Package, old []packages.Error, pos, msg string, kind packages.ErrorKind) {
	vc.Ensures("one error is recorded", len(p.Errors) == len(old)+1)
	i := vc.AnyIndex(len(old))
	if 0 <= i && i < len(old) {
		vc.Ensures("those before stay", p.Errors[i] == old[i])
	}
	last := p.Errors[len(old)]
	vc.Ensures("its position is kept", last.Pos == pos)
	vc.Ensures("its message is kept", last.Msg == msg)
	vc.Ensures("its kind is kept", last.Kind == kind)
}

//vc:logical
//vc:verifies (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func VC_C19_plain(p *Package, err error) {
	vc.Requires(p != nil && p.Package != nil && err != nil)
	switch err.(type) {
	case *os.PathError, scanner.ErrorList, types.Error, ErrList, PositionedError:
		return
	}
	old := p.Errors
	p.AddError(err)
	c19Added(p, old, p.ID+":-", c19Text(err), packages.UnknownError)
}

//vc:logical
//vc:verifies (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func VC_C19_positioned(p *Package, err PositionedError) {
	vc.Requires(p != nil && p.Package != nil && err.error != nil)
	vc.Requires(p.loader != nil && p.loader.cfg != nil && p.loader.cfg.Fset != nil)
	old := p.Errors
	p.AddError(err)
	c19Added(p, old, c19PosString(c19Position(p.loader.cfg.Fset, err.Pos)), c19Text(err.error), packages.UnknownError)
}

//vc:logical
//vc:verifies (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func VC_C19_typed(p *Package, err types.Error) {
	vc.Requires(p != nil && p.Package != nil && err.Fset != nil)
	old := p.Errors
	p.AddError(err)
	c19Added(p, old, c19PosString(c19Position(err.Fset, err.Pos)), err.Msg, packages.TypeError)
}

//vc:logical
//vc:verifies (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func VC_C19_path(p *Package, err *os.PathError) {
	vc.Requires(p != nil && p.Package != nil && err != nil && err.Err != nil)
	old := p.Errors
	p.AddError(err)
	c19Added(p, old, err.Path+":1", c19Text(err.Err), packages.ParseError)
}

//vc:logical
//vc:verifies (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func VC_C19_parse(p *Package, errs scanner.ErrorList) {
	vc.Requires(p != nil && p.Package != nil)
	vc.Requires(vc.Forall(0, len(errs), func(i int) bool { return errs[i] != nil }))
	old := p.Errors
	p.AddError(errs)
	vc.Ensures("each error is recorded", len(p.Errors) == len(old)+len(errs))
	j := vc.AnyIndex(len(old))
	if 0 <= j && j < len(old) {
		vc.Ensures("those before stay", p.Errors[j] == old[j])
	}
	i := vc.AnyIndex(len(errs))
	if 0 <= i && i < len(errs) {
		e := p.Errors[len(old)+i]
		vc.Ensures("with its position, message and kind, in order", e.Pos == c19PosString(errs[i].Pos) && e.Msg == errs[i].Msg && e.Kind == packages.ParseError)
	}
}

// The errors of a list are added one by one, by these very contracts.
var (
	c19List  ErrList
	c19Adds  int
	c19Where *Package
)

//vc:stub (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func c19Add(p *Package, err error) {
	vc.Requires(p == c19Where)
	vc.Requires(c19Adds < len(c19List) && err == c19List[c19Adds])
	c19Adds++
}

//vc:logical
//vc:verifies (*sigs.k8s.io/controller-tools/pkg/loader.Package).AddError
func VC_C19_list(p *Package, errs ErrList) {
	vc.Requires(p != nil && p.Package != nil)
	c19List, c19Adds, c19Where = errs, 0, p
	p.AddError(errs)
	vc.Ensures("each error of the list is added, in order", c19Adds == len(errs))
}

// Printing: packages.Visit calls back once per package of the import graph.
// What one call does to the outcome is shown for any outcome so far, by
// calling back twice.
var (
	c19Pkgs  [2]*packages.Package
	c19Given []*Package
)

//vc:stub golang.org/x/tools/go/packages.Visit
func c19Visit(pkgs []*packages.Package, pre func(*packages.Package) bool, post func(*packages.Package)) {
	vc.Requires(pre == nil)
	vc.Requires(len(pkgs) == len(c19Given))
	vc.Requires(vc.Forall(0, len(pkgs), func(i int) bool { return pkgs[i] == c19Given[i].Package }))
	post(c19Pkgs[0])
	post(c19Pkgs[1])
}

//vc:stub fmt.Fprintln
func c19Println(w io.Writer, a ...any) (int, error) {
	return 0, nil
}

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/loader.PrintErrors
func VC_C19_outcome(pkgs []*Package, a, b *packages.Package, skip packages.ErrorKind) {
	vc.Requires(a != nil && b != nil)
	vc.Requires(vc.Forall(0, len(pkgs), func(i int) bool { return pkgs[i] != nil }))
	c19Given, c19Pkgs[0], c19Pkgs[1] = pkgs, a, b
	got := PrintErrors(pkgs, skip)
	inA := vc.Exists(0, len(a.Errors), func(i int) bool { return a.Errors[i].Kind != skip })
	inB := vc.Exists(0, len(b.Errors), func(i int) bool { return b.Errors[i].Kind != skip })
	vc.Ensures("printing fails exactly when there is an error not to be skipped", got == (inA || inB))
}

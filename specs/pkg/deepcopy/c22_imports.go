package deepcopy

import (
	"go/types"

	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C22: import aliases are valid, unique and stable.

//vc:stub go/token.IsIdentifier
func c22IsIdentifier(s string) bool { return s != "" && vc.UF[bool]("isIdentifier", s) }

//vc:stub (*go/types.Scope).Lookup
func c22Lookup(s *types.Scope, name string) types.Object {
	return vc.UF[types.Object]("lookup", s, name)
}

//vc:stub (*go/types.Package).Scope
func c22Scope(p *types.Package) *types.Scope { return vc.UF[*types.Scope]("scope", p) }

//vc:stub path.Split
func c22Split(path string) (string, string) {
	dir := vc.UF[string]("splitDir", path)
	vc.Assume(len(dir) <= len(path))
	return dir, vc.UF[string]("splitFile", path)
}

//vc:stub unicode.IsDigit
func c22IsDigit(r rune) bool { return vc.UF[bool]("isDigit", r) }

//vc:stub unicode/utf8.DecodeRuneInString
func c22Decode(s string) (rune, int) {
	n := vc.UF[int]("runeLen", s)
	vc.Assume(0 <= n && n <= len(s))
	return vc.UF[rune]("rune", s), n
}

//vc:stub strings.LastIndex
func c22LastIndex(s, sep string) int {
	i := vc.UF[int]("lastIndex", s, sep)
	vc.Assume(i == -1 || 0 <= i && i <= len(s)-len(sep))
	return i
}

//vc:stub strings.Map
func c22Map(f func(rune) rune, s string) string { return vc.UF[string]("mapped", s) }

// c22Valid: a valid identifier, no keyword, that hides nothing in the package.
func c22Valid(l *importsList, alias string) bool {
	if !c22IsIdentifier(alias) || alias == "_" || alias == "init" || c22Lookup(types.Universe, alias) != nil {
		return false
	}
	return l.pkg == nil || l.pkg.Types == nil || c22Lookup(c22Scope(l.pkg.Types), alias) == nil
}

// c22Local: a name generated methods use for something else where they also
// refer to imports.
func c22Local(alias string) bool {
	switch alias {
	case "in", "out", "i", "key", "val", "inVal", "outVal":
		return true
	}
	return false
}

// c22Usable: what usableAlias decides (see VC_C22_usable).
//
//vc:stub (*sigs.k8s.io/controller-tools/pkg/deepcopy.importsList).usableAlias
func c22Usable(l *importsList, alias string) bool {
	return alias != "" && vc.UF[bool]("usable", l, alias)
}

//vc:logical
//vc:verifies (*sigs.k8s.io/controller-tools/pkg/deepcopy.importsList).usableAlias
func VC_C22_usable(l *importsList, alias string) {
	vc.Requires(l != nil && l.pkg != nil && l.pkg.Package != nil)
	if l.usableAlias(alias) {
		vc.Ensures("usable aliases are identifiers that hide nothing", alias != "" && c22Valid(l, alias))
		vc.Ensures("usable aliases are not hidden", !c22Local(alias))
	}
}

// c22Path: a path inside a vendor directory stands for the one after it.
func c22Path(path string) string {
	if i := c22LastIndex(path, "/vendor/"); i >= 0 {
		return path[i+len("/vendor/"):]
	}
	return path
}

//vc:logical
func VC_C22_needImport(l *importsList, importPath, someOther, someAlias, pkgName string) {
	vc.Requires(l != nil && l.pkg != nil && l.pkg.Package != nil && l.byPath != nil && l.byAlias != nil)
	path := c22Path(importPath)
	vc.Requires(path != "")
	// the file's own package name is reserved
	own, reserved := l.byAlias[pkgName]
	vc.Requires(reserved && own == "")
	// what holds for every import so far
	vc.Requires(vc.ForallKey(l.byPath, func(p string) bool {
		a := l.byPath[p]
		q, ok := l.byAlias[a]
		return p != "" && ok && q == p && c22Usable(l, a)
	}))
	oldAlias, known := l.byPath[someOther]
	oldPath, taken := l.byAlias[someAlias]
	prev, had := l.byPath[path]
	s := vc.Snap()

	alias := l.NeedImport(importPath)

	vc.Ensures("the alias is a usable identifier", c22Usable(l, alias))
	vc.Ensures("the alias stands for the path", l.byAlias[alias] == path && l.byPath[path] == alias)
	vc.Ensures("the alias is not the package's name", alias != pkgName)
	if had {
		vc.Ensures("a path keeps its alias", alias == prev)
	}
	if known {
		now, ok := l.byPath[someOther]
		vc.Ensures("other paths keep their alias", ok && now == oldAlias)
		if someOther != path {
			vc.Ensures("different paths have different aliases", alias != oldAlias)
		}
	}
	if taken {
		now, ok := l.byAlias[someAlias]
		vc.Ensures("aliases keep their path", ok && now == oldPath)
	}
	// and it still holds for every import
	if p := someOther; true {
		if a, ok := l.byPath[p]; ok {
			q, has := l.byAlias[a]
			vc.Ensures("paths and aliases match", p != "" && has && q == p && c22Usable(l, a))
		}
	}
	vc.OnlyModifies(s, "only the tables change", l.byPath, l.byAlias)
}

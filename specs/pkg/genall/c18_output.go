package genall

import (
	"os"
	"path/filepath"
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

// Contracts for C18. The file system is assumed: c18Made, c18Created record
// what is asked of it.
var c18Made, c18Created string
var c18Did bool // something was created

//vc:stub os.MkdirAll
func c18MkdirAll(path string, perm os.FileMode) error {
	c18Made = path
	return vc.UF[error]("mkdir", path)
}

//vc:stub os.Create
func c18Create(path string) (*os.File, error) {
	c18Created, c18Did = path, true
	return vc.UF[*os.File]("file", path), vc.UF[error]("create", path)
}

//vc:stub os.Stat
func c18Stat(path string) (os.FileInfo, error) {
	return vc.UF[os.FileInfo]("stat", path), vc.UF[error]("staterr", path)
}

//vc:stub os.IsNotExist
func c18IsNotExist(err error) bool { return vc.UF[bool]("notexist", err) }

//vc:stub path/filepath.Join
func c18Join(parts ...string) string { return c18JoinOf(parts[0], parts[1]) }

func c18JoinOf(a, b string) string { return vc.UF[string]("join", a, b) }

//vc:stub path/filepath.Dir
func c18Dir(path string) string { return c18DirOf(path) }

func c18DirOf(path string) string { return vc.UF[string]("dir", path) }

//vc:logical
func VC_C18_openDirectory(o OutputToDirectory, pkg *loader.Package, item string) {
	c18Made, c18Created, c18Did = "", "", false
	f, err := o.Open(pkg, item)
	path := c18JoinOf(string(o), item)
	vc.Ensures("its directory is made", c18Made == c18DirOf(path))
	if vc.UF[error]("mkdir", c18DirOf(path)) != nil {
		vc.Ensures("no directory is an error", err == vc.UF[error]("mkdir", c18DirOf(path)) && !c18Did)
		return
	}
	vc.Ensures("the file in the directory", c18Created == path)
	vc.Ensures("and its error", err == vc.UF[error]("create", path))
	_ = f
}

//vc:logical
func VC_C18_openArtifactConfig(o OutputArtifacts, item string) {
	c18Made, c18Created, c18Did = "", "", false
	_, err := o.Open(nil, item)
	path := c18JoinOf(string(o.Config), item)
	if vc.UF[error]("mkdir", c18DirOf(path)) != nil {
		vc.Ensures("no directory is an error", err != nil && !c18Did)
		return
	}
	vc.Ensures("without package, in the configured directory", c18Created == path)
	vc.Ensures("and its error", err == vc.UF[error]("create", path))
}

//vc:logical
func VC_C18_openArtifactCode(o OutputArtifacts, pkg *loader.Package, item string) {
	vc.Requires(pkg != nil && o.Code != "")
	c18Made, c18Created, c18Did = "", "", false
	_, err := o.Open(pkg, item)
	path := c18JoinOf(string(o.Code), item)
	if vc.UF[error]("mkdir", c18DirOf(path)) != nil {
		vc.Ensures("no directory is an error", err != nil && !c18Did)
		return
	}
	vc.Ensures("with a package, in the code directory", c18Created == path)
	vc.Ensures("and its error", err == vc.UF[error]("create", path))
}

//vc:logical
func VC_C18_openArtifactPackage(o OutputArtifacts, pkg *loader.Package, item string) {
	vc.Requires(pkg != nil && pkg.Package != nil && o.Code == "")
	c18Made, c18Created, c18Did = "", "", false
	_, err := o.Open(pkg, item)
	if len(pkg.CompiledGoFiles) == 0 {
		vc.Ensures("no files is an error", err != nil && !c18Did)
		return
	}
	dir := c18DirOf(pkg.CompiledGoFiles[0])
	path := c18JoinOf(dir, item)
	if !c18Did {
		vc.Ensures("no directory is an error", err != nil && c18Made == dir)
		return
	}
	vc.Ensures("with a package, beside its files", c18Created == path)
	vc.Ensures("and its error", err == vc.UF[error]("create", path))
	vc.Ensures("no other directory is made", c18Made == "" || c18Made == dir)
}

func VC_C18_split(name string) {
	i := strings.Index(name, ":")
	vc.Requires(i >= 0)
	rest := name[i+1:]
	rule, gen := splitOutputRuleOption(name)
	if j := strings.Index(rest, ":"); j >= 0 {
		vc.Ensures("the rule of a generator", gen == rest[:j] && rule == rest[j+1:])
		return
	}
	vc.Ensures("a default rule", rule == rest && gen == "")
}

//vc:logical
func VC_C18_ruleFor(o OutputRules, gen *Generator) {
	own, has := o.ByGenerator[gen]
	r := o.ForGenerator(gen)
	if has {
		vc.Ensures("its own rule", r == own)
		return
	}
	vc.Ensures("the default rule", r == o.Default)
}

//vc:logical
func VC_C18_directories(base string, gens map[string]*Generator, name string, gen *Generator) {
	vc.Requires(vc.ForallKey(gens, func(a string) bool {
		return vc.ForallKey(gens, func(b string) bool { return a == b || gens[a] != gens[b] })
	}))
	_, known := gens[name]
	rules := DirectoryPerGenerator(base, gens)
	if known {
		vc.Ensures("its own directory", rules.ForGenerator(gens[name]) == OutputRule(OutputArtifacts{Config: OutputToDirectory(c18JoinOf(base, name))}))
	}
	if !vc.ExistsKey(gens, func(a string) bool { return gens[a] == gen }) {
		vc.Ensures("the base directory for others", rules.ForGenerator(gen) == OutputRule(OutputArtifacts{Config: OutputToDirectory(base)}))
	}
}

var _ = filepath.Join

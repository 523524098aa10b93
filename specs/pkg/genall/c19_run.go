package genall

import (
	"io"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

// Contracts for C19: a run fails when something failed.

var (
	c19Gens  Generators
	c19Runs  int
	c19Roots []*loader.Package
)

// c19Generate: the generators are run in turn, each with any result.
//
//vc:stub iface:sigs.k8s.io/controller-tools/pkg/genall.Generator.Generate
func c19Generate(g Generator, ctx *GenerationContext) error {
	vc.Requires(c19Runs < len(c19Gens) && g == *c19Gens[c19Runs])
	i := c19Runs
	c19Runs++
	return vc.UF[error]("result", i)
}

//vc:stub fmt.Fprintln
func c19Println(w io.Writer, a ...any) (int, error) { return 0, nil }

//vc:stub sigs.k8s.io/controller-tools/pkg/loader.PrintErrors
func c19Print(pkgs []*loader.Package, skip ...packages.ErrorKind) bool {
	vc.Requires(vc.Same(pkgs, c19Roots))
	vc.Requires(len(skip) == 1 && skip[0] == packages.TypeError)
	vc.Requires(c19Runs == len(c19Gens))
	return vc.UF[bool]("printed")
}

//vc:logical
func VC_C19_run(r *Runtime) {
	vc.Requires(r != nil && len(r.Generators) > 0)
	gens := r.Generators
	vc.Requires(vc.Forall(0, len(gens), func(i int) bool { return gens[i] != nil && *gens[i] != nil }))
	c19Gens, c19Runs, c19Roots = gens, 0, r.Roots
	failed := r.Run()
	vc.Ensures("every generator is run", c19Runs == len(gens))
	vc.Ensures("the run fails exactly when a generator failed or errors were printed", failed == (vc.UF[bool]("printed") || vc.Exists(0, len(gens), func(i int) bool { return vc.UF[error]("result", i) != nil })))
}

//vc:logical
func VC_C19_none(r *Runtime) {
	vc.Requires(r != nil && len(r.Generators) == 0)
	c19Gens, c19Runs, c19Roots = nil, 0, r.Roots
	vc.Ensures("a run without generators fails", r.Run())
}

func VC_C19_rule(o OutputRules, gen *Generator) {
	rule := o.ForGenerator(gen)
	if own, ok := o.ByGenerator[gen]; ok {
		vc.Ensures("a generator's own output rule is used", rule == own)
	} else {
		vc.Ensures("else the default", rule == o.Default)
	}
}

package e2e

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
)

// c19Gen is a generator that fails or not.
type c19Gen struct {
	id     int
	err    error
	called *[]int
}

func (c19Gen) RegisterMarkers(*markers.Registry) error { return nil }
func (g c19Gen) Generate(*genall.GenerationContext) error {
	*g.called = append(*g.called, g.id)
	return g.err
}

// c19Stderr is what f writes to the standard error.
func c19Stderr(t *vc.E2E, f func()) string {
	path := filepath.Join(t.Work, "stderr")
	file, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	old := os.Stderr
	os.Stderr = file
	func() {
		defer func() { os.Stderr = old }()
		f()
	}()
	file.Close()
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var c19Fset = token.NewFileSet()

func c19Load(dir string, pats ...string) ([]*loader.Package, error) {
	return loader.LoadRootsWithConfig(&packages.Config{Dir: dir, Fset: c19Fset, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}, pats...)
}

type c19Err struct {
	err   error
	typed bool     // only a type error
	texts []string // what has to be printed
}

// c19Error is a random error of one of the kinds that are told apart.
func c19Error(t *vc.E2E, p *loader.Package, id string, depth int) c19Err {
	node := p.Syntax[0].Decls[0]
	if ast.Node(node) == nil {
		panic("no declaration")
	}
	pos := c19Fset.Position(node.Pos()).String()
	switch k := t.Intn(8); {
	case k == 0:
		return c19Err{&os.PathError{Op: "open", Path: "/nowhere/" + id, Err: errors.New("gone " + id)}, false, []string{"/nowhere/" + id + ":1: gone " + id}}
	case k == 1:
		l := scanner.ErrorList{}
		var texts []string
		for i := 1 + t.Intn(3); i > 0; i-- {
			l = append(l, &scanner.Error{Pos: token.Position{Filename: "f.go", Line: i, Column: 2}, Msg: "bad " + id + itoa(i)})
			texts = append(texts, "f.go:"+itoa(i)+":2: bad "+id+itoa(i))
		}
		return c19Err{l, false, texts}
	case k == 2:
		return c19Err{types.Error{Fset: c19Fset, Pos: node.Pos(), Msg: "typed " + id}, true, nil}
	case k == 3 || k == 4:
		return c19Err{loader.ErrFromNode(errors.New("at "+id), node), false, []string{pos + ": at " + id}}
	case k == 5 && depth > 0:
		var l loader.ErrList
		out := c19Err{typed: true}
		for i := t.Intn(4); i >= 0; i-- {
			e := c19Error(t, p, id+"."+itoa(i), depth-1)
			l = append(l, e.err)
			out.typed = out.typed && e.typed
			out.texts = append(out.texts, e.texts...)
		}
		out.err = l
		return out
	case k == 6:
		// a list moved to a node: each error there
		var l loader.ErrList
		var texts []string
		for i := t.Intn(3); i >= 0; i-- {
			l = append(l, errors.New("listed "+id+itoa(i)))
			texts = append(texts, pos+": listed "+id+itoa(i))
		}
		return c19Err{loader.ErrFromNode(l, node), false, texts}
	}
	return c19Err{fmt.Errorf("plain %s", id), false, []string{p.ID + ":-: plain " + id}}
}

// E2E_C19_runs runs generators that fail over packages that have errors.
func E2E_C19_runs(t *vc.E2E) {
	t.Rule = "runs of 1..4 generators, each failing or not, over random root sets of a module of 6 packages with imports (a diamond, a chain), 0..3 random errors (file, parse, type, positioned, lists, plain) attached to random packages: outcome, printed errors, generators called"
	dir := module(t, map[string]string{
		"a/x.go": "package a\n\nimport _ \"m.test/m/b\"\nimport _ \"m.test/m/c\"\n\ntype A struct{}\n",
		"b/x.go": "package b\n\nimport _ \"m.test/m/d\"\n\ntype B struct{}\n",
		"c/x.go": "package c\n\nimport _ \"m.test/m/d\"\n\ntype C struct{}\n",
		"d/x.go": "package d\n\nimport _ \"m.test/m/e\"\n\ntype D struct{}\n",
		"e/x.go": "package e\n\ntype E struct{}\n",
		"f/x.go": "package f\n\ntype F struct{}\n",
	})
	defer rmModule(t, dir)
	names := []string{"a", "b", "c", "d", "e", "f"}
	deps := map[string]string{"a": "abcde", "b": "bde", "c": "cde", "d": "de", "e": "e", "f": "f"}
	roots, err := c19Load(dir, "m.test/m/a", "m.test/m/b", "m.test/m/c", "m.test/m/d", "m.test/m/e", "m.test/m/f")
	if err != nil {
		t.Fail("load", "%v", err)
		return
	}
	byName := map[string]*loader.Package{}
	clean := map[string][]packages.Error{}
	for _, r := range roots {
		n := r.PkgPath[strings.LastIndex(r.PkgPath, "/")+1:]
		r.NeedSyntax()
		byName[n] = r
		clean[n] = append([]packages.Error{}, r.Errors...)
		if len(r.Errors) != 0 {
			t.Fail("load", "%v", r.Errors)
			return
		}
	}
	for n := t.N(2500, 25000); n > 0 && t.More(); n-- {
		for _, k := range names {
			byName[k].Errors = nil
		}
		var use []*loader.Package
		in := ""
		for _, i := range t.Perm(len(names)) {
			if t.Intn(3) == 0 {
				use = append(use, byName[names[i]])
				in += deps[names[i]]
			}
		}
		desc := "roots:"
		for _, u := range use {
			desc += " " + u.PkgPath
		}
		want := false
		var texts []string
		for k := t.Intn(4); k > 0; k-- {
			at := names[t.Intn(len(names))]
			e := c19Error(t, byName[at], at+itoa(k), 2)
			byName[at].AddError(e.err)
			desc += fmt.Sprintf("; on %s: %T %v", at, e.err, e.err)
			if strings.Contains(in, at) {
				want = want || !e.typed
				texts = append(texts, e.texts...)
			}
		}
		var called []int
		var gens genall.Generators
		var genErrs []string
		for i := 1 + t.Intn(4); i > 0; i-- {
			g := c19Gen{id: len(gens), called: &called}
			if t.Intn(4) == 0 {
				g.err = fmt.Errorf("generator %d failed", g.id)
				if t.Intn(3) == 0 {
					g.err = loader.ErrList{g.err}
				}
				genErrs = append(genErrs, fmt.Sprintf("generator %d failed", g.id))
				want = true
				desc += fmt.Sprintf("; generator %d fails", g.id)
			}
			var gi genall.Generator = g
			gens = append(gens, &gi)
		}
		desc += fmt.Sprintf("; %d generators", len(gens))
		t.Case(desc)
		buf := &bytes.Buffer{}
		rt := &genall.Runtime{Generators: gens, ErrorWriter: buf, OutputRules: genall.OutputRules{Default: genall.OutputToNothing}}
		rt.Roots = use
		var got bool
		printed := c19Stderr(t, func() { t.Try("panic", desc, func() { got = rt.Run() }) })
		if got != want {
			t.Fail("outcome", "%s\nreported failure: %v, expected %v\nprinted: %s%s", desc, got, want, buf, printed)
			return
		}
		if len(called) != len(gens) {
			t.Fail("called", "%s\ngenerators called: %v", desc, called)
			return
		}
		for i, c := range called {
			if i != c {
				t.Fail("called", "%s\ngenerators called: %v", desc, called)
				return
			}
		}
		for _, g := range genErrs {
			if strings.Count(buf.String(), g) != 1 {
				t.Fail("printed", "%s\nthe error %q of a generator is not printed once: %s", desc, g, buf)
				return
			}
		}
		var lines []string
		for _, l := range strings.Split(printed, "\n") {
			if l != "" {
				lines = append(lines, l)
			}
		}
		sort.Strings(lines)
		sort.Strings(texts)
		if strings.Join(lines, "\n") != strings.Join(texts, "\n") {
			t.Fail("printed", "%s\nprinted:\n%s\nexpected:\n%s", desc, strings.Join(lines, "\n"), strings.Join(texts, "\n"))
			return
		}
	}
	// nothing to run is a failure, too
	buf := &bytes.Buffer{}
	if rt := (&genall.Runtime{ErrorWriter: buf}); !rt.Run() || buf.Len() == 0 {
		t.Fail("none", "a run without generators is no failure")
	}
}

// E2E_C19_kinds looks at the errors as they are attached to a package.
func E2E_C19_kinds(t *vc.E2E) {
	t.Rule = "random errors, nested lists of them to depth 3, attached to a package: number, order, position, message and kind of what is recorded"
	dir := module(t, map[string]string{"a/x.go": "package a\n\n// A is.\ntype A struct{}\n"})
	defer rmModule(t, dir)
	roots, err := c19Load(dir, "./a")
	if err != nil || len(roots) != 1 {
		t.Fail("load", "%v", err)
		return
	}
	p := roots[0]
	p.NeedSyntax()
	for n := t.N(2500, 25000); n > 0 && t.More(); n-- {
		p.Errors = nil
		var want []string
		desc := ""
		for k := 1 + t.Intn(3); k > 0; k-- {
			e := c19Error(t, p, "x"+itoa(k), 3)
			desc += fmt.Sprintf("%T %v; ", e.err, e.err)
			c19Want(p, e.err, &want)
			p.AddError(e.err)
		}
		t.Case(desc)
		var got []string
		for _, e := range p.Errors {
			got = append(got, fmt.Sprintf("%d %s", e.Kind, e.Error()))
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Fail("recorded", "%s\nrecorded:\n%s\nexpected:\n%s", desc, strings.Join(got, "\n"), strings.Join(want, "\n"))
			return
		}
	}
	if loader.MaybeErrList(nil) != nil || loader.MaybeErrList([]error{}) != nil {
		t.Fail("maybe", "no errors are an error")
	}
	if err := loader.MaybeErrList([]error{errors.New("x"), errors.New("y")}); err == nil || !strings.Contains(err.Error(), "x") || !strings.Contains(err.Error(), "y") {
		t.Fail("maybe", "errors are lost: %v", err)
	}
}

func c19Want(p *loader.Package, err error, out *[]string) {
	switch e := err.(type) {
	case *os.PathError:
		*out = append(*out, fmt.Sprintf("%d %s:1: %s", packages.ParseError, e.Path, e.Err))
	case scanner.ErrorList:
		for _, s := range e {
			*out = append(*out, fmt.Sprintf("%d %s: %s", packages.ParseError, s.Pos, s.Msg))
		}
	case types.Error:
		*out = append(*out, fmt.Sprintf("%d %s: %s", packages.TypeError, c19Fset.Position(e.Pos), e.Msg))
	case loader.ErrList:
		for _, s := range e {
			c19Want(p, s, out)
		}
	case loader.PositionedError:
		*out = append(*out, fmt.Sprintf("%d %s: %s", packages.UnknownError, c19Fset.Position(e.Pos), e.Error()))
	default:
		*out = append(*out, fmt.Sprintf("%d %s:-: %s", packages.UnknownError, p.ID, err))
	}
}

// E2E_C19_syntax parses packages of many broken files, over and over: the
// errors of all files are recorded.
func E2E_C19_syntax(t *vc.E2E) {
	t.Rule = "a package of 12 files with a syntax error each, parsed 400 times (its files are parsed concurrently): an error of each file recorded, files in order"
	files := map[string]string{}
	for i := 0; i < 12; i++ {
		files[fmt.Sprintf("a/x%02d.go", i)] = "package a\n\ntype A" + itoa(i) + " strukt{\n"
	}
	dir := module(t, files)
	defer rmModule(t, dir)
	roots, err := c19Load(dir, "./a")
	if err != nil || len(roots) != 1 {
		t.Fail("load", "%v %d", err, len(roots))
		return
	}
	p := roots[0]
	if len(p.CompiledGoFiles) != 12 {
		// go list may leave files out; then there is nothing to see here
		for i := 0; i < 12; i++ {
			p.CompiledGoFiles = append(p.CompiledGoFiles[:i:i], filepath.Join(dir, fmt.Sprintf("a/x%02d.go", i)))
		}
	}
	for n := t.N(400, 4000); n > 0 && t.More(); n-- {
		p.Errors = nil
		p.NeedSyntax()
		t.Case("parse " + itoa(n))
		var all []string
		for _, e := range p.Errors {
			all = append(all, e.Error())
		}
		text := strings.Join(all, "\n")
		for i := 0; i < 12; i++ {
			if !strings.Contains(text, fmt.Sprintf("x%02d.go", i)) {
				t.Fail("lost", "the errors of file x%02d.go are lost:\n%s", i, text)
				return
			}
		}
	}
}

// c19Out is an output that fails at its fail-th operation.
type c19Out struct {
	ops, fail int
	part      bool
}

func (o *c19Out) op() error {
	o.ops++
	if o.ops == o.fail {
		return fmt.Errorf("the disk is full at %d", o.ops)
	}
	return nil
}

func (o *c19Out) Open(*loader.Package, string) (io.WriteCloser, error) {
	if err := o.op(); err != nil {
		return nil, err
	}
	return o, nil
}

func (o *c19Out) Write(b []byte) (int, error) {
	if err := o.op(); err != nil {
		if o.part {
			return len(b) / 2, err
		}
		return 0, err
	}
	return len(b), nil
}

func (o *c19Out) Close() error { return nil }

// E2E_C19_output makes opening and writing artifacts fail, at every point.
func E2E_C19_output(t *vc.E2E) {
	t.Rule = "CRD, RBAC, webhook, object and schema patch generators, alone and together, over a package with all their markers; the k-th open or write fails, for every k up to the number there are, and none"
	dir := module(t, map[string]string{"a/x.go": `// +groupName=m.test
// +versionName=v1
// +kubebuilder:object:generate=true
// +kubebuilder:rbac:groups=a,resources=b,verbs=get
// +kubebuilder:rbac:groups=a,resources=c,verbs=get,namespace=ns
// +kubebuilder:webhook:path=/x,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=n.m.test,sideEffects=None,admissionReviewVersions=v1
package a

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

type Spec struct {
	A []string ` + "`json:\"a\"`" + `
}

// +kubebuilder:object:root=true
type Foo struct {
	metav1.TypeMeta ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata,omitempty\"`" + `
	Spec Spec ` + "`json:\"spec\"`" + `
}

// +kubebuilder:object:root=true
type Bar struct {
	metav1.TypeMeta ` + "`json:\",inline\"`" + `
	metav1.ObjectMeta ` + "`json:\"metadata,omitempty\"`" + `
	Spec Spec ` + "`json:\"spec\"`" + `
}
`, "crds/foo.yaml": `apiVersion: apiextensions.k8s.io/v1
kind: CustomResourceDefinition
metadata:
  name: foos.m.test
spec:
  group: m.test
  names:
    kind: Foo
  versions:
  - name: v1
`})
	defer rmModule(t, dir)
	roots, err := loadMod(dir, "./a")
	if err != nil || len(roots) != 1 {
		t.Fail("load", "%v", err)
		return
	}
	run := func(which int, o *c19Out) (failed bool, text string) {
		roots[0].Errors = nil
		all := []genall.Generator{crd.Generator{}, rbac.Generator{RoleName: "r"}, webhook.Generator{}, deepcopy.Generator{}, schemapatcher.Generator{ManifestsPath: filepath.Join(dir, "crds")}}
		var gens genall.Generators
		for i := range all {
			if which == i || which == len(all) {
				gens = append(gens, &all[i])
			}
		}
		buf := &bytes.Buffer{}
		rt := &genall.Runtime{Generators: gens, ErrorWriter: buf, OutputRules: genall.OutputRules{Default: o}}
		rt.GenerationContext = genall.GenerationContext{
			Collector: &markers.Collector{Registry: &markers.Registry{}},
			Roots:     roots,
			InputRule: genall.InputFromFileSystem,
			Checker:   &loader.TypeChecker{NodeFilters: gens.CheckFilters()},
		}
		if err := gens.RegisterMarkers(rt.Collector.Registry); err != nil {
			panic(err)
		}
		printed := c19Stderr(t, func() { failed = rt.Run() })
		return failed, buf.String() + printed
	}
	for which := 0; which <= 5 && t.More(); which++ {
		for fail, done := 0, false; !done; fail++ {
			for _, part := range []bool{false, true} {
				o := &c19Out{fail: fail, part: part}
				desc := fmt.Sprintf("generator %d, operation %d fails, partly %v", which, fail, part)
				t.Case(desc)
				var failed bool
				var text string
				t.Try("panic", desc, func() { failed, text = run(which, o) })
				hit := fail > 0 && o.ops >= fail
				done = fail > 0 && !hit || fail > 200
				if fail == 0 && o.ops < 2 {
					t.Fail("nothing", "%s: nothing is written\n%s", desc, text)
					return
				}
				if failed != hit {
					t.Fail("output", "%s\nfailure reported: %v, expected %v\n%s", desc, failed, hit, text)
					return
				}
				if hit && !strings.Contains(text, "the disk is full") {
					t.Fail("output", "%s\nthe error is not printed:\n%s", desc, text)
					return
				}
			}
		}
	}
}

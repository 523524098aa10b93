package genall

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// three kinds of generators
type c18A struct {
	X string   `marker:",optional"`
	N *int     `marker:",optional"`
	L []string `marker:",optional"`
}
type c18B struct{}
type c18C struct {
	Name string
}

func (c18A) RegisterMarkers(*markers.Registry) error { return nil }
func (c18A) Generate(*GenerationContext) error       { return nil }
func (c18B) RegisterMarkers(*markers.Registry) error { return nil }
func (c18B) Generate(*GenerationContext) error       { return nil }
func (c18C) RegisterMarkers(*markers.Registry) error { return nil }
func (c18C) Generate(*GenerationContext) error       { return nil }
func (c18C) CheckFilter() loader.NodeFilter          { return nil }

var c18Gens = map[string]Generator{"gena": c18A{}, "genb": c18B{}, "genc": c18C{}}

func c18Registry() *markers.Registry {
	reg := &markers.Registry{}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	rules := map[string]OutputRule{"dir": OutputToDirectory(""), "none": OutputToNothing, "stdout": OutputToStdout, "artifacts": OutputArtifacts{}}
	for n, g := range c18Gens {
		must(reg.Register(markers.Must(markers.MakeDefinition(n, markers.DescribesPackage, g))))
		for r, v := range rules {
			must(reg.Register(markers.Must(markers.MakeDefinition("output:"+n+":"+r, markers.DescribesPackage, v))))
		}
	}
	for r, v := range rules {
		must(reg.Register(markers.Must(markers.MakeDefinition("output:"+r, markers.DescribesPackage, v))))
	}
	must(RegisterOptionsMarkers(reg))
	// a marker that is no option of any kind
	must(reg.Register(markers.Must(markers.MakeDefinition("other", markers.DescribesPackage, ""))))
	return reg
}

// c18Opt is one option with what it names.
type c18Opt struct {
	text  string
	bad   bool
	name  string
	gen   Generator
	rule  OutputRule
	paths []string
}

func c18Option(t *vc.E2E) c18Opt {
	gname := func() string { return t.Pick("gena", "genb", "genc") }
	switch t.Intn(9) {
	case 0, 1, 2:
		n := gname()
		switch n {
		case "gena":
			switch t.Intn(5) {
			case 0:
				k := t.Intn(9)
				return c18Opt{text: fmt.Sprintf("gena:x=it,n=%d", k), name: n, gen: c18A{X: "it", N: &k}}
			case 1:
				return c18Opt{text: "gena:l={a,b},x=\"y z\"", name: n, gen: c18A{X: "y z", L: []string{"a", "b"}}}
			case 2:
				return c18Opt{text: "gena:n=" + t.Pick("x", "1.5", ""), bad: true}
			}
			return c18Opt{text: "gena", name: n, gen: c18A{}}
		case "genb":
			if t.Intn(6) == 0 {
				return c18Opt{text: "genb:x=1", bad: true}
			}
			return c18Opt{text: "genb", name: n, gen: c18B{}}
		}
		if t.Intn(6) == 0 {
			return c18Opt{text: "genc", bad: true} // its name is needed
		}
		s := t.Pick("a", "b-c", "d")
		return c18Opt{text: "genc:name=" + s, name: n, gen: c18C{s}}
	case 3, 4, 5:
		on, name := "output:", ""
		if t.Intn(3) > 0 {
			name = gname()
			on += name + ":"
		}
		switch t.Intn(5) {
		case 0:
			d := t.Pick("x", "./a/b", "..", "/abs/d")
			return c18Opt{text: on + "dir=" + d, name: name, rule: OutputToDirectory(d)}
		case 1:
			return c18Opt{text: on + "none", name: name, rule: OutputToNothing}
		case 2:
			return c18Opt{text: on + "stdout", name: name, rule: OutputToStdout}
		case 3:
			d, c := t.Pick("x", "y/z"), t.Pick("", "code")
			if c == "" {
				return c18Opt{text: on + "artifacts:config=" + d, name: name, rule: OutputArtifacts{Config: OutputToDirectory(d)}}
			}
			return c18Opt{text: on + "artifacts:code=" + c + ",config=" + d, name: name, rule: OutputArtifacts{Config: OutputToDirectory(d), Code: OutputToDirectory(c)}}
		}
		return c18Opt{text: on + t.Pick("file=x", "dirs=x", "artifacts", "artifacts:x=1", "", "none:x:y"), bad: true}
	case 6, 7:
		ps := [][]string{{"./p0"}, {"./p1", "./p2"}, {"m.test/m/p0"}, {"./p2"}}[t.Intn(4)]
		if t.Intn(2) == 0 {
			return c18Opt{text: "paths=" + strings.Join(ps, ";"), paths: ps}
		}
		return c18Opt{text: "paths={" + strings.Join(ps, ",") + "}", paths: ps}
	}
	if t.Intn(3) > 0 {
		return c18Option(t)
	}
	return c18Opt{text: t.Pick("", "+", "unknown", "gena2", "=", ":", "output", "output:", "output:nogen:dir=x", "other=x", "é", "--help", "gena:", " gena", "path=./p0"), bad: true}
}

func c18Options(t *vc.E2E) (opts []c18Opt, texts []string) {
	for n := t.Intn(7); n > 0; n-- {
		o := c18Option(t)
		if o.text != "" && t.Intn(8) == 0 && o.text[0] != '+' {
			o.text = "+" + o.text
		}
		opts = append(opts, o)
		texts = append(texts, o.text)
	}
	return
}

type c18Want struct {
	err   string
	gens  []Generator
	names []string
	rules map[string]OutputRule
	paths []string
}

func c18Expect(opts []c18Opt) c18Want {
	w := c18Want{rules: map[string]OutputRule{}}
	ran := map[string]bool{}
	for _, o := range opts {
		switch {
		case o.bad:
			w.err = "bad option " + o.text
		case o.gen != nil:
			if ran[o.name] {
				w.err = "repeated " + o.name
			}
			ran[o.name] = true
			w.gens = append(w.gens, o.gen)
			w.names = append(w.names, o.name)
		case o.rule != nil:
			w.rules[o.name] = o.rule
		default:
			w.paths = append(w.paths, o.paths...)
		}
	}
	for n := range w.rules {
		if n != "" && !ran[n] {
			w.err = "rule for " + n
		}
	}
	return w
}

func (w c18Want) ruleFor(name string) OutputRule {
	if r, ok := w.rules[name]; ok {
		return r
	}
	if r, ok := w.rules[""]; ok {
		return r
	}
	return OutputArtifacts{Config: OutputToDirectory(filepath.Join("config", name))}
}

func c18Same(t *vc.E2E, in string, w c18Want, gens Generators) bool {
	if len(gens) != len(w.gens) {
		t.Fail("generators", "got %d, want %v\n%s", len(gens), w.names, in)
		return false
	}
	for i, g := range gens {
		if !reflect.DeepEqual(*g, w.gens[i]) {
			t.Fail("generators", "number %d is %#v, want %#v\n%s", i, *g, w.gens[i], in)
			return false
		}
	}
	return true
}

func E2E_C18_options(t *vc.E2E) {
	t.Rule = "random lists of options (generators with and without arguments, output rules per generator and default, paths, repetitions, junk, empty options)"
	reg := c18Registry()
	for i := 0; i < t.N(40000, 600000) && t.More(); i++ {
		t.Reseed(i)
		opts, texts := c18Options(t)
		in := fmt.Sprintf("%q", texts)
		t.Case(in)
		w := c18Expect(opts)
		t.Try("panic", in, func() {
			rt, err := protoFromOptions(reg, texts)
			if (err != nil) != (w.err != "") {
				t.Fail("error", "got %v, want %q\n%s", err, w.err, in)
				return
			}
			if err != nil {
				return
			}
			if !c18Same(t, in, w, rt.Generators) {
				return
			}
			if !reflect.DeepEqual(append([]string{}, rt.Paths...), append([]string{}, w.paths...)) {
				t.Fail("paths", "got %q, want %q\n%s", rt.Paths, w.paths, in)
			}
		})
	}
}

func E2E_C18_runtime(t *vc.E2E) {
	t.Rule = "random lists of options turned into runtimes over a scratch module: the generators, roots and output rule of every generator"
	dir := filepath.Join(t.Work, "c18mod")
	for _, f := range []string{"go.mod", "p0/x.go", "p1/x.go", "p2/x.go"} {
		p := filepath.Join(dir, f)
		body := "module m.test/m\n\ngo 1.22\n"
		if f != "go.mod" {
			body = "package " + f[:2] + "\n"
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(body), 0o644); err != nil {
			panic(err)
		}
	}
	defer os.RemoveAll(dir)
	reg := c18Registry()
	done := 0
	for i := 0; done < t.N(60, 1500) && t.More(); i++ {
		t.Reseed(i)
		opts, texts := c18Options(t)
		w := c18Expect(opts)
		if w.err != "" || len(w.gens) == 0 || len(w.paths) == 0 {
			continue
		}
		done++
		in := fmt.Sprintf("%q", texts)
		t.Case(in)
		t.Try("panic", in, func() {
			cfg := &packages.Config{Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
			rt, err := FromOptionsWithConfig(cfg, reg, texts)
			if err != nil {
				t.Fail("error", "%v\n%s", err, in)
				return
			}
			if !c18Same(t, in, w, rt.Generators) {
				return
			}
			for i, g := range rt.Generators {
				if got, want := rt.OutputRules.ForGenerator(g), w.ruleFor(w.names[i]); !reflect.DeepEqual(got, want) {
					t.Fail("output rule", "of %s is %#v, want %#v\n%s", w.names[i], got, want, in)
				}
			}
			want := map[string]bool{}
			for _, p := range w.paths {
				want["m.test/m/"+p[len(p)-2:]] = true
			}
			got := map[string]bool{}
			for _, r := range rt.Roots {
				got[r.PkgPath] = true
			}
			if !reflect.DeepEqual(got, want) {
				t.Fail("roots", "got %v, want %v\n%s", got, want, in)
			}
		})
	}
}

// c18Files lists the files below a directory with their content.
func c18Files(dir string) string {
	var out []string
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out = append(out, rel+"="+string(b))
		}
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func E2E_C18_open(t *vc.E2E) {
	t.Rule = "artifacts with and without a package written through every kind of output rule into a scratch directory"
	for i := 0; i < t.N(1500, 20000) && t.More(); i++ {
		t.Reseed(i)
		dir := filepath.Join(t.Work, "c18open")
		_ = os.RemoveAll(dir)
		src := filepath.Join(dir, "src", t.Pick("p", "q/r"))
		if t.Intn(3) > 0 {
			_ = os.MkdirAll(src, 0o755)
		}
		conf, code := t.Pick("conf", "conf/x"), t.Pick("", "code", "code/y")
		item := t.Pick("a.yaml", "zz.go", "sub/b.yaml")
		withPkg := t.Intn(2) == 0
		nofiles := withPkg && t.Intn(6) == 0
		if withPkg && code == "" && strings.Contains(item, "/") {
			item = "b.go"
		}
		old := t.Intn(3) == 0
		kind := t.Pick("artifacts", "artifacts", "dir", "none")
		where := ""
		var rule OutputRule
		switch kind {
		case "artifacts":
			o := OutputArtifacts{Config: OutputToDirectory(filepath.Join(dir, conf))}
			where = filepath.Join(conf, item)
			if code != "" {
				o.Code = OutputToDirectory(filepath.Join(dir, code))
			}
			if withPkg {
				rel, _ := filepath.Rel(dir, src)
				where = filepath.Join(rel, item)
				if code != "" {
					where = filepath.Join(code, item)
				}
			}
			rule = o
		case "dir":
			rule = OutputToDirectory(filepath.Join(dir, conf))
			where = filepath.Join(conf, item)
		case "none":
			rule = OutputToNothing
		}
		var pkg *loader.Package
		if withPkg {
			pkg = &loader.Package{Package: &packages.Package{}}
			if !nofiles {
				pkg.CompiledGoFiles = []string{filepath.Join(src, "x.go"), filepath.Join(dir, "elsewhere", "y.go")}
				pkg.GoFiles = pkg.CompiledGoFiles
			}
		}
		in := fmt.Sprintf("%#v package=%v files=%v artifact %s (existing: %v)", rule, withPkg, !nofiles, item, old)
		t.Case(in)
		t.Try("panic", in, func() {
			if old && where != "" {
				p := filepath.Join(dir, where)
				_ = os.MkdirAll(filepath.Dir(p), 0o755)
				_ = os.WriteFile(p, []byte("a longer old text"), 0o644)
			}
			f, err := rule.Open(pkg, item)
			if wantErr := kind == "artifacts" && nofiles && code == ""; (err != nil) != wantErr {
				t.Fail("error", "%v\n%s", err, in)
				return
			}
			if err != nil {
				return
			}
			if _, err := f.Write([]byte("text")); err != nil {
				t.Fail("write", "%v\n%s", err, in)
			}
			if err := f.Close(); err != nil {
				t.Fail("close", "%v\n%s", err, in)
			}
			want := ""
			if where != "" {
				want = where + "=text"
			}
			if got := c18Files(dir); got != want {
				t.Fail("place", "files %s, want %s\n%s", got, want, in)
			}
		})
		_ = os.RemoveAll(dir)
	}
}

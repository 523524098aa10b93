// Package e2e holds executable oracles over the exported API of the
// repository: bounded checks that run the real code and compare what it does
// with the statement of a property.
package e2e

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

var modCount int

// stubs of the few apimachinery packages that generators recognise by path
var apiStubs = map[string]string{
	"k8s.io/apimachinery/pkg/apis/meta/v1": `// +kubebuilder:object:generate=true
// +groupName=meta.k8s.io
package v1

type TypeMeta struct {
	Kind string ` + "`json:\"kind,omitempty\"`" + `
	APIVersion string ` + "`json:\"apiVersion,omitempty\"`" + `
}
type ObjectMeta struct {
	Name string ` + "`json:\"name,omitempty\"`" + `
	Labels map[string]string ` + "`json:\"labels,omitempty\"`" + `
}
type ListMeta struct {
	Continue string ` + "`json:\"continue,omitempty\"`" + `
}
type Time struct {
	S string
}
func (t *Time) DeepCopyInto(out *Time) { *out = *t }
func (o *ObjectMeta) DeepCopyInto(out *ObjectMeta) {
	*out = *o
	if o.Labels != nil {
		out.Labels = make(map[string]string, len(o.Labels))
		for k, v := range o.Labels { out.Labels[k] = v }
	}
}
func (o *ListMeta) DeepCopyInto(out *ListMeta) { *out = *o }
func (o *ObjectMeta) DeepCopy() *ObjectMeta {
	if o == nil { return nil }
	out := new(ObjectMeta)
	o.DeepCopyInto(out)
	return out
}
`,
	"k8s.io/apimachinery/pkg/runtime": `package runtime
type Object interface { DeepCopyObject() Object }
type RawExtension struct { Raw []byte }
`,
}

// module writes a Go module into a fresh scratch directory. Files under the
// pseudo directory "k8s.io/apimachinery" are provided as stubs.
func module(t *vc.E2E, files map[string]string) string {
	modCount++
	dir := filepath.Join(t.Work, fmt.Sprintf("mod%d", modCount))
	put := func(name, body string) {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(body), 0o644); err != nil {
			panic(err)
		}
	}
	put("go.mod", "module m.test/m\n\ngo 1.22\n\nrequire k8s.io/apimachinery v0.0.0\n\nreplace k8s.io/apimachinery => ./zz_apimachinery\n")
	put("zz_apimachinery/go.mod", "module k8s.io/apimachinery\n\ngo 1.22\n")
	for p, b := range apiStubs {
		put("zz_apimachinery/"+strings.TrimPrefix(p, "k8s.io/apimachinery/")+"/x.go", b)
	}
	for n, b := range files {
		put(n, b)
	}
	return dir
}

// rmModule frees the disk space of a scratch module.
func rmModule(t *vc.E2E, dir string) {
	if strings.HasPrefix(dir, t.Work+string(filepath.Separator)) && len(t.Work) > 4 {
		_ = os.RemoveAll(dir)
	}
}

func loadMod(dir string, pats ...string) ([]*loader.Package, error) {
	return loader.LoadRootsWithConfig(&packages.Config{Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}, pats...)
}

// memOut collects artifacts in memory.
type memOut struct {
	files map[string]*bytes.Buffer
	opens map[string]int
}

func newMem() *memOut { return &memOut{map[string]*bytes.Buffer{}, map[string]int{}} }

type memFile struct{ *bytes.Buffer }

func (memFile) Close() error { return nil }

func (m *memOut) Open(pkg *loader.Package, path string) (io.WriteCloser, error) {
	if pkg != nil {
		path = pkg.PkgPath + "!" + path
	}
	b := &bytes.Buffer{}
	m.files[path] = b
	m.opens[path]++
	return memFile{b}, nil
}

// runGen runs one generator over already loaded packages.
func runGen(g genall.Generator, roots []*loader.Package) (*memOut, error) {
	out := newMem()
	gg := genall.Generators{&g}
	ctx := genall.GenerationContext{
		Collector:  &markers.Collector{Registry: &markers.Registry{}},
		Roots:      roots,
		InputRule:  genall.InputFromFileSystem,
		OutputRule: out,
		Checker:    &loader.TypeChecker{NodeFilters: gg.CheckFilters()},
	}
	if err := gg.RegisterMarkers(ctx.Collector.Registry); err != nil {
		return out, err
	}
	if _, ok := g.(genall.NeedsTypeChecking); !ok {
		ctx.Checker = nil
	}
	return out, g.Generate(&ctx)
}

// pkgErrs are the errors recorded on packages that are not type errors.
func pkgErrs(roots []*loader.Package) []string {
	var out []string
	seen := map[*loader.Package]bool{}
	var visit func(p *loader.Package)
	visit = func(p *loader.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, e := range p.Errors {
			if e.Kind != packages.TypeError {
				out = append(out, e.Error())
			}
		}
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return out
}

// mq renders a string as a marker argument.
func mq(s string) string { return strconv.Quote(s) }

func yamlDocs(s string) []string {
	var out []string
	for _, d := range strings.Split("\n"+s, "\n---\n") {
		if strings.TrimSpace(d) != "" {
			out = append(out, d)
		}
	}
	return out
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

package e2e

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
)

// c21Pkg is a generated package.
type c21Pkg struct {
	t       *vc.E2E
	structs []string // exported struct types of the package
	refs    []string // named slice and map types
	values  []string // types of plain values: names and aliases of basic types, plain structs
	manual  []string // types with methods written by hand
	src     strings.Builder
}

var c21Basics = []string{"string", "int", "int32", "bool", "float64", "uint8", "int64"}

func (p *c21Pkg) key() string {
	return p.t.Pick("string", "int32", "KStr", "KAlias", "KStruct", "string")
}

// plain: a type all of whose values can be copied by assignment.
func (p *c21Pkg) plain() string {
	switch p.t.Intn(4) {
	case 0:
		return p.t.Pick("KStr", "KAlias", "Plain", "PlainAlias", "KStruct", "q.Str", "r.Num", "q.Flat")
	default:
		return p.t.Pick(c21Basics...)
	}
}

func (p *c21Pkg) typ(depth int) string {
	t := p.t
	if depth <= 0 {
		if t.Intn(3) == 0 && len(p.structs) > 0 {
			return t.Pick(p.structs...)
		}
		return p.plain()
	}
	switch t.Intn(12) {
	case 0, 1:
		return "[]" + p.typ(depth-1)
	case 2:
		return "map[" + p.key() + "]" + p.mapElem(depth-1)
	case 3, 4:
		return "*" + p.typ(depth-1)
	case 5:
		return t.Pick(p.refs...)
	case 6:
		return t.Pick(p.manual...)
	case 7:
		return t.Pick("q.Deep", "q.List", "r.Deep", "in.Odd", "DeepAlias", "metav1.ObjectMeta", "PtrAlias")
	case 8:
		if len(p.structs) > 0 {
			return t.Pick(p.structs...)
		}
	case 9:
		if len(p.structs) > 0 {
			return "*" + t.Pick(p.structs...)
		}
	}
	return p.plain()
}

func (p *c21Pkg) mapElem(depth int) string { return p.typ(depth) }

const c21Helpers = `
type KStr string
type KAlias = string
type KStruct struct { A string; B int }
type Plain struct { X int; Y KStr; Z KAlias }
type PlainAlias = Plain
type DeepAlias = HelperDeep
type PtrAlias = *HelperDeep
type HelperDeep struct { L []string; P *int }
type Strs []string
type Ptrs []*Plain
type Dict map[string]string
type Deeper map[KStr][]*HelperDeep

// copied by hand, with a pointer receiver
type ByHand struct { N int; P *int }
func (in *ByHand) DeepCopy() *ByHand {
	if in == nil { return nil }
	out := &ByHand{N: in.N + 1}
	if in.P != nil { x := *in.P; out.P = &x }
	return out
}
// copied into by hand
type IntoByHand struct { N int; P *int }
func (in *IntoByHand) DeepCopyInto(out *IntoByHand) {
	out.N = in.N + 1
	out.P = nil
	if in.P != nil { x := *in.P; out.P = &x }
}
// both by hand
type BothByHand struct { N int; P *int }
func (in *BothByHand) DeepCopyInto(out *BothByHand) {
	out.N = in.N + 1
	out.P = nil
	if in.P != nil { x := *in.P; out.P = &x }
}
func (in *BothByHand) DeepCopy() *BothByHand {
	if in == nil { return nil }
	out := &BothByHand{}
	in.DeepCopyInto(out)
	return out
}
`

const c21Q = `package q
type Str string
type Flat struct { A int; B string }
type Deep struct { L []string }
func (in *Deep) DeepCopyInto(out *Deep) { out.L = nil; if in.L != nil { out.L = make([]string, len(in.L)); copy(out.L, in.L) } }
func (in *Deep) DeepCopy() *Deep { if in == nil { return nil }; out := &Deep{}; in.DeepCopyInto(out); return out }
type List []string
func (in List) DeepCopyInto(out *List) { *out = nil; if in != nil { *out = make(List, len(in)); copy(*out, in) } }
func (in List) DeepCopy() List { if in == nil { return nil }; out := new(List); in.DeepCopyInto(out); return *out }
`
const c21R = `package v1
type Num int
type Deep struct { P *string }
func (in *Deep) DeepCopyInto(out *Deep) { *out = *in; if in.P != nil { x := *in.P; out.P = &x } }
func (in *Deep) DeepCopy() *Deep { if in == nil { return nil }; out := &Deep{}; in.DeepCopyInto(out); return out }
`
const c21In = `package in
type Odd struct { M map[string]int }
func (in *Odd) DeepCopyInto(out *Odd) { out.M = nil; if in.M != nil { out.M = map[string]int{}; for k, v := range in.M { out.M[k] = v } } }
func (in *Odd) DeepCopy() *Odd { if in == nil { return nil }; out := &Odd{}; in.DeepCopyInto(out); return out }
`

// c21Main fills values, copies them and compares.
const c21Main = `package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"m.test/m/p"
)

func fill(r *rand.Rand, v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprint("s", r.Intn(5)))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Intn(100)))
	case reflect.Uint8:
		v.SetUint(uint64(r.Intn(100)))
	case reflect.Float64:
		v.SetFloat(float64(r.Intn(100)))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, v.Field(i), d)
		}
	case reflect.Ptr:
		if d > 0 && r.Intn(4) > 0 {
			x := reflect.New(v.Type().Elem())
			fill(r, x.Elem(), d-1)
			v.Set(x)
		}
	case reflect.Slice:
		if d > 0 && r.Intn(5) > 0 {
			n := r.Intn(3)
			v.Set(reflect.MakeSlice(v.Type(), n, n+r.Intn(2)))
			for i := 0; i < n; i++ {
				fill(r, v.Index(i), d-1)
			}
		}
	case reflect.Map:
		if d > 0 && r.Intn(5) > 0 {
			v.Set(reflect.MakeMap(v.Type()))
			for i := r.Intn(3); i > 0; i-- {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				fill(r, k, d-1)
				fill(r, e, d-1)
				v.SetMapIndex(k, e)
			}
		}
	default:
		panic(v.Kind().String())
	}
}

// same compares a value with its copy; the counters of types copied by hand
// must have advanced.
func same(path string, a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Struct:
		byHand := strings.HasSuffix(a.Type().Name(), "ByHand")
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i).Name
			if byHand && f == "N" {
				if b.Field(i).Int() != a.Field(i).Int()+1 {
					return fmt.Sprintf("%s: copied %d times by the method written by hand", path, b.Field(i).Int()-a.Field(i).Int())
				}
				continue
			}
			if m := same(path+"."+f, a.Field(i), b.Field(i)); m != "" {
				return m
			}
		}
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil and not nil"
			}
			return ""
		}
		if a.Pointer() == b.Pointer() && a.Type().Elem().Size() > 0 {
			return path + ": shared pointer"
		}
		return same("(*"+path+")", a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return path + ": other length"
		}
		if a.Cap() > 0 && b.Cap() > 0 && a.Pointer() == b.Pointer() && a.Type().Elem().Size() > 0 {
			return path + ": shared slice"
		}
		for i := 0; i < a.Len(); i++ {
			if m := same(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); m != "" {
				return m
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return path + ": other length"
		}
		if !a.IsNil() && a.Pointer() == b.Pointer() {
			return path + ": shared map"
		}
		for _, k := range a.MapKeys() {
			e := b.MapIndex(k)
			if !e.IsValid() {
				return fmt.Sprintf("%s: key %v is lost", path, k)
			}
			if m := same(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), e); m != "" {
				return m
			}
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s: %v became %v", path, a, b)
		}
	}
	return ""
}

func main() {
	for _, x := range []any{
		//TYPES
	} {
		t := reflect.TypeOf(x).Elem()
		for i := 0; i < 200; i++ {
			r := rand.New(rand.NewSource(int64(i)))
			v := reflect.New(t)
			fill(r, v.Elem(), 5)
			if v.Elem().Kind() != reflect.Struct && v.Elem().IsNil() {
				continue
			}
			m := v.MethodByName("DeepCopy")
			if !m.IsValid() {
				fmt.Printf("%s: no DeepCopy\n", t.Name())
				os.Exit(3)
			}
			c := m.Call(nil)[0]
			if c.Type() != t {
				c = c.Elem()
			}
			if msg := same(t.Name(), v.Elem(), c); msg != "" {
				fmt.Println(msg)
				os.Exit(3)
			}
		}
	}
}
`

// E2E_C21_copies generates methods for packages of random types, runs them
// and compares every value with its copy.
func E2E_C21_copies(t *vc.E2E) {
	n := t.N(16, 1500)
	for i := 0; i < n && t.More(); i++ {
		t.Reseed(i)
		p := &c21Pkg{t: t, refs: []string{"Strs", "Ptrs", "Dict", "Deeper"}, manual: []string{"ByHand", "IntoByHand", "BothByHand"}}
		var decls []string
		nt := 3 + t.Intn(6)
		for j := 0; j < nt; j++ {
			name := fmt.Sprintf("T%d", j)
			switch t.Intn(8) {
			case 0:
				decls = append(decls, fmt.Sprintf("type %s []%s\n", name, p.typ(2)))
				p.refs = append(p.refs, name)
			case 1:
				decls = append(decls, fmt.Sprintf("type %s map[%s]%s\n", name, p.key(), p.typ(2)))
				p.refs = append(p.refs, name)
			default:
				var fs []string
				for k := 1 + t.Intn(6); k > 0; k-- {
					ft := p.typ(3)
					switch {
					case t.Intn(10) == 0 && len(p.structs) > 0:
						// embedded, by value or pointer
						e := p.structs[t.Intn(len(p.structs))]
						dup := false
						for _, f := range fs {
							dup = dup || strings.TrimPrefix(strings.TrimSpace(f), "*") == e
						}
						if dup {
							continue
						}
						fs = append(fs, "\t"+t.Pick("", "*")+e)
					default:
						fs = append(fs, fmt.Sprintf("\tF%d %s", k, ft))
					}
				}
				decls = append(decls, fmt.Sprintf("type %s struct {\n%s\n}\n", name, strings.Join(fs, "\n")))
				p.structs = append(p.structs, name)
			}
		}
		body := c21Helpers + strings.Join(decls, "")
		imports := ""
		for _, im := range [][2]string{{"q", "m.test/m/q"}, {"r", "m.test/m/r/v1"}, {"in", "m.test/m/in"}, {"metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"}} {
			if strings.Contains(strings.Join(decls, ""), im[0]+".") {
				imports += fmt.Sprintf("import %s %q\n", im[0], im[1])
			}
		}
		src := "// +kubebuilder:object:generate=true\npackage p\n\n" + imports + body
		files := map[string]string{"p/t.go": src, "q/q.go": c21Q, "r/v1/r.go": c21R, "in/in.go": c21In}
		c21Run(t, files, decls)
	}
}

func c21Run(t *vc.E2E, files map[string]string, decls []string) {
	dir := module(t, files)
	defer rmModule(t, dir)
	roots, err := loadMod(dir, "./p")
	if err != nil {
		t.Fail("load", "%v", err)
		return
	}
	show := strings.Join(decls, "")
	for _, r := range roots {
		for _, e := range r.Errors {
			t.Fail("the case itself does not compile", "%v\n%s", e, show)
			return
		}
	}
	var out *memOut
	t.Try("panics", show, func() { out, err = runGen(deepcopy.Generator{}, roots) })
	t.Case(show)
	if out == nil {
		return
	}
	if errs := pkgErrs(roots); err != nil || len(errs) > 0 {
		t.Fail("reported", "types that can be copied are reported: %v %v\n%s", err, errs, show)
		return
	}
	gen := out.files["m.test/m/p!zz_generated.deepcopy.go"]
	if gen == nil {
		t.Fail("nothing generated", "%s", show)
		return
	}
	if err := os.WriteFile(filepath.Join(dir, "p", "zz_generated.deepcopy.go"), gen.Bytes(), 0o644); err != nil {
		panic(err)
	}
	have, err := c21Methods(gen.String())
	if err != nil {
		t.Fail("does not parse", "%v\n%s\n%s", err, show, gen.String())
		return
	}
	var types []string
	for _, m := range have {
		if n, ok := strings.CutSuffix(m, ".DeepCopy"); ok {
			types = append(types, "(*p."+n+")(nil),")
		}
	}
	put := func(name, s string) {
		_ = os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
		if err := os.WriteFile(filepath.Join(dir, name), []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	put("main/main.go", strings.Replace(c21Main, "//TYPES", strings.Join(types, "\n\t\t"), 1))
	cmd := exec.Command("go", "run", "./main")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	b, err := cmd.CombinedOutput()
	if err != nil {
		key := "copies"
		if strings.Contains(string(b), "zz_generated") {
			key = "does not compile"
		}
		t.Fail(key, "%s\n%s\n%s", trunc(string(b), 800), show, gen.String())
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// c21Methods lists Type.Method of the methods in a file.
func c21Methods(src string) ([]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil {
			continue
		}
		rt := fd.Recv.List[0].Type
		if s, ok := rt.(*ast.StarExpr); ok {
			rt = s.X
		}
		out = append(out, rt.(*ast.Ident).Name+"."+fd.Name.Name)
	}
	sort.Strings(out)
	return out, nil
}

// E2E_C21_enabled: which types get methods.
func E2E_C21_enabled(t *vc.E2E) {
	n := t.N(60, 2500)
	for i := 0; i < n && t.More(); i++ {
		t.Reseed(i)
		pkgMark, all := "", false
		switch t.Intn(7) {
		case 0:
			pkgMark = "// +kubebuilder:object:generate=false"
		case 1, 2:
			pkgMark, all = "// +kubebuilder:object:generate=true", true
		case 3:
			pkgMark, all = "// +k8s:deepcopy-gen=package", true
		case 4:
			pkgMark, all = "// +k8s:deepcopy-gen=package,register", true
		case 5:
			pkgMark = "// +k8s:deepcopy-gen=false"
		}
		if all && t.Intn(6) == 0 {
			// the newer marker decides
			pkgMark, all = pkgMark[:0]+"// +k8s:deepcopy-gen=package\n// +kubebuilder:object:generate=false", false
		}
		want := map[string]bool{}
		var decls []string
		for j := 1 + t.Intn(10); j > 0; j-- {
			name := fmt.Sprintf("T%d", j)
			exported := t.Intn(8) > 0
			if !exported {
				name = fmt.Sprintf("t%d", j)
			}
			var marks []string
			gen, legacy, obj := -1, -1, -1
			if t.Intn(3) == 0 {
				gen = t.Intn(2)
				marks = append(marks, fmt.Sprintf("// +kubebuilder:object:generate=%v", gen == 1))
			}
			if t.Intn(5) == 0 {
				legacy = t.Intn(2)
				marks = append(marks, fmt.Sprintf("// +k8s:deepcopy-gen=%v", legacy == 1))
			}
			if t.Intn(3) == 0 {
				obj = t.Intn(2)
				marks = append(marks, fmt.Sprintf("// +kubebuilder:object:root=%v", obj == 1))
			}
			if t.Intn(6) == 0 {
				marks = append(marks, "// +k8s:deepcopy-gen:interfaces="+t.Pick("k8s.io/apimachinery/pkg/runtime.Object", "k8s.io/apimachinery/pkg/runtime.Other"))
				if obj < 0 && strings.HasSuffix(marks[len(marks)-1], ".Object") {
					obj = 2 // says so only when nothing newer does
				}
			}
			t.Shuffle(len(marks), func(a, b int) { marks[a], marks[b] = marks[b], marks[a] })
			copiable := true
			def := ""
			into, copy := true, true
			byHand := ""
			switch t.Intn(10) {
			case 0:
				def, copiable = t.Pick("string", "int32"), false
			case 1:
				def = "[]string"
			case 2:
				def = "map[string][]int"
			case 3:
				def = "struct{ A *int }"
				byHand = fmt.Sprintf("func (in *%[1]s) DeepCopyInto(out *%[1]s) { out.A = nil }\n", name)
				into = false
			case 4:
				def = "struct{ A *int }"
				byHand = fmt.Sprintf("func (in *%[1]s) DeepCopy() *%[1]s { return nil }\n", name)
				copy = false
			case 5:
				def = "struct{ A *int }"
				byHand = fmt.Sprintf("func (in *%[1]s) DeepCopy() *%[1]s { return nil }\nfunc (in *%[1]s) DeepCopyInto(out *%[1]s) {}\n", name)
				copy, into = false, false
			case 6:
				def = "string"
				byHand = fmt.Sprintf("func (in %[1]s) DeepCopy() %[1]s { return in }\n", name)
				copy = false
			default:
				def = "struct{ A *int }"
			}
			on := all || obj >= 1
			switch {
			case gen >= 0:
				on = gen == 1
			case legacy >= 0:
				on = legacy == 1
			}
			if on && exported && copiable {
				if into {
					want[name+".DeepCopyInto"] = true
				}
				if copy {
					want[name+".DeepCopy"] = true
					if obj >= 1 {
						want[name+".DeepCopyObject"] = true
					}
				}
			}
			decls = append(decls, strings.Join(append(marks, "type "+name+" "+def+"\n"+byHand), "\n"))
		}
		src := pkgMark + "\npackage p\n\n" + strings.Join(decls, "\n")
		dir := module(t, map[string]string{"p/t.go": src})
		roots, err := loadMod(dir, "./p")
		if err != nil {
			t.Fail("load", "%v", err)
			continue
		}
		var out *memOut
		t.Try("panics", src, func() { out, err = runGen(deepcopy.Generator{}, roots) })
		rmModule(t, dir)
		t.Case(src)
		if out == nil {
			continue
		}
		if errs := pkgErrs(roots); err != nil || len(errs) > 0 {
			t.Fail("reported", "%v %v\n%s", err, errs, src)
			continue
		}
		have := []string{}
		if f := out.files["m.test/m/p!zz_generated.deepcopy.go"]; f != nil {
			if have, err = c21Methods(f.String()); err != nil {
				t.Fail("does not parse", "%v\n%s\n%s", err, src, f.String())
				continue
			}
		}
		w := []string{}
		for m := range want {
			w = append(w, m)
		}
		sort.Strings(w)
		if strings.Join(w, " ") != strings.Join(have, " ") {
			t.Fail("other methods", "methods %v, expected %v\n%s", have, w, src)
		}
	}
}

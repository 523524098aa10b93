package e2e

import (
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

func E2E_C14_histories(t *vc.E2E) {
	t.Rule = "random sequences of registrations (package, type and field markers with overlapping names) and lookups, against a plain list of registrations"
	targets := []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField}
	name := func() string {
		var ps []string
		for i := 1 + t.Intn(4); i > 0; i-- {
			ps = append(ps, t.Pick("a", "b", "c", "k8s.io", "é", "", "a-b"))
		}
		return strings.Join(ps, ":")
	}
	for i := 0; i < t.N(3000, 60000) && t.More(); i++ {
		t.Reseed(i)
		reg := &markers.Registry{}
		type ent struct {
			name   string
			target markers.TargetType
			def    *markers.Definition
		}
		var all []ent
		log := ""
		for s := 2 + t.Intn(14); s > 0; s-- {
			tg := targets[t.Intn(3)]
			if t.Intn(2) == 0 {
				n := name()
				var out interface{} = struct{}{}
				if t.Intn(2) == 0 {
					out = ""
				}
				def, err := markers.MakeDefinition(n, tg, out)
				if err != nil {
					t.Fail("define", "%q: %v", n, err)
					continue
				}
				if err := reg.Register(def); err != nil {
					t.Fail("register", "%q: %v", n, err)
				}
				all = append(all, ent{n, tg, def})
				log += " R" + itoa(int(tg)) + n
				continue
			}
			text := name()
			if t.Intn(2) == 0 && len(all) > 0 {
				text = all[t.Intn(len(all))].name
				if t.Intn(2) == 0 {
					text += ":" + t.Pick("field", "x", "")
				}
			}
			full := text
			if t.Intn(3) > 0 {
				text += "=" + t.Pick("", "v", "a:b", "x=y", "\"a:b=c\"", "a:b=c:d")
			}
			find := func(n string) *markers.Definition {
				for k := len(all) - 1; k >= 0; k-- {
					if all[k].name == n && all[k].target == tg {
						return all[k].def
					}
				}
				return nil
			}
			want := find(full)
			if want == nil && strings.Contains(text, "=") {
				if c := strings.LastIndex(full, ":"); c >= 0 {
					want = find(full[:c])
				}
			}
			log += " L" + itoa(int(tg)) + text
			t.Case(log)
			t.Try("panic", log, func() {
				if got := reg.Lookup("+"+text, tg); got != want {
					t.Fail("lookup", "after%s: got %+v, want %+v", log, got, want)
				}
			})
		}
		if n := len(reg.AllDefinitions()); n > len(all) {
			t.Fail("all", "%d definitions after %d registrations", n, len(all))
		}
	}
}

// A marker comment is attached to what it describes, with the definition for
// that kind of target.
func E2E_C14_collect(t *vc.E2E) {
	t.Rule = "a package whose package, types and fields carry the same marker texts, with definitions for the three targets"
	files := map[string]string{}
	for mask := 0; mask < 64; mask++ {
		src := ""
		for k, decl := range []string{"package p\n\n", "type T struct {\n", "\tF string\n}\n"} {
			if mask>>(2*k)&1 != 0 {
				src += "// +test:x=" + itoa(2*k+1) + "\n"
			}
			src += "// +test:x:y=" + itoa(2*k+2) + "\n// +test:plain\n// +test:rest=a:b=c\n" + decl
		}
		files["p"+itoa(mask)+"/p.go"] = src
	}
	dir := module(t, files)
	for mask := 0; mask < 64 && t.More(); mask++ {
		roots, err := loadMod(dir, "m.test/m/p"+itoa(mask))
		if err != nil {
			t.Fail("load", "%v", err)
			return
		}
		t.Case(files["p"+itoa(mask)+"/p.go"])
		t.Try("panic", itoa(mask), func() {
			type withY struct {
				Y *int `marker:"y,optional"`
				Z *int `marker:"z,optional"`
			}
			reg := &markers.Registry{}
			for k, tg := range []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField} {
				if mask>>(2*k)&1 != 0 {
					_ = reg.Define("test:x", tg, 0)
				} else {
					_ = reg.Define("test:x", tg, withY{})
				}
				if mask>>(2*k)&2 != 0 {
					_ = reg.Define("test:x:y", tg, 0)
				}
				_ = reg.Define("test:plain", tg, struct{}{})
			}
			col := &markers.Collector{Registry: reg}
			ms, err := markers.PackageMarkers(col, roots[0])
			if err != nil {
				t.Fail("package", "mask %d: %v", mask, err)
			}
			check := func(what string, k int, ms markers.MarkerValues, base int) {
				if mask>>(2*k)&1 != 0 {
					if v, ok := ms.Get("test:x").(int); !ok || v != base {
						t.Fail(what+" x", "mask %d: %v", mask, ms)
					}
				}
				if mask>>(2*k)&2 != 0 {
					if v, ok := ms.Get("test:x:y").(int); !ok || v != base+1 {
						t.Fail(what+" x:y", "mask %d: %v", mask, ms)
					}
				} else if mask>>(2*k)&1 == 0 {
					got := false
					for _, v := range ms["test:x"] {
						if w, ok := v.(withY); ok && w.Y != nil && *w.Y == base+1 {
							got = true
						}
					}
					if !got {
						t.Fail(what+" field y", "mask %d: %v", mask, ms)
					}
				}
				if ms.Get("test:plain") == nil {
					t.Fail(what+" plain", "mask %d: %v", mask, ms)
				}
			}
			check("package", 0, ms, 1)
			_ = markers.EachType(col, roots[0], func(info *markers.TypeInfo) {
				check("type", 1, info.Markers, 3)
				check("field", 2, info.Fields[0].Markers, 5)
			})
		})
	}
}

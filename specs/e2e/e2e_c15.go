package e2e

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/internal/vc"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

var c15Scalars = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false),
	reflect.TypeOf(c15Str("")), reflect.TypeOf(c15Int(0)), reflect.TypeOf(c15Int32(0)), reflect.TypeOf(c15Bool(false)), reflect.TypeOf(c15Float(0)),
}

type (
	c15Str   string
	c15Int   int
	c15Int32 int32
	c15Bool  bool
	c15Float float64
)

var c15Any = reflect.TypeOf((*interface{})(nil)).Elem()

func c15Type(t *vc.E2E, depth int) reflect.Type {
	k := t.Intn(9)
	if depth <= 0 && k >= 5 {
		k = t.Intn(5)
	}
	switch k {
	case 5:
		return reflect.SliceOf(c15Type(t, depth-1))
	case 6:
		return reflect.MapOf([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(c15Str(""))}[t.Intn(2)], c15Type(t, depth-1))
	case 7:
		return c15Any
	case 8:
		p := c15Type(t, depth-1)
		if p.Kind() == reflect.Ptr || p.Kind() == reflect.Interface {
			return p
		}
		return reflect.PointerTo(p)
	}
	return c15Scalars[t.Intn(len(c15Scalars))]
}

// c15Space is white space that may be put between the parts of a value.
func c15Space(t *vc.E2E) string {
	return []string{"", "", "", " ", "  ", "\t"}[t.Intn(6)]
}

var c15Bare = []string{"a", "foo", "true1", "falsey", "x-kubernetes", "Foo.Bar", "apps/v1", "日本", "a b c", "_x", "tr", "f", "-x", "a=b", "/metrics", "x*y", "x(y)", "true false x", "nope", ".spec.replicas", "", "a  b"}
var c15Texts = []string{"", "a", "a,b", "a;b", "{", "}", "a=b", "\"", "'", "`", "\\", "a:b", "é", "日本語", "\n", "\t x ", " ", "5", "-5", "true", "null", "[x]", "//x", "/* x", "%d", "+x", "\u2028", "^[a-z]([-a-z0-9]*)?$"}

// c15Render writes a random value of a type and returns its text; sep says which
// characters may not be in bare text (they are the separators around it).
func c15Render(t *vc.E2E, ty reflect.Type, depth int, nested bool) (reflect.Value, string) {
	out := reflect.New(ty).Elem()
	switch ty.Kind() {
	case reflect.String:
		s := c15Texts[t.Intn(len(c15Texts))]
		if t.Intn(3) == 0 {
			s = c15Bare[t.Intn(len(c15Bare))]
			out.SetString(s)
			return out, s
		}
		out.SetString(s)
		if t.Intn(2) == 0 && !strings.ContainsAny(s, "`\n") {
			return out, "`" + s + "`"
		}
		return out, strconv.Quote(s)
	case reflect.Int:
		v := []int64{0, 1, -1, 5, 42, -7, 1 << 31, -1 << 31, 1<<31 - 1, 1 << 40, 1<<63 - 1, -1 << 63}[t.Intn(12)]
		out.SetInt(v)
		return out, strconv.FormatInt(v, 10)
	case reflect.Int32:
		v := []int64{0, 1, -1, 5, 42, -7, 1<<31 - 1, -1 << 31}[t.Intn(8)]
		out.SetInt(v)
		return out, strconv.FormatInt(v, 10)
	case reflect.Float64:
		v := []float64{0, 1, -1, 0.5, -2.25, 1e21, 1e-7, 3.141592653589793, -1e300, 5e-324, 123456789.125}[t.Intn(11)]
		out.SetFloat(v)
		return out, strconv.FormatFloat(v, []byte{'g', 'f', 'e'}[t.Intn(3)], -1, 64)
	case reflect.Bool:
		b := t.Intn(2) == 0
		out.SetBool(b)
		return out, strconv.FormatBool(b)
	case reflect.Ptr:
		v, s := c15Render(t, ty.Elem(), depth, nested)
		p := reflect.New(ty.Elem())
		p.Elem().Set(v)
		out.Set(p)
		return out, s
	case reflect.Slice:
		n := t.Intn(4)
		legacy := !nested && n > 0 && t.Intn(3) == 0 && c15Flat(ty.Elem())
		var parts []string
		for i := 0; i < n; i++ {
			v, s := c15Render(t, ty.Elem(), depth-1, true)
			for s == "" {
				v, s = c15Render(t, ty.Elem(), depth-1, true)
			}
			out.Set(reflect.Append(out, v))
			parts = append(parts, s)
		}
		if legacy {
			return out, c15Join(t, parts, ";")
		}
		if n == 0 && !nested && t.Intn(2) == 0 {
			return out, "{" + c15Space(t) + "}"
		}
		return out, "{" + c15Space(t) + c15Join(t, parts, ",") + c15Space(t) + "}"
	case reflect.Map:
		out.Set(reflect.MakeMap(ty))
		var parts []string
		for n := t.Intn(4); n > 0; n-- {
			k, ks := c15Render(t, ty.Key(), depth-1, true)
			if ks == "" || out.MapIndex(k).IsValid() {
				continue
			}
			v, s := c15Render(t, ty.Elem(), depth-1, true)
			out.SetMapIndex(k, v)
			parts = append(parts, ks+c15Space(t)+":"+c15Space(t)+s)
		}
		return out, "{" + c15Space(t) + c15Join(t, parts, ",") + c15Space(t) + "}"
	case reflect.Interface:
		v, s := c15AnyValue(t, depth, nested)
		out.Set(v)
		return out, s
	}
	panic("kind")
}

// c15AnyValue writes a value of the types that are guessed.
func c15AnyValue(t *vc.E2E, depth int, nested bool) (reflect.Value, string) {
	k := t.Intn(6)
	if depth <= 0 && k >= 4 {
		k = t.Intn(4)
	}
	switch k {
	case 0:
		s := c15Texts[t.Intn(len(c15Texts))]
		return reflect.ValueOf(s), strconv.Quote(s)
	case 1:
		v, s := c15Render(t, reflect.TypeOf(0), depth, nested)
		return v, s
	case 2:
		v := []float64{0.5, -2.25, 1e21, 1e-7, 3.141592653589793}[t.Intn(5)]
		s := strconv.FormatFloat(v, 'e', -1, 64)
		return reflect.ValueOf(v), s
	case 3:
		b := t.Intn(2) == 0
		return reflect.ValueOf(b), strconv.FormatBool(b)
	case 4:
		// a slice of values of one type, told by its first element
		ty := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(false), reflect.TypeOf([]string{})}[t.Intn(4)]
		out := reflect.New(reflect.SliceOf(ty)).Elem()
		var parts []string
		for n := 1 + t.Intn(3); n > 0; n-- {
			var v reflect.Value
			var s string
			if ty.Kind() == reflect.Slice {
				v = reflect.ValueOf([]string{"x", "y,z"})
				s = `{"x"` + c15Space(t) + `,` + c15Space(t) + `"y,z"}`
			} else if ty.Kind() == reflect.String {
				txt := c15Texts[t.Intn(len(c15Texts))]
				v, s = reflect.ValueOf(txt), strconv.Quote(txt)
			} else {
				v, s = c15Render(t, ty, depth-1, true)
			}
			out.Set(reflect.Append(out, v))
			parts = append(parts, s)
		}
		if !nested && ty.Kind() != reflect.Slice && len(parts) > 1 && t.Intn(3) == 0 {
			return out, c15Join(t, parts, ";")
		}
		return out, "{" + c15Join(t, parts, ",") + "}"
	}
	m := map[string]interface{}{}
	var parts []string
	for n := t.Intn(3); n > 0; n-- {
		key := c15Texts[t.Intn(len(c15Texts))]
		if _, dup := m[key]; dup {
			continue
		}
		v, s := c15AnyValue(t, depth-1, true)
		m[key] = v.Interface()
		parts = append(parts, strconv.Quote(key)+c15Space(t)+":"+c15Space(t)+s)
	}
	return reflect.ValueOf(m), "{" + c15Join(t, parts, ",") + "}"
}

func c15Join(t *vc.E2E, parts []string, sep string) string {
	s := ""
	for i, p := range parts {
		if i > 0 {
			s += c15Space(t) + sep + c15Space(t)
		}
		s += p
	}
	return s
}

func c15Flat(ty reflect.Type) bool {
	switch ty.Kind() {
	case reflect.Slice, reflect.Map, reflect.Interface:
		return false
	case reflect.Ptr:
		return c15Flat(ty.Elem())
	}
	return true
}

// c15Same compares values, an empty slice being as good as none.
func c15Same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !c15Same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if v := b.MapIndex(k); !v.IsValid() || !c15Same(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return c15Same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !c15Same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func c15Show(v reflect.Value) string { return fmt.Sprintf("%#v", v.Interface()) }

// c15Struct is a random type of marker: what it is parsed into, and the
// names and options of its arguments.
type c15Struct struct {
	ty       reflect.Type
	args     []string
	optional []bool
}

func c15MakeStruct(t *vc.E2E) c15Struct {
	var s c15Struct
	var fields []reflect.StructField
	names := []string{"Name", "URL", "X", "MaxLength", "Été", "A1", "Value", "Foo_Bar"}
	n := 1 + t.Intn(4)
	perm := t.Perm(len(names))
	for i := 0; i < n; i++ {
		name := names[perm[i]]
		f := reflect.StructField{Name: name, Type: c15Type(t, 2)}
		arg := ""
		for j, r := range name {
			if j == 0 {
				arg += strings.ToLower(string(r))
			} else {
				arg += string(r)
			}
		}
		optional := f.Type.Kind() == reflect.Ptr
		switch t.Intn(6) {
		case 0:
			f.Tag = `marker:",optional"`
			optional = true
		case 1:
			arg = "renamed" + itoa(i)
			f.Tag = reflect.StructTag(`marker:"` + arg + `"`)
		case 2:
			arg = "re_named" + itoa(i)
			f.Tag = reflect.StructTag(`json:"x" marker:"` + arg + `,optional"`)
			optional = true
		case 3:
			f.Tag = `json:"other,optional"`
		}
		s.args = append(s.args, arg)
		s.optional = append(s.optional, optional)
		fields = append(fields, f)
	}
	s.ty = reflect.StructOf(fields)
	return s
}

// E2E_C15_arguments parses markers rendered from values, and such with one
// mistake in them.
func E2E_C15_arguments(t *vc.E2E) {
	t.Rule = "random marker types of 1..4 fields (strings, int, int32, float64, bool, named ones, pointers, slices, string maps, any; tags that rename and make optional), values incl. extremes and texts with separators, rendered quoted, raw, bare, in braces and with semicolons, with white space; then one mistake per marker: unknown argument, missing argument, overflow, wrong kind, trailing text, missing separator, unclosed brace or quote"
	for n := t.N(6000, 60000); n > 0 && t.More(); n-- {
		st := c15MakeStruct(t)
		def, err := markers.MakeDefinition("test:m", markers.DescribesField, reflect.Zero(st.ty).Interface())
		if err != nil {
			c15Fail(t, "definition", st.ty.String(), err.Error())
			return
		}
		want := reflect.New(st.ty).Elem()
		var parts []string
		missing, wantErr := "", false
		for _, i := range t.Perm(len(st.args)) {
			if st.optional[i] && t.Intn(3) == 0 {
				continue
			}
			if t.Intn(25) == 0 {
				if !st.optional[i] {
					missing, wantErr = st.args[i], true
				}
				continue
			}
			v, s := c15Render(t, st.ty.Field(i).Type, 2, false)
			want.Field(i).Set(v)
			parts = append(parts, st.args[i]+c15Space(t)+"="+s)
		}
		text := "+test:m:" + c15Join(t, parts, ",")
		if len(parts) == 0 {
			text = "+test:m"
		}
		t.Case(text)
		var got interface{}
		input := st.ty.String() + "\n" + text
		if c15Try(t, "panic", input, func() { got, err = def.Parse(text) }) {
			return
		}
		if wantErr {
			if err == nil {
				c15Fail(t, "missing", input, "no error for the missing argument "+missing)
				return
			}
			continue
		}
		if err != nil {
			c15Fail(t, "error", input, "written: "+c15Show(want)+"\nparsed: "+err.Error())
			return
		}
		if !c15Same(want, reflect.ValueOf(got)) {
			c15Fail(t, "value", input, "written: "+c15Show(want)+"\nparsed:  "+c15Show(reflect.ValueOf(got)))
			return
		}
		if len(parts) == 0 {
			continue
		}
		bad := c15Mistake(t, st, parts)
		for _, b := range bad {
			t.Case(b)
			input := st.ty.String() + "\n" + b
			if c15Try(t, "panic", input, func() { got, err = def.Parse(b) }) {
				return
			}
			if err == nil {
				c15Fail(t, "accepted", input, "a malformed marker is accepted as "+c15Show(reflect.ValueOf(got)))
				return
			}
		}
	}
}

func c15Mistake(t *vc.E2E, st c15Struct, parts []string) []string {
	pre := "+test:m:"
	all := strings.Join(parts, ",")
	bad := []string{
		pre + all + ",nope=1", pre + "nope=1," + all, pre + all + ",", pre + all + ",=", pre + all + ", ,x", pre + "," + all,
	}
	for i, a := range st.args {
		rest := ""
		for _, p := range parts {
			if !strings.HasPrefix(p, a+"=") && !strings.HasPrefix(p, a+" ") && !strings.HasPrefix(p, a+"\t") {
				rest += "," + p
			}
		}
		ty := st.ty.Field(i).Type
		for ty.Kind() == reflect.Ptr {
			ty = ty.Elem()
		}
		var vals []string
		switch ty.Kind() {
		case reflect.Int:
			vals = []string{"9223372036854775808", "-9223372036854775809", "x", "\"5\"", "1.5", "5 6", "5x", "--5", "", "{5}", "5}", "5;6", "true", "-", "1e3"}
		case reflect.Int32:
			vals = []string{"2147483648", "-2147483649", "4294967296", "9223372036854775808", "x", "\"5\"", "1.5", "5 6", "", "5;6", "-"}
		case reflect.Float64:
			vals = []string{"x", "\"5\"", "1e999", "5 6", "1.2.3", "", "-", "--1.5", "true"}
		case reflect.Bool:
			vals = []string{"yes", "1", "\"true\"", "True", "true false", "", "truefalse", "{true}", "-true"}
		case reflect.String:
			vals = []string{"\"a", "\"a\"b", "\"a\"\"b\"", "`a", "\"\\q\"", "a:b", "a;b", "a}"}
		case reflect.Slice:
			vals = []string{"{", "{{", "}", "{}}", "{}x"}
			if k := ty.Elem().Kind(); k == reflect.Int || k == reflect.Int32 {
				vals = append(vals, "{1", "{1,", "{1;2}", "{1 2}", "{99999999999999999999}", "1;x", "{1,,2}", "1;;2")
				if k == reflect.Int32 {
					vals = append(vals, "2147483648", "{1,2147483648}", "1;2147483648")
				}
			}
		case reflect.Map:
			vals = []string{"{", "x", "{\"a\"}", "{\"a\":", "{}}", "{}x", "{:}}", ""}
			if k := ty.Elem().Kind(); k == reflect.Int || k == reflect.Int32 {
				vals = append(vals, "{\"a\":1", "{\"a\":1,", "{\"a\":1 \"b\":2}", "{\"a\":x}", "{\"a\":}", "{\"a\",1}", "{1}")
				if k == reflect.Int32 {
					vals = append(vals, "{a:2147483648}", "{a:1,b:-2147483649}")
				}
			}
		case reflect.Interface:
			vals = []string{"\"a", "{", "5 6", "{\"a\":", "true x", "99999999999999999999", "{1,x}", "{1,{2}}"}
		}
		for _, v := range vals {
			bad = append(bad, pre+strings.TrimPrefix(rest+","+a+"="+v, ","))
		}
		if rest != "" {
			bad = append(bad, pre+rest[1:]+","+a, pre+rest[1:]+","+a+" 5")
		}
	}
	t.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
	if len(bad) > 6 {
		bad = bad[:6]
	}
	return bad
}

// E2E_C15_anonymous parses markers that are a single value.
func E2E_C15_anonymous(t *vc.E2E) {
	t.Rule = "random types of values as markers of their own, values as for E2E_C15_arguments; the same with trailing text"
	for n := t.N(3000, 30000); n > 0 && t.More(); n-- {
		ty := c15Type(t, 2)
		for ty.Kind() == reflect.Interface {
			ty = c15Type(t, 2)
		}
		def, err := markers.MakeDefinition("test:m", markers.DescribesField, reflect.Zero(ty).Interface())
		if err != nil {
			c15Fail(t, "definition", ty.String(), err.Error())
			return
		}
		v, s := c15Render(t, ty, 2, false)
		if s == "" {
			continue
		}
		text := "+test:m=" + s
		t.Case(text)
		var got interface{}
		input := ty.String() + "\n" + text
		if c15Try(t, "panic", input, func() { got, err = def.Parse(text) }) {
			return
		}
		if err != nil {
			c15Fail(t, "error", input, "written: "+c15Show(v)+"\nparsed: "+err.Error())
			return
		}
		if !c15Same(v, reflect.ValueOf(got)) {
			c15Fail(t, "value", input, "written: "+c15Show(v)+"\nparsed:  "+c15Show(reflect.ValueOf(got)))
			return
		}
		for _, x := range []string{",", "}", ",x=1", ";}"} {
			if ty.Kind() == reflect.Slice && x == ";}" {
				continue
			}
			if c15Try(t, "panic", input+x, func() { got, err = def.Parse(text + x) }) {
				return
			}
			if err == nil {
				c15Fail(t, "trailing", input+x, "trailing text is accepted: "+c15Show(reflect.ValueOf(got)))
				return
			}
		}
	}
}

// E2E_C15_garbage parses texts that are no markers at all: they may be errors,
// but nothing may panic.
func E2E_C15_garbage(t *vc.E2E) {
	t.Rule = "random sequences of 0..12 tokens of the grammar (braces, quotes, separators, numbers, words, invalid UTF-8) as arguments of random types: never a panic, integers in range"
	toks := []string{"{", "}", ",", ";", ":", "=", "\"", "`", "'", "\"a\"", "a", "true", "5", "-", "0x", "08", "1.5", "1e", " ", "\\", "\xff", "\x00", "é", "99999999999999999999", "4294967297", "x=", "/*", "//", "\ufeff", "\n"}
	for n := t.N(12000, 120000); n > 0 && t.More(); n-- {
		st := c15MakeStruct(t)
		def, err := markers.MakeDefinition("test:m", markers.DescribesField, reflect.Zero(st.ty).Interface())
		if err != nil {
			c15Fail(t, "definition", st.ty.String(), err.Error())
			return
		}
		s := "+test:m:" + st.args[0] + "="
		for k := t.Intn(12); k > 0; k-- {
			s += toks[t.Intn(len(toks))]
		}
		t.Case(s)
		if c15Try(t, "panic", st.ty.String()+"\n"+strconv.Quote(s), func() { _, _ = def.Parse(s) }) {
			return
		}
	}
}

func c15Fail(t *vc.E2E, key, input, msg string) { t.Fail(key, "input: %s\n%s", input, msg) }

// c15Try says whether f panicked (and reports it).
func c15Try(t *vc.E2E, key, input string, f func()) bool {
	ok := false
	t.Try(key, input, func() {
		f()
		ok = true
	})
	return !ok
}

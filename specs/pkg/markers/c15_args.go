package markers

import (
	"reflect"
	sc "text/scanner"

	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C15: what arguments a marker has, and how scalar ones are read.

//vc:stub strings.Split
func c15Split(s, sep string) []string {
	parts := vc.UF[[]string]("split", s, sep)
	vc.Assume(len(parts) > 0)
	return parts
}

//vc:stub (reflect.StructTag).Lookup
func c15Lookup(tag reflect.StructTag, key string) (string, bool) {
	ok := vc.UF[bool]("hasTag", tag, key)
	if !ok {
		return "", false
	}
	return vc.UF[string]("tag", tag, key), true
}

//vc:stub sigs.k8s.io/controller-tools/pkg/markers.lowerCamelCase
func c15Camel(in string) string { return vc.UF[string]("camel", in) }

//vc:logical
func VC_C15_info(fieldName string, tag reflect.StructTag) {
	text, has := c15Lookup(tag, "marker")
	parts := c15Split(text, ",")
	name, optional := argumentInfo(fieldName, tag)
	if has && parts[0] != "" {
		vc.Ensures("the tag names the argument", name == parts[0])
	} else {
		vc.Ensures("else the field does", name == c15Camel(fieldName))
	}
	options := parts[1:]
	vc.Ensures("an argument is optional exactly when its tag says so", optional == vc.Exists(0, len(options), func(i int) bool { return options[i] == "optional" }))
}

func VC_C15_anonymous(d *Definition) {
	vc.Requires(d != nil)
	_, blank := d.Fields[""]
	vc.Ensures("a definition is anonymous exactly when its only field is the blank one", d.AnonymousField() == (blank && len(d.Fields) == 1))
	vc.Ensures("a definition without fields is empty", d.Empty() == (len(d.Fields) == 0))
}

//vc:stub iface:reflect.Type.Kind
func c15Kind(t reflect.Type) reflect.Kind { return vc.UF[reflect.Kind]("kind", t) }

//vc:stub iface:reflect.Type.Elem
func c15Elem(t reflect.Type) reflect.Type {
	u := vc.UF[reflect.Type]("elem", t)
	vc.Assume(u != nil)
	return u
}

//vc:stub iface:reflect.Type.Key
func c15Key(t reflect.Type) reflect.Type {
	u := vc.UF[reflect.Type]("key", t)
	vc.Assume(u != nil)
	return u
}

// c15Item is the argument of the items of a type, by this very contract.
//
//vc:stub sigs.k8s.io/controller-tools/pkg/markers.ArgumentFromType
func c15Item(t reflect.Type) (Argument, error) {
	return vc.UF[Argument]("argument", t), vc.UF[error]("argumentErr", t)
}

//vc:logical
//vc:verifies sigs.k8s.io/controller-tools/pkg/markers.ArgumentFromType
func VC_C15_types(t reflect.Type) {
	vc.Requires(t != nil && t != rawArgsType && t != interfaceType)
	pointer := c15Kind(t) == reflect.Ptr
	u := t
	if pointer {
		u = c15Elem(t)
	}
	arg, err := ArgumentFromType(t)
	if err == nil {
		vc.Ensures("pointers are optional pointer arguments", arg.Pointer == pointer && arg.Optional == pointer)
	}
	switch c15Kind(u) {
	case reflect.String:
		vc.Ensures("strings", err == nil && arg.Type == StringType)
	case reflect.Int, reflect.Int32:
		vc.Ensures("integers", err == nil && arg.Type == IntType)
	case reflect.Float64:
		vc.Ensures("numbers", err == nil && arg.Type == NumberType)
	case reflect.Bool:
		vc.Ensures("booleans", err == nil && arg.Type == BoolType)
	case reflect.Slice:
		item, ierr := c15Item(c15Elem(u))
		vc.Ensures("slices have arguments for items", (err == nil) == (ierr == nil))
		if err == nil {
			vc.Ensures("slices are of these items", arg.Type == SliceType && arg.ItemType != nil && *arg.ItemType == item)
		}
	case reflect.Map:
		item, ierr := c15Item(c15Elem(u))
		vc.Ensures("maps have string keys and arguments for items", (err == nil) == (ierr == nil && c15Kind(c15Key(u)) == reflect.String))
		if err == nil {
			vc.Ensures("maps are of these items", arg.Type == MapType && arg.ItemType != nil && *arg.ItemType == item)
		}
	default:
		vc.Ensures("nothing else can be an argument", err != nil)
	}
}

// What was reported, stored and read.
var (
	c15Scans  int
	c15Errs   int
	c15Stored int
	c15Int    int
	c15Bool   bool
	c15Float  float64
)

//vc:stub sigs.k8s.io/controller-tools/pkg/markers.peekNoSpace
func c15Peek(s *sc.Scanner) rune { return vc.UF[rune]("peek", c15Scans) }

//vc:stub (*text/scanner.Scanner).Peek
func c15PeekHere(s *sc.Scanner) rune { return vc.UF[rune]("peekHere", c15Scans) }

//vc:stub (*text/scanner.Scanner).Scan
func c15Scan(s *sc.Scanner) rune {
	c15Scans++
	return vc.UF[rune]("token", c15Scans)
}

//vc:stub (*text/scanner.Scanner).TokenText
func c15TokenText(s *sc.Scanner) string { return vc.UF[string]("text", c15Scans) }

//vc:stub strconv.Atoi
func c15Atoi(s string) (int, error) { return vc.UF[int]("atoi", s), vc.UF[error]("atoiErr", s) }

//vc:stub strconv.ParseFloat
func c15ParseFloat(s string, bits int) (float64, error) {
	vc.Requires(bits == 64)
	return vc.UF[float64]("float", s), vc.UF[error]("floatErr", s)
}

//vc:stub (reflect.Value).OverflowInt
func c15Overflow(v reflect.Value, x int64) bool { return vc.UF[bool]("overflow", x) }

//vc:stub (reflect.Value).CanInt
func c15CanInt(v reflect.Value) bool { return vc.UF[bool]("canInt") }

//vc:stub (reflect.Value).Type
func c15TypeOf(v reflect.Value) reflect.Type { return vc.UF[reflect.Type]("type") }

//vc:stub reflect.ValueOf
func c15ValueOf(v any) reflect.Value {
	switch v := v.(type) {
	case int:
		c15Int = v
	case bool:
		c15Bool = v
	case float64:
		c15Float = v
	}
	return reflect.Value{}
}

//vc:stub sigs.k8s.io/controller-tools/pkg/markers.castAndSet
func c15Set(out, val reflect.Value) { c15Stored++ }

// c15Scanner is a scanner that counts its errors.
func c15Scanner(s *sc.Scanner) {
	vc.Requires(s != nil)
	c15Errs, c15Stored, c15Scans = 0, 0, 0
	s.Error = func(*sc.Scanner, string) { c15Errs++ }
}

//vc:logical
func VC_C15_bool(s *sc.Scanner, out reflect.Value) {
	a := &Argument{Type: BoolType}
	c15Scanner(s)
	a.parse(s, "", out, false)
	text := vc.UF[string]("text", 1)
	ok := vc.UF[rune]("token", 1) == sc.Ident && (text == "true" || text == "false")
	vc.Ensures("true and false are stored, all else reported", ok == (c15Stored == 1) && ok == (c15Errs == 0) && c15Stored <= 1)
	if ok {
		vc.Ensures("what is written is stored", c15Bool == (text == "true"))
	}
	vc.Ensures("one token is consumed", c15Scans == 1)
}

//vc:logical
func VC_C15_int(s *sc.Scanner, out reflect.Value) {
	a := &Argument{Type: IntType}
	c15Scanner(s)
	at, sign := 1, ""
	if vc.UF[rune]("peek", 0) == '-' {
		at, sign = 2, "-"
	}
	text := sign + vc.UF[string]("text", at)
	n, err := c15Atoi(text)
	ok := vc.UF[rune]("token", at) == sc.Int && err == nil && !(c15CanInt(out) && c15Overflow(out, int64(n)))
	a.parse(s, "", out, false)
	vc.Ensures("integers that fit are stored, all else is reported", ok == (c15Stored == 1) && ok == (c15Errs == 0) && c15Stored <= 1)
	if ok {
		vc.Ensures("what is written is stored", c15Int == n)
	}
	vc.Ensures("no more tokens are consumed", c15Scans == at)
}

//vc:logical
func VC_C15_number(s *sc.Scanner, out reflect.Value) {
	a := &Argument{Type: NumberType}
	c15Scanner(s)
	at, sign := 1, ""
	if vc.UF[rune]("peek", 0) == '-' {
		at, sign = 2, "-"
	}
	text := sign + vc.UF[string]("text", at)
	x, err := c15ParseFloat(text, 64)
	tok := vc.UF[rune]("token", at)
	ok := (tok == sc.Int || tok == sc.Float) && err == nil
	a.parse(s, "", out, false)
	vc.Ensures("numbers are stored, all else is reported", ok == (c15Stored == 1) && ok == (c15Errs == 0) && c15Stored <= 1)
	if ok {
		vc.Ensures("what is written is stored", vc.Same(c15Float, x))
	}
	vc.Ensures("no more tokens are consumed", c15Scans == at)
}

//vc:logical
func VC_C15_invalid(s *sc.Scanner, out reflect.Value) {
	a := &Argument{Type: InvalidType}
	c15Scanner(s)
	a.parse(s, "", out, false)
	vc.Ensures("invalid arguments are errors", c15Errs == 1 && c15Stored == 0)
}

// What a delimited value is made of.

//vc:logical
func VC_C15_expect(s *sc.Scanner, want rune) {
	c15Scanner(s)
	ok := expect(s, want, "x")
	vc.Ensures("the next token is the expected one, or an error is reported", ok == (vc.UF[rune]("token", 1) == want) && ok == (c15Errs == 0) && c15Scans == 1)
}

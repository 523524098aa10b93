package markers

import (
	"encoding/json"
	"math"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
)

// Contracts for C03: validation markers apply only to compatible schemas and
// set only their own keyword.

type schemaMarkerC03 interface {
	ApplyToSchema(schema *apiext.JSONSchemaProps) error
}

func c03Numeric(t string) bool { return t == "integer" || t == "number" }

// c03Integral: finite with no fractional part.
func c03Integral(v float64) bool { return math.Floor(v) == v && v-v == 0 }

func VC_C03_Maximum(m Maximum, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := c03Numeric(s.Type) && (s.Type != "integer" || c03Integral(float64(m)))
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on numeric types, integral on integer", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets maximum to the marker value", s.Maximum != nil && vc.Same(*s.Maximum, float64(m)))
		vc.OnlyModifies(snap, "changes only maximum", &s.Maximum)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_Minimum(m Minimum, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := c03Numeric(s.Type) && (s.Type != "integer" || c03Integral(float64(m)))
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on numeric types, integral on integer", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets minimum to the marker value", s.Minimum != nil && vc.Same(*s.Minimum, float64(m)))
		vc.OnlyModifies(snap, "changes only minimum", &s.Minimum)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_MultipleOf(m MultipleOf, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := c03Numeric(s.Type) && (s.Type != "integer" || c03Integral(float64(m)))
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on numeric types, integral on integer", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets multipleOf to the marker value", s.MultipleOf != nil && vc.Same(*s.MultipleOf, float64(m)))
		vc.OnlyModifies(snap, "changes only multipleOf", &s.MultipleOf)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_ExclusiveMaximum(m ExclusiveMaximum, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := c03Numeric(s.Type)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on numeric types", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets exclusiveMaximum", s.ExclusiveMaximum == bool(m))
		vc.OnlyModifies(snap, "changes only exclusiveMaximum", &s.ExclusiveMaximum)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_ExclusiveMinimum(m ExclusiveMinimum, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := c03Numeric(s.Type)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on numeric types", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets exclusiveMinimum", s.ExclusiveMinimum == bool(m))
		vc.OnlyModifies(snap, "changes only exclusiveMinimum", &s.ExclusiveMinimum)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_MaxLength(m MaxLength, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "string" || s.XIntOrString
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on strings and int-or-strings", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets maxLength", s.MaxLength != nil && *s.MaxLength == int64(m))
		vc.OnlyModifies(snap, "changes only maxLength", &s.MaxLength)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_MinLength(m MinLength, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "string" || s.XIntOrString
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on strings and int-or-strings", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets minLength", s.MinLength != nil && *s.MinLength == int64(m))
		vc.OnlyModifies(snap, "changes only minLength", &s.MinLength)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_Pattern(m Pattern, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "string" || s.XIntOrString
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on strings and int-or-strings", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets pattern", s.Pattern == string(m))
		vc.OnlyModifies(snap, "changes only pattern", &s.Pattern)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_MaxItems(m MaxItems, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "array"
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on arrays", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets maxItems", s.MaxItems != nil && *s.MaxItems == int64(m))
		vc.OnlyModifies(snap, "changes only maxItems", &s.MaxItems)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_MinItems(m MinItems, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "array"
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on arrays", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets minItems", s.MinItems != nil && *s.MinItems == int64(m))
		vc.OnlyModifies(snap, "changes only minItems", &s.MinItems)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_UniqueItems(m UniqueItems, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "array"
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on arrays", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets uniqueItems", s.UniqueItems == bool(m))
		vc.OnlyModifies(snap, "changes only uniqueItems", &s.UniqueItems)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_MaxProperties(m MaxProperties, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "object"
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on objects", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets maxProperties", s.MaxProperties != nil && *s.MaxProperties == int64(m))
		vc.OnlyModifies(snap, "changes only maxProperties", &s.MaxProperties)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_MinProperties(m MinProperties, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := s.Type == "object"
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly on objects", (err == nil) == ok)
	if err == nil {
		vc.Ensures("sets minProperties", s.MinProperties != nil && *s.MinProperties == int64(m))
		vc.OnlyModifies(snap, "changes only minProperties", &s.MinProperties)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_Format(m Format, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("always accepted", err == nil)
	vc.Ensures("sets format", s.Format == string(m))
	vc.OnlyModifies(snap, "changes only format", &s.Format)
}

func VC_C03_Type(m Type, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("always accepted", err == nil)
	vc.Ensures("sets type", s.Type == string(m))
	vc.OnlyModifies(snap, "changes only type", &s.Type)
}

func VC_C03_Nullable(m Nullable, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("always accepted", err == nil)
	vc.Ensures("sets nullable", s.Nullable)
	vc.OnlyModifies(snap, "changes only nullable", &s.Nullable)
}

func VC_C03_XPreserveUnknownFields(m XPreserveUnknownFields, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("always accepted", err == nil)
	vc.Ensures("sets x-kubernetes-preserve-unknown-fields", s.XPreserveUnknownFields != nil && *s.XPreserveUnknownFields)
	vc.OnlyModifies(snap, "changes only x-kubernetes-preserve-unknown-fields", &s.XPreserveUnknownFields)
}

func VC_C03_XEmbeddedResource(m XEmbeddedResource, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("always accepted", err == nil)
	vc.Ensures("sets x-kubernetes-embedded-resource", s.XEmbeddedResource)
	vc.OnlyModifies(snap, "changes only x-kubernetes-embedded-resource", &s.XEmbeddedResource)
}

func VC_C03_XIntOrString(m XIntOrString, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("always accepted", err == nil)
	vc.Ensures("sets x-kubernetes-int-or-string", s.XIntOrString)
	vc.OnlyModifies(snap, "changes only x-kubernetes-int-or-string", &s.XIntOrString)
}

func VC_C03_Title(m Title, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	title, isStr := m.Value.(string)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly for strings or nothing", (err == nil) == (isStr || m.Value == nil))
	if err == nil && m.Value != nil {
		vc.Ensures("sets title", s.Title == title)
		vc.OnlyModifies(snap, "changes only title", &s.Title)
	} else {
		vc.OnlyModifies(snap, "no value or rejected: changes nothing")
	}
}

func VC_C03_Default(m Default, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	want, jerr := json.Marshal(m.Value)
	array := s.Type == "array"
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly when the value has a JSON form", (err == nil) == (jerr == nil))
	if err == nil {
		text := string(want)
		if array && text == "{}" {
			text = "[]"
		}
		vc.Ensures("sets default to the JSON of the value", s.Default != nil && string(s.Default.Raw) == text)
		vc.OnlyModifies(snap, "changes only default", &s.Default)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_KubernetesDefault(m KubernetesDefault, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	want, jerr := json.Marshal(m.Value)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly when there is no value or it has a JSON form", (err == nil) == (m.Value == nil || jerr == nil))
	if err == nil && m.Value != nil {
		vc.Ensures("sets default to the JSON of the value", s.Default != nil && string(s.Default.Raw) == string(want))
		vc.OnlyModifies(snap, "changes only default", &s.Default)
	} else {
		vc.OnlyModifies(snap, "no value or rejected: changes nothing")
	}
}

func VC_C03_Example(m Example, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	want, jerr := json.Marshal(m.Value)
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly when the value has a JSON form", (err == nil) == (jerr == nil))
	if err == nil {
		vc.Ensures("sets example to the JSON of the value", s.Example != nil && string(s.Example.Raw) == string(want))
		vc.OnlyModifies(snap, "changes only example", &s.Example)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

func VC_C03_XValidation(m XValidation, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	r := m.Reason
	ok := r == "" || r == "FieldValueRequired" || r == "FieldValueInvalid" || r == "FieldValueForbidden" || r == "FieldValueDuplicate"
	old := s.XValidations
	i := vc.AnyIndex(len(old))
	var before apiext.ValidationRule
	if i >= 0 {
		before = old[i]
	}
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly with a known reason", (err == nil) == ok)
	if err == nil {
		n := len(old)
		vc.Ensures("appends one rule", len(s.XValidations) == n+1)
		got := s.XValidations[n]
		vc.Ensures("the rule is the marker's", got.Rule == m.Rule && got.Message == m.Message && got.MessageExpression == m.MessageExpression && got.FieldPath == m.FieldPath && got.OptionalOldSelf == m.OptionalOldSelf)
		vc.Ensures("the reason is the marker's", (got.Reason == nil) == (r == "") && (got.Reason == nil || string(*got.Reason) == r))
		vc.Ensures("earlier rules are kept", i < 0 || vc.Same(s.XValidations[i], before))
		vc.OnlyModifies(snap, "changes only the rules", &s.XValidations, old)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

package markers

import (
	"encoding/json"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/internal/vc"
)

func VC_C03_Enum(m Enum, s *apiext.JSONSchemaProps) {
	vc.Requires(s != nil)
	ok := vc.Forall(0, len(m), func(i int) bool {
		_, err := json.Marshal(m[i])
		return err == nil
	})
	snap := vc.Snap()
	err := m.ApplyToSchema(s)
	vc.Ensures("accepted exactly when every value has a JSON form", (err == nil) == ok)
	if err == nil {
		vc.Ensures("one enum entry per value", len(s.Enum) == len(m))
		vc.Ensures("each entry is the JSON of its value, in order", vc.Forall(0, len(m), func(i int) bool {
			want, _ := json.Marshal(m[i])
			return string(s.Enum[i].Raw) == string(want)
		}))
		vc.OnlyModifies(snap, "changes only enum", &s.Enum)
	} else {
		vc.OnlyModifies(snap, "rejected marker changes nothing")
	}
}

import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed
mkseed("c05-storage-resets","C05","two versions of one kind both marked as storage version, applied in turn",
 "a storageversion marker clears the storage flag of the other versions",
 [("pkg/crd/markers/crd.go",'''		ver := &crd.Versions[i]
		if ver.Name != version {
			continue
		}
		ver.Storage = true
		break
	}
	return nil''','''		ver := &crd.Versions[i]
		// exactly one version can be the storage version
		ver.Storage = ver.Name == version
	}
	return nil''')],"pkg/crd/markers",'''package markers

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestDemo(t *testing.T) {
	crd := &apiext.CustomResourceDefinitionSpec{Versions: []apiext.CustomResourceDefinitionVersion{{Name: "v1"}, {Name: "v2"}}}
	for _, v := range []string{"v1", "v2"} {
		if err := (StorageVersion{}).ApplyToCRD(crd, v); err != nil {
			t.Fatal(err)
		}
	}
	if !crd.Versions[0].Storage || !crd.Versions[1].Storage {
		t.Fatalf("storage flags %v %v", crd.Versions[0].Storage, crd.Versions[1].Storage)
	}
}
''')
mkseed("c05-column-upsert","C05","two printcolumn markers with the same name on one version",
 "the second column replaces the first instead of being appended",
 [("pkg/crd/markers/crd.go",'''	*columns = append(*columns, apiext.CustomResourceColumnDefinition{
		Name:        s.Name,
		Type:        s.Type,
		JSONPath:    s.JSONPath,
		Description: s.Description,
		Format:      s.Format,
		Priority:    s.Priority,
	})

	return nil''','''	column := apiext.CustomResourceColumnDefinition{
		Name:        s.Name,
		Type:        s.Type,
		JSONPath:    s.JSONPath,
		Description: s.Description,
		Format:      s.Format,
		Priority:    s.Priority,
	}
	for i := range *columns {
		if (*columns)[i].Name == column.Name {
			(*columns)[i] = column
			return nil
		}
	}
	*columns = append(*columns, column)

	return nil''')],"pkg/crd/markers",'''package markers

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestDemo(t *testing.T) {
	crd := &apiext.CustomResourceDefinitionSpec{Versions: []apiext.CustomResourceDefinitionVersion{{Name: "v1"}}}
	for _, p := range []string{".spec.a", ".spec.b"} {
		if err := (PrintColumn{Name: "Age", Type: "string", JSONPath: p}).ApplyToCRD(crd, "v1"); err != nil {
			t.Fatal(err)
		}
	}
	if c := crd.Versions[0].AdditionalPrinterColumns; len(c) != 2 || c[0].JSONPath != ".spec.a" || c[1].JSONPath != ".spec.b" {
		t.Fatalf("columns %+v", c)
	}
}
''')
mkseed("c04-sorted-keys","C04","several listMapKey markers whose keys are not in alphabetical order",
 "the keys of a map list no longer keep the order of the markers",
 [("pkg/crd/markers/topology.go",'''	schema.XListMapKeys = append(schema.XListMapKeys, string(l))
''','''	// keep the keys sorted so that the output is stable
	i, found := slices.BinarySearch(schema.XListMapKeys, string(l))
	if !found {
		schema.XListMapKeys = slices.Insert(schema.XListMapKeys, i, string(l))
	}
'''),("pkg/crd/markers/topology.go",'''	"fmt"
''','''	"fmt"
	"slices"
''')],"pkg/crd/markers",'''package markers

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestDemo(t *testing.T) {
	m := "map"
	s := &apiext.JSONSchemaProps{Type: "array", XListType: &m}
	for _, k := range []string{"name", "kind"} {
		if err := ListMapKey(k).ApplyToSchema(s); err != nil {
			t.Fatal(err)
		}
	}
	if k := s.XListMapKeys; len(k) != 2 || k[0] != "name" || k[1] != "kind" {
		t.Fatalf("keys %q", k)
	}
}
''')
mkseed("c03-integral-int64","C03","a whole number beyond the int64 range as limit of an integer field",
 "such a limit is rejected although it is integral",
 [("pkg/crd/markers/validation.go",'''return value == math.Trunc(value) && !math.IsNaN(value) && !math.IsInf(value, 0)''','''return value == float64(int64(value)) && !math.IsNaN(value) && !math.IsInf(value, 0)''')],
 "pkg/crd/markers",'''package markers

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestDemo(t *testing.T) {
	for _, v := range []float64{1, -3, 1e15, 1e19, -1e30} {
		s := &apiext.JSONSchemaProps{Type: "integer"}
		if err := Maximum(v).ApplyToSchema(s); err != nil {
			t.Fatal(v, err)
		}
	}
}
''')

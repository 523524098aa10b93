package rbac

import "sigs.k8s.io/controller-tools/internal/vc"

func VC_C02_removeDupSorted(l []string) {
	snap := vc.Snap()
	r := removeDupAndSort(l)
	vc.Ensures("sorted without duplicates", strictlySorted(r))
	vc.OnlyModifies(snap, "nothing else changes")
}

func VC_C02_nothingAdded(l []string) {
	r := removeDupAndSort(l)
	if len(r) == 0 {
		return
	}
	i := vc.AnyIndex(len(r))
	vc.Ensures("every element was there", inList(l, r[i]))
}

func VC_C02_nothingLost(l []string) {
	vc.Requires(len(l) > 0)
	j := vc.AnyIndex(len(l))
	r := removeDupAndSort(l)
	vc.Ensures("every element is there", inList(r, l[j]))
}

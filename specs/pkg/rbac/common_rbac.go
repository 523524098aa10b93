package rbac

// inList says whether s is one of l.
func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// strictlySorted says that a list is sorted and has no duplicates.
func strictlySorted(l []string) bool {
	for i := 1; i < len(l); i++ {
		if l[i-1] >= l[i] {
			return false
		}
	}
	return true
}

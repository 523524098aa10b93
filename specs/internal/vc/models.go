package vc

import "strings"

// Models of library functions, used by the verifier in place of their bodies
// and compared with the real functions by the model self-test.

func Model_strings_SplitN(s, sep string, n int) []string {
	if n != 2 || sep == "" {
		return strings.SplitN(s, sep, n)
	}
	i := strings.Index(s, sep)
	if i < 0 {
		return []string{s}
	}
	return []string{s[:i], s[i+len(sep):]}
}

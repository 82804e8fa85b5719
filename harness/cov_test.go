//go:build guided

package harness

import _ "unsafe"

// Both are in the standard library's internal/fuzz, the second one in the
// trace.go that check.sh lays over it.

//go:linkname coverageCounters internal/fuzz.coverage
func coverageCounters() []byte

//go:linkname compareProfile internal/fuzz.verifCompareProfile
func compareProfile() []byte

//go:build !guided

package harness

func coverageCounters() []byte { return nil }
func compareProfile() []byte   { return nil }

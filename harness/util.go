package main

import "sort"

func sortStrings(l []string) { sort.Strings(l) }

// Access to the internals of the package; nil when the build of the harness
// does without (see internals/).
var (
	resetCaches func()
	poisonPools func(byte) int
	setHook     func(func(string))
)

// fresh brings the package back to the state of a fresh process, if possible.
func fresh() {
	if resetCaches != nil {
		resetCaches()
		count("cache_resets", 1)
	}
}

func poison() {
	if poisonPools != nil {
		count("poisoned_buffers", poisonPools(0xA5))
	}
}

func clipBytes(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

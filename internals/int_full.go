package main

import "github.com/wI2L/jettison"

func init() {
	resetCaches = jettison.VerifResetCaches
	poisonPools = jettison.VerifPoisonPools
	setHook = func(f func(string)) { jettison.VerifHook = f }
}

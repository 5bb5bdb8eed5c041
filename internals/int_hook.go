package main

import "github.com/wI2L/jettison"

func init() {
	setHook = func(f func(string)) { jettison.VerifHook = f }
}

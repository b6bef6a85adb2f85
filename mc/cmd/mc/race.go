//go:build race

package main

import (
	"runtime"
	"verifmc/mc"
)

func init() {
	mc.RaceMode = true
	mc.RaceErrors = runtime.RaceErrors
}

//go:build race

package main

import (
	"runtime"

	"verifsim/simrt"
)

func init() { simrt.RaceBuild() }

func raceErrors() int { return runtime.RaceErrors() }

//go:build race

package harness

import "runtime"

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

//go:build !race

package harness

const raceBuild = false

func raceErrors() int { return 0 }

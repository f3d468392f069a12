//go:build race

package drv

import "runtime"

const raceOn = true

func races() int { return runtime.RaceErrors() }

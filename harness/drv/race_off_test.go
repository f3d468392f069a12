//go:build !race

package drv

const raceOn = false

func races() int { return 0 }

// Package vrt is the schedule-perturbation hook that cmd/instr plants in front of every statement of the
// code under test. The driver installs Hook; in a synctest bubble the hook sleeps a few virtual nanoseconds,
// so that every statement boundary of the real code is a point where another goroutine may run.
package vrt

var Hook func(site int)

//go:norace
func Y(site int) {
	if h := Hook; h != nil {
		h(site)
	}
}

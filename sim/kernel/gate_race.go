//go:build race

package kernel

import "runtime"

// In race builds the hand-over between tasks must not create a happens-before
// edge: otherwise the simulator itself would hide the very races we look for.
// So it is a plain variable, accessed by uninstrumented code, and polled.
// GOMAXPROCS is 1, so there is no parallelism to worry about.
type gate struct{ v int }

func (g *gate) init() {}

//go:norace
func (g *gate) wait() {
	for g.v == 0 {
		runtime.Gosched()
	}
	g.v = 0
}

//go:norace
func (g *gate) open() { g.v = 1 }

// RaceErrors is the number of data races the detector has seen.
func RaceErrors() int { return runtime.RaceErrors() }

const RaceBuild = true

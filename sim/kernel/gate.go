//go:build !race

package kernel

// gate hands the single thread of control from one goroutine to another.
type gate struct{ c chan struct{} }

func (g *gate) init() {
	if g.c == nil {
		g.c = make(chan struct{}, 1)
	}
}
func (g *gate) wait() { <-g.c }
func (g *gate) open() { g.c <- struct{}{} }

// RaceErrors is the number of data races the detector has seen.
func RaceErrors() int { return 0 }

const RaceBuild = false

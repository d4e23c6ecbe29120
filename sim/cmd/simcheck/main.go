package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	_ "verifsim/cli"
	"verifsim/lib"
	"verifsim/runner"
)

// scratchSetup makes the scratch directory of this process tree and, in race
// builds, sends the race detector's reports there. Only the first process does.
func scratchSetup() {
	if os.Getenv("SIM_TMP") != "" {
		return
	}
	d, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Setenv("SIM_TMP", d)
	os.Setenv("GORACE", "log_path="+d+"/race exitcode=0 halt_on_error=0 history_size=3")
	owner = true
}

var owner bool

func exit(n int) {
	lib.Cleanup()
	if owner {
		os.RemoveAll(os.Getenv("SIM_TMP"))
	}
	os.Exit(n)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck check|worker|serve|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("simcheck", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	ev := fs.String("evidence", "", "")
	rp := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	nw := fs.Int("workers", 0, "")
	dur := fs.Duration("dur", 0, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	upto := fs.Int("upto", 0, "")
	file := fs.String("file", "", "")
	fs.Parse(os.Args[2:])
	scratchSetup()
	if only := os.Getenv("SIM_FAMILY"); only != "" { // for development
		for _, p := range runner.Props {
			for _, f := range p.Families {
				if f.Name == only {
					p.Families = []*runner.Family{f}
				}
			}
		}
	}
	switch os.Args[1] {
	case "check":
		exit(runner.Check(&runner.Config{Prop: *prop, Tier: *tier, Seed: *seed, Evidence: *ev, Replays: *rp,
			Known: *known, Workers: *nw, Dur: *dur, MaxRuns: *upto}))
	case "worker":
		u := *upto
		if u == 0 {
			u = 1 << 40
		}
		d := *dur
		if d == 0 && *upto == 0 {
			d = 10 * time.Second
		}
		p := runner.Props[*prop]
		if p == nil {
			os.Exit(2)
		}
		runner.WatchMemory()
		runner.Worker(p, *seed, *tier, *from, *stride, u, d, os.Stdout)
		exit(0)
	case "serve":
		runner.WatchMemory()
		runner.Serve(os.Stdin, os.Stdout)
		exit(0)
	case "replay":
		exit(runner.Replay(*file, *tier))
	default:
		os.Exit(2)
	}
}

package cli

import (
	"fmt"
	"strings"

	"verifsim/kernel"
	"verifsim/machine"
)

// P11: what is on the disk at every instant, after a kill, and after a power
// loss.

// state is what a path holds.
type state struct {
	there bool
	data  string
}

func stateAt(fs *machine.FS, path string) state {
	n := fs.Stat(path)
	if n == nil {
		return state{}
	}
	if n.Kind != machine.Reg {
		return state{true, "not a file: " + string(n.Kind)}
	}
	return state{true, string(n.Data)}
}

type atomic struct {
	w     *World
	old   map[string]state
	names map[string]bool // output paths
	gen   int
	bad   bool
	rng   *Rng
	left  int // crash states still to be looked at
}

func newAtomic(w *World) *atomic {
	a := &atomic{w: w, old: map[string]state{}, names: map[string]bool{}, gen: -1, rng: kernel.NewRng(kernel.Mix(w.seed, 0xc4a5)), left: 60}
	for _, r := range w.runs {
		for _, p := range r.Outs {
			a.old[p] = stateAt(w.fs, p)
			a.names[p] = true
		}
	}
	return a
}

// look checks a file system: the current one, or what a power loss leaves.
func (a *atomic) look(fs *machine.FS, when string) bool {
	w := a.w
	w.o.Evals++
	for _, r := range w.runs {
		for _, p := range r.Outs {
			st := stateAt(fs, p)
			if st == a.old[p] {
				continue
			}
			if !st.there {
				a.fail("gone", "%s: %s is gone %s", r.desc0(), p, when)
				return false
			}
			ok := false
			why := ""
			for _, q := range w.runs { // whoever names it
				for _, qp := range q.Outs {
					if qp == p {
						if s := q.check(p, []byte(st.data)); s == "" {
							ok = true
						} else {
							why = s
						}
					}
				}
			}
			if !ok {
				a.fail("torn", "%s: %s holds neither its old contents nor a complete output %s: %d bytes, %s", r.desc0(), p, when, len(st.data), why)
				return false
			}
		}
	}
	return true
}

// others checks that what nobody named is as it was.
func (a *atomic) others(fs *machine.FS, when string) bool {
	w := a.w
	after := fs.Snap()
	for _, p := range keys(w.before) {
		b := w.before[p]
		if a.names[p] || strings.HasPrefix(p, "/w/redir") || b.Kind == machine.Fifo || b.Kind == machine.Chr {
			continue
		}
		e, ok := after[p]
		if !ok {
			a.fail("lost", "%s: %s is gone %s", w.runs[0].desc0(), p, when)
			return false
		}
		if s := sameEnt(b, e); s != "" {
			a.fail("damaged", "%s: %s %s %s", w.runs[0].desc0(), p, s, when)
			return false
		}
	}
	return true
}

func (a *atomic) fail(kind, f string, v ...any) {
	a.bad = true
	a.w.failf(kind, f, v...)
}

// after is called after each request.
func (a *atomic) after(p *machine.Proc, cls string) {
	fs := a.w.fs
	if a.bad || fs.Gen == a.gen && cls != "fsync" {
		return
	}
	if fs.Gen != a.gen {
		a.gen = fs.Gen
		if !a.look(fs, fmt.Sprintf("after request %d (a %s)", p.Nreq, cls)) {
			return
		}
	}
	n := 1
	if cls == "rename" || cls == "fsync" || cls == "unlink" || cls == "link" || cls == "trunc" {
		n = 4
	}
	for i := 0; i < n && a.left > 0; i++ {
		a.left--
		c := fs.Crash(a.rng)
		a.w.o.Probe("crash state looked at")
		if !a.look(c, fmt.Sprintf("when the power fails after request %d (a %s)", p.Nreq, cls)) || !a.others(c, "after a power loss") {
			return
		}
	}
}

func (r *Run) desc0() string { return "'" + strings.Join(r.cmd.Args, " ") + "'" }

func execCrash(sc any, x *Exec) *Outcome {
	s := sc.(*Sc)
	w := s.world(x)
	o := w.o
	o.NonTrivial = true
	w.start()
	a := newAtomic(w)
	w.m.After = a.after
	w.m.Run()
	w.book(w.m)
	for _, r := range w.runs {
		if c := r.crashed(); c != "" {
			w.failf("crash", "%s %s", r.desc(), c)
		}
	}
	if !a.bad {
		a.look(w.fs, "in the end")
	}
	if !a.bad {
		a.others(w.fs, "in the end")
	}
	// what the next run finds
	fs := w.fs
	if w.m.Power {
		fs = w.fs.Crash(kernel.NewRng(kernel.Mix(s.Seed, 0x90)))
		if !a.bad {
			a.look(fs, "after the power loss")
		}
		if !a.bad {
			a.others(fs, "after the power loss")
		}
	}
	stopped := w.m.Power
	for _, r := range w.runs {
		stopped = stopped || r.P.Killed
	}
	if stopped && !a.bad && len(w.runs) == 1 && len(o.Viol) == 0 {
		w.again(s, fs)
	}
	w.shapeAll()
	if w.m.Power {
		w.shape("power")
	}
	return o
}

// again runs the interrupted command on what is left.
func (w *World) again(s *Sc, fs *machine.FS) {
	r := w.runs[0]
	if r.want <= 0 || r.tty != nil || len(r.Outs) == 0 {
		return
	}
	switch mod(r.Op.In, nIn) {
	case inFile, inLink:
	default:
		if r.Op.Cmd != "generate" {
			return
		}
	}
	fs.Free = -1
	fs.RO = false
	m := w.machine(fs, s.Seed)
	c := *r.cmd
	c.Rand = kernel.Mix(c.Rand, 1)
	c.Stdin, c.Stdout, c.Stderr = nil, nil, nil
	k := 2
	if r.Op.Debug {
		k = 3
	}
	if r.Op.Cmd == "store" {
		c.Args = append([]string{}, r.cmd.Args...)
		c.Args[5] = "yes"
	} else {
		c.Args = append([]string{}, r.cmd.Args[:k]...)
		c.Args = append(c.Args, "--overwrite")
		c.Args = append(c.Args, r.cmd.Args[k:]...)
	}
	p := m.Spawn(&c)
	m.Run()
	w.book(m)
	w.o.Evals++
	w.o.Probe("run again after a crash")
	if p.Exit != 0 {
		w.failf("again", "%s was stopped; running it again with --overwrite fails (exit %d): %s", r.desc(), p.Exit, p.Stderr)
		return
	}
	if x := r.result(fs); x != "" {
		w.failf("again", "%s was stopped; running it again: %s", r.desc(), x)
	}
}

func genP11(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: []string{"generate", "sign", "encrypt", "decrypt", "store"}, clean: true, dst: 2})
	op.Test = false
	if op.Out == outStdout || op.Out == outDash || op.Out == outPipe || op.Out == outRedirect {
		op.Out = outFile
	}
	if op.Text.Len > 30000 {
		op.Text.Len = r.Pick(30000, 5000)
	}
	if r.P(12) {
		op.Dst, op.Force = dstDangling, true
	}
	s.Ops = []*Op{op}
	if r.P(8) {
		s.Disk = 1 + r.N(op.Text.Len+500)
	}
	_, c := s.baseline()
	switch r.N(8) {
	case 0:
	case 1: // some other fault
		if f, ok := genFault(r, 0, c[0]); ok {
			s.Plan = append(s.Plan, f)
		}
	case 2: // a fault, then the end
		if f, ok := genFault(r, 0, c[0], "write", "fsync", "close", "rename", "unlink", "chmod"); ok {
			s.Plan = append(s.Plan, f)
		}
		fallthrough
	default:
		n := c[0]["any"]
		f := Fault{Op: "any", N: r.N(n + 1), Kind: r.PickS("kill", "power")}
		if r.P(2) { // near the end it gets interesting
			f.N = max(0, n-r.N(25))
		}
		if r.P(3) {
			cs := []string{"write", "creat", "rename", "fsync", "close", "unlink"}
			k := cs[r.N(len(cs))]
			if c[0][k] > 0 {
				f.Op, f.N = k, r.N(c[0][k])
			}
		}
		s.Plan = append([]Fault{f}, s.Plan...)
	}
	return s
}

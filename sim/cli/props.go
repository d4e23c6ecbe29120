package cli

import (
	"verifsim/runner"
)

func fam(name string, weight int, gen func(r *Rng, idx int, tier string) any, judges ...func(w *World)) *runner.Family {
	return &runner.Family{Name: name, Weight: weight, Gen: gen, New: newSc,
		Exec: func(sc any, x *Exec) *Outcome { return sc.(*Sc).exec(x, judges...) }}
}

// directed adds fixed scenarios.
func directed(f *runner.Family, v ...*Sc) *runner.Family {
	g := f.Gen
	f.Directed = len(v)
	f.Gen = func(r *Rng, idx int, tier string) any {
		if idx < len(v) {
			return clone(v[idx])
		}
		return g(r, idx, tier)
	}
	return f
}

var allCmds = []string{"generate", "sign", "verify", "encrypt", "decrypt"}

// twice, so that the library's own storing calls get their share
var withStore = append(append(append([]string{}, allCmds...), allCmds...), "store")

func genOne(st *style) func(r *Rng, idx int, tier string) any {
	return func(r *Rng, idx int, tier string) any {
		s := freshSc(r)
		t := *st
		t.clean = r.P(2)
		s.Ops = []*Op{genOp(r, &t)}
		s.genFaults(r)
		return s
	}
}

const (
	realC = "the sigtool command built from /repo's working tree (all of src/ and sign/, go-fio, go-mmap, go-utils, pflag, yaml, the Go standard library above the system calls)"
	stubC = "the kernel: files, directories, permissions, pipes, terminal, clock, pid, random source (simulated machine); scrypt's and bcrypt's mixing (cheap stand-in with the same inputs); the language runtime's own scheduling (one thread, no garbage collection)"
)

func init() {
	add := func(id, rule string, fams ...*runner.Family) {
		runner.Register(&runner.Prop{ID: id, Families: fams, Rule: rule, Real: []string{realC}, Stub: []string{stubC},
			Level: "exploration", Quick: 40, Thorough: 600, Limit: 100})
	}
	add("P11", "one run = one command with crash points",
		&runner.Family{Name: "crash", Weight: 1, Gen: genP11, New: newSc, Exec: execCrash})
	add("P20", "one run = one command, called by some word or with some block size, with some order of the runtime's maps; valid words must do the command's work completely, others must be refused, and the block size in the output's header must be that asked for",
		fam("words", 1, genWords, judgeWords))
	add("P12", "one run = one command under a fault plan",
		fam("damaged", 1, genDamaged, judgeExit),
		directed(fam("exit", 2, genOne(&style{cmds: withStore, force: 4, dst: 4}), judgeExit),
			&Sc{Seed: 1, Ops: []*Op{{Cmd: "encrypt", To: []Rcpt{{1, byPub}}, Text: Text{Len: 100}}}, Plan: []Fault{{Op: "getrandom", N: 3, Kind: "EIO"}}}),
		directed(fam("places", 1, genOne(&style{cmds: withStore, force: 2, dst: 1}), judgeExit), grid()...))
	add("P13", "one run = one command under a fault plan",
		directed(fam("keep", 1, genOne(&style{cmds: withStore, force: 2, dst: 2, same: 5}), judgeKeep), append(grid(), sameFile()...)...))
	add("P14", "one run = one command under a fault plan",
		&runner.Family{Name: "secret", Weight: 1, New: newSc, Exec: execSecret,
			Gen: genOne(&style{cmds: []string{"generate", "generate", "sign", "encrypt", "decrypt", "decrypt", "store"}, force: 3, dst: 4})})
	add("P18", "one run = several commands at a time",
		fam("many", 1, genP18, judgeMany))
	add("P17", "one run = one encrypt command", fam("recipients", 1, genP17, judgeRcpts))
	extend()
}

// genDamaged: commands on damaged encrypted files, and with many mistakes at a time.
func genDamaged(r *Rng, idx int, tier string) any {
	if r.P(24) {
		s := freshSc(r)
		s.Ops = []*Op{genOp(r, &style{cmds: []string{"encrypt"}, clean: true, dst: 3})}
		s.Ops[0].Text.Len = min(s.Ops[0].Text.Len, 2000)
		s.crowd(r)
		return s
	}
	s := genAtk(r.Pick(2, 2, 4))(r, idx, tier).(*Sc)
	op := s.Ops[0]
	if op.Atk != nil {
		op.Atk.F = nil
	}
	op.Test = r.P(4)
	if r.P(3) {
		op.Force, op.Dst = true, r.Pick(dstFile, dstFile, dstLink, dstRO, dstHardLink)
	}
	if r.P(4) {
		s.genFaults(r)
	}
	return s
}

func execSecret(sc any, x *Exec) *Outcome {
	s := sc.(*Sc)
	w := s.world(x)
	w.m.KeepWr = true
	w.run()
	var twin *World
	if w.runs[0].Op.Cmd == "generate" && w.runs[0].P.Exit != 0 {
		twin, _ = s.baseline()
	}
	judgeSecret(w, twin)
	w.shapeAll()
	return w.o
}

package cli

import (
	"sort"
	"strings"

	"verifsim/machine"
)

// P18: several commands at the same time, and pipelines.

func genP18(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	kind := r.N(3)
	npipe := 0
	switch kind {
	case 0: // side by side
		n := r.Pick(2, 2, 2, 3, 4)
		same := r.P(2)
		pid := r.P(3)
		for i := 0; i < n; i++ {
			op := genOp(r, &style{cmds: []string{"generate", "sign", "encrypt", "decrypt", "encrypt", "decrypt"}, clean: r.P(3), force: 2, dst: 6})
			if same && i > 0 && r.P(2) {
				op = clone(s.Ops[0])
				op.Rand = r.U64() >> 12
				op.Text.Seed = r.U64() >> 12
			}
			if op.Out != outFile && op.Out != outDefault {
				op.Out = outFile
			}
			op.Slot = i
			if same {
				op.Slot = r.N(2)
			}
			if pid {
				op.Pid = 77
			}
			s.Ops = append(s.Ops, op)
		}
	case 1: // pipelines
		npipe = r.Pick(1, 1, 1, 2)
		for i := 0; i < npipe; i++ {
			e := genOp(r, &style{cmds: []string{"encrypt"}, clean: !r.P(6)})
			e.Out, e.Test = outNext, false
			d := genOp(r, &style{cmds: []string{"decrypt"}, clean: !r.P(6), force: 3, dst: 4})
			d.In, d.Slot = inPrev, i
			if d.Pass == 1 {
				d.Pass, d.KFmt = 0, kfSig
			}
			d.Sender = e.Sender
			if !r.P(8) && len(e.To) > 0 {
				e.To[r.N(len(e.To))] = Rcpt{d.Key, r.Pick(byPub, bySSH, byComment)}
			}
			s.Ops = append(s.Ops, e, d)
		}
		if r.P(4) {
			o := genOp(r, &style{cmds: allCmds, clean: true})
			o.Slot = 5
			s.Ops = append(s.Ops, o)
		}
	case 2: // one replaces what another reads
		e := genOp(r, &style{cmds: []string{"encrypt"}, clean: true})
		e.Out, e.Force = outFile, true
		s.Ops = append(s.Ops, e)
		for i := r.Pick(1, 1, 2); i > 0; i-- {
			d := genOp(r, &style{cmds: []string{"decrypt"}, clean: true, force: 3, dst: 6})
			d.In, d.From, d.Slot = inOther, 0, i
			d.FTo = nil
			e.To[r.N(len(e.To))] = Rcpt{d.Key, byPub}
			d.Sender, d.FSender = e.Sender, e.Sender
			s.Ops = append(s.Ops, d)
		}
	}
	for _, op := range s.Ops {
		op.Debug = false
		op.Text.Len = min(op.Text.Len, 20000)
	}
	switch r.N(5) {
	case 0:
	case 1, 2: // a kill
		_, c := s.baseline()
		p := r.N(len(c))
		f := Fault{P: p, Op: "any", N: r.N(c[p]["any"] + 1), Kind: "kill"}
		if r.P(2) {
			f.N = max(0, c[p]["any"]-r.N(30))
		}
		s.Plan = append(s.Plan, f)
	case 3:
		s.genFaults(r)
	}
	return s
}

func judgeMany(w *World) {
	o := w.o
	if w.m.Stuck {
		w.failf("stuck", "the commands never end: %s", descs(w))
		return
	}
	named := map[string][]*Run{}
	killed := false
	for _, r := range w.runs {
		for _, p := range r.Outs {
			named[p] = append(named[p], r)
		}
		killed = killed || r.P.Killed
	}
	clean := w.noFault()
	for _, f := range w.m.Foreign {
		for _, p := range f.Paths {
			if named[p] == nil {
				w.failf("temporary", "%s %s %s, which %s made and needs", w.runs[f.P].desc(), f.Op, p, w.runs[f.Maker].desc())
			}
		}
	}
	// hit: something happened to this command itself, or to all
	hit := func(r *Run) bool {
		if w.fs.RO || w.fs.Free >= 0 || w.m.Stuck || w.m.Power {
			return true
		}
		for _, h := range w.m.Hits {
			if h.P == r.P.ID && !benign(h.Cls+" "+h.Kind) {
				return true
			}
		}
		// it reads from or writes to another command
		return r.P.Killed || mod(r.Op.In, nIn) == inPrev || mod(r.Op.In, nIn) == inOther || mod(r.Op.Out, nOut) == outNext
	}
	for _, r := range w.runs {
		o.Evals++
		if c := r.crashed(); c != "" {
			w.failf("crash", "%s %s", r.desc(), c)
		}
		if r.P.Killed {
			continue
		}
		if r.P.Exit != 0 {
			contended := false
			for _, p := range r.Outs {
				contended = contended || len(named[p]) > 1 && !r.Op.Force
			}
			if r.want > 0 && (clean || !hit(r)) && !contended {
				w.failf("disturbed", "%s fails, although nothing is wrong, among %s", r.desc(), descs(w))
			}
			continue
		}
		if r.want < 0 && !r.soft {
			w.failf("false-success", "%s succeeds although: %s", r.desc(), r.why)
		}
		if len(r.Outs) == 0 {
			if s := r.result(w.fs); s != "" {
				w.failf("truncated", "%s reports success, but %s; among %s", r.desc(), s, descs(w))
			}
		}
	}
	after := w.fs.Snap()
	for _, p := range keys(named) {
		rs := named[p]
		o.Evals++
		b, was := w.before[p]
		_, is := after[p]
		some := 0
		ok := ""
		n := w.fs.Stat(p)
		for _, r := range rs {
			done := r.P.Exit == 0 || r.P.Killed
			if r.Op.Cmd == "generate" {
				done = true // one of the pair may have been finished
			}
			if r.P.Exit == 0 {
				some++
			}
			if !done {
				continue
			}
			if n != nil && n.Kind == machine.Reg {
				s := r.check(p, n.Data)
				if s == "" {
					ok = "yes"
					break
				}
			}
		}
		switch {
		case ok == "yes":
		case some > 0:
			w.failf("mixed", "%s holds no complete output of a successful command that names it: %s", p, descs(w))
		case was && !is:
			w.failf("gone", "%s is gone though nothing succeeded: %s", p, descs(w))
		case was && sameEnt(b, after[p]) != "":
			w.failf("mixed", "%s %s though nothing succeeded: %s", p, sameEnt(b, after[p]), descs(w))
		case !was && is:
			w.failf("mixed", "%s exists though nothing succeeded: %s", p, descs(w))
		}
	}
	if clean {
		// somebody gets through
		for _, p := range keys(named) {
			rs := named[p]
			if len(rs) < 2 {
				continue
			}
			some, can := false, true
			for _, r := range rs {
				some = some || r.P.Exit == 0
				can = can && r.want > 0
			}
			if can && !some {
				w.failf("disturbed", "nobody succeeds at %s: %s", p, descs(w))
			}
		}
	}
	if !killed && !w.fired(func(k string) bool { return strings.HasPrefix(k, "unlink") || strings.HasPrefix(k, "getrandom") }) {
		for _, p := range w.newFiles() {
			if named[p] == nil {
				w.failf("left-over", "%s is left by %s", p, descs(w))
			}
		}
	}
	for _, p := range keys(w.before) {
		b := w.before[p]
		if named[p] != nil || strings.HasPrefix(p, "/w/redir") || b.Kind == machine.Fifo || b.Kind == machine.Chr {
			continue
		}
		a, ok := after[p]
		if !ok {
			w.failf("gone", "%s is gone after %s", p, descs(w))
		} else if s := sameEnt(b, a); s != "" {
			w.failf("mixed", "%s %s after %s", p, s, descs(w))
		}
	}
}

func descs(w *World) string {
	var v []string
	for _, r := range w.runs {
		v = append(v, r.desc())
	}
	return strings.Join(v, " | ")
}

func keys[V any](m map[string]V) []string {
	v := make([]string, 0, len(m))
	for k := range m {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}

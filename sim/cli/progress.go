package cli

import (
	"sort"

	"verifsim/machine"
)

// ---- P21: commands pass data on as it comes

const slackBytes = 64 << 10

// decChunk is the block size of the file a decrypt command is given.
func decChunk(op *Op) int {
	b := op.FChunk
	if b <= 0 || b > 1<<20 {
		b = 64
	}
	if op.Text.Len/b > 2000 {
		b = 4096
	}
	return b
}

func genProgress(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: []string{"encrypt", "decrypt"}, clean: true})
	op.In = inStdinPipe
	op.Out = r.Pick(outStdout, outPipe, outFile, outDash, outRedirect)
	op.Pass = 0
	op.Test = false
	var bs []string
	for k, b := range blocks {
		if b >= 256 && b <= 64<<10 {
			bs = append(bs, k)
		}
	}
	sort.Strings(bs)
	op.Block = r.PickS(bs...)
	op.Cap = r.Pick(100, 512, 4096, 65536)
	b := blocks[op.Block]
	if op.Cmd == "decrypt" {
		b = decChunk(op)
	}
	op.Text.Len = slackBytes + 2*b + r.In(2, 8)*max(b, 20000) + r.N(b)
	s.Ops = []*Op{op}
	if r.P(3) {
		s.disturb(r, true)
	}
	return s
}

func execProgress(sc any, x *Exec) *Outcome {
	s := sc.(*Sc)
	w := s.world(x)
	r := w.runs[0]
	op := r.Op
	b := 0
	switch op.Cmd {
	case "encrypt":
		b = blocks[op.Block]
	case "decrypt":
		b = decChunk(op)
	}
	o := w.o
	if b <= 0 || mod(op.In, nIn) != inStdinPipe || op.Test {
		return o
	}
	checked := 0
	reads := 0
	w.m.After = func(p *machine.Proc, cls string) {
		if p != r.P || p.Reads0 == reads {
			return
		}
		reads = p.Reads0
		in := p.Wanted
		if op.Cmd == "decrypt" {
			in = in / int64(b+20) * int64(b)
		}
		need := in - slackBytes - 2*int64(b)
		if op.Cmd == "decrypt" {
			need -= 20000 // the header
		}
		if need <= 0 {
			return
		}
		checked++
		if p.Out < need {
			w.failf("held-back", "%s asks for more input when it has read %d bytes of it and has written only %d bytes (block size %d)", r.desc(), p.Wanted, p.Out, b)
		}
	}
	w.run()
	o.Evals++
	w.shapeAll()
	w.shape(checked > 0, op.Cap)
	o.NonTrivial = checked > 0
	if c := r.crashed(); c != "" {
		w.failf("crash", "%s %s", r.desc(), c)
	} else if r.P.Exit != 0 && r.want > 0 && w.noFault() {
		w.failf("refused", "%s fails, although nothing is wrong", r.desc())
	}
	return o
}

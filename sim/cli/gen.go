package cli

import (
	"sort"
	"strings"

	"verifsim/machine"
)

var lens = []int{0, 1, 15, 16, 63, 64, 65, 100, 511, 512, 513, 1000, 1000, 4096, 5000, 20000}

func genText(r *Rng) Text {
	t := Text{Len: lens[r.N(len(lens))], Seed: r.U64() >> 12}
	switch r.N(10) {
	case 0:
		t.Kind = 1
	case 1:
		t.Kind = 2
	case 2:
		t.Len = r.N(3000)
	case 3:
		if r.P(4) {
			t.Len = 131072 + r.N(140000)
		}
	}
	return t
}

var blockNames = []string{"", "", "", "16", "64", "100", "512", "1k", "4k", "4097", "64k", "128k", "1M"}

// style says what kind of commands to make.
type style struct {
	cmds  []string
	clean bool // no mistakes by the user
	force int  // 1/n: --overwrite
	dst   int  // 1/n: something is at the destination
	same  int  // 1/n: the destination is the input
}

func genOp(r *Rng, st *style) *Op {
	op := &Op{Cmd: st.cmds[r.N(len(st.cmds))], Key: r.N(8), PW: r.N(len(passes)), Umask: r.Pick(022, 022, 022, 0, 077, 027, 002, 0777),
		Rand: r.U64() >> 12, Rt: r.U64() >> 12, Text: genText(r), Abs: r.Pick(0, 0, 0, 1, 2, 3)}
	switch op.Cmd {
	case "generate":
		op.Pass = r.Pick(0, 0, 1, 2)
		if r.P(4) {
			op.Com = strings.ReplaceAll(r.Comment(), "\x00", "")
		}
		if op.Pass == 1 && r.P(4) {
			op.Wrong = r.In(1, 3)
		}
		op.Pos = r.N(4)
	case "store":
		op.KFmt, op.Edit, op.Pos = r.N(nKFmt), r.N(3), r.N(4)
		op.Com = strings.ReplaceAll(r.Comment(), "\x00", "")
	case "sign":
		op.KFmt, op.Pass = genKF(r)
		op.Out = r.Pick(outFile, outFile, outFile, outDefault, outDefault, outDash, outPipe, outRedirect)
		op.In = r.Pick(inFile, inFile, inFile, inLink, inFifo, inDevStdin, inNull)
	case "verify":
		op.SKey = op.Key
		op.KFmt = r.N(4)
		op.Pos = r.N(1 << 16)
		if !st.clean && r.P(2) {
			op.Edit = r.In(0, 11)
			if r.P(4) {
				op.SKey = op.Key + 1
			}
		}
		op.Test = r.P(3)
		op.In = r.Pick(inFile, inFile, inFile, inLink, inFifo, inDevStdin, inNull)
	case "encrypt":
		n := r.Pick(1, 1, 1, 2, 3, 5)
		for i := 0; i < n; i++ {
			op.To = append(op.To, Rcpt{r.N(8), r.Pick(byPub, byPub, bySSH, byComment)})
		}
		if r.P(2) {
			op.Sender = r.In(1, 8)
			op.KFmt, op.Pass = genKF(r)
		}
		op.Block = blockNames[r.N(len(blockNames))]
		op.Out = r.Pick(outFile, outFile, outFile, outFile, outStdout, outDash, outPipe, outRedirect)
		op.In = r.Pick(inFile, inFile, inFile, inLink, inFifo, inStdinFile, inStdinPipe, inDevStdin, inNull)
	case "decrypt":
		op.KFmt, op.Pass = genKF(r)
		op.FChunk = r.Pick(1, 16, 64, 512, 4096, 65536, 1<<20)
		n := r.Pick(0, 0, 1, 2, 4)
		if n > 0 {
			for i := 0; i < n; i++ {
				op.FTo = append(op.FTo, r.N(8))
			}
			op.FTo[r.N(n)] = op.Key
		}
		if r.P(2) {
			op.FSender = r.In(1, 8)
			if !r.P(8) {
				op.Sender = op.FSender
			}
		}
		op.Out = r.Pick(outFile, outFile, outFile, outFile, outStdout, outDash, outPipe, outRedirect)
		op.In = r.Pick(inFile, inFile, inFile, inLink, inFifo, inStdinFile, inStdinPipe, inDevStdin)
		op.Test = r.P(8)
		op.Pos = r.N(2)
	}
	if op.Text.Len > 60000 && op.Block != "" && len(op.Block) < 4 {
		op.Block = "4k"
	}
	op.Cap = r.Pick(1, 7, 64, 100, 512, 4096, 65536, 65536, 65536)
	if op.Text.Len > 5000 {
		op.Cap = max(op.Cap, 512)
	}
	if st.force > 0 && r.P(st.force) {
		op.Force = true
	}
	if st.dst > 0 && r.P(st.dst) {
		op.Dst = r.Pick(dstFile, dstFile, dstFile, dstLink, dstDangling, dstDir, dstFifo, dstHard, dstLinkIn, dstSame, dstRO, dstNoParent, dstROParent, dstHidden, dstHardLink, dstNull)
		if st.clean {
			op.Dst = r.Pick(dstFile, dstFile, dstLink, dstRO, dstHardLink)
			op.Force = true
		}
	}
	if st.same > 0 && r.P(st.same) && (op.Cmd == "encrypt" || op.Cmd == "decrypt" || op.Cmd == "sign") {
		op.In, op.Out, op.Force = inFile, outFile, !r.P(4)
		op.Dst = r.Pick(dstSame, dstHard, dstLinkIn)
	}
	if r.P(12) {
		op.Root = true
	}
	if r.P(40) {
		op.Debug = true
	}
	if st.clean {
		return op
	}
	// mistakes
	if r.P(8) {
		op.Wrong = max(op.Wrong, 1)
	}
	if r.P(12) {
		op.In = r.Pick(inMissing, inDir, inUnreadable)
	}
	if r.P(16) {
		op.Out = r.Pick(outFull, outBrokenPipe)
		op.Stop = r.Pick(1, 10, 100, 1000, 5000)
	}
	if r.P(40) {
		op.Extra = 1 + r.N(len(badOpts))
	}
	if r.P(40) {
		op.Few = 1 + r.N(3)
	}
	switch op.Cmd {
	case "encrypt":
		if r.P(6) && len(op.To) > 0 {
			op.To[r.N(len(op.To))].By = r.In(byMissing, nBy-1)
		}
		if r.P(30) {
			op.To = nil
		}
	case "decrypt":
		if r.P(10) {
			op.FTo = []int{(op.Key + 1) % 8}
		}
		if r.P(10) {
			op.Sender = r.In(1, 8)
		}
	}
	return op
}

// genKF picks a key file format with a way to give its passphrase.
func genKF(r *Rng) (kfmt, pass int) {
	switch r.N(8) {
	case 0:
		return kfSSH, r.Pick(0, 1, 2)
	case 1:
		return kfSSHEnc, r.Pick(0, 1)
	case 2:
		return kfSigNo, r.Pick(0, 1, 2)
	}
	return kfSig, r.Pick(0, 0, 0, 1)
}

// baseline runs the scenario without faults and returns the requests of each
// process by class.
func (s *Sc) baseline() (*World, []map[string]int) {
	b := clone(*s)
	b.Plan, b.Disk, b.RO = nil, 0, false
	w := b.world(&Exec{})
	w.start()
	w.m.Run()
	var v []map[string]int
	for _, r := range w.runs {
		v = append(v, r.P.Counts())
	}
	return w, v
}

// genFault picks a fault that will strike, given the requests of a faultless
// run.
func genFault(r *Rng, p int, cnt map[string]int, only ...string) (Fault, bool) {
	var cls []string
	for c, n := range cnt {
		if n > 0 && len(machine.Kinds[c]) > 0 {
			ok := len(only) == 0
			for _, o := range only {
				ok = ok || o == c
			}
			if ok {
				cls = append(cls, c)
			}
		}
	}
	if len(cls) == 0 {
		return Fault{}, false
	}
	sort.Strings(cls)
	c := cls[r.N(len(cls))]
	ks := machine.Kinds[c]
	f := Fault{P: p, Op: c, N: r.N(cnt[c]), Kind: ks[r.N(len(ks))]}
	if r.P(4) {
		f.N = cnt[c] - 1
	}
	if f.Kind == "short" {
		f.K = r.Pick(1, 1, 2, 10, 100)
	}
	if f.Kind != "EINTR" && f.Kind != "short" && r.P(6) {
		f.Sticky = true
	}
	return f, true
}

// genFaults makes a fault plan for the single command of s.
func (s *Sc) genFaults(r *Rng) {
	switch r.N(12) {
	case 0:
		return
	case 1: // the disk runs full
		w, _ := s.baseline()
		n := 0
		for _, q := range w.runs {
			for _, o := range q.Outs {
				if i := w.fs.Stat(o); i != nil {
					n += len(i.Data)
				}
			}
		}
		s.Disk = 1 + r.N(n+2)
		if r.P(3) {
			s.Disk = 1
		}
		s.Quota = r.P(3)
		return
	case 2:
		s.RO = true
		return
	case 3: // anything, anywhere
		_, c := s.baseline()
		f, ok := genFault(r, 0, c[0])
		if ok {
			f.Op, f.N = "any", r.N(c[0]["any"])
			s.Plan = append(s.Plan, f)
		}
		return
	}
	_, c := s.baseline()
	n := r.Pick(1, 1, 1, 1, 1, 2, 3)
	if r.P(8) {
		// many small disturbances
		n = 0
		for i := 0; i < 12; i++ {
			f, ok := genFault(r, 0, c[0], "read", "write", "getrandom", "open", "creat", "fsync")
			if ok && r.P(2) {
				f.Kind, f.Sticky = "EINTR", false
			} else if ok {
				f.Kind, f.Sticky, f.K = "short", false, r.Pick(1, 3, 50)
			}
			if ok {
				s.Plan = append(s.Plan, f)
			}
		}
	}
	for i := 0; i < n; i++ {
		p := r.N(len(c))
		if f, ok := genFault(r, p, c[p]); ok {
			s.Plan = append(s.Plan, f)
		}
	}
}

// sameFile is every way of naming the input as the output, with a failure at
// each examination of a file.
func sameFile() []*Sc {
	var v []*Sc
	for i := 0; i < 10; i++ {
		for _, dst := range []int{dstSame, dstHard, dstLinkIn} {
			for _, cmd := range []string{"encrypt", "decrypt"} {
				n := uint64(len(v))
				op := &Op{Cmd: cmd, Key: i % 8, Umask: 022, Rand: n, Rt: n, Text: Text{Len: 300, Seed: n}, Dst: dst, Force: true, Cap: 4096}
				if cmd == "encrypt" {
					op.To = []Rcpt{{1, byPub}}
				}
				v = append(v, &Sc{Seed: n, Ops: []*Op{op}, Plan: []Fault{{Op: "stat", N: i, Kind: []string{"EIO", "EACCES", "ENOMEM"}[n%3]}}})
			}
		}
	}
	return v
}

// grid is every kind of output with every kind of thing in its place, once.
func grid() []*Sc {
	var v []*Sc
	n := uint64(0)
	for _, cmd := range []string{"generate", "sign", "encrypt", "decrypt", "store", "store"} {
		for dst := 0; dst < nDst; dst++ {
			for _, force := range []bool{false, true} {
				for k := 0; k < 4; k++ {
					n++
					op := &Op{Cmd: cmd, Key: int(n % 8), Umask: 022, Rand: n*5 + uint64(k), Rt: n, Text: Text{Len: 200 * (k & 1), Seed: n}, Dst: dst, Force: force, Cap: 4096}
					switch cmd {
					case "generate":
						op.Pos = k
					case "store":
						op.Edit, op.Pos = k%3, k
					case "sign":
						if k == 2 {
							op.Out = outDefault
						}
					case "encrypt":
						op.To = []Rcpt{{int(n+1) % 8, byPub}}
					}
					if k == 3 && cmd != "generate" {
						op.Abs = 2
						op.In = inLink
					}
					v = append(v, &Sc{Seed: n, Ops: []*Op{op}})
				}
			}
		}
	}
	return v
}

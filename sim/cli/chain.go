package cli

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"verifsim/lib"
	"verifsim/ref"
)

// Scenarios in which commands use what others made.

// output returns what a command that succeeded made.
func (r *Run) output() []byte {
	if len(r.Outs) > 0 {
		if n := r.W.fs.Stat(r.Outs[0]); n != nil {
			return n.Data
		}
		return nil
	}
	return r.stdout()
}

// next is a new machine for the commands that follow.
func (w *World) next(s *Sc, plan []Fault, ops ...*Op) *World {
	t := *s
	t.Ops, t.Plan, t.Disk, t.RO, t.Dmg = ops, plan, 0, false, nil
	n := t.world(w.x)
	n.o = w.o
	return n
}

// ---- P01: encrypt, then decrypt as each recipient

func genChain(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: []string{"encrypt"}, clean: true, dst: 10})
	if r.P(3) {
		n := r.In(1, 8)
		if r.P(8) {
			n = r.In(9, 40)
		}
		op.To = nil
		for i := 0; i < n; i++ {
			op.To = append(op.To, Rcpt{r.N(8), r.Pick(byPub, byPub, bySSH, byComment)})
		}
	}
	if b := blocks[op.Block]; b > 0 && b < 10000 && r.P(2) {
		op.Text.Len = max(0, b*r.Pick(0, 1, 1, 2, 3, 7)+r.Pick(-1, 0, 0, 1))
	}
	s.Ops = []*Op{op}
	for i := r.In(1, 2); i > 0; i-- {
		d := genOp(r, &style{cmds: []string{"decrypt"}, clean: true, dst: 10})
		if d.In == inDevStdin && r.P(2) {
			d.In = inStdinPipe
		}
		s.Then = append(s.Then, d)
	}
	if r.P(3) {
		s.disturb(r, r.P(2))
	}
	return s
}

func chainDirected() []*Sc {
	var v []*Sc
	for i, n := range []int{0, 1, 15, 16, 17, 511, 512, 513, 1023, 1024, 4096, 4097, 65536, 131071, 131072, 131073, 262144, 300000} {
		for j, b := range []string{"", "512", "64k"} {
			s := &Sc{Seed: uint64(i), Ops: []*Op{{Cmd: "encrypt", Block: b, Text: Text{Len: n, Seed: 7}, To: []Rcpt{{i % 8, byPub}, {(i + 3) % 8, bySSH}}, Sender: (i + j) % 3, Umask: 022, Out: j % 2, Rand: uint64(i), Cap: 4096}}}
			s.Then = []*Op{{Cmd: "decrypt", Umask: 022, Out: (i + j) % 2}}
			v = append(v, s)
		}
	}
	return v
}

func execChain(sc any, x *Exec) *Outcome {
	s := sc.(*Sc)
	for _, op := range s.Ops {
		if op != nil {
			op.Cmd = "encrypt"
		}
	}
	w := s.world(x)
	w.run()
	w.shapeAll()
	r := w.runs[0]
	o := w.o
	o.Evals++
	if c := r.crashed(); c != "" {
		w.failf("crash", "%s %s", r.desc(), c)
		return o
	}
	if r.P.Exit != 0 {
		if r.want > 0 && w.noFault() {
			w.failf("refused", "%s fails, although nothing is wrong", r.desc())
		}
		return o
	}
	if mod(r.Op.Out, nOut) == outFull || mod(r.Op.Out, nOut) == outBrokenPipe || w.fired(func(k string) bool { return k == "reader goes away" }) {
		return o
	}
	ct := r.output()
	// each recipient
	seen := map[int]bool{}
	j := 0
	for _, ks := range r.alts {
		if len(ks) != 1 || seen[ks[0]] || j >= 5 {
			continue
		}
		seen[ks[0]] = true
		d := &Op{}
		if len(s.Then) > 0 && s.Then[j%len(s.Then)] != nil {
			d = clone(s.Then[j%len(s.Then)])
		}
		d.Cmd, d.Key, d.FTo, d.Atk, d.Wrong = "decrypt", ks[0], nil, nil, 0
		d.raw = ct
		if d.raw == nil {
			d.raw = []byte{}
		}
		d.Text = r.Op.Text
		d.FSender, d.Sender = r.Op.Sender, r.Op.Sender
		switch mod(d.In, nIn) {
		case inMissing, inDir, inNull, inUnreadable, inOther, inPrev:
			d.In = inFile
		}
		j++
		n := w.next(s, nil, d)
		q := n.runs[0]
		q.Text = r.Text
		n.run()
		o.Evals++
		n.shapeAll()
		if c := q.crashed(); c != "" {
			n.failf("crash", "after %s, %s %s", r.desc(), q.desc(), c)
			return o
		}
		if n.m.Stuck {
			n.failf("hang", "after %s, %s does not end", r.desc(), q.desc())
			return o
		}
		if q.P.Exit != 0 {
			if q.want > 0 {
				n.failf("undecryptable", "%s succeeds, but then %s", r.desc(), q.desc())
			}
			continue
		}
		if s := q.result(n.fs); s != "" && (q.want >= 0 || !q.soft) {
			n.failf("wrong-plaintext", "%s and %s succeed, but %s", r.desc(), q.desc(), s)
		}
	}
	return o
}

// ---- P08: sign, then verify

func genSigning(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	in := []int{inFile, inFile, inFile, inLink, inFifo, inDevStdin, inNull}
	size := func(op *Op) {
		if r.P(2) {
			op.Text.Len = r.Pick(0, 1, 512, 4096, 8192, 32768, 65536, 131072, 200000)
			op.Cap = r.Pick(512, 4096, 65536)
		}
	}
	ver := func() *Op {
		v := genOp(r, &style{cmds: []string{"verify"}})
		v.In = in[r.N(len(in))]
		v.Edit = r.Pick(0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
		size(v)
		if r.P(8) {
			v.SKey = v.Key + 1
		}
		v.Out = 0
		return v
	}
	if r.P(2) {
		s.Ops = []*Op{ver()}
		if r.P(3) {
			v := s.Ops[0]
			v.Edit = r.Pick(7, 7, 2, 3, 8)
			v.In = r.Pick(inFile, inFifo, inDevStdin, inLink)
			_, c := s.baseline()
			for i := r.In(1, 2); i > 0; i-- {
				if f, ok := genFault(r, 0, c[0], "read", "mmap", "fstat", "open", "lseek"); ok {
					s.Plan = append(s.Plan, f)
				}
			}
		} else if r.P(3) {
			s.disturb(r, r.P(2))
		}
		return s
	}
	op := genOp(r, &style{cmds: []string{"sign"}, clean: true, dst: 10})
	op.In = in[r.N(len(in))]
	size(op)
	s.Ops = []*Op{op}
	for i := r.In(1, 3); i > 0; i-- {
		s.Then = append(s.Then, ver())
	}
	if r.P(3) {
		s.disturb(r, r.P(2))
	}
	return s
}

func (w *World) judgeVerify(r *Run, after string) {
	w.o.Evals++
	switch {
	case w.m.Stuck:
		w.failf("hang", "%s%s does not end", after, r.desc())
	case r.crashed() != "":
		w.failf("crash", "%s%s %s", after, r.desc(), r.crashed())
	case r.P.Exit == 0 && !r.right:
		w.failf("false-accept", "%s%s succeeds, but the signature is not genuine (edit %d)", after, r.desc(), r.Op.Edit)
	case r.P.Exit == 0 && r.want < 0:
		w.failf("false-accept", "%s%s succeeds, but: %s", after, r.desc(), r.why)
	case !r.right && bytes.Contains(r.P.Stdout, []byte("verified")) && !bytes.Contains(r.P.Stdout, []byte("fail")):
		w.failf("false-accept", "%s%s says %q, but the signature is not genuine", after, r.desc(), r.P.Stdout)
	case r.P.Exit != 0 && r.want > 0 && w.noFault():
		w.failf("false-reject", "%s%s fails, but the signature is genuine", after, r.desc())
	}
	if r.right {
		w.o.Probe("genuine")
	}
}

func execSigning(sc any, x *Exec) *Outcome {
	s := sc.(*Sc)
	for _, op := range s.Ops {
		if op != nil && op.Cmd != "verify" {
			op.Cmd = "sign"
		}
	}
	w := s.world(x)
	w.run()
	w.shapeAll()
	r := w.runs[0]
	o := w.o
	if r.Op.Cmd == "verify" {
		w.judgeVerify(r, "")
		w.shape(r.Op.Edit)
		return o
	}
	o.Evals++
	if c := r.crashed(); c != "" {
		w.failf("crash", "%s %s", r.desc(), c)
		return o
	}
	if r.P.Exit != 0 {
		if r.want > 0 && w.noFault() {
			w.failf("refused", "%s fails, although nothing is wrong", r.desc())
		}
		return o
	}
	if r.want < 0 && !r.soft {
		w.failf("false-success", "%s succeeds although: %s", r.desc(), r.why)
		return o
	}
	if e := r.result(w.fs); e != "" {
		w.failf("bad-signature", "%s succeeds, but %s", r.desc(), e)
		return o
	}
	if mod(r.Op.Out, nOut) == outFull || mod(r.Op.Out, nOut) == outBrokenPipe {
		return o
	}
	sig := r.output()
	for i, t := range s.Then {
		if i >= 4 || t == nil {
			break
		}
		v := clone(t)
		v.Cmd, v.Text, v.raw = "verify", r.Op.Text, sig
		if r.Text == nil {
			v.Text.Len = 0
		}
		v.Key, v.SKey = r.Op.Key, r.Op.Key
		if mod(t.SKey, 1<<30) != mod(t.Key, 1<<30) {
			v.Key = r.Op.Key + 1
		}
		switch mod(v.Edit, 12) {
		case 5, 6:
			v.Edit = 0
		}
		if mod(v.In, nIn) == inNull && v.Text.Len > 0 {
			v.In = inFile
		}
		n := w.next(s, nil, v)
		n.run()
		n.shapeAll()
		n.shape(v.Edit)
		n.judgeVerify(n.runs[0], "after "+r.desc()+", ")
	}
	return o
}

// ---- P09: private keys at rest

func genStored(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: []string{"generate", "sign", "sign", "sign", "decrypt", "decrypt", "encrypt"}, clean: true, dst: 20})
	op.Debug = false
	op.Text.Len = min(op.Text.Len, 2000)
	s.Ops = []*Op{op}
	if op.Cmd == "generate" {
		t := genOp(r, &style{cmds: []string{"sign"}, clean: true})
		t.Out, t.Pass, t.Wrong = outFile, r.N(2), 0
		s.Then = []*Op{t}
		if r.P(4) {
			s.disturb(r, r.P(2))
		}
		return s
	}
	if op.Cmd == "encrypt" {
		op.Sender = r.In(1, 8)
	}
	op.KFmt, op.Pass = genKF(r)
	switch r.N(4) {
	case 0:
		op.Wrong = r.In(1, 8)
	case 1:
		if op.KFmt == kfSig || op.KFmt == kfSSHEnc {
			op.Pass = 2
		}
	default:
		d := Dmg{Where: "key"}
		for i := r.Pick(1, 1, 1, 2, 3); i > 0; i-- {
			d.Edits = append(d.Edits, lib.GenEdit(r))
		}
		if r.P(12) {
			d.Edits = nil
			d.As = r.N(nOther)
			if d.As >= 1 && d.As <= 4 { // another key: it may well be used
				d.As = 5
			}
		}
		s.Dmg = []Dmg{d}
	}
	if r.P(6) {
		s.disturb(r, r.P(2))
	}
	return s
}

func judgeStored(w *World) {
	o := w.o
	for _, r := range w.runs {
		o.Evals++
		if c := r.crashed(); c != "" {
			w.failf("crash", "%s %s", r.desc(), c)
			continue
		}
		if r.P.Exit != 0 {
			if r.want > 0 && w.noFault() && !w.m.Stuck {
				w.failf("refused", "%s fails, although nothing is wrong", r.desc())
			}
			continue
		}
		if r.want < 0 && !r.soft {
			w.failf("wrong-passphrase", "%s succeeds although: %s", r.desc(), r.why)
			continue
		}
		if s := r.result(w.fs); s != "" {
			w.failf("another-key", "%s succeeds, but %s", r.desc(), s)
			continue
		}
		if r.Op.Cmd == "generate" && len(r.Outs) == 2 {
			w.judgeGenerated(r)
		}
	}
}

func (w *World) judgeGenerated(r *Run) {
	o := w.o
	kb, pb := w.fs.Stat(r.Outs[0]).Data, w.fs.Stat(r.Outs[1]).Data
	right := pass(r.Op.PW)
	if mod(r.Op.Pass, 3) == 2 {
		right = ""
	}
	_, _, k, err := ref.OpenKeyFile(kb, []byte(right))
	if err != nil {
		return
	}
	if k.N != ref.ScryptN || k.R != ref.ScryptR || k.P != ref.ScryptP {
		w.failf("work-factor", "%s stores the key with scrypt parameters N=%d r=%d p=%d", r.desc(), k.N, k.R, k.P)
	}
	if len(k.Salt) != 32 || bytes.Equal(k.Salt, make([]byte, len(k.Salt))) {
		w.failf("salt", "%s stores the key with salt %x", r.desc(), k.Salt)
	}
	for i := 0; i < 8; i++ {
		bad := badPass(r.Op.PW, i)
		if bad == right {
			continue
		}
		o.Evals++
		if _, _, _, err := ref.OpenKeyFile(kb, []byte(bad)); err == nil {
			w.failf("wrong-passphrase", "the key that %s makes opens with %q", r.desc(), bad)
		}
	}
	// the commands agree
	pk, err := ref.ParsePubFile(pb)
	if err != nil {
		return
	}
	for i, t := range w.then {
		if i >= 2 || t == nil {
			break
		}
		for _, wrong := range []int{0, 1 + i} {
			v := clone(t)
			v.Cmd, v.rawKey, v.PW, v.Wrong, v.Out, v.Dst = "sign", kb, r.Op.PW, wrong, outFile, dstNone
			v.KFmt = kfSig
			if right == "" {
				v.KFmt = kfSigNo
			}
			n := w.next(&Sc{Seed: w.seed}, nil, v)
			n.run()
			q := n.runs[0]
			o.Evals++
			switch {
			case q.crashed() != "":
				w.failf("crash", "%s %s", q.desc(), q.crashed())
			case wrong == 0 && q.P.Exit != 0 && q.want > 0:
				w.failf("load", "the key that %s made is not accepted by %s", r.desc(), q.desc())
			case wrong > 0 && q.P.Exit == 0:
				w.failf("wrong-passphrase", "the key that %s made is accepted with another passphrase by %s", r.desc(), q.desc())
			case q.P.Exit == 0:
				sig, _, err := ref.ParseSigFile(q.output())
				if err != nil || !ref.VerifyMessage(pk, ref.FileChecksum(q.Text), sig) {
					w.failf("load", "%s signs with another key than %s made", q.desc(), r.desc())
				}
			}
		}
	}
}

// ---- P10: fresh secrets

func genFresh(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: []string{"generate", "encrypt", "encrypt"}, clean: true})
	op.Debug = false
	op.Root = false
	op.Text.Len = min(op.Text.Len, 5000)
	op.Out = r.Pick(outFile, outFile, outStdout)
	if op.Cmd == "encrypt" {
		op.In = r.Pick(inFile, inStdinPipe, inNull)
	}
	s.Ops = []*Op{op}
	if r.P(3) {
		_, c := s.baseline()
		for i := r.Pick(1, 1, 2, 4); i > 0; i-- {
			if f, ok := genFault(r, 0, c[0], "getrandom"); ok {
				if r.P(2) {
					f.Kind, f.Sticky, f.K = r.PickS("EINTR", "short"), false, r.Pick(1, 5, 20)
				}
				s.Plan = append(s.Plan, f)
			}
		}
	}
	return s
}

// fresh lists the random values in what a command made.
func (r *Run) fresh() (map[string][]byte, string) {
	v := map[string][]byte{}
	if r.Op.Cmd == "generate" {
		if len(r.Outs) != 2 || r.W.fs.Stat(r.Outs[0]) == nil {
			return nil, "no key"
		}
		b := r.W.fs.Stat(r.Outs[0]).Data
		sk, err := r.genKey(b)
		if err != nil {
			return nil, err.Error()
		}
		k, err := ref.ParseKeyFile(b)
		if err != nil {
			return nil, err.Error()
		}
		v["secret key"], v["salt"] = sk[:32], k.Salt
		return v, ""
	}
	b := r.output()
	f, err := ref.Parse(b)
	if err != nil {
		return nil, err.Error()
	}
	v["salt"], v["ephemeral key"] = f.Hdr.Salt, f.Hdr.Pk
	for i, k := range f.Hdr.Keys {
		v[fmt.Sprintf("nonce %d", i)] = k.Nonce
	}
	for _, ks := range r.alts {
		for _, k := range ks {
			for _, wk := range f.Hdr.Keys {
				if key, _, err := ref.Unwrap(f.Hdr, wk, edKey(k)); err == nil {
					v["file key"] = key
				}
			}
		}
	}
	if v["file key"] == nil {
		return nil, "no file key"
	}
	return v, ""
}

func dull(b []byte) bool {
	cnt := map[byte]int{}
	for _, c := range b {
		cnt[c]++
	}
	for _, n := range cnt {
		if n > len(b)/2 {
			return true
		}
	}
	return false
}

func execFresh(sc any, x *Exec) *Outcome {
	s := sc.(*Sc)
	if len(s.Ops) == 0 || s.Ops[0] == nil {
		return &Outcome{}
	}
	op := s.Ops[0]
	if op.Cmd != "generate" {
		op.Cmd = "encrypt"
	}
	type res struct {
		r *Run
		v map[string][]byte
	}
	o := &Outcome{}
	var all []res
	for i := 0; i < 4; i++ {
		q := clone(op)
		t := *s
		switch i {
		case 1: // the same random bytes at another time
			q.Pid, q.Clock, q.Rt = q.Pid+77, q.Clock+86400*400+1, q.Rt+99
		case 2: // other random bytes, the rest as before
			q.Rand += 5
		case 3:
			q.Rand += 6
		}
		t.Ops = []*Op{q}
		w := t.world(x)
		w.o = o
		w.run()
		w.shapeAll()
		r := w.runs[0]
		o.Evals++
		if c := r.crashed(); c != "" {
			w.failf("crash", "%s %s", r.desc(), c)
			return o
		}
		if r.P.Exit != 0 {
			if r.want > 0 && w.noFault() {
				w.failf("refused", "%s fails, although nothing is wrong", r.desc())
				return o
			}
			all = append(all, res{r, nil})
			continue
		}
		if r.want < 0 {
			return o
		}
		v, e := r.fresh()
		if e != "" {
			w.failf("output", "%s: %s", r.desc(), e)
			return o
		}
		all = append(all, res{r, v})
		names := keysOf(v)
		for _, n := range names {
			if dull(v[n]) {
				w.failf("predictable", "%s succeeds with the %s %x", r.desc(), n, v[n])
			}
			for _, m := range names {
				if m < n && bytes.Equal(v[n], v[m]) {
					w.failf("reuse", "%s uses %s as %s, too", r.desc(), n, m)
				}
			}
		}
	}
	name := all[0].r.desc()
	for i := range all {
		for j := 0; j < i; j++ {
			a, b := all[i].v, all[j].v
			if a == nil || b == nil {
				continue
			}
			o.Evals++
			if i == 1 {
				for _, n := range keysOf(a) {
					if !bytes.Equal(a[n], b[n]) {
						o.Fail("not-from-random", fmt.Sprintf("%s: the %s depends on something else than the system's random bytes", name, n))
					}
				}
				continue
			}
			for _, n := range keysOf(a) {
				for _, m := range keysOf(b) {
					if bytes.Equal(a[n], b[m]) {
						o.Fail("not-fresh", fmt.Sprintf("%s: %s is the same as %s of another run with other random bytes", name, n, m))
					}
				}
			}
		}
	}
	return o
}

func keysOf[T any](m map[string]T) []string {
	var v []string
	for k := range m {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}

// ---- P15: hostile files

func genHostile(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: []string{"sign", "verify", "encrypt", "decrypt", "decrypt"}, clean: true, dst: 20})
	op.Text.Len = min(op.Text.Len, 5000)
	op.Debug = r.P(20)
	s.Ops = []*Op{op}
	var where []string
	switch op.Cmd {
	case "sign":
		where = []string{"key"}
	case "verify":
		where = []string{"sig", "pub", "sig"}
		op.KFmt = r.N(2)
	case "encrypt":
		where = []string{"pub", "auth"}
		if op.Sender > 0 {
			where = append(where, "key")
		}
	case "decrypt":
		where = []string{"key", "in", "in", "in"}
		op.Key = r.Pick(hostKey, hostKey, r.N(8))
		op.FTo = nil
		if op.Sender > 0 {
			where = append(where, "pub")
		}
	}
	wh := where[r.N(len(where))]
	d := Dmg{Where: wh}
	base := map[string][]string{"key": {"sk", "ssh", "sshenc", "sshblob", "yaml", "noise"}, "pub": {"pk", "sshpub", "yaml", "noise"}, "auth": {"auth", "auth", "sshpub", "noise", "yaml"},
		"sig": {"sig", "yaml", "noise"}, "in": {"enc", "enc", "forge", "forge", "forge", "noise"}}[wh]
	if wh == "auth" && len(op.To) > 0 {
		op.To[0].By = byComment
	}
	if wh == "pub" && op.Cmd == "encrypt" && len(op.To) > 0 {
		op.To[0].By = r.Pick(byPub, bySSH)
	}
	switch r.N(8) {
	case 0:
		d.As = r.N(nOther)
	case 1, 2:
		for i := r.In(1, 3); i > 0; i-- {
			d.Edits = append(d.Edits, lib.GenEdit(r))
		}
	default:
		want := base[r.N(len(base))]
		for i := 0; i < 200; i++ {
			d.Host = lib.GenHostile(r)
			if d.Host.Base == want {
				break
			}
		}
		d.Host.Tail = ""
		d.Host.As = nil
		if f := d.Host.Forge; f != nil && f.Chunk > 1<<26 && !r.P(10) {
			f.Chunk = 1 << 24
		}
	}
	s.Dmg = []Dmg{d}
	if r.P(8) {
		s.disturb(r, r.P(2))
	}
	return s
}

// judgeHostile decides P15 for commands.
func judgeHostile(w *World) {
	o := w.o
	var chunk int64
	for _, r := range w.runs {
		if f, err := ref.Parse(r.Input); err == nil && f.Hdr != nil {
			chunk = max(chunk, int64(f.Hdr.ChunkSize))
		}
	}
	for _, d := range w.dmgs {
		if d.Host != nil && d.Host.Forge != nil {
			chunk = max(chunk, int64(d.Host.Forge.Chunk))
		}
	}
	chunk = min(chunk, 1<<30)
	for _, r := range w.runs {
		o.Evals++
		switch {
		case w.m.Stuck || r.P.Hung:
			w.failf("hang", "%s does not end", r.desc())
		case r.crashed() != "":
			w.failf("crash", "%s %s", r.desc(), r.crashed())
		case r.P.Exit != 0 && r.P.Signal == 0 && !r.P.RandBad && !r.message():
			w.failf("no-message", "%s fails without a message", r.desc())
		case r.P.MaxRSS<<10 > 3*chunk+400<<20:
			w.failf("memory", "%s needs %d MB (largest declared chunk: %d bytes)", r.desc(), r.P.MaxRSS>>10, chunk)
		}
		for _, d := range w.dmgs {
			w.shape(d.Where, d.As, d.Host != nil, r.P.Exit)
			if d.Host != nil {
				w.shape(d.Host.Base, errWord(r))
			}
		}
	}
}

// errWord is a short form of the message of a command.
func errWord(r *Run) string {
	s := string(r.P.Stderr)
	if i := strings.LastIndex(strings.TrimSpace(s), ":"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 20 {
		s = s[:20]
	}
	return s
}

// ---- P16: files of other versions and implementations

func genInterop(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: allCmds, clean: true, dst: 20})
	op.Debug = false
	if op.Cmd == "verify" {
		op.Edit = r.Pick(0, 0, 0, 1, 4)
	}
	if op.Cmd == "decrypt" && op.FSender > 0 {
		op.Sender = op.FSender
	}
	s.Ops = []*Op{op}
	if r.P(3) {
		_, c := s.baseline()
		for i := r.In(1, 8); i > 0; i-- {
			f, ok := genFault(r, 0, c[0], "read", "write", "getrandom")
			if ok {
				f.Kind, f.Sticky, f.K = "short", false, r.Pick(1, 3, 50)
				s.Plan = append(s.Plan, f)
			}
		}
	}
	return s
}

func execInterop(sc any, x *Exec) *Outcome {
	return sc.(*Sc).exec(x, func(w *World) {
		for _, r := range w.runs {
			w.o.Evals++
			switch {
			case w.m.Stuck:
				w.failf("hang", "%s does not end", r.desc())
			case r.crashed() != "":
				w.failf("crash", "%s %s", r.desc(), r.crashed())
			case r.P.Exit == 0:
				if r.want < 0 && !r.soft {
					w.failf("accepted", "%s succeeds, but: %s", r.desc(), r.why)
				} else if s := r.result(w.fs); s != "" {
					w.failf("format", "%s succeeds, but for an independent implementation %s", r.desc(), s)
				}
			case r.want > 0 && w.noFault():
				w.failf("rejected", "%s fails on files of an independent implementation", r.desc())
			}
		}
	})
}

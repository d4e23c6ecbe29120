package cli

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"fmt"
	"sort"
	"strings"

	"verifsim/machine"
	"verifsim/ref"
)

// Sc is a scenario: commands that run on one machine, and what goes wrong.
type Sc struct {
	Seed  uint64  `json:"seed"` // scheduling
	Ops   []*Op   `json:"ops"`
	Plan  []Fault `json:"plan,omitempty"`
	Disk  int     `json:"disk,omitempty"` // free bytes + 1; 0: plenty
	Quota bool    `json:"quota,omitempty"`
	RO    bool    `json:"ro,omitempty"` // read-only file system
	Auth  *Auth   `json:"auth,omitempty"`
	Seq   bool    `json:"seq,omitempty"` // one after the other
	Dmg   []Dmg   `json:"dmg,omitempty"`
	Then  []*Op   `json:"then,omitempty"`  // what is done with the results
	Names int     `json:"names,omitempty"` // what kind of names the files have
	Attr  int     `json:"attr,omitempty"`  // kind of file system
}

// freshSc begins a random scenario.
func freshSc(r *Rng) *Sc {
	s := &Sc{Seed: r.U64() >> 12}
	if r.P(5) {
		s.Names = r.N(nNames)
	}
	if r.P(3) {
		s.Attr = r.N(3)
	}
	return s
}

func newSc() any { return &Sc{} }

// world sets everything up without starting it.
func (s *Sc) world(x *Exec) *World {
	w := newWorld(s.Seed, x)
	w.dmgs, w.then, w.names = s.Dmg, s.Then, s.Names
	if s.Auth != nil {
		s.Auth.put(w)
	} else {
		w.stdAuth()
	}
	for _, op := range s.Ops {
		if op == nil {
			op = &Op{}
		}
		switch op.Cmd {
		case "generate", "sign", "verify", "encrypt", "decrypt", "store":
		default:
			op.Cmd = "sign"
		}
		w.add(op)
	}
	if len(w.runs) == 0 {
		w.add(&Op{Cmd: "sign"})
	}
	w.m.Plan = s.Plan
	if s.Disk > 0 {
		w.fs.Free = int64(s.Disk - 1)
		w.fs.Quota = s.Quota
	}
	w.fs.RO = s.RO
	w.fs.Attr = s.Attr
	return w
}

// run starts everything and waits for the end.
func (w *World) run() bool {
	w.start()
	ok := w.m.Run()
	w.book(w.m)
	w.o.NonTrivial = true
	return ok
}

// exec is the common way to run a scenario with some judges.
func (s *Sc) exec(x *Exec, judges ...func(w *World)) *Outcome {
	w := s.world(x)
	w.run()
	for _, j := range judges {
		j(w)
	}
	w.shapeAll()
	return w.o
}

func (w *World) shapeAll() {
	for _, r := range w.runs {
		w.shape(r.Op.Cmd, r.want, r.why, r.Op.Out, r.Op.Dst, r.Op.In, r.Op.Pass, r.Op.KFmt, r.P.Exit, r.P.Signal, len(r.Op.To))
	}
	var fs []string
	for f := range w.m.Faults {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	w.shape(fs)
	for _, f := range w.m.Plan {
		w.shape(f.N)
	}
}

// fired tells which faults happened, by "class kind".
func (w *World) fired(f func(k string) bool) bool {
	for k := range w.m.Faults {
		if f(k) {
			return true
		}
	}
	return false
}

func benign(k string) bool {
	return k == "reader goes away" || strings.HasSuffix(k, " EINTR") || strings.HasSuffix(k, " short")
}

// noFault: nothing happened that may keep a command from its work.
func (w *World) noFault() bool {
	return !w.fs.RO && w.fs.Free < 0 && !w.fired(func(k string) bool { return !benign(k) }) && !w.m.Stuck
}

// ---- what a command promises about its exit status and its output

// genPair checks that the two halves of a new key belong together.
func (r *Run) genPair(key, pub []byte) string {
	sk, err := r.genKey(key)
	if err != nil {
		return err.Error()
	}
	pk, err := ref.ParsePubFile(pub)
	if err != nil {
		return err.Error()
	}
	if !bytes.Equal(pk, sk[32:]) {
		return "the public key is not that of the private key"
	}
	return ""
}

// result says what is wrong with what a command that claims success left
// behind ("" if nothing is).
func (r *Run) result(fs *machine.FS) string {
	for _, o := range r.Outs {
		n := fs.Stat(o)
		if n == nil {
			return o + " does not exist"
		}
		if n.Kind != machine.Reg {
			return o + " is no file"
		}
		if s := r.check(o, n.Data); s != "" {
			return o + ": " + s
		}
	}
	if r.Op.Cmd == "generate" && len(r.Outs) == 2 {
		if s := r.genPair(fs.Stat(r.Outs[0]).Data, fs.Stat(r.Outs[1]).Data); s != "" {
			return s
		}
	}
	if len(r.Outs) == 0 && r.Op.Cmd != "verify" && !r.Op.Test {
		switch mod(r.Op.Out, nOut) {
		case outFull, outNext, outBrokenPipe:
			return ""
		}
		if s := r.check("stdout", r.stdout()); s != "" {
			return "standard output: " + s
		}
	}
	if r.Op.Cmd == "verify" && !r.right {
		return "the signature is not genuine"
	}
	return ""
}

// newFiles lists what exists now and did not before, except what the shell
// made.
func (w *World) newFiles() []string {
	var v []string
	for p := range w.fs.Snap() {
		if _, ok := w.before[p]; !ok {
			v = append(v, p)
		}
	}
	sort.Strings(v)
	return v
}

func sameEnt(a, b machine.Ent) string {
	switch {
	case a.Kind != b.Kind:
		return "is another kind of file"
	case a.Data != b.Data:
		return fmt.Sprintf("has other contents (%d bytes, were %d)", len(b.Data), len(a.Data))
	case a.Mode != b.Mode:
		return fmt.Sprintf("has other permissions (%o, were %o)", b.Mode, a.Mode)
	case a.Uid != b.Uid || a.Gid != b.Gid:
		return "has another owner"
	}
	return ""
}

// refused: a key pair is not to be made at all, because one of the two files
// plainly exists.
func (w *World) refused(r *Run) bool {
	if r.Op.Force || len(w.runs) > 1 || mod(r.Op.Dst, nDst) != dstFile {
		return false
	}
	for _, p := range r.Outs {
		if e, ok := w.before[p]; ok && e.Kind == machine.Reg {
			return true
		}
	}
	return false
}

// judgeExit decides P12.
func judgeExit(w *World) {
	o := w.o
	unlinkFailed := w.fired(func(k string) bool { return strings.HasPrefix(k, "unlink") })
	after := w.fs.Snap()
	if w.m.Stuck {
		o.Evals++
		w.failf("stuck", "the commands do not end: %s", w.runs[0].desc())
		return
	}
	clean := w.noFault()
	killed, randBad := false, false
	mine := map[string]bool{}
	for _, r := range w.runs {
		killed = killed || r.P.Killed
		randBad = randBad || r.P.RandBad && r.P.Exit == 2
		for _, p := range r.Outs {
			if r.P.Exit == 0 {
				mine[p] = true
			}
			// a complete key may stay although the other file could not be written
			if n := w.fs.Get(p); r.Op.Cmd == "generate" && !(clean && w.refused(r)) && n != nil && n.Kind == machine.Reg && r.check(p, n.Data) == "" && string(n.Data) != w.before[p].Data {
				mine[p] = true
			}
		}
	}
	for _, r := range w.runs {
		o.Evals++
		p := r.P
		if c := r.crashed(); c != "" {
			w.failf("crash", "%s %s", r.desc(), c)
			continue
		}
		if p.Killed {
			continue
		}
		if p.Exit == 0 {
			if r.want < 0 && !r.soft {
				w.failf("false-success", "%s succeeds although it can't: %s", r.desc(), r.why)
			}
			if s := r.result(w.fs); s != "" {
				w.failf("false-success", "%s reports success, but %s", r.desc(), s)
			}
			continue
		}
		if r.want > 0 && clean {
			w.failf("false-failure", "%s fails, although nothing is wrong", r.desc())
		}
		if p.Signal == 0 && !p.RandBad && !r.message() {
			w.failf("no-message", "%s fails without a message", r.desc())
		}
		for _, path := range r.Outs {
			if b, ok := w.before[path]; ok && !mine[path] {
				a, ok := after[path]
				if !ok {
					w.failf("destination", "%s fails, and %s is gone", r.desc(), path)
				} else if s := sameEnt(b, a); s != "" {
					w.failf("destination", "%s fails, and %s %s", r.desc(), path, s)
				}
			}
		}
	}
	if !killed && !unlinkFailed {
		for _, p := range w.newFiles() {
			if mine[p] {
				continue
			}
			if randBad {
				w.failf("left-over-getrandom", "%s is ended by the language runtime as the random source fails, and leaves %s behind", w.runs[0].desc(), p)
			} else {
				w.failf("left-over", "%s leaves %s behind (%d bytes)", w.runs[0].desc(), p, len(after[p].Data))
			}
		}
	}
}

// judgeKeep decides P13.
func judgeKeep(w *World) {
	named := map[string]bool{}
	for i, r := range w.runs {
		if r.Op.Force {
			for _, p := range r.Outs {
				named[p] = true
			}
		}
		named[fmt.Sprintf("/w/redir%d", i)] = true
	}
	after := w.fs.Snap()
	for _, p := range keys(w.before) {
		b := w.before[p]
		if b.Kind == machine.Chr || b.Kind == machine.Fifo {
			b.Data = ""
		}
		w.o.Evals++
		a, ok := after[p]
		if !ok {
			if !named[p] {
				w.failf("removed", "%s removes %s", w.runs[0].desc(), p)
			}
			continue
		}
		if s := sameEnt(b, a); s != "" && !named[p] {
			w.failf("changed", "after %s, %s %s", w.runs[0].desc(), p, s)
		}
	}
	for _, r := range w.runs {
		if r.same && (r.Op.Cmd == "encrypt" || r.Op.Cmd == "decrypt") && r.P.Exit == 0 && !r.Op.Test {
			w.failf("same-file", "%s writes its output over its input", r.desc())
		}
		if r.same && (r.Op.Cmd == "encrypt" || r.Op.Cmd == "decrypt") {
			for _, p := range append([]string{r.InPath}, r.Outs...) {
				if s := sameEnt(w.before[p], after[p]); s != "" {
					w.failf("same-file", "after %s, which is its own input, %s %s", r.desc(), p, s)
				}
			}
		}
	}
}

// forms are the ways secret bytes would look if written down.
func forms(b []byte) [][]byte {
	v := [][]byte{b}
	if len(b) >= 16 {
		v = append(v, []byte(fmt.Sprintf("%x", b)), []byte(fmt.Sprintf("%X", b)))
		v = append(v, b64forms(b)...)
	}
	return v
}

func b64forms(b []byte) [][]byte {
	n := len(b) / 3 * 3 // the rest depends on what follows
	return [][]byte{[]byte(base64.StdEncoding.EncodeToString(b[:n])), []byte(base64.URLEncoding.EncodeToString(b[:n]))}
}

// secret is something a command must not write anywhere.
type secret struct {
	what string
	b    []byte
}

func (r *Run) secrets(twin *Run) []secret {
	var v []secret
	addKey := func(what string, sk ed25519.PrivateKey) {
		if len(sk) != 64 {
			return
		}
		for _, f := range forms(sk[:32]) {
			v = append(v, secret{what, f})
		}
		for _, f := range forms([]byte(sk)) {
			v = append(v, secret{what, f})
		}
		for _, f := range forms(ref.CurveSK(sk)) {
			v = append(v, secret{what + " (expanded)", f})
		}
	}
	op := r.Op
	if pw := pass(op.PW); len(pw) >= 8 {
		v = append(v, secret{"the passphrase", []byte(pw)})
		v = append(v, secret{"the passphrase", []byte(strings.TrimSpace(pw))})
		for _, f := range forms([]byte(pw))[1:] {
			v = append(v, secret{"the passphrase", f})
		}
	}
	switch op.Cmd {
	case "generate":
		for _, q := range []*Run{r, twin} {
			if q == nil || len(q.Outs) < 2 {
				continue
			}
			if n := q.W.fs.Stat(q.Outs[0]); n != nil {
				if sk, err := r.genKey(n.Data); err == nil {
					addKey("the new private key", sk)
				}
			}
		}
	case "sign", "decrypt", "store":
		addKey("the private key", edKey(op.Key))
	case "encrypt":
		if op.Sender > 0 {
			addKey("the private key", edKey(op.Sender-1))
		}
		if op.Text.Kind == 0 {
			v = append(v, chips("the plaintext", r.Text)...)
		}
	}
	return v
}

// sessionSecrets are the keys of the encrypted file that starts with b.
func (r *Run) sessionSecrets(b []byte) []secret {
	var keys []int
	switch r.Op.Cmd {
	case "encrypt":
		for _, ks := range r.alts {
			keys = append(keys, ks...)
		}
	case "decrypt":
		keys = []int{r.Op.Key}
	default:
		return nil
	}
	h, sum := ref.ParseHead(b)
	if h == nil || len(h.Keys) > 64 {
		return nil
	}
	for _, k := range keys {
		for _, wk := range h.Keys {
			key, _, err := ref.Unwrap(h, wk, edKey(k))
			if err != nil || len(key) != 32 {
				continue
			}
			var v []secret
			se := ref.Derive(key, sum)
			for _, q := range [][]byte{key, se.DKey, se.HKey} {
				for _, f := range forms(q) {
					v = append(v, secret{"the key of the encrypted data", f})
				}
			}
			return v
		}
	}
	return nil
}

// chips are pieces of a text that do not occur by chance.
func chips(what string, b []byte) []secret {
	const n = 16
	if len(b) < n {
		return nil
	}
	var v []secret
	for _, at := range []int{0, (len(b) - n) / 2, len(b) - n} {
		c := b[at : at+n]
		q := fmt.Sprintf("%q", c)
		for _, f := range [][]byte{c, []byte(fmt.Sprintf("%x", c)), []byte(q[1 : len(q)-1]), b64forms(c)[0][:20]} {
			v = append(v, secret{what, f})
		}
	}
	return v
}

// judgeSecret decides P14; twin is the same command without faults.
func judgeSecret(w *World, twin *World) {
	o := w.o
	for i, r := range w.runs {
		op := r.Op
		var tw *Run
		if twin != nil && i < len(twin.runs) {
			tw = twin.runs[i]
		}
		if op.Debug {
			continue
		}
		secs := r.secrets(tw)
		all := map[*machine.Inode][]byte{}
		var order []*machine.Inode
		var none []byte
		for _, wr := range w.m.Writes {
			if wr.P != r.P.ID {
				continue
			}
			if wr.Ino == nil {
				if wr.Fd == 2 {
					none = append(none, wr.Data...)
				} else if op.Cmd != "decrypt" {
					none = append(none, wr.Data...)
				}
				continue
			}
			if all[wr.Ino] == nil {
				order = append(order, wr.Ino)
			}
			all[wr.Ino] = append(all[wr.Ino], wr.Data...)
		}
		heads := [][]byte{none}
		if op.Cmd == "decrypt" {
			heads = [][]byte{r.Input}
		} else {
			for _, ino := range order {
				heads = append(heads, all[ino])
			}
		}
		for _, b := range heads {
			secs = append(secs, r.sessionSecrets(b)...)
		}
		for _, s := range secs {
			if len(s.b) == 0 {
				continue
			}
			o.Evals++
			if bytes.Contains(none, s.b) || bytes.Contains(r.P.Stderr, s.b) {
				w.failf("leak", "%s shows %s", r.desc(), s.what)
			}
			for _, ino := range order {
				if bytes.Contains(all[ino], s.b) {
					if op.Cmd == "decrypt" && ino.Maker < 0 {
						continue
					}
					w.failf("leak", "%s writes %s to a file (%v)", r.desc(), s.what, w.fs.Paths(ino.Ino))
				}
			}
		}
		if op.Cmd == "decrypt" && !bytes.Equal(r.Text, nil) && op.Text.Kind == 0 {
			for _, s := range chips("the decrypted text", r.Text) {
				if bytes.Contains(r.P.Stderr, s.b) {
					w.failf("leak", "%s shows %s among its messages", r.desc(), s.what)
				}
			}
		}
		// files that hold a secret by design
		for _, ino := range order {
			if ino.Maker < 0 {
				continue
			}
			what := ""
			d := all[ino]
			switch op.Cmd {
			case "generate":
				for _, q := range []*Run{r, tw} {
					if q == nil || len(q.Outs) < 2 {
						continue
					}
					n := q.W.fs.Stat(q.Outs[0])
					if n == nil {
						continue
					}
					if k, err := ref.ParseKeyFile(n.Data); err == nil && len(k.Esk) >= 18 && bytes.Contains(d, b64forms(k.Esk)[0][:24]) {
						what = "the private key"
					}
				}
			case "store":
				if op.store() == "key" {
					what = "the private key"
				}
			case "decrypt":
				if len(d) >= 1 && len(d) < 16 && bytes.Equal(d, r.Text) {
					what = "decrypted text"
				}
				for _, s := range chips("", r.Text) {
					if bytes.Contains(d, s.b) {
						what = "decrypted text"
					}
				}
			}
			if what == "" {
				continue
			}
			o.Evals++
			if ino.MaxMode&077 != 0 {
				w.failf("mode", "%s: the file with %s (%v) was at some time open to others: mode %o, umask %o", r.desc(), what, w.fs.Paths(ino.Ino), ino.MaxMode, op.Umask&0777)
			}
			if ino.Uid != r.cmd.Uid {
				w.failf("owner", "%s: the file with %s belongs to %d", r.desc(), what, ino.Uid)
			}
		}
		if t := r.tty; t != nil {
			o.Evals++
			ioctlBad := w.fired(func(k string) bool { return strings.HasPrefix(k, "ioctl") })
			if pw := pass(op.PW); !ioctlBad && len(pw) > 0 && bytes.Contains(t.Shown, []byte(pw)) {
				w.failf("echo", "%s: the typed passphrase is shown on the terminal", r.desc())
			}
			if !ioctlBad && !r.P.Killed && r.P.Signal == 0 && r.crashed() == "" && !r.P.RandBad && t.Termios != machine.NewTty().Termios {
				w.failf("echo", "%s leaves the terminal without echo", r.desc())
			}
		}
	}
}

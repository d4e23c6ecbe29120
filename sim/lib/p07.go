package lib

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P07: concurrent operations sharing keys do not affect one another.

type p07op struct {
	Op     string `json:"op"`
	Key    int    `json:"key"`
	Key2   int    `json:"key2"`
	Sender int    `json:"sender"`
	N      int    `json:"n"`
	Chunk  int    `json:"chunk"`
	Stream bool   `json:"stream,omitempty"`
	Bad    bool   `json:"bad,omitempty"`
	Seed   uint64 `json:"seed"`
}

type p07 struct {
	Tasks [][]p07op `json:"tasks"`
	Late  bool      `json:"late,omitempty"` // public keys are made from files, not taken from the private key
	Sched uint64    `json:"sched"`
}

var scratchOnce sync.Once
var scratchDir string

// scratch is a directory of this process with some files to sign.
func scratch() string {
	scratchOnce.Do(func() {
		d, err := os.MkdirTemp(os.Getenv("SIM_TMP"), "simlib")
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		scratchDir = d
		for i := 0; i < 3; i++ {
			if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d", i)), PT{Len: []int{0, 100, 70000}[i], Seed: 1}.bytes(), 0600); err != nil {
				panic("HARNESS: " + err.Error())
			}
		}
	})
	return scratchDir
}

// Cleanup removes what this process made.
func Cleanup() {
	if scratchDir != "" {
		os.RemoveAll(scratchDir)
	}
}

func execP07(sc any, x *Exec) *Outcome {
	s := sc.(*p07)
	c := newCtx(s.Sched, 2000000, x)
	o := c.o
	if kernel.RaceBuild {
		runtime.GOMAXPROCS(1)
	}
	if len(s.Tasks) > 8 {
		return o
	}
	dir := scratch()
	// fresh shared objects, made before the tasks exist
	const nk = 3
	var sk [nk]*sign.PrivateKey
	var pk [nk]*sign.PublicKey
	var ed [nk]ed25519.PrivateKey
	var sig [nk]*sign.Signature
	msg := []byte("a message everybody signs and verifies")
	for i := 0; i < nk; i++ {
		ed[i] = edKey(i)
		var err error
		if sk[i], err = sign.MakePrivateKey(ref.SSHKeyFile(ed[i], &ref.SSHOpts{Cipher: "none", Check: 7, Comment: "k"}), nil); err != nil {
			return o
		}
		pk[i] = sk[i].PublicKey()
		if s.Late {
			if pk[i], err = sign.MakePublicKey(ref.PubFile(ed[i][32:], "c")); err != nil {
				return o
			}
		}
		sig[i] = &sign.Signature{}
		if err = sig[i].UnmarshalBinary(ref.SigFile(ref.SignMessage(ed[i], msg), ed[i][32:], "")); err != nil {
			return o
		}
	}
	auth := []byte(ref.SSHPub(ed[0][32:], "a@b") + "\n" + ref.SSHPub(ed[1][32:], "c@d") + "\n")
	keyfile := ref.KeyFile(ed[2], []byte("pw"), kernel.NewRng(5).Bytes(32), 16, 8, 1, "")
	before := kernel.RaceErrors()
	raceMark()
	fails := make([][]string, len(s.Tasks))
	nops := 0
	for ti := range s.Tasks {
		ops := s.Tasks[ti]
		ti := ti
		nops += len(ops)
		c.w.Go(fmt.Sprintf("t%d", ti), func(t *Task) {
			t.Rand = kernel.NewRandom(kernel.Mix(s.Sched, uint64(ti)))
			for _, op := range ops {
				if m := p07run(t, &op, sk[:], pk[:], ed[:], sig[:], msg, auth, keyfile, dir, ti); m != "" {
					fails[ti] = append(fails[ti], op.Op+": "+m)
				}
				t.Yield()
			}
		})
	}
	tasks := c.tasksPanic()
	stall := c.run()
	o.Evals += nops
	o.NonTrivial = len(s.Tasks) > 1
	if stall != "" {
		c.failf("stall", "%s", stall)
	}
	if p := tasks(); p != nil {
		c.failf("panic", "%s\n%s", p.Val, p.Stack)
	}
	for ti, v := range fails {
		for _, m := range v {
			c.failf("interference", "task %d: %s", ti, m)
		}
	}
	sh := ""
	for _, t := range s.Tasks {
		for _, op := range t {
			sh += op.Op[:2] + fmt.Sprint(op.Key)
		}
		sh += "|"
	}
	c.shape(sh)
	if n := kernel.RaceErrors() - before; n > 0 {
		for _, r := range raceReports() {
			if v := raceVerdict(r); v != "" {
				c.failf("data-race", "%s", v)
				break
			}
		}
		o.Probe("race-reports")
	}
	return o
}

// tasksPanic remembers the current tasks; the result finds a panic among them.
func (c *ctx) tasksPanic() func() *kernel.PanicInfo {
	ts := c.w.Tasks()
	return func() *kernel.PanicInfo {
		for _, t := range ts {
			if t.Panic != nil {
				return t.Panic
			}
		}
		return nil
	}
}

func p07run(t *Task, op *p07op, sk []*sign.PrivateKey, pk []*sign.PublicKey, ed []ed25519.PrivateKey, sig []*sign.Signature, msg, auth, keyfile []byte, dir string, ti int) string {
	k, k2 := mod(op.Key, len(sk)), mod(op.Key2, len(sk))
	pt := PT{Len: mod(op.N, 3000), Seed: op.Seed}.bytes()
	chunk := uint64(max(1, mod(op.Chunk, 2000)))
	var snd *sign.PrivateKey
	var spk *sign.PublicKey
	var sed []byte
	if op.Sender >= 0 {
		i := mod(op.Sender, len(sk))
		snd, spk, sed = sk[i], pk[i], ed[i][32:]
	}
	switch op.Op {
	case "encrypt":
		en, err := sign.NewEncryptor(snd, chunk)
		if err != nil {
			return err.Error()
		}
		for _, i := range []int{k, k2} {
			if err := en.AddRecipient(pk[i]); err != nil {
				return err.Error()
			}
		}
		sink := &kernel.Sink{T: t}
		if op.Stream {
			w, err := en.NewStreamWriter(sink)
			if err != nil {
				return err.Error()
			}
			for rest := pt; len(rest) > 0; {
				n := min(len(rest), 700)
				if _, err := w.Write(rest[:n]); err != nil {
					return err.Error()
				}
				rest = rest[n:]
			}
			if err := w.Close(); err != nil {
				return err.Error()
			}
		} else if err := en.Encrypt(&kernel.Source{T: t, Data: pt, Frag: kernel.Frag{Mode: 3, Seed: op.Seed}}, sink); err != nil {
			return err.Error()
		}
		for _, i := range []int{k, k2} {
			in, err := ref.Open(sink.Buf, ed[i], sed)
			if err != nil {
				return "the output is not decryptable: " + err.Error()
			}
			if !bytes.Equal(in.PT, pt) {
				return "the output decrypts to something else"
			}
		}
	case "decrypt":
		r := kernel.NewRng(op.Seed)
		eo := &ref.EncOpts{Key: r.Bytes(32), Salt: r.Bytes(32), ESK: r.Bytes(32), ChunkSize: uint32(chunk), Trailer: r.Bytes(64),
			Recips: [][]byte{ed[k2][32:], ed[k][32:]}, Nonces: [][]byte{r.Bytes(12), r.Bytes(12)}}
		if op.Sender >= 0 {
			eo.Sender = ed[mod(op.Sender, len(sk))]
		}
		raw, err := ref.Encrypt(eo, pt)
		if err != nil {
			return ""
		}
		if op.Bad {
			raw[len(raw)-70] ^= 1
		}
		var out memSink
		err = func() error {
			de, err := sign.NewDecryptor(&kernel.Source{T: t, Data: raw, Frag: kernel.Frag{Mode: 3, Seed: op.Seed}})
			if err != nil {
				return err
			}
			if err := de.SetPrivateKey(sk[k], spk); err != nil {
				return err
			}
			if op.Stream {
				rd, err := de.NewStreamReader()
				if err != nil {
					return err
				}
				_, err = io.Copy(&out, rd)
				return err
			}
			return de.Decrypt(&out)
		}()
		if op.Bad {
			if err == nil {
				return "a damaged file was accepted"
			}
		} else if err != nil {
			return "a good file was rejected: " + err.Error()
		} else if !bytes.Equal(out.Bytes(), pt) {
			return "decrypted to something else"
		}
	case "sign":
		sg, err := sk[k].SignMessage(pt, "c")
		if err != nil {
			return err.Error()
		}
		t.Yield()
		b, err := sg.MarshalBinary("c")
		if err != nil {
			return err.Error()
		}
		rs, ph, err := ref.ParseSigFile(b)
		if err != nil || !ref.VerifyMessage(ed[k][32:], pt, rs) || !bytes.Equal(ph, ref.PkHash(ed[k][32:])) {
			return "made a bad signature"
		}
	case "verify":
		m := msg
		if op.Bad {
			m = pt
		}
		if pk[k].VerifyMessage(m, sig[k]) != !op.Bad {
			return "wrong verdict"
		}
		t.Yield()
		if !sig[k].IsPKMatch(pk[k]) || (k != k2 && sig[k].IsPKMatch(pk[k2])) {
			return "wrong key match"
		}
	case "signfile":
		fn := filepath.Join(dir, fmt.Sprintf("f%d", mod(op.N, 3)))
		content := PT{Len: []int{0, 100, 70000}[mod(op.N, 3)], Seed: 1}.bytes()
		sg, err := sk[k].SignFile(fn)
		if err != nil {
			return err.Error()
		}
		if !ref.VerifyMessage(ed[k][32:], ref.FileChecksum(content), sg.Sig) {
			return "made a bad signature"
		}
		t.Yield()
		if ok, err := pk[k].VerifyFile(fn, sg); err != nil || !ok {
			return fmt.Sprintf("verify: %v %v", ok, err)
		}
	case "marshal":
		b, err := pk[k].MarshalBinary("c")
		if err != nil {
			return err.Error()
		}
		if p, err := ref.ParsePubFile(b); err != nil || !bytes.Equal(p, ed[k][32:]) {
			return "serialized another public key"
		}
		t.Yield()
		b, err = sig[k].MarshalBinary("c")
		if err != nil {
			return err.Error()
		}
		if rs, _, err := ref.ParseSigFile(b); err != nil || !ref.VerifyMessage(ed[k][32:], msg, rs) {
			return "serialized another signature"
		}
	case "marshalsk":
		pw := pt[:min(len(pt), 20)]
		b, err := sk[k].MarshalBinary("c", pw)
		if err != nil {
			return err.Error()
		}
		if e, _, _, err := ref.OpenKeyFile(b, pw); err != nil || !bytes.Equal(e, ed[k]) {
			return fmt.Sprintf("serialized another private key (%v)", err)
		}
	case "serialize":
		fn := filepath.Join(dir, fmt.Sprintf("out.%d.%d", ti, mod(op.N, 4)))
		defer os.Remove(fn)
		if err := pk[k].Serialize(fn, "c", true); err != nil {
			return err.Error()
		}
		t.Yield()
		p2, err := sign.ReadPublicKey(fn)
		if err != nil || !bytes.Equal(p2.Pk, ed[k][32:]) {
			return fmt.Sprintf("stored another public key (%v)", err)
		}
	case "load":
		s2, err := sign.MakePrivateKey(keyfile, func() ([]byte, error) { t.Yield(); return []byte("pw"), nil })
		if err != nil || !bytes.Equal(s2.Sk, ed[2]) {
			return fmt.Sprintf("loaded another private key (%v)", err)
		}
		t.Yield()
		v, err := sign.ParseAuthorizedKeys(auth)
		if err != nil || len(v) != 2 || !bytes.Equal(v[0].Pk, ed[0][32:]) || !bytes.Equal(v[1].Pk, ed[1][32:]) || v[1].Comment != "c@d" {
			return fmt.Sprintf("parsed other authorized keys (%v)", err)
		}
	case "curve":
		if !bytes.Equal(pk[k].ToCurve25519PK(), ref.CurvePK(ed[k][32:])) {
			return "another curve25519 public key"
		}
		t.Yield()
		if !bytes.Equal(sk[k].ToCurve25519SK(), ref.CurveSK(ed[k])) {
			return "another curve25519 private key"
		}
		if !bytes.Equal(pk[k].Hash(), ref.PkHash(ed[k][32:])) || sk[k].PublicKey() == nil {
			return "another key hash"
		}
	case "newkey":
		n, err := sign.NewPrivateKey()
		if err != nil {
			return err.Error()
		}
		t.Yield()
		sg, err := n.SignMessage(pt, "")
		if err != nil || !n.PublicKey().VerifyMessage(pt, sg) {
			return "a new key does not verify its own signature"
		}
	}
	// what the shared objects hold must not change
	for i := range ed {
		if !bytes.Equal(sk[i].Sk, ed[i]) || !bytes.Equal(pk[i].Pk, ed[i][32:]) {
			return fmt.Sprintf("shared key %d was modified", i)
		}
	}
	return ""
}

var p07ops = []string{"encrypt", "encrypt", "decrypt", "decrypt", "sign", "verify", "signfile", "marshal", "marshalsk", "serialize", "load", "curve", "newkey"}

func genP07(r *Rng, idx int, tier string) any {
	s := &p07{Sched: uint64(r.N(1 << 30)), Late: r.P(2)}
	n := r.In(2, 5)
	focus := ""
	if r.P(3) {
		focus = p07ops[r.N(len(p07ops))]
	}
	keys := r.In(1, 3)
	for i := 0; i < n; i++ {
		var t []p07op
		for j := r.In(1, 4); j > 0; j-- {
			op := p07op{Op: p07ops[r.N(len(p07ops))], Key: r.N(keys), Key2: r.N(keys), Sender: r.In(-1, 2), N: r.Pick(0, 1, 20, r.N(3000)), Chunk: r.Pick(1, 16, 100, 1000, 1999), Stream: r.P(2), Bad: r.P(4), Seed: uint64(r.N(1 << 30))}
			if focus != "" && r.P(2) {
				op.Op = focus
			}
			if op.Chunk < 16 && op.N > 200 {
				op.N = 200
			}
			t = append(t, op)
		}
		s.Tasks = append(s.Tasks, t)
	}
	return s
}

// ---- reports of the race detector ----

var raceOff int64

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", f[9:], os.Getpid())
		}
	}
	return ""
}

func raceMark() {
	if st, err := os.Stat(raceLog()); err == nil {
		raceOff = st.Size()
	}
}

func raceReports() []string {
	b, err := os.ReadFile(raceLog())
	if err != nil || int64(len(b)) < raceOff {
		return nil
	}
	b = b[raceOff:]
	raceOff += int64(len(b))
	return strings.Split(string(b), "==================\n")
}

// raceVerdict tells whether a report is about the code under test: both
// accesses were made below it, neither by the simulator itself.
func raceVerdict(r string) string {
	if !strings.Contains(r, "WARNING: DATA RACE") {
		return ""
	}
	var tops []string
	sig := false
	for _, part := range strings.Split(r, "\n\n") {
		ls := strings.Split(part, "\n")
		for i, l := range ls {
			if !(strings.Contains(l, "rite at 0x") || strings.Contains(l, "ead at 0x")) {
				continue
			}
			top := ""
			for _, f := range ls[i+1:] {
				f = strings.TrimSpace(f)
				if strings.HasPrefix(f, "/") || f == "" {
					continue
				}
				if top == "" && !strings.HasPrefix(f, "runtime.") && !strings.HasPrefix(f, "internal/") {
					top = f
				}
				if strings.Contains(f, "opencoff/sigtool/") {
					sig = true
					break
				}
			}
			tops = append(tops, top)
		}
	}
	for _, t := range tops {
		if t == "" || strings.HasPrefix(t, "verifsim/") {
			return ""
		}
	}
	if !sig || len(tops) < 2 {
		return ""
	}
	lines := strings.Split(r, "\n")
	var keep []string
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "/") || strings.HasPrefix(l, "Goroutine") {
			continue
		}
		keep = append(keep, l)
		if len(keep) > 14 {
			break
		}
	}
	return strings.Join(keep, " | ")
}

func init() {
	runner.Register(&runner.Prop{
		ID:       "P07",
		Families: []*runner.Family{{Name: "concurrent", Weight: 1, Gen: genP07, New: func() any { return &p07{} }, Exec: execP07}},
		Rule:     "A case is one simulated execution of 2 to 5 tasks in one process that share key pairs and signatures and do random operations (encrypt, decrypt, sign, verify, serialize, load, derive), interleaved by the seeded scheduler at every I/O call, entropy read and between operations; each result is checked against the independent implementation, and the Go race detector watches all memory accesses while the scheduler hides its own hand-overs from it, so that accesses of two tasks are unordered unless the library synchronises. Non-trivial: more than one task.",
		Real:     libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900, Race: true,
		Assume: []string{"tasks are switched at I/O, entropy reads and operation boundaries; conflicting accesses in between are found by the race detector, which does not depend on the switch points", "two calls on one and the same context are not concurrent (contexts are not shared)"},
	})
}

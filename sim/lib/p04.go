package lib

import (
	"bytes"
	"fmt"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P04: only named recipients can decrypt, and nothing secret is written.

type p04 struct {
	Sess   []Enc  `json:"sess"` // session 0 is the target
	Muts   []Mut  `json:"muts,omitempty"`
	Out    int    `json:"out"`    // key number of the outsider
	Sender int    `json:"sender"` // sender the outsider asks for
	Dec    Dec    `json:"dec"`
	Abuse  bool   `json:"abuse,omitempty"` // go on after errors
	Sched  uint64 `json:"sched"`
}

func execP04(sc any, x *Exec) *Outcome {
	s := sc.(*p04)
	c := newCtx(s.Sched, 3000000, x)
	o := c.o
	raws, pts, ok := c.sessions(s.Sess, false, s.Sched)
	if !ok || has(s.Sess[0].Recips, s.Out) {
		return o
	}
	a, err := newAttacked(raws)
	if err != nil {
		return o
	}
	for _, m := range s.Muts {
		if m.Op != "" {
			a.apply(m)
			o.Fault("splice:" + m.Op)
		}
	}
	b := a.bytes()
	c.w.HashBytes(b)
	d := s.Dec
	d.Key, d.Sender = s.Out, s.Sender
	// what may the outsider see?
	allowed := -1
	for i := range raws {
		if has(s.Sess[i].Recips, s.Out) && sameHead(b, raws[i], a.files[i]) {
			allowed = i
		}
	}
	var out memSink
	var ferr error
	var pi *kernel.PanicInfo
	task := c.w.Go("dec", func(t *Task) {
		src := d.Src
		src.F = nil
		if !s.Abuse {
			res := c.decrypt(&d, src.open(t, b), &out)
			ferr, pi = res.Err, res.Pan
			return
		}
		ferr, pi = call(func() error {
			de, err := sign.NewDecryptor(src.open(t, b))
			if err != nil {
				return err
			}
			var spk *sign.PublicKey
			if d.Sender >= 0 {
				spk = c.key(d.Sender).Pk
			}
			err = de.SetPrivateKey(c.key(d.Key).Sk, spk)
			if err == nil {
				return de.Decrypt(&out)
			}
			// carry on regardless
			e1 := de.Decrypt(&out)
			r, e2 := de.NewStreamReader()
			if e2 == nil && r != nil {
				e2 = pump(r, &out, d.Rd)
			}
			if e1 == nil || e2 == nil {
				return nil
			}
			return err
		})
	})
	stall := c.run()
	o.Evals++
	o.NonTrivial = true
	c.shape(len(s.Muts), d.Stream, s.Abuse, errClass(ferr), allowed >= 0, len(s.Sess[0].Recips))
	if len(s.Muts) > 0 {
		c.shape(s.Muts[0].Op)
	}
	switch {
	case stall != "":
		c.failf("stall", "%s", stall)
	case pi != nil:
		c.failf("panic", "%s\n%s", pi.Val, pi.Stack)
	case task.Panic != nil:
		c.failf("panic", "%s\n%s", task.Panic.Val, task.Panic.Stack)
	case allowed >= 0:
		o.Probe("whole-header-of-own-session")
		if !bytes.HasPrefix(pts[allowed], out.Bytes()) {
			c.failf("outsider", "%v: an outsider got %s, which is not of its own session", s.Muts, short(out.Bytes()))
		}
	case ferr == nil:
		c.failf("outsider", "%v: decryption by a key that is no recipient (of %d) succeeded with %d bytes", s.Muts, len(s.Sess[0].Recips), out.Len())
	case out.Len() > 0:
		c.failf("outsider", "%v: a key that is no recipient received %s", s.Muts, short(out.Bytes()))
	}
	return o
}

// p04leak: nothing secret appears in what encryption writes.
type p04leak struct {
	Enc   Enc    `json:"enc"`
	Out   int    `json:"out"`
	Fault int    `json:"fault"` // >0: the sink fails after that many bytes
	Sched uint64 `json:"sched"`
}

func windows(b []byte, n int) map[string]bool {
	m := make(map[string]bool, len(b))
	for i := 0; i+n <= len(b); i++ {
		m[string(b[i:i+n])] = true
	}
	return m
}

func execP04leak(sc any, x *Exec) *Outcome {
	s := sc.(*p04leak)
	c := newCtx(s.Sched, 3000000, x)
	o := c.o
	e := s.Enc
	if len(e.Recips) == 0 || e.PT.Len > 1<<20 {
		return o
	}
	for _, r := range e.Recips {
		c.key(r)
	}
	if e.Sender >= 0 {
		c.key(e.Sender)
	}
	pt := e.PT.bytes()
	sink := &kernel.Sink{}
	if s.Fault > 0 {
		sink.F = &kernel.Fault{At: s.Fault, Kind: "eio", With: true}
	}
	rnd := kernel.NewRandom(kernel.Mix(e.Rand, 9))
	rnd.Keep = true
	var err error
	t := c.w.Go("enc", func(t *Task) {
		t.Rand = rnd
		sink.T = t
		src := e.Src
		src.F = nil
		err = c.encrypt(&e, pt, src.open(t, pt), sink)
	})
	stall := c.run()
	if stall != "" || t.Panic != nil {
		if t.Panic != nil {
			c.failf("panic", "%s\n%s", t.Panic.Val, t.Panic.Stack)
		}
		return o
	}
	b := sink.Buf
	c.w.HashBytes(b)
	o.Evals++
	c.shape(e.Stream, e.Sender >= 0, lenClass(len(pt)), len(e.Recips), err == nil)
	w8 := windows(b, 8)
	look := func(what string, k []byte, n int) {
		// an 8-byte piece by chance: 2^-64 per pair
		if len(k) < n {
			return
		}
		for i := 0; i+8 <= len(k); i++ {
			if w8[string(k[i:i+8])] {
				c.failf("leak", "%s (%s) appears in the output", what, short(k[i:i+8]))
				return
			}
		}
	}
	if e.PT.Kind == 0 {
		look("plaintext", pt, 8)
	}
	if e.Sender >= 0 {
		k := c.key(e.Sender)
		look("the sender's private key", k.Ed[:32], 32)
		look("the sender's curve25519 key", ref.CurveSK(k.Ed), 32)
		look("the sender's public key", k.EdPk(), 32)
	}
	for _, r := range e.Recips {
		k := c.key(r)
		look("a recipient's public key", k.EdPk(), 32)
		look("a recipient's curve25519 public key", ref.CurvePK(k.EdPk()), 32)
		look("a recipient's private key", k.Ed[:32], 32)
	}
	// the header of a file cut short by a fault is complete or missing
	f, perr := ref.Parse(b)
	if perr != nil {
		if err == nil {
			return o
		}
		o.Probe("cut-output-scanned")
		return o
	}
	in, ierr := ref.Open(b, c.key(e.Recips[0]).Ed, nil)
	if ierr != nil {
		return o // P16
	}
	o.NonTrivial = true
	// the ephemeral secret is somewhere in the random bytes used
	for i := 0; i+32 <= len(rnd.Out) && i <= 256; i++ {
		k := ref.Clamp(rnd.Out[i : i+32])
		if !bytes.Equal(ref.X25519Base(k), f.Hdr.Pk) {
			continue
		}
		o.Probe("ephemeral-secret-found")
		look("the ephemeral secret", k, 32)
		look("the ephemeral secret (unclamped)", rnd.Out[i:i+32], 32)
		for _, r := range e.Recips {
			if sh, err := ref.X25519(k, ref.CurvePK(c.key(r).EdPk())); err == nil {
				look("a shared secret", sh, 32)
			}
		}
		break
	}
	look("the file key", in.Sess.Key, 32)
	look("the data key", in.Sess.DKey, 32)
	look("the hmac key", in.Sess.HKey, 32)
	look("the hmac of the plaintext", in.Hmac, 32)
	look("a key-encryption key", in.KEK, 32)
	if in.Auth {
		look("the sender signature", in.Sig, 64)
	}
	// an outsider's guesses at the shared secret and the file key
	osk := c.key(s.Out).Ed
	var cand [][]byte
	cand = append(cand, make([]byte, 32), f.Hdr.Pk, f.Hdr.Salt, f.Sum, f.Trailer[:32], f.Trailer[32:], osk[32:], ref.CurvePK(osk[32:]), ref.CurveSK(osk),
		bytes.Repeat([]byte{0xff}, 32))
	if sh, err := ref.X25519(ref.CurveSK(osk), f.Hdr.Pk); err == nil && !has(e.Recips, s.Out) {
		cand = append(cand, sh)
	}
	for _, r := range e.Recips {
		if r != s.Out {
			cand = append(cand, c.key(r).EdPk(), ref.CurvePK(c.key(r).EdPk()))
			if sh, err := ref.X25519(ref.CurveSK(osk), ref.CurvePK(c.key(r).EdPk())); err == nil {
				cand = append(cand, sh)
			}
		}
	}
	for _, w := range f.Hdr.Keys {
		if len(w.Nonce) > 0 {
			n := bytes.Repeat(w.Nonce, 4)
			cand = append(cand, n[:32])
		}
		if len(w.DKey) >= 32 {
			cand = append(cand, w.DKey[:32])
		}
	}
	for i, k := range cand {
		if _, err := ref.Derive(k, f.Sum).OpenFrame(0, f.Frames[0]); err == nil {
			c.failf("guessed", "the file key is public information (candidate %d: %x)", i, k)
		}
		for _, w := range f.Hdr.Keys {
			for _, r := range append([]int{s.Out}, e.Recips...) {
				if _, err := ref.UnwrapShared(f.Hdr, w, k, c.key(r).EdPk()); err == nil {
					c.failf("guessed", "the shared secret of recipient %d is public information (candidate %d: %x)", r, i, k)
				}
			}
		}
	}
	return o
}

// p04weak: recipients whose shared secret anybody knows are refused.
type p04weak struct {
	Pt     int `json:"pt"` // which low-order point
	Sender int `json:"sender"`
}

// y coordinates of the Ed25519 points of small order (and non-canonical forms)
var lowOrder = [][]byte{
	le(1), le(0),
	// p-1 (order 2)
	{0xec, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	// order 8
	{0xc7, 0x17, 0x6a, 0x70, 0x3d, 0x4d, 0xd8, 0x4f, 0xba, 0x3c, 0x0b, 0x76, 0x0d, 0x10, 0x67, 0x0f, 0x2a, 0x20, 0x53, 0xfa, 0x2c, 0x39, 0xcc, 0xc6, 0x4e, 0xc7, 0xfd, 0x77, 0x92, 0xac, 0x03, 0x7a},
	{0x26, 0xe8, 0x95, 0x8f, 0xc2, 0xb2, 0x27, 0xb0, 0x45, 0xc3, 0xf4, 0x89, 0xf2, 0xef, 0x98, 0xf0, 0xd5, 0xdf, 0xac, 0x05, 0xd3, 0xc6, 0x33, 0x39, 0xb1, 0x38, 0x02, 0x88, 0x6d, 0x53, 0xfc, 0x05},
	// p, p+1 (non-canonical 0 and 1)
	{0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xee, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
}

func le(v byte) []byte { b := make([]byte, 32); b[0] = v; return b }

func execP04weak(sc any, x *Exec) *Outcome {
	s := sc.(*p04weak)
	c := newCtx(uint64(s.Pt), 100000, x)
	o := c.o
	pkb := append([]byte{}, lowOrder[mod(s.Pt/2, len(lowOrder))]...)
	if s.Pt&1 == 1 {
		pkb[31] |= 0x80
	}
	o.Evals++
	o.Fault("recipient:small-order-point")
	c.shape("weak", s.Pt)
	err, pi := call(func() error {
		pk, err := sign.MakePublicKey(ref.PubFile(pkb, ""))
		if err != nil {
			return err
		}
		var ssk *sign.PrivateKey
		if s.Sender >= 0 {
			ssk = c.key(s.Sender).Sk
		}
		en, err := sign.NewEncryptor(ssk, 16)
		if err != nil {
			return err
		}
		if err := en.AddRecipient(c.key(1).Pk); err != nil {
			return err
		}
		if err := en.AddRecipient(pk); err != nil {
			return err
		}
		var sink kernel.Sink
		if err := en.Encrypt(&kernel.Source{Data: []byte("some secret data for nobody")}, &sink); err != nil {
			return err
		}
		f, err := ref.Parse(sink.Buf)
		if err != nil {
			return err
		}
		for _, w := range f.Hdr.Keys {
			if _, err := ref.UnwrapShared(f.Hdr, w, make([]byte, 32), pkb); err == nil {
				c.failf("guessed", "encrypting to the small-order point %x makes a file anybody can read", pkb)
			}
		}
		return nil
	})
	o.NonTrivial = true
	if pi != nil {
		c.failf("panic", "%s\n%s", pi.Val, pi.Stack)
	}
	o.Hash = kernel.MixStr(fmt.Sprint(s, err))
	return o
}

func genP04(r *Rng, idx int, tier string) any {
	s := &p04{Sched: uint64(r.N(1 << 30)), Out: 30 + r.N(5), Sender: -1, Abuse: r.P(4)}
	e := smallEnc(r)
	if r.P(8) {
		e.Recips = nil
		p := r.Perm(29)
		for i := 0; i < r.In(5, 29); i++ {
			e.Recips = append(e.Recips, p[i])
		}
	}
	if e.Sender >= 0 && r.P(5) {
		s.Out = e.Sender // who sends need not be able to read
	}
	s.Sess = append(s.Sess, e)
	for i := 0; i < 2; i++ {
		f := smallEnc(r)
		f.Chunk, f.Sender = e.Chunk, e.Sender
		f.Recips = append([]int{s.Out}, f.Recips...)
		if r.P(2) {
			f.Recips = append(f.Recips[1:], s.Out)
		}
		s.Sess = append(s.Sess, f)
	}
	s.Sender = e.Sender
	if r.P(4) {
		s.Sender = r.Pick(-1, 50, 51)
	}
	s.Dec = *genDec(r, 0, 0, e.PT.Len)
	for n := r.N(4); n > 0; n-- {
		m := genMut(r)
		if r.P(2) {
			m.Op = r.PickS("hsplice", "hsplice", "hkeysother", "hpkother", "hsaltother", "hother", "cbody", "creplace", "hsendother", "xsplice")
			m.Fix = true
		}
		m.S = r.N(3)
		s.Muts = append(s.Muts, m)
	}
	return s
}

func genP04leak(r *Rng, idx int, tier string) any {
	s := &p04leak{Enc: smallEnc(r), Out: 30 + r.N(5), Sched: uint64(r.N(1 << 30))}
	if r.P(3) {
		s.Enc = *genEnc(r, 6, 10, 20000)
	}
	s.Enc.Src = genSrc(r, s.Enc.PT.Len)
	s.Enc.Wr = fragFor(r, s.Enc.PT.Len)
	s.Enc.PT.Kind = r.Pick(0, 0, 0, 1)
	if r.P(4) {
		s.Fault = r.In(1, 1200)
	}
	return s
}

func init() {
	runner.Register(&runner.Prop{
		ID: "P04",
		Families: []*runner.Family{
			{Name: "outsider", Weight: 3, Gen: genP04, New: func() any { return &p04{} }, Exec: execP04},
			{Name: "leak", Weight: 2, Gen: genP04leak, New: func() any { return &p04leak{} }, Exec: execP04leak},
			{Name: "weak", Directed: 4 * len(lowOrder), Gen: func(r *Rng, idx int, tier string) any {
				return &p04weak{Pt: idx % (2 * len(lowOrder)), Sender: []int{-1, 50}[idx/(2*len(lowOrder))%2]}
			}, New: func() any { return &p04weak{} }, Exec: execP04weak},
		},
		Rule: "A case is (outsider) a simulated interception: a key that was not named tries to decrypt a file into whose header the attacker spliced entries, salts, ephemeral keys or whole headers of sessions it is a recipient of, also carrying on after errors; (leak) an encryption, possibly cut short by a sink failure, whose complete output is searched for every 8-byte piece of plaintext, session keys (recomputed by the independent implementation), ephemeral secret (identified in the recorded entropy), sender and recipient keys, and for which an outsider's guesses of keys from public values are tried; (weak) recipients with small-order keys. Non-trivial: the attempt or the scan was carried out.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900,
		Assume: []string{"AES-GCM, X25519 and HKDF are not broken: the check finds key material and plaintext that is written in the clear or derivable from the listed public values, not cryptanalytic weaknesses"},
	})
}

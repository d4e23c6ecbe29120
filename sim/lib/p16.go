package lib

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/dchest/bcrypt_pbkdf"
	"github.com/opencoff/sigtool/sign"
	"golang.org/x/crypto/scrypt"
	"verifsim/golden"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P16: stored files across versions and implementations.

type goldKey struct{ Name, File, Pub, PW, Seed string }
type goldSig struct{ Key, File, Sig string }
type goldEnc struct {
	File, Sender string
	Recips       []string
	PT, Chunk    int
	Stream       bool
}
type goldIndex struct {
	Keys []goldKey
	Sigs []goldSig
	Encs []goldEnc
	Auth string
}

var gold goldIndex

func goldFile(n string) []byte {
	b, err := golden.FS.ReadFile(n)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return b
}

func init() {
	if err := json.Unmarshal(goldFile("index.json"), &gold); err != nil {
		panic("HARNESS: " + err.Error())
	}
}

func goldPT(n int) []byte {
	b := make([]byte, n)
	x := uint32(12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func goldEd(name string) ed25519.PrivateKey {
	for _, k := range gold.Keys {
		if k.Name == name {
			b, _ := hex.DecodeString(k.Seed)
			return ed25519.NewKeyFromSeed(b)
		}
	}
	panic("HARNESS: no golden key " + name)
}

// ---- family golden ----

type p16gold struct {
	Kind   string      `json:"kind"` // key, enc, sig, pub, auth
	I      int         `json:"i"`
	R      int         `json:"r"`
	Stream bool        `json:"stream,omitempty"`
	Sender bool        `json:"sender,omitempty"`
	Src    Src         `json:"src"`
	Rd     kernel.Frag `json:"rd"`
}

func execGold(sc any, x *Exec) *Outcome {
	s := sc.(*p16gold)
	c := newCtx(1, 100000, x)
	o := c.o
	o.NonTrivial = true
	switch s.Kind {
	case "key":
		k := gold.Keys[mod(s.I, len(gold.Keys))]
		scrypt.SimCheap, bcrypt_pbkdf.SimCheap = false, false
		defer func() { scrypt.SimCheap, bcrypt_pbkdf.SimCheap = true, true }()
		for _, pw := range []string{k.PW, "wrong"} {
			o.Evals++
			var sk *sign.PrivateKey
			err, pi := call(func() (err error) {
				sk, err = sign.MakePrivateKey(goldFile(k.File), func() ([]byte, error) { return []byte(pw), nil })
				return err
			})
			if pi != nil {
				c.failf("panic", "%s\n%s", pi.Val, pi.Stack)
			}
			if pw == k.PW && (err != nil || !bytes.Equal(sk.Sk, goldEd(k.Name))) {
				c.failf("old-key", "key %s is not read back: %v", k.File, err)
			}
			if pw != k.PW && err == nil && k.Name != "s0" {
				c.failf("old-key", "key %s opens with a wrong passphrase", k.File)
			}
		}
	case "enc":
		e := gold.Encs[mod(s.I, len(gold.Encs))]
		rec := goldEd(e.Recips[mod(s.R, len(e.Recips))])
		c.keys[500] = rawKP(rec)
		d := &Dec{Key: 500, Sender: -1, Stream: s.Stream, Src: s.Src, Rd: s.Rd}
		if e.Sender != "" {
			c.keys[501] = rawKP(goldEd(e.Sender))
			d.Sender = 501
		}
		if c.keys[500] == nil || (d.Sender == 501 && c.keys[501] == nil) {
			c.failf("old-key", "an OpenSSH key is rejected")
			return o
		}
		var out memSink
		res := c.decrypt(d, s.Src.open(nil, goldFile(e.File)), &out)
		o.Evals++
		if res.Err != nil {
			c.failf("old-file", "%s (chunk %d, %d bytes, sender %q, stream %v) of the released version is rejected: %s", e.File, e.Chunk, e.PT, e.Sender, s.Stream, res.Err)
		} else if !bytes.Equal(out.Bytes(), goldPT(e.PT)) {
			c.failf("old-file", "%s decrypts to something else", e.File)
		} else if res.Auth != (e.Sender != "") {
			c.failf("old-file", "%s: authenticated is %v, sender %q", e.File, res.Auth, e.Sender)
		}
	case "sig":
		g := gold.Sigs[mod(s.I, len(gold.Sigs))]
		sg := &sign.Signature{}
		ed := goldEd(g.Key)
		err, pi := call(func() error { return sg.UnmarshalBinary(goldFile(g.Sig)) })
		if err != nil || pi != nil {
			c.failf("old-sig", "%s is rejected: %v", g.Sig, err)
			return o
		}
		kp := rawKP(ed)
		if kp == nil {
			c.failf("old-key", "an OpenSSH key is rejected")
			return o
		}
		fn := filepath.Join(scratch(), "p16")
		os.WriteFile(fn, goldFile(g.File), 0600)
		o.Evals++
		err, pi = call(func() error {
			ok, err := kp.Pk.VerifyFile(fn, sg)
			if err != nil {
				return err
			}
			if !ok || !sg.IsPKMatch(kp.Pk) {
				return fmt.Errorf("verification fails")
			}
			sg2, err := kp.Sk.SignFile(fn)
			if err != nil {
				return err
			}
			if !bytes.Equal(sg2.Sig, sg.Sig) {
				return fmt.Errorf("signing the same file again gives another signature")
			}
			return nil
		})
		if err != nil || pi != nil {
			c.failf("old-sig", "%s: %v", g.Sig, err)
		}
	case "pub":
		k := gold.Keys[mod(s.I, len(gold.Keys))]
		o.Evals++
		var pk *sign.PublicKey
		err, pi := call(func() (err error) { pk, err = sign.MakePublicKey(goldFile(k.Pub)); return })
		if err != nil || pi != nil || !bytes.Equal(pk.Pk, goldEd(k.Name)[32:]) {
			c.failf("old-key", "public key %s is not read back: %v", k.Pub, err)
		}
	case "auth":
		o.Evals++
		var v []*sign.PublicKey
		err, pi := call(func() (err error) { v, err = sign.ParseAuthorizedKeys(goldFile(gold.Auth)); return })
		if err != nil || pi != nil || len(v) != 3 {
			c.failf("old-key", "authorized_keys gives %d keys: %v", len(v), err)
			return o
		}
		for i, n := range []string{"s0", "s1", "s2"} {
			if !bytes.Equal(v[i].Pk, goldEd(n)[32:]) || v[i].Comment != "gold@"+n {
				c.failf("old-key", "authorized key %d is not %s", i, n)
			}
		}
	}
	c.shape(s.Kind, mod(s.I, 64), s.Stream)
	c.note(s)
	return o
}

// rawKP makes a key pair the library accepts, nil if it doesn't.
func rawKP(ed ed25519.PrivateKey) *KP {
	sk, err := sign.MakePrivateKey(ref.SSHKeyFile(ed, &ref.SSHOpts{Cipher: "none", Check: 1, Comment: "k"}), nil)
	if err != nil {
		return nil
	}
	return &KP{Sk: sk, Pk: sk.PublicKey(), Ed: ed}
}

func genGold(r *Rng, idx int, tier string) any {
	s := &p16gold{Rd: kernel.Frag{Mode: 5, Size: 3000}}
	if idx < 5 {
		s.Kind, s.I = "key", idx
		return s
	}
	if idx -= 5; idx < 5 {
		s.Kind, s.I = "pub", idx
		return s
	}
	if idx -= 5; idx < 8 {
		s.Kind, s.I = "sig", idx
		return s
	}
	if idx -= 8; idx < 1 {
		s.Kind = "auth"
		return s
	}
	if idx -= 1; idx < 4*len(gold.Encs) {
		s.Kind, s.I, s.Stream, s.Sender = "enc", idx/4, idx&1 == 1, idx&2 != 0
		return s
	}
	s.Kind = "enc"
	s.I, s.R, s.Stream, s.Sender = r.N(len(gold.Encs)), r.N(5), r.P(2), r.P(2)
	s.Src, s.Rd = genSrc(r, gold.Encs[s.I].PT), readFrag(r)
	return s
}

// ---- family interop ----

type p16 struct {
	Enc    Enc    `json:"enc"`
	Dec    Dec    `json:"dec"`
	ToRef  bool   `json:"toref"`
	Com    string `json:"com"`
	Recip  int    `json:"recip"`
	Decoys int    `json:"decoys,omitempty"` // entries of unknown recipients
	First  uint32 `json:"first,omitempty"`  // number of the first chunk
	Sched  uint64 `json:"sched"`
}

func execP16(sc any, x *Exec) *Outcome {
	s := sc.(*p16)
	c := newCtx(s.Sched, 1000000, x)
	c.first(s.First)
	defer setFirst(0)
	o := c.o
	e := &s.Enc
	if len(e.Recips) == 0 || len(e.Recips) > 50 || e.PT.Len > 1<<22 || e.Chunk > 1<<24 || e.Chunk == 0 || s.Decoys > 300 {
		return o
	}
	o.NonTrivial = true
	rk := c.key(e.Recips[mod(s.Recip, len(e.Recips))])
	o.Evals++
	if s.ToRef {
		b, pt, err := c.produce(e)
		if err != nil {
			c.failf("encrypt", "%s", err)
			return o
		}
		in, err := ref.Open(b, rk.Ed, c.senderPk(e.Sender))
		if err != nil {
			c.failf("format", "an independent implementation rejects the output: %s", err)
			return o
		}
		h := in.File.Hdr
		if !bytes.Equal(in.PT, pt) || in.Auth != (e.Sender >= 0) || len(h.Keys) != len(e.Recips) {
			c.failf("format", "the output differs for an independent implementation (%d/%d bytes, authenticated %v, %d recipients)", len(in.PT), len(pt), in.Auth, len(h.Keys))
		}
		if uint64(h.ChunkSize) != e.Chunk {
			c.failf("format", "block size %d asked for, %d declared", e.Chunk, h.ChunkSize)
		}
		if !bytes.HasPrefix(b, []byte("SigTool\x03")) || len(in.File.Trailer) != 64 {
			c.failf("format", "magic %x, trailer of %d bytes", b[:8], len(in.File.Trailer))
		}
	} else {
		pt := e.PT.bytes()
		r := kernel.NewRng(kernel.Mix(e.Rand, 16))
		eo := &ref.EncOpts{Key: r.Bytes(32), Salt: r.Bytes(32), ESK: r.Bytes(32), ChunkSize: uint32(e.Chunk), Trailer: r.Bytes(64)}
		for _, i := range e.Recips {
			eo.Recips = append(eo.Recips, c.key(i).EdPk())
		}
		for i := 0; i < s.Decoys; i++ {
			eo.Recips = append(eo.Recips, edKey(1000 + i)[32:])
		}
		if r.P(2) { // any order
			p := r.Perm(len(eo.Recips))
			v := make([][]byte, len(p))
			for i, j := range p {
				v[i] = eo.Recips[j]
			}
			eo.Recips = v
		}
		for range eo.Recips {
			eo.Nonces = append(eo.Nonces, r.Bytes(12))
		}
		if e.Sender >= 0 {
			eo.Sender = c.key(e.Sender).Ed
		}
		b, err := ref.Encrypt(eo, pt)
		if err != nil {
			return o
		}
		d := s.Dec
		d.Key, d.Sender = e.Recips[mod(s.Recip, len(e.Recips))], -1
		if e.Sender >= 0 {
			d.Sender = e.Sender
		}
		var out memSink
		var res *decResult
		c.w.Go("dec", func(t *Task) { res = c.decrypt(&d, s.Dec.Src.open(t, b), &out) })
		if st := c.run(); st != "" {
			c.failf("stall", "%s", st)
			return o
		}
		if res == nil || res.Err != nil {
			c.failf("format", "a file of an independent implementation is rejected: %v", res.Err)
		} else if !bytes.Equal(out.Bytes(), pt) || res.Auth != (e.Sender >= 0) {
			c.failf("format", "a file of an independent implementation decrypts to something else (authenticated %v)", res.Auth)
		}
	}
	// keys and signatures both ways
	call(func() error {
		if b, err := rk.Pk.MarshalBinary(s.Com); err != nil {
			c.failf("format", "%s", err)
		} else if p, err := ref.ParsePubFile(b); err != nil || !bytes.Equal(p, rk.EdPk()) {
			c.failf("format", "an independent implementation reads another public key: %v", err)
		}
		com := s.Com
		if strings.ContainsAny(com, "\r\n\x00") || strings.TrimSpace(com) != com {
			com = ""
		}
		for _, in := range [][]byte{ref.PubFile(rk.EdPk(), com), []byte(ref.SSHPub(rk.EdPk(), com)), []byte(ref.SSHPub(rk.EdPk(), com) + "\n")} {
			p, err := sign.MakePublicKey(in)
			if err != nil || !bytes.Equal(p.Pk, rk.EdPk()) || !bytes.Equal(p.Hash(), ref.PkHash(rk.EdPk())) {
				c.failf("format", "public key %q is read as another: %v", in, err)
			}
		}
		// a stored key with any work factor
		kr := kernel.NewRng(kernel.Mix(s.Sched, 0x5c7))
		n, rr, pp := 1<<kr.In(1, 19), kr.In(1, 8), kr.In(1, 4)
		pw := kr.PickS("", "p", "pass word")
		sk, err := sign.MakePrivateKey(ref.KeyFile(rk.Ed, []byte(pw), kr.Bytes(32), n, rr, pp, com), func() ([]byte, error) { return []byte(pw), nil })
		if err != nil || !bytes.Equal(sk.Sk, rk.Ed) {
			c.failf("format", "a private key stored with N=%d r=%d p=%d is not read back: %v", n, rr, pp, err)
		}
		m := e.PT.bytes()
		sg, err := rk.Sk.SignMessage(m, com)
		if err != nil || !bytes.Equal(sg.Sig, ref.SignMessage(rk.Ed, m)) {
			c.failf("format", "signatures differ from the documented computation: %v", err)
			return nil
		}
		if !bytes.Equal(rk.Sk.ToCurve25519SK(), ref.CurveSK(rk.Ed)) || !bytes.Equal(rk.Pk.ToCurve25519PK(), ref.CurvePK(rk.EdPk())) {
			c.failf("format", "encryption keys differ from the documented computation")
		}
		return nil
	})
	c.shape(s.ToRef, e.Stream, e.Chunk, lenClass(e.PT.Len), len(e.Recips), e.Sender >= 0)
	c.note(s)
	return o
}

func genP16(r *Rng, idx int, tier string) any {
	s := &p16{Enc: *genEnc(r, 12, 6, 60000), ToRef: r.P(2), Sched: uint64(r.N(1 << 30)), Recip: r.N(12), Com: r.Comment()}
	if s.Enc.Chunk == 0 || s.Enc.Chunk > 1<<20 {
		s.Enc.Chunk = uint64(chunkSizes[r.N(len(chunkSizes))])
		if r.P(2) {
			s.Enc.Chunk = uint64(r.In(1<<20, 6<<20))
		}
	}
	if s.Enc.Chunk < 16 && s.Enc.PT.Len > 600 {
		s.Enc.PT.Len = r.N(600)
	}
	s.Dec = *genDec(r, 0, r.In(-1, 0), s.Enc.PT.Len)
	if r.P(4) {
		s.Decoys = r.In(1, 20)
	}
	if r.P(5) {
		s.First = genFirst(r, 1<<20)
	}
	return s
}

func init() {
	runner.Register(&runner.Prop{
		ID: "P16",
		Families: []*runner.Family{
			{Name: "golden", Weight: 1, Directed: 19 + 4*len(gold.Encs), Gen: genGold, New: func() any { return &p16gold{} }, Exec: execGold},
			{Name: "interop", Weight: 3, Gen: genP16, New: func() any { return &p16{} }, Exec: execP16},
		},
		Rule: "golden: keys, signatures and encrypted files written by the released version (and keys by ssh-keygen), kept under sim/golden, are read by the current code under random stream fragmentation. interop: random files are made by the library and opened by the independent reference, and the other way round, with keys and signatures.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 35, Thorough: 900,
	})
}

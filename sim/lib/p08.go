package lib

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P08 in the library: verdicts of message and file verification.

type p08edit struct {
	What string `json:"what"` // msg, sig, key, none
	Op   string `json:"op"`   // flip, set, del, ins, trunc, ext, swap, zero, scalar
	Pos  int    `json:"pos"`
	N    int    `json:"n"`
	B    int    `json:"b"`
}

type p08 struct {
	Key    int       `json:"key"`
	Other  int       `json:"other"`
	Msg    PT        `json:"msg"`
	File   bool      `json:"file,omitempty"`
	Link   bool      `json:"link,omitempty"`
	Keep   bool      `json:"keep,omitempty"`  // the file's times never change
	Store  bool      `json:"store,omitempty"` // serialize and read back in between
	Ref    bool      `json:"ref,omitempty"`   // the reference signs
	Com    string    `json:"com"`
	Load   int       `json:"load,omitempty"` // the signing key: 0 made here, 1-2 loaded, 3-4 loaded, with halves that don't belong together
	Checks []p08edit `json:"checks"`
	Sched  uint64    `json:"sched"`
	RandF  bool      `json:"randf,omitempty"`
	Huge   bool      `json:"huge,omitempty"` // a file of more than 4 GiB
}

func edit(b []byte, e p08edit, other []byte) []byte {
	b = append([]byte{}, b...)
	p := mod(e.Pos, len(b)+1)
	switch e.Op {
	case "flip":
		if len(b) > 0 {
			b[mod(e.Pos, len(b))] ^= 1 << uint(mod(e.B, 8))
		}
	case "set":
		if len(b) > 0 {
			b[mod(e.Pos, len(b))] = byte(e.B)
		}
	case "del":
		b = append(b[:p], b[min(len(b), p+max(1, mod(e.N, 40))):]...)
	case "ins":
		ins := bytes.Repeat([]byte{byte(e.B)}, max(1, mod(e.N, 40)))
		b = append(b[:p], append(ins, b[p:]...)...)
	case "trunc":
		b = b[:p]
	case "ext":
		b = append(b, bytes.Repeat([]byte{byte(e.B)}, max(1, mod(e.N, 70)))...)
	case "swap":
		b = append([]byte{}, other...)
	case "zero":
		b = make([]byte, len(b))
	case "empty":
		b = nil
	case "ck": // what stands for the content
		b = ref.FileChecksum(b)
	case "sha":
		h := sha512.Sum512(b)
		b = h[:]
	case "hex":
		b = []byte(fmt.Sprintf("%x", b))
	case "scalar": // S + L: the same point, another encoding of S
		if len(b) == 64 {
			l := []byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}
			c := 0
			for i := 0; i < 32; i++ {
				c += int(b[32+i]) + int(l[i])
				b[32+i] = byte(c)
				c >>= 8
			}
		}
	}
	return b
}

// alike is something that could be mistaken for the content.
func alike(msg []byte, op string) ([]byte, bool) {
	h := sha512.Sum512(msg)
	switch op {
	case "ck":
		return ref.FileChecksum(msg), true
	case "sha":
		return h[:], true
	case "hex":
		return ref.FileChecksum(ref.FileChecksum(msg)), true
	case "raw":
		return msg, true
	}
	return nil, false
}

func execP08(sc any, x *Exec) *Outcome {
	s := sc.(*p08)
	c := newCtx(s.Sched, 100000, x)
	o := c.o
	if s.Msg.Len > 1<<22 || len(s.Checks) > 64 {
		return o
	}
	k, other := c.key(s.Key), c.key(s.Other)
	if s.Huge {
		c.huge(k)
		return o
	}
	msg := s.Msg.bytes()
	fn := ""
	put := func(b []byte) string {
		d := scratch()
		os.Remove(filepath.Join(d, "p08.l"))
		fn = filepath.Join(d, "p08")
		if err := os.WriteFile(fn, b, 0600); err != nil {
			panic("HARNESS: " + err.Error())
		}
		if s.Keep {
			t := time.Unix(1700000000, 0)
			if err := os.Chtimes(fn, t, t); err != nil {
				panic("HARNESS: " + err.Error())
			}
		}
		if s.Link {
			os.Symlink("p08", filepath.Join(d, "p08.l"))
			return filepath.Join(d, "p08.l")
		}
		return fn
	}
	if s.RandF {
		c.ent.Default.F = &kernel.RandFault{Call: 0, Kind: "err"}
	}
	ck := func(m []byte) []byte { // what is signed
		if s.File {
			return ref.FileChecksum(m)
		}
		return m
	}
	if s.Load > 0 {
		ed := append(ed25519.PrivateKey{}, k.Ed...)
		if mod(s.Load, 5) > 2 {
			copy(ed[32:], other.Ed[32:])
		}
		var b []byte
		if mod(s.Load, 5)&1 != 0 {
			b = ref.KeyFile(ed, nil, kernel.NewRng(s.Sched).Bytes(32), 2, 1, 1, s.Com)
		} else {
			b = ref.SSHKeyFile(ed, &ref.SSHOpts{Cipher: "none", Check: 1, Comment: s.Com})
		}
		var sk *sign.PrivateKey
		err, pi := call(func() (err error) { sk, err = sign.MakePrivateKey(b, nil); return })
		if pi != nil {
			c.failf("panic", "loading: %s\n%s", pi.Val, pi.Stack)
			return o
		}
		o.Evals++
		if err != nil {
			if bytes.Equal(ed, k.Ed) {
				c.failf("load", "a good key can't be loaded: %s", err)
			}
			return o
		}
		if !bytes.Equal(ed, k.Ed) {
			o.Probe("inconsistent key loaded")
			var sg *sign.Signature
			err, pi := call(func() (err error) { sg, err = sk.SignMessage(msg, ""); return })
			if pi != nil {
				c.failf("panic", "signing: %s\n%s", pi.Val, pi.Stack)
			} else if err == nil && !ref.VerifyMessage(sk.PublicKey().Pk, msg, sg.Sig) {
				c.failf("bad-signature", "signing with a key whose halves don't belong together reports success, but the signature does not verify with its public key")
			}
			return o
		}
		kk := *k
		kk.Sk, kk.Pk = sk, sk.PublicKey()
		k = &kk
	}
	var sg *sign.Signature
	err, pi := call(func() (err error) {
		if s.Ref {
			sg = &sign.Signature{}
			return sg.UnmarshalBinary(ref.SigFile(ref.SignMessage(k.Ed, ck(msg)), k.EdPk(), s.Com))
		}
		if s.File {
			sg, err = k.Sk.SignFile(put(msg))
		} else {
			sg, err = k.Sk.SignMessage(msg, s.Com)
		}
		return err
	})
	if pi != nil {
		c.failf("panic", "signing: %s\n%s", pi.Val, pi.Stack)
		return o
	}
	if err != nil {
		if !s.RandF {
			c.failf("sign-error", "can't sign: %s", err)
		}
		return o
	}
	if !ref.VerifyMessage(k.EdPk(), ck(msg), sg.Sig) {
		c.failf("bad-signature", "a signature was made that does not verify (file %v, %d bytes)", s.File, len(msg))
		return o
	}
	if !sg.IsPKMatch(k.Pk) {
		c.failf("no-match", "a new signature does not match its key")
	}
	if s.Store {
		b, err := sg.MarshalBinary(s.Com)
		if err == nil {
			rs, ph, e := ref.ParseSigFile(b)
			if e != nil || !bytes.Equal(rs, sg.Sig) || !bytes.Equal(ph, ref.PkHash(k.EdPk())) {
				c.failf("stored-signature", "the stored form is not the signature: %v", e)
			}
			sg = &sign.Signature{}
			err = sg.UnmarshalBinary(b)
		}
		if err != nil {
			c.failf("stored-signature", "a stored signature can't be read back: %s", err)
			return o
		}
	}
	genuine := append([]byte{}, sg.Sig...)
	otherSig := ref.SignMessage(other.Ed, ck(msg))
	for i, e := range append([]p08edit{{What: "none"}}, s.Checks...) {
		o.Evals++
		m, sb, pk, edpk := msg, genuine, k.Pk, k.EdPk()
		switch e.What {
		case "msg":
			m = edit(msg, e, PT{Len: len(msg), Seed: uint64(e.Pos)}.bytes())
		case "sig":
			sb = edit(genuine, e, otherSig)
			if m, ok := alike(msg, e.Op); ok {
				sb = ref.SignMessage(k.Ed, m) // by the same key, over something else
			}
		case "key":
			pk, edpk = other.Pk, other.EdPk()
		case "both": // another key's signature with another key
			sb, pk, edpk = otherSig, other.Pk, other.EdPk()
		}
		ts := &sign.Signature{}
		in := ref.SigFile(sb, edpk, s.Com)
		if err := ts.UnmarshalBinary(in); err != nil {
			if len(sb) == 64 {
				c.failf("rejects", "a well-formed signature file is rejected: %s", err)
			}
			continue
		}
		want := len(sb) == 64 && ref.VerifyMessage(edpk, ck(m), sb)
		same := bytes.Equal(m, msg) && bytes.Equal(sb, genuine) && bytes.Equal(edpk, k.EdPk())
		if e.What != "both" && want != same {
			// S + L style encodings must not be accepted either
			panic(fmt.Sprintf("HARNESS: reference verdict %v, same %v: %+v", want, same, e))
		}
		var got bool
		err, pi := call(func() (err error) {
			if s.File {
				got, err = pk.VerifyFile(put(m), ts)
			} else {
				got = pk.VerifyMessage(m, ts)
			}
			return err
		})
		switch {
		case pi != nil:
			c.failf("panic", "verifying: %s\n%s", pi.Val, pi.Stack)
		case err != nil:
			c.failf("verify-error", "can't verify a readable file: %s", err)
		case got && !want:
			c.failf("accepts", "check %d accepted: %+v", i, e)
		case !got && want:
			c.failf("rejects", "check %d rejected a genuine signature: %+v", i, e)
		}
		if ts.IsPKMatch(k.Pk) != bytes.Equal(edpk, k.EdPk()) {
			c.failf("match", "IsPKMatch is wrong for check %d", i)
		}
		if want != same || e.What != "none" {
			o.NonTrivial = true
		}
		c.shape(e.What, e.Op, got)
	}
	if s.File {
		call(func() error {
			if ok, err := k.Pk.VerifyFile(filepath.Join(scratch(), "none"), sg); err == nil {
				c.failf("missing-file", "verifying a missing file gave %v without an error", ok)
			}
			if ok, err := k.Pk.VerifyFile(scratch(), sg); err == nil && ok {
				c.failf("missing-file", "a directory verified")
			}
			return nil
		})
	}
	c.note(s)
	c.shape(lenClass(len(msg)), s.File, s.Store, s.Ref, s.Link)
	return o
}

// hugeSize is the size of a file of zeros, and hugeSum the checksum of its
// content and size.
const hugeSize = 1<<32 + 5

var hugeSum = sync.OnceValue(func() []byte {
	h := sha512.New()
	b := make([]byte, 1<<20)
	for left := int64(hugeSize); left > 0; left -= int64(len(b)) {
		h.Write(b[:min(left, int64(len(b)))])
	}
	var z [8]byte
	binary.BigEndian.PutUint64(z[:], hugeSize)
	h.Write(z[:])
	return h.Sum(nil)
})

func (c *ctx) huge(k *KP) {
	fn := filepath.Join(scratch(), "huge")
	defer os.Remove(fn)
	if err := os.WriteFile(fn, nil, 0600); err != nil || os.Truncate(fn, hugeSize) != nil {
		return // no room for it here
	}
	c.o.Evals++
	c.o.NonTrivial = true
	c.shape("huge")
	var sg *sign.Signature
	err, pi := call(func() (err error) { sg, err = k.Sk.SignFile(fn); return err })
	switch {
	case pi != nil:
		c.failf("panic", "signing a file of %d bytes: %s\n%s", hugeSize, pi.Val, pi.Stack)
	case err != nil:
		c.failf("sign-error", "can't sign a file of %d bytes: %s", hugeSize, err)
	case !ref.VerifyMessage(k.EdPk(), hugeSum(), sg.Sig):
		c.failf("bad-signature", "the signature of a file of %d bytes does not verify", hugeSize)
	}
}

func genP08(r *Rng, idx int, tier string) any {
	if tier == "thorough" && idx == 0 {
		return &p08{Huge: true, Other: 1}
	}
	s := &p08{Key: r.N(20), File: r.P(2), Link: r.P(8), Keep: r.P(3), Store: r.P(2), Ref: r.P(3), Sched: uint64(r.N(1 << 30)), RandF: r.P(10)}
	s.Other = s.Key + 1 + r.N(19)
	s.Com = r.Comment()
	if r.P(4) {
		s.Load = r.In(1, 4)
	}
	n := r.Pick(0, 1, 31, 32, 63, 64, 65, r.N(300), r.N(5000))
	if r.P(30) {
		n = r.Pick(4095, 4096, 4097, 65536, 1<<20, 1<<20+1)
	}
	s.Msg = genPT(r, n)
	for i := r.In(1, 8); i > 0; i-- {
		e := p08edit{What: r.PickS("msg", "msg", "msg", "sig", "sig", "key", "both", "none"), Pos: r.Pick(0, n, n-1, r.N(n+1), r.N(64), r.N(100000)), N: r.N(70), B: r.N(256)}
		e.Op = r.PickS("flip", "flip", "set", "del", "ins", "trunc", "ext", "swap", "zero", "empty")
		switch {
		case e.What == "sig" && r.P(6):
			e.Op = "scalar"
		case r.P(8):
			e.Op = r.PickS("ck", "sha", "hex", "raw")
		}
		s.Checks = append(s.Checks, e)
	}
	return s
}

var p08fam = &runner.Family{Name: "verdict", Weight: 1, Directed: 1, Gen: genP08, New: func() any { return &p08{} }, Exec: execP08}

func init() {
	runner.Register(&runner.Prop{
		ID:       "P08",
		Families: []*runner.Family{p08fam},
		Rule:     "verdict: a signature over a random message or file, made by the library or the reference, is checked by the library after random edits of content, signature or key; the verdict must equal 'nothing was changed' and that of the reference.",
		Real:     libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900,
	})
}

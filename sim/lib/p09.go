package lib

import (
	"bytes"
	"errors"
	"strings"

	"github.com/dchest/bcrypt_pbkdf"
	"github.com/opencoff/sigtool/sign"
	"golang.org/x/crypto/scrypt"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P09: private keys at rest.

type p09edit struct {
	Op  string `json:"op"` // flip, set, del, ins, trunc, line, dup, field
	Pos int    `json:"pos"`
	N   int    `json:"n"`
	B   int    `json:"b"`
}

type p09 struct {
	Key   int               `json:"key"`
	New   bool              `json:"new,omitempty"` // a newly generated key
	Form  string            `json:"form"`          // lib, ref, ssh-none, ssh-ctr, ssh-cbc
	PW    string            `json:"pw"`
	PWX   []byte            `json:"pwx,omitempty"`  // more of it, bytes that are no text
	NoPW  bool              `json:"nopw,omitempty"` // no passphrase function at all when loading
	Wrong []string          `json:"wrong"`
	Com   string            `json:"com"`
	N     int               `json:"n"`
	R     int               `json:"r"`
	P     int               `json:"p"`
	Edits [][]p09edit       `json:"edits"`
	Real  bool              `json:"real,omitempty"` // the real scrypt
	Sched uint64            `json:"sched"`
	RandF *kernel.RandFault `json:"randf,omitempty"`
}

func mutate(b []byte, es []p09edit) []byte {
	for _, e := range es {
		p := mod(e.Pos, len(b)+1)
		switch e.Op {
		case "flip", "set", "del", "ins", "trunc":
			b = edit(b, p08edit{Op: e.Op, Pos: e.Pos, N: e.N, B: e.B}, nil)
		case "line": // drop a line
			l := bytes.SplitAfter(b, []byte("\n"))
			i := mod(e.Pos, len(l))
			b = bytes.Join(append(append([][]byte{}, l[:i]...), l[i+1:]...), nil)
		case "dup": // repeat a line
			l := bytes.SplitAfter(b, []byte("\n"))
			i, j := mod(e.Pos, len(l)), mod(e.N, len(l))
			l = append(l[:j:j], append([][]byte{l[i]}, l[j:]...)...)
			b = bytes.Join(l, nil)
		case "num": // change a digit of a number in the file
			var at []int
			for i := 1; i < len(b); i++ {
				if b[i] >= '0' && b[i] <= '9' && (b[i-1] == ' ' || (b[i-1] >= '0' && b[i-1] <= '9')) {
					at = append(at, i)
				}
			}
			if len(at) > 0 {
				b = append([]byte{}, b...)
				b[at[mod(e.Pos, len(at))]] = '0' + byte(mod(e.B, 10))
			}
		case "zeros": // a lost sector
			b = append([]byte{}, b...)
			for i := p; i < len(b) && i < p+mod(e.N, 512)+1; i++ {
				b[i] = 0
			}
		case "b64": // another letter
			b = append([]byte{}, b...)
			if len(b) > 0 {
				b[mod(e.Pos, len(b))] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="[mod(e.B, 65)]
			}
		}
	}
	return b
}

func (s *p09) pw() []byte { return append([]byte(s.PW), s.PWX...) }

func execP09(sc any, x *Exec) *Outcome {
	s := sc.(*p09)
	c := newCtx(s.Sched, 100000, x)
	o := c.o
	if len(s.Edits) > 200 || len(s.PW)+len(s.PWX) > 4096 {
		return o
	}
	if s.Real {
		scrypt.SimCheap, bcrypt_pbkdf.SimCheap = false, false
		defer func() { scrypt.SimCheap, bcrypt_pbkdf.SimCheap = true, true }()
	}
	pass := string(s.pw())
	k := c.key(s.Key)
	if s.New {
		c.ent.Default.Keep = true
		sk, err := sign.NewPrivateKey()
		if err != nil {
			c.failf("generate", "%s", err)
			return o
		}
		k = &KP{Sk: sk, Pk: sk.PublicKey(), Ed: append([]byte{}, sk.Sk...)}
		if len(k.Ed) != 64 || !bytes.Equal(k.Ed[32:], k.Pk.Pk) {
			c.failf("generate", "the halves of a new key differ")
			return o
		}
	}
	var b []byte
	r := kernel.NewRng(kernel.Mix(s.Sched, 77))
	ssh := strings.HasPrefix(s.Form, "ssh-")
	switch s.Form {
	case "ref":
		if mod(s.N, 12) == 0 || s.R < 1 || s.R > 16 || s.P < 1 || s.P > 4 {
			return o
		}
		b = ref.KeyFile(k.Ed, s.pw(), r.Bytes(32), 1<<mod(s.N, 12), s.R, s.P, s.Com)
	case "ssh-none", "ssh-ctr", "ssh-cbc":
		if ssh && s.Form != "ssh-none" && pass == "" {
			return o
		}
		b = ref.SSHKeyFile(k.Ed, &ref.SSHOpts{Cipher: map[string]string{"none": "none", "ctr": "aes256-ctr", "cbc": "aes256-cbc"}[s.Form[4:]],
			PW: s.pw(), Salt: r.Bytes(16), Rounds: uint32(1 + r.N(8)), Check: uint32(r.U64()), Comment: s.Com})
	default:
		c.ent.Default.F = s.RandF
		if s.RandF != nil {
			s.RandF.Call += c.ent.Default.Calls
		}
		var out1 int
		c.ent.Default.Keep = true
		out1 = len(c.ent.Default.Out)
		err, pi := call(func() (err error) { b, err = k.Sk.MarshalBinary(s.Com, s.pw()); return })
		fired := c.ent.Default.Fired
		c.ent.Default.F = nil
		if fired {
			o.NonTrivial = true
			if err == nil {
				c.failf("entropy", "a key was stored although the random source failed")
			}
			return o
		}
		if err != nil {
			if pi != nil {
				err = errors.New(pi.Val + pi.Stack)
			}
			c.failf("store", "can't store a key: %s", err)
			return o
		}
		ed, _, par, err := ref.OpenKeyFile(b, s.pw())
		if err != nil || !bytes.Equal(ed, k.Ed) {
			c.failf("stored-form", "the stored form is not the documented encryption of the key: %v", err)
			return o
		}
		if par.N != ref.ScryptN || par.R != ref.ScryptR || par.P != ref.ScryptP {
			c.failf("work-factor", "stored with scrypt parameters N=%d r=%d p=%d", par.N, par.R, par.P)
		}
		if len(par.Salt) != 32 {
			c.failf("salt", "the salt has %d bytes", len(par.Salt))
		}
		if !bytes.Contains(c.ent.Default.Out[out1:], par.Salt) {
			c.failf("salt", "the salt is not fresh from the random source")
		}
		if m := leaks(b, k.Ed[:32]); m != "" {
			c.failf("leak", "the stored form contains the secret (%s)", m)
		}
		if len(pass) >= 8 {
			if m := leaks(b, s.pw()); m != "" {
				c.failf("leak", "the stored form contains the passphrase (%s)", m)
			}
		}
		// once more: another salt
		b2, err := k.Sk.MarshalBinary(s.Com, s.pw())
		if err == nil {
			if p2, err := ref.ParseKeyFile(b2); err != nil || bytes.Equal(p2.Salt, par.Salt) || bytes.Equal(p2.Esk, par.Esk) {
				c.failf("salt", "storing a key twice used the same salt")
			}
		}
	}
	load := func(b []byte, pw func() ([]byte, error)) (*sign.PrivateKey, error) {
		var k2 *sign.PrivateKey
		err, pi := call(func() (err error) { k2, err = sign.MakePrivateKey(b, pw); return })
		if pi != nil {
			c.failf("panic", "loading: %s\n%s", pi.Val, pi.Stack)
		}
		return k2, err
	}
	is := func(k2 *sign.PrivateKey) string {
		if k2 == nil {
			return "no key and no error"
		}
		if !bytes.Equal(k2.Sk, k.Ed) {
			return "another secret"
		}
		pk := k2.PublicKey()
		if pk == nil || !bytes.Equal(pk.Pk, k.Ed[32:]) {
			return "another public half"
		}
		if !bytes.Equal(pk.Hash(), ref.PkHash(k.Ed[32:])) {
			return "another hash"
		}
		sg, err := k2.SignMessage([]byte("probe"), "")
		if err != nil || !ref.VerifyMessage(k.EdPk(), []byte("probe"), sg.Sig) {
			return "a key that can't sign"
		}
		return ""
	}
	getpw := func(p []byte) func() ([]byte, error) {
		return func() ([]byte, error) { return append([]byte{}, p...), nil }
	}
	o.Evals++
	g := getpw(s.pw())
	if pass == "" && s.NoPW {
		g = nil
	}
	k2, err := load(b, g)
	if err != nil {
		c.failf("load", "%s: the right passphrase (%d bytes) fails: %s", s.Form, len(pass), err)
		return o
	}
	if m := is(k2); m != "" {
		c.failf("load", "%s: loading gave %s", s.Form, m)
	}
	if s.Form != "ssh-none" {
		for _, w := range append([]string{pass + "x", pass + "\n", " " + pass, strings.ToUpper(pass), strings.ToLower(pass), pass[:len(pass)/2], pass + "\x00", ""}, s.Wrong...) {
			if w == pass {
				continue
			}
			if s.Real && o.Evals > 2 {
				break
			}
			o.Evals++
			g := getpw([]byte(w))
			if k3, err := load(b, g); err == nil {
				c.failf("wrong-passphrase", "%s: passphrase %q opens a key stored with %q (%s)", s.Form, w, pass, is(k3))
			}
		}
		if pass != "" {
			if _, err := load(b, nil); err == nil {
				c.failf("wrong-passphrase", "%s: no passphrase opens a key stored with %q", s.Form, pass)
			}
		}
		asked := false
		if _, err := load(b, func() ([]byte, error) { asked = true; return nil, errors.New("the user gave up") }); err == nil && asked {
			c.failf("wrong-passphrase", "%s: the key opens although asking for the passphrase failed", s.Form)
		}
	}
	for i, e := range s.Edits {
		if s.Real {
			break
		}
		bb := mutate(b, e)
		o.Evals++
		if !bytes.Equal(bb, b) {
			o.NonTrivial = true
		}
		if k3, err := load(bb, getpw(s.pw())); err == nil {
			if m := is(k3); m != "" {
				c.failf("corrupt", "%s: a corrupted file (edit %d: %+v) loads as %s", s.Form, i, e, m)
			}
			c.shape(e[0].Op, "same")
		} else {
			c.shape(e[0].Op)
		}
	}
	if s.New || len(s.Wrong) > 0 {
		o.NonTrivial = true
	}
	c.note(s)
	c.shape(s.Form, len(pass), s.New, len(s.Edits), s.Com)
	return o
}

func genP09(r *Rng, idx int, tier string) any {
	s := &p09{Key: r.N(20), New: r.P(3), Sched: uint64(r.N(1 << 30)), NoPW: r.P(2), N: r.In(1, 11), R: r.In(1, 9), P: r.In(1, 3)}
	s.Form = r.PickS("lib", "lib", "lib", "ref", "ref", "ssh-none", "ssh-ctr", "ssh-cbc")
	s.PW = r.PickS("", "a", "password", "Correct Horse Battery Staple", "pässwörd", strings.Repeat("long", 40), "nul\x00inside", " lead", "trail ", "p\n", string(r.Bytes(r.In(1, 70))))
	s.Com = r.Comment()
	if idx == 0 {
		s.Real, s.Form = true, "lib"
	}
	if idx == 1 {
		s.Real, s.Form, s.PW = true, "ref", "pw"
		s.Com = "x"
	}
	if idx > 1 && r.P(6) {
		s.PWX = r.Bytes(r.In(1, 40))
	}
	for i := r.N(4); i > 0; i-- {
		s.Wrong = append(s.Wrong, r.PickS("Password", "passwort", string(r.Bytes(r.In(1, 20))), strings.Repeat("long", 41), "nul"))
	}
	if s.Form == "lib" && r.P(8) {
		s.RandF = &kernel.RandFault{Call: r.N(2), Kind: r.PickS("err", "eof", "part"), Once: r.P(2)}
	}
	ne := r.N(12)
	for i := 0; i < ne; i++ {
		var v []p09edit
		for j := 1 + r.N(2)*r.N(3); j > 0; j-- {
			v = append(v, p09edit{Op: r.PickS("flip", "flip", "flip", "b64", "b64", "b64", "set", "del", "ins", "trunc", "line", "dup", "num", "zeros"), Pos: r.N(1000), N: r.N(600), B: r.N(256)})
		}
		s.Edits = append(s.Edits, v)
	}
	return s
}

// leaks looks for a secret in data: raw, hex, base64 at each alignment, reversed.
func leaks(data, sec []byte) string {
	return kernel.Leaks(data, sec)
}

func init() {
	runner.Register(&runner.Prop{
		ID:       "P09",
		Families: []*runner.Family{{Name: "at-rest", Weight: 1, Directed: 2, Gen: genP09, New: func() any { return &p09{} }, Exec: execP09}},
		Rule:     "at-rest: a random (or newly generated) key is stored by the library or by an independent writer (own format, OpenSSH plain/aes256-ctr/aes256-cbc) under a random passphrase, loaded with the right and with wrong passphrases, and loaded again after random damage to the stored bytes (bit flips, replaced letters, lost/repeated lines, zeroed ranges, truncation). Non-trivial: damage, a new key, a wrong passphrase or a random-source failure was part of the run.",
		Real:     append(append([]string{}, libReal...), "memory-hard part of scrypt: real in the two directed runs"), Stub: append(append([]string{}, libStub...), "scrypt is replaced by a cheap function of the same inputs (x/crypto overlay) in all but the directed runs"),
		Level: "exploration", Quick: 40, Thorough: 900,
	})
}

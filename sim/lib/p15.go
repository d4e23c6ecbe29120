package lib

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P15: hostile bytes for everything that reads files.

// Crafted describes an encrypted file made by somebody who knows the recipient's
// public key and wants to harm the reader.
type Crafted struct {
	Chunk   uint32 `json:"chunk"`
	SaltLen int    `json:"saltlen"`
	PkLen   int    `json:"pklen"`
	PkKind  int    `json:"pkkind,omitempty"` // 1: zeros, 2: one, 3: random, 4: p
	SendLen int    `json:"sendlen"`          // -1: genuine
	KeyLen  int    `json:"keylen"`           // of the file key that is wrapped
	NLen    int    `json:"nlen"`
	DKLen   int    `json:"dklen"` // -1: genuine
	NKeys   int    `json:"nkeys"`
	Pad     int    `json:"pad,omitempty"` // bytes in an unknown field
	VarLen  int    `json:"varlen"`        // -1: true length
	Ver     int    `json:"ver"`
	PT      int    `json:"pt"`
	Frames  []int  `json:"frames,omitempty"` // raw frame words after the body
	NoTrail bool   `json:"notrail,omitempty"`
}

type p15 struct {
	Base  string    `json:"base"`
	Sub   int       `json:"sub"`
	Forge *Crafted  `json:"forge,omitempty"`
	Pre   []p09edit `json:"pre,omitempty"` // edits of the binary inside (SSH blob)
	Edits []p09edit `json:"edits,omitempty"`
	Muts  []Mut     `json:"muts,omitempty"`
	Tail  string    `json:"tail,omitempty"` // endless input: zero, rand, rep
	As    []string  `json:"as"`
	Sched uint64    `json:"sched"`
	Text  string    `json:"text,omitempty"`  // the bytes themselves
	Field int       `json:"field,omitempty"` // 1 + which field has another size, consistently
	Delta int       `json:"delta,omitempty"` // by how much
}

// endless is data followed by bytes without end.
type endless struct {
	data []byte
	off  int
	kind string
	rng  *kernel.Rng
	max  int
	rep  []byte
}

func (e *endless) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if e.off < len(e.data) {
		n := copy(b, e.data[e.off:])
		e.off += n
		return n, nil
	}
	if e.kind == "" {
		return 0, io.EOF
	}
	if e.off > e.max {
		return 0, errBound
	}
	switch e.kind {
	case "zero":
		clear(b)
	case "ff":
		for i := range b {
			b[i] = 0xff
		}
	case "rep":
		for i := range b {
			b[i] = e.rep[(e.off+i)%len(e.rep)]
		}
	default:
		e.rng.Fill(b)
	}
	e.off += len(b)
	return len(b), nil
}

var errBound = fmt.Errorf("simulated endless input: limit reached")

func (f *Crafted) build(c *ctx, r *kernel.Rng) []byte {
	lim := func(n, m int) int {
		if n < 0 {
			return 0
		}
		return min(n, m)
	}
	pk := c.key(2)
	esk := ref.Clamp(r.Bytes(32))
	h := &ref.Header{ChunkSize: f.Chunk, Salt: r.Bytes(lim(f.SaltLen, 4096)), Pk: ref.X25519Base(esk)}
	key := r.Bytes(lim(f.KeyLen, 4096))
	switch f.PkKind {
	case 1:
		h.Pk = make([]byte, 32)
	case 2:
		h.Pk = append([]byte{1}, make([]byte, 31)...)
	case 3:
		h.Pk = r.Bytes(32)
	case 4:
		h.Pk = bytes.Repeat([]byte{0xff}, 32)
	}
	for len(h.Pk) < lim(f.PkLen, 4096) {
		h.Pk = append(h.Pk, 7)
	}
	h.Pk = h.Pk[:lim(f.PkLen, 4096)]
	for i := 0; i < lim(f.NKeys, 3000); i++ {
		w, err := ref.Wrap(esk, h.Salt, key, r.Bytes(lim(f.NLen, 4096)), pk.EdPk())
		if err != nil {
			continue
		}
		if f.DKLen >= 0 {
			w.DKey = append(w.DKey, make([]byte, 4096)...)[:lim(f.DKLen, 4096)]
		}
		h.Keys = append(h.Keys, w)
		if i == 0 && f.NKeys > 3 {
			// the rest doesn't open
			for j := 1; j < f.NKeys && j < 5000; j++ {
				h.Keys = append(h.Keys, ref.WKey{DKey: r.Bytes(48), Nonce: r.Bytes(12)})
			}
			break
		}
	}
	k := key
	if len(k) != 32 {
		k = append(append([]byte{}, key...), make([]byte, 32)...)[:32]
	}
	salt := h.Salt
	h.Sender = ref.SealSender(k, salt, make([]byte, 64))
	if f.SendLen >= 0 {
		h.Sender = append(h.Sender, make([]byte, 4096)...)[:lim(f.SendLen, 4096)]
	}
	v := h.Encode()
	if f.Pad > 0 {
		p := lim(f.Pad, 1<<22)
		v = append(v, 0x7a) // field 15, bytes
		v = binary.AppendUvarint(v, uint64(p))
		v = append(v, make([]byte, p)...)
	}
	ver := byte(f.Ver)
	out := ref.Head(ver, v)
	if f.VarLen >= 0 {
		binary.BigEndian.PutUint32(out[8:], uint32(f.VarLen))
	}
	s := ref.Derive(key, ref.HdrSum(ver, v))
	pt := r.Bytes(lim(f.PT, 100000))
	n := uint32(0)
	for i, w := range f.Frames {
		m := uint32(w) & 0x7fffffff
		if m <= 1<<16 && w >= 0 && i < 40 {
			out = append(out, s.SealFrame(n, make([]byte, m), uint32(w)>>31 != 0 || w&(1<<31) != 0).Bytes()...)
			n++
		} else {
			out = binary.BigEndian.AppendUint32(out, uint32(w))
		}
	}
	out = append(out, s.SealFrame(n, pt, true).Bytes()...)
	if !f.NoTrail {
		out = append(out, r.Bytes(64)...)
	}
	return out
}

var p15bases = []string{"sk", "ssh", "sshenc", "sshblob", "pk", "sshpub", "auth", "sig", "enc", "enc", "forge", "forge", "yaml", "noise"}

func (s *p15) base(c *ctx, r *kernel.Rng) []byte {
	k := c.key(2)
	switch s.Base {
	case "sk":
		ed := append([]byte{}, k.Ed...)
		if mod(s.Field, 8) == 7 {
			ed = s.resize(ed) // sealed properly, but no key
		}
		return s.resizeB64(ref.KeyFile(ed, []byte("pw"), r.Bytes(32), 16, 8, 1, "c"))
	case "ssh":
		return ref.SSHKeyFile(k.Ed, &ref.SSHOpts{Cipher: "none", Check: 9, Comment: "c"})
	case "sshenc":
		return ref.SSHKeyFile(k.Ed, &ref.SSHOpts{Cipher: []string{"aes256-ctr", "aes256-cbc"}[s.Sub&1], PW: []byte("pw"), Salt: r.Bytes(16), Rounds: 2, Check: 9})
	case "sshblob":
		o := &ref.SSHOpts{Cipher: []string{"none", "aes256-ctr", "aes256-cbc"}[mod(s.Sub, 3)], PW: []byte("pw"), Salt: r.Bytes(mod(s.Sub, 20)), Rounds: uint32(mod(s.Sub, 5)), Check: 9}
		if o.Cipher != "none" && (len(o.Salt) == 0 || o.Rounds == 0) {
			o.Salt, o.Rounds = []byte("0123456789abcdef"), 1
		}
		if s.Field > 0 {
			o.Resize = func(f int, b []byte) []byte {
				if f == mod(s.Field-1, ref.SSHFields) {
					b = s.resize(b)
				}
				return b
			}
		}
		b := mutate(ref.SSHBlob(k.Ed, o), s.Pre)
		typ := "OPENSSH PRIVATE KEY"
		if s.Sub%37 == 5 {
			typ = "X OPENSSH PRIVATE KEY"
		}
		return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b})
	case "pk":
		return s.resizeB64(ref.PubFile(k.EdPk(), "c"))
	case "sshpub", "auth":
		blob, _ := base64.StdEncoding.DecodeString(strings.Fields(ref.SSHPub(k.EdPk(), "x"))[1])
		if s.Sub&1 == 1 {
			blob, _ = base64.StdEncoding.DecodeString(strings.Fields(ref.SSHPubRSA([]byte("seed"), "x"))[1])
		}
		if s.Field > 0 {
			blob = s.resizeWire(blob)
		}
		typ := []string{"ssh-ed25519", "ssh-rsa", "ecdsa-sha2-nistp256", "sk-ssh-ed25519@openssh.com", "ssh-dss"}[mod(s.Sub/2, 5)]
		line := typ + " " + base64.StdEncoding.EncodeToString(mutate(blob, s.Pre)) + " user@host\n"
		if s.Base == "sshpub" {
			return []byte(line)
		}
		return []byte("# comment\n\nno-pty,command=\"x y\" " + line + line + ref.SSHPub(c.key(1).EdPk(), "a@b") + "\n" + ref.SSHPubRSA([]byte("z"), "r@s") + "\n" + strings.Repeat("x", mod(s.Sub, 70000)))
	case "sig":
		return s.resizeB64(ref.SigFile(ref.SignMessage(k.Ed, []byte("m")), k.EdPk(), "c"))
	case "forge":
		if s.Forge != nil {
			return s.Forge.build(c, r)
		}
	case "enc":
		var raws [][]byte
		for i := 0; i < 3; i++ {
			e := &Enc{Chunk: []uint64{16, 100, 1000}[mod(s.Sub+i, 3)], Sender: []int{-1, 51}[mod(s.Sub, 2)], Recips: []int{2, 3}, PT: PT{Len: mod(s.Sub*37, 500), Seed: 4}, Rand: uint64(i)}
			b, _, err := c.produce(e)
			if err != nil {
				return nil
			}
			raws = append(raws, b)
		}
		a, err := newAttacked(raws)
		if err != nil {
			return raws[0]
		}
		for _, m := range s.Muts {
			a.apply(m)
		}
		return a.bytes()
	case "noise":
		return r.Bytes(mod(s.Sub, 3000))
	}
	return []byte(s.Text)
}

// bigMemory lets only one worker at a time do runs that need gigabytes.
func bigMemory() func() {
	d := os.Getenv("SIM_TMP")
	if d == "" {
		d = scratch()
	}
	f, err := os.OpenFile(filepath.Join(d, "big"), os.O_CREATE|os.O_RDWR, 0600)
	if err != nil {
		return func() {}
	}
	syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
	return func() { debug.FreeOSMemory(); f.Close() }
}

// resize gives a field another size.
func (s *p15) resize(b []byte) []byte {
	b = append([]byte{}, b...)
	d := s.Delta
	switch {
	case d < 0 && -d >= len(b):
		return nil
	case d < 0:
		return b[:len(b)+d]
	}
	return append(b, make([]byte, min(d, 1<<16))...)
}

var b64Line = regexp.MustCompile(`(?m)^[ \t]*[a-z]+:[ \t]*([A-Za-z0-9+/]{8,}=*)$`)

// resizeB64 resizes one of the fields of a YAML file.
func (s *p15) resizeB64(b []byte) []byte {
	v := b64Line.FindAllSubmatchIndex(b, -1)
	if s.Field == 0 || len(v) == 0 {
		return b
	}
	m := v[mod(s.Field-1, len(v))]
	x, err := base64.StdEncoding.DecodeString(string(b[m[2]:m[3]]))
	if err != nil {
		return b
	}
	out := append([]byte{}, b[:m[2]]...)
	out = append(out, base64.StdEncoding.EncodeToString(s.resize(x))...)
	return append(out, b[m[3]:]...)
}

// resizeWire resizes one of the strings an SSH public key is made of.
func (s *p15) resizeWire(b []byte) []byte {
	var v [][]byte
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if n > len(b)-4 {
			break
		}
		v = append(v, b[4:4+n])
		b = b[4+n:]
	}
	var out []byte
	for i, x := range v {
		if i == mod(s.Field-1, len(v)) {
			x = s.resize(x)
		}
		out = binary.BigEndian.AppendUint32(out, uint32(len(x)))
		out = append(out, x...)
	}
	return out
}

func execP15(sc any, x *Exec) *Outcome {
	s := sc.(*p15)
	c := newCtx(s.Sched, 100000, x)
	o := c.o
	r := kernel.NewRng(kernel.Mix(s.Sched, 15))
	b := s.base(c, r)
	b = mutate(b, s.Edits)
	c.w.HashBytes(b)
	if len(b) > 1<<24 {
		return o
	}
	getpw := func() ([]byte, error) { return []byte("pw"), nil }
	put := func() string {
		fn := filepath.Join(scratch(), "p15")
		if err := os.WriteFile(fn, b, 0600); err != nil {
			panic("HARNESS: " + err.Error())
		}
		return fn
	}
	useSk := func(k *sign.PrivateKey) error {
		if k == nil {
			return fmt.Errorf("no key, no error")
		}
		sg, err := k.SignMessage([]byte("m"), "")
		if err != nil {
			return nil
		}
		k.PublicKey().VerifyMessage([]byte("m"), sg)
		k.ToCurve25519SK()
		k.PublicKey().ToCurve25519PK()
		return nil
	}
	usePk := func(k *sign.PublicKey) error {
		if k == nil {
			return fmt.Errorf("no key, no error")
		}
		sg := &sign.Signature{}
		sg.UnmarshalBinary(ref.SigFile(ref.SignMessage(edKey(2), []byte("m")), edKey(2)[32:], ""))
		k.VerifyMessage([]byte("m"), sg)
		sg.IsPKMatch(k)
		k.Hash()
		k.MarshalBinary("c")
		k.ToCurve25519PK()
		en, err := sign.NewEncryptor(nil, 64)
		if err != nil {
			return nil
		}
		if err := en.AddRecipient(k); err != nil {
			return nil
		}
		en.Encrypt(bytes.NewReader([]byte("x")), &kernel.Sink{})
		return nil
	}
	var chunk uint64 // largest chunk size the (possibly forged) header declares
	if f, err := ref.Parse(b); err == nil && f.Hdr != nil {
		chunk = uint64(f.Hdr.ChunkSize)
	} else if s.Forge != nil {
		chunk = uint64(s.Forge.Chunk)
	}
	if chunk > 1<<30 {
		chunk = 1 << 30
	}
	if chunk > 1<<25 {
		defer bigMemory()()
	}
	for _, as := range s.As {
		o.Evals++
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		used := 0
		nul := ""
		var pan *kernel.PanicInfo
		err, pi := call(func() error {
			switch as {
			case "sk":
				k, err := sign.MakePrivateKey(b, getpw)
				if err != nil {
					_, err = sign.MakePrivateKey(b, nil)
					return err
				}
				return useSk(k)
			case "skfile":
				k, err := sign.ReadPrivateKey(put(), getpw)
				if err != nil {
					return err
				}
				return useSk(k)
			case "pk":
				k, err := sign.MakePublicKey(b)
				if err != nil {
					return err
				}
				return usePk(k)
			case "pkfile":
				k, err := sign.ReadPublicKey(put())
				if err != nil {
					return err
				}
				return usePk(k)
			case "pkstr":
				k, err := sign.MakePublicKeyFromString(string(b))
				if err != nil {
					return err
				}
				return usePk(k)
			case "auth":
				v, err := sign.ParseAuthorizedKeys(b)
				if err != nil {
					return err
				}
				for _, k := range v {
					if err := usePk(k); err != nil {
						nul = "a nil key in the list"
					}
				}
				return nil
			case "sig":
				sg := &sign.Signature{}
				if err := sg.UnmarshalBinary(b); err != nil {
					return err
				}
				c.key(2).Pk.VerifyMessage([]byte("m"), sg)
				sg.IsPKMatch(c.key(2).Pk)
				_, err := sg.MarshalBinary("c")
				return err
			case "sigfile":
				sg, err := sign.ReadSignature(put())
				if err != nil {
					return err
				}
				c.key(2).Pk.VerifyFile(filepath.Join(scratch(), "f1"), sg)
				return nil
			case "dec", "decs", "deca":
				e := &endless{data: b, kind: s.Tail, rng: kernel.NewRng(s.Sched), max: len(b) + int(chunk) + 3<<20, rep: b}
				if len(b) == 0 {
					e.rep = []byte{0}
				}
				defer func() { used = e.off - len(b) }()
				d := &Dec{Key: 2, Sender: -1, Stream: as == "decs", Rd: kernel.Frag{Mode: 5, Size: 4000}}
				if as == "deca" {
					d.Sender = 51
				}
				res := c.decrypt(d, e, io.Discard)
				if res.Pan != nil {
					pan = res.Pan
				}
				if res.Err == errBound {
					used = 1 << 40
				}
				return res.Err
			}
			return nil
		})
		runtime.ReadMemStats(&m1)
		if pi == nil {
			pi = pan
		}
		if pi != nil {
			c.failf("crash", "%s of %s input crashes: %s\n%s", as, s.Base, pi.Val, pi.Stack)
		}
		if nul != "" || (err != nil && strings.Contains(err.Error(), "no key, no error")) {
			c.failf("nil", "%s: %s %v", as, nul, err)
		}
		if err == nil && used > 64 {
			c.failf("consumes", "%s succeeded and consumed %d bytes that follow the file", as, used)
		}
		if used > int(chunk)+2<<20 {
			c.failf("consumes", "%s consumed %d bytes past the file (largest declared chunk: %d)", as, used, chunk)
		}
		if m1.TotalAlloc-m0.TotalAlloc > 64<<20 {
			debug.FreeOSMemory()
		}
		if n := m1.TotalAlloc - m0.TotalAlloc; n > 3*chunk+uint64(len(b))*400+400<<20 {
			c.failf("memory", "%s of a file of %d bytes allocated %d bytes (chunk size %d)", as, len(b), n, chunk)
		}
		if err == nil && s.Base == "noise" {
			c.failf("accepts-noise", "%s accepted random bytes", as)
		}
		o.NonTrivial = true
		c.shape(s.Base, as, err == nil)
	}
	c.note(s)
	return o
}

func weirdYaml(r *Rng) string {
	var sb strings.Builder
	val := func() string {
		switch r.N(18) {
		case 0:
			return ""
		case 1:
			return "[1, 2, 3]"
		case 2:
			return "{a: b}"
		case 3:
			return fmt.Sprint(r.Pick(-1, 0, 1, 2, 3, 16, 1<<30, 1<<31, 1<<31-1, 1<<32, 1<<62, 524288))
		case 4:
			return "99999999999999999999999999"
		case 5:
			return "!!binary " + base64.StdEncoding.EncodeToString(r.Bytes(r.N(40)))
		case 6:
			return "*x"
		case 7:
			return "&x " + base64.StdEncoding.EncodeToString(r.Bytes(32))
		case 8:
			return "|\n  " + base64.StdEncoding.EncodeToString(r.Bytes(32))
		case 9:
			return "1e400"
		case 10:
			return "~"
		case 11:
			return strings.Repeat("[", r.In(1, 3000))
		case 12:
			return "not base64!"
		}
		return base64.StdEncoding.EncodeToString(r.Bytes(r.Pick(0, 1, 11, 12, 15, 16, 31, 32, 33, 48, 64, 79, 80, 81, 100)))
	}
	keys := []string{"esk", "salt", "algo", "Z", "r", "p", "pk", "hash", "pkhash", "signature", "comment", "<<"}
	for i := r.In(1, 12); i > 0; i-- {
		k := keys[r.N(len(keys))]
		if r.P(3) && i <= len(keys) {
			k = keys[i-1]
		}
		v := val()
		if (k == "Z" || k == "r" || k == "p") && !r.P(4) {
			v = fmt.Sprint(r.Pick(-1, 0, 1, 2, 8, 16, 1<<10, 1<<20, 1<<24, 1<<25, 1<<30, 1<<40, 1<<62, 65536, 32768))
		}
		sb.WriteString(k + ": " + v + "\n")
	}
	if r.P(20) {
		s := "a: &a [x,x,x,x,x,x,x,x,x]\n"
		for i := 'b'; i < 'j'; i++ {
			s += fmt.Sprintf("%c: &%c [*%c,*%c,*%c,*%c,*%c,*%c,*%c,*%c]\n", i, i, i-1, i-1, i-1, i-1, i-1, i-1, i-1, i-1)
		}
		return s + sb.String()
	}
	return sb.String()
}

func genForge(r *Rng) *Crafted {
	f := &Crafted{Chunk: 64, SaltLen: 32, PkLen: 32, SendLen: -1, KeyLen: 32, NLen: 12, DKLen: -1, NKeys: 1, VarLen: -1, Ver: 3, PT: r.N(64)}
	sizes := func() int { return r.Pick(0, 1, 4, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 48, 64, 80, 100, 4000) }
	for i := r.In(1, 2); i > 0; i-- {
		switch r.N(15) {
		case 0:
			f.Chunk = uint32(r.Pick(0, 1, 63, 1<<20, 1<<24, 1<<31, 1<<31-1, 1<<32-1, 1<<30+1))
			if r.P(12) {
				f.Chunk = 1 << 30
			}
		case 1:
			f.SaltLen = sizes()
		case 2:
			f.PkLen = sizes()
		case 3:
			f.PkKind = r.In(1, 4)
		case 4:
			f.SendLen = sizes()
		case 5, 6:
			f.KeyLen = sizes()
		case 7:
			f.NLen = sizes()
		case 8:
			f.DKLen = sizes()
		case 9:
			f.NKeys = r.Pick(0, 2, 3, 100, 3000)
		case 10:
			f.Pad = r.Pick(1, 100, 70000, 1<<20-500, 1<<20, 1<<21)
		case 11:
			f.VarLen = r.Pick(0, 1, 10, 100, 1<<20, 1<<20+1, 1<<24, 1<<30, 1<<31, 1<<32-1)
		case 12:
			f.Ver = r.N(256)
		case 13:
			f.NoTrail = true
		default:
			for j := r.In(1, 3); j > 0; j-- {
				f.Frames = append(f.Frames, r.Pick(0, 1, 64, 65, 1<<31, 1<<31+64, 1<<32-1, 1<<30, 1<<31-1, -1))
			}
		}
	}
	return f
}

func genP15(r *Rng, idx int, tier string) any {
	s := &p15{Base: p15bases[r.N(len(p15bases))], Sub: r.N(100000), Sched: uint64(r.N(1 << 30))}
	ed := func() p09edit {
		return p09edit{Op: r.PickS("flip", "flip", "b64", "set", "set", "del", "ins", "trunc", "line", "dup", "num", "zeros"), Pos: r.N(r.Pick(16, 100, 700)), N: r.N(600), B: r.Pick(0, 1, 0x7f, 0x80, 0xff, '\n', ':', '-', ' ', r.N(256))}
	}
	switch s.Base {
	case "sk", "ssh", "sshenc":
		s.As = []string{"sk", "skfile"}
	case "sshblob":
		s.As = []string{"sk"}
	case "pk":
		s.As = []string{"pk", "pkfile"}
	case "sshpub":
		s.As = []string{"pk", "pkstr", "auth"}
	case "auth":
		s.As = []string{"auth"}
	case "sig":
		s.As = []string{"sig", "sigfile"}
	case "enc", "forge":
		s.As = []string{"dec", "decs", "deca"}
		if r.P(2) {
			s.Tail = r.PickS("zero", "rand", "rep", "ff")
		}
	case "yaml":
		s.As = []string{"sk", "pk", "sig", "auth"}
		s.Text = weirdYaml(r)
	case "noise":
		s.As = []string{"sk", "pk", "pkstr", "dec", "decs"}
		s.Sub = r.N(200)
	}
	if r.P(12) && s.Base != "noise" {
		s.As = []string{"sk", "pk", "pkstr", "auth", "sig", "dec", "decs"}
	}
	for i := r.N(3); i >= 0 && (s.Base == "sshblob" || s.Base == "sshpub" || s.Base == "auth"); i-- {
		s.Pre = append(s.Pre, ed())
	}
	if s.Base == "sk" || s.Base == "sshblob" || s.Base == "pk" || s.Base == "sshpub" || s.Base == "auth" || s.Base == "sig" {
		if r.P(2) {
			s.Field, s.Delta = 1+r.N(24), r.Pick(-1, 1, -100, 100, r.In(-70, 70), r.In(-33, -1), r.In(-33, -1), r.In(-33, -1), r.In(-16, -1))
			s.Pre = nil
			if r.P(2) {
				return s
			}
		}
	}
	if s.Base == "enc" {
		for i := r.In(1, 3); i > 0; i-- {
			s.Muts = append(s.Muts, genMut(r))
		}
	}
	if s.Base == "forge" {
		s.Forge = genForge(r)
	}
	if s.Base != "forge" && s.Base != "yaml" || r.P(6) {
		for i := r.N(4); i > 0; i-- {
			s.Edits = append(s.Edits, ed())
		}
	}
	return s
}

var p15fam = &runner.Family{Name: "hostile", Weight: 1, Gen: genP15, New: func() any { return &p15{} }, Exec: execP15}

func init() {
	runner.Register(&runner.Prop{
		ID:       "P15",
		Families: []*runner.Family{p15fam},
		Rule:     "hostile: damaged, truncated, spliced, swapped and crafted private keys, OpenSSH keys, public keys, authorized_keys, signatures and encrypted files (including files forged by someone who knows the recipient's public key, and inputs that never end) are fed to every loading and decrypting call; a crash, a run that does not end, input consumed or memory allocated beyond the declared limits is a violation.",
		Real:     libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900, Limit: 60,
	})
}

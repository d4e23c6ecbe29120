package lib

import (
	"bytes"
	"crypto/ed25519"
	"fmt"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P19: the encryption keys derived from the two halves of a signing key match.

// rareSeeds are those of the first 24 million seeds with 3, and of the first
// 400000 with 2, bytes 00 or ff at an end of the Edwards or the Montgomery
// coordinate of the public key, or of the hashed secret.
var rareSeeds = []int{
	8359546, 17574779, 32444, 52225, 112094, 150183, 310353, 348689, 359349, 9136331, 11851, 23706,
	37532, 117363, 143850, 194456, 304908, 316456, 7841389, 9599559, 58073, 76744, 112110, 187846,
	224339, 292066, 8367220, 10870084, 107272, 109593, 253173, 317432, 321656, 581, 14558, 49678,
	53118, 126711, 180941, 186155, 205849, 249413, 275858, 289870, 324857, 334475, 364989, 379794,
	53109, 128814, 291654, 333631, 353222, 3362195, 9970522, 14631330, 28128, 52797, 66789, 68744,
	125692, 142813, 170612, 285683, 292341, 303297, 343691, 374594, 12500044, 7510, 62743, 85889,
	120151, 189409, 289443, 308130, 396899, 8929107, 494, 142129, 162267, 6316923, 8667806, 13961188,
	17960327, 7049, 86949, 148061, 263112, 295089, 394341, 3755412, 6316766, 11249516, 14845882, 21376314,
	28765, 34481, 36114, 46111, 116916, 129099, 145920, 209669, 285830, 329592, 339921, 366075,
	6295105, 15814231, 19200116, 20093, 100235, 129514, 152794, 188916, 227653, 242829, 259403, 266849,
	293852, 350142, 375236, 398269,
}

// rareU has three bytes 00 at the top of its Montgomery coordinate.
const rareU = 3362195

type p19op struct {
	Kind string `json:"kind"` // rare, twin, any, edge
	N    int    `json:"n"`
	Sk   string `json:"sk"`  // new, ssh, file
	Pk   string `json:"pk"`  // own, file, string, ssh, auth
	Ask  string `json:"ask"` // the order of conversions
	Use  bool   `json:"use,omitempty"`
}

type p19 struct {
	Tasks [][]p19op `json:"tasks"`
	Short bool      `json:"short,omitempty"` // short reads of the random source
	Sched uint64    `json:"sched"`
}

func (o *p19op) seed() []byte {
	switch o.Kind {
	case "rare":
		return kernel.NewRng(kernel.Mix(uint64(rareSeeds[mod(o.N, len(rareSeeds))]), 0x5eed19)).Bytes(32)
	case "twin":
		return kernel.NewRng(kernel.Mix(twins[mod(o.N, len(twins))], 0x5eed19)).Bytes(32)
	case "edge":
		b := make([]byte, 32)
		switch n := mod(o.N, 1024); {
		case n < 256: // one bit
			b[n/8] = 1 << (n % 8)
		case n < 512: // all but one
			for i := range b {
				b[i] = 0xff
			}
			b[n/8-32] ^= 1 << (n % 8)
		case n < 768:
			for i := range b {
				b[i] = byte(n)
			}
		default: // a small number, at either end
			b[31*(n&1)] = byte(n >> 1)
		}
		return b
	}
	return kernel.NewRng(kernel.Mix(uint64(o.N), 0x5eed19)).Bytes(32)
}

func execP19(sc any, x *Exec) *Outcome {
	s := sc.(*p19)
	c := newCtx(s.Sched, 1000000, x)
	o := c.o
	if len(s.Tasks) > 8 {
		return o
	}
	var ts []*Task
	for ti, ops := range s.Tasks {
		ts = append(ts, c.w.Go(fmt.Sprintf("user%d", ti), func(t *Task) {
			for oi := range ops {
				t.Yield()
				if e := p19do(t, &ops[oi], s.Short, kernel.Mix(s.Sched, uint64(ti*100+oi))); e != "" {
					c.failf("mismatch", "%+v: %s", ops[oi], e)
				}
				o.Evals++
			}
		}))
	}
	stall := c.run()
	for _, t := range ts {
		if t.Panic != nil {
			c.failf("panic", "%s\n%s", t.Panic.Val, t.Panic.Stack)
			return o
		}
	}
	if stall != "" {
		c.failf("stall", "%s", stall)
	}
	o.NonTrivial = o.Evals > 0
	for _, ops := range s.Tasks {
		for _, op := range ops {
			c.shape(op.Kind, op.Sk, op.Pk, op.Ask, op.Use)
			o.Probe("key " + op.Kind)
		}
	}
	return o
}

// p19do makes one key and asks for both its conversions. That a key can't be
// had this way at all is for other properties to decide.
func p19do(t *Task, op *p19op, short bool, rnd uint64) string {
	if len(op.Ask) > 20 {
		return ""
	}
	seed := op.seed()
	ed := ed25519.NewKeyFromSeed(seed)
	pw := func() ([]byte, error) { t.Yield(); return []byte("pw"), nil }
	t.Rand = kernel.NewRandom(rnd)
	t.Rand.Short = short
	var sk *sign.PrivateKey
	var pk *sign.PublicKey
	var err error
	switch op.Sk {
	case "new":
		t.Rand.Pre = append([]byte{}, seed...)
		sk, err = sign.NewPrivateKey()
	case "ssh":
		sk, err = sign.MakePrivateKey(ref.SSHKeyFile(ed, &ref.SSHOpts{Cipher: "none", Check: 77, Comment: "k"}), pw)
	default:
		sk, err = sign.MakePrivateKey(ref.KeyFile(ed, []byte("pw"), kernel.NewRng(rnd).Bytes(32), 16, 8, 1, "k"), pw)
	}
	if err != nil || sk == nil || len(sk.Sk) != 64 {
		return ""
	}
	ed = append(ed25519.PrivateKey{}, sk.Sk...)
	t.Yield()
	switch op.Pk {
	case "own":
		pk = sk.PublicKey()
	case "file":
		pk, err = sign.MakePublicKey(ref.PubFile(ed[32:], "c"))
	case "ssh":
		pk, err = sign.MakePublicKey([]byte(ref.SSHPub(ed[32:], "c@d")))
	case "marshal":
		var b []byte
		if b, err = sk.PublicKey().MarshalBinary("c"); err == nil {
			t.Yield()
			pk, err = sign.MakePublicKey(b)
		}
	default:
		var v []*sign.PublicKey
		if v, err = sign.ParseAuthorizedKeys([]byte(ref.SSHPub(ed[32:], "c@d") + "\n")); err == nil && len(v) == 1 {
			pk = v[0]
		}
	}
	if err != nil || pk == nil || !bytes.Equal(pk.Pk, ed[32:]) {
		return ""
	}
	want := ref.X25519Base(ref.CurveSK(ed))
	var cs, cp []byte
	for _, a := range op.Ask + "sp" {
		if a == 's' {
			b := sk.ToCurve25519SK()
			if cs != nil && !bytes.Equal(cs, b) {
				return "two conversions of one private key differ"
			}
			cs = append([]byte{}, b...)
		} else {
			b := pk.ToCurve25519PK()
			if cp != nil && !bytes.Equal(cp, b) {
				return "two conversions of one public key differ"
			}
			cp = append([]byte{}, b...)
		}
		t.Yield()
	}
	switch {
	case !bytes.Equal(sk.Sk, ed) || !bytes.Equal(pk.Pk, ed[32:]):
		return "a conversion modified the key"
	case len(cs) != 32 || len(cp) != 32:
		return fmt.Sprintf("the converted keys have %d and %d bytes", len(cs), len(cp))
	case !bytes.Equal(ref.X25519Base(cs), cp):
		return fmt.Sprintf("the public key %x does not belong to the private key, whose is %x (it should be %x)", cp, ref.X25519Base(cs), want)
	}
	if !op.Use {
		return ""
	}
	// and the library can use them
	msg := []byte("a few words")
	sink := &kernel.Sink{NoYield: true}
	en, err := sign.NewEncryptor(nil, 100)
	if err == nil {
		if err = en.AddRecipient(pk); err == nil {
			err = en.Encrypt(bytes.NewReader(msg), sink)
		}
	}
	if err != nil {
		return "" // P01
	}
	t.Yield()
	de, err := sign.NewDecryptor(bytes.NewReader(sink.Buf))
	if err != nil {
		return ""
	}
	if err = de.SetPrivateKey(sk, nil); err != nil {
		return fmt.Sprintf("what was encrypted to the public key can't be decrypted with its private key: %s", err)
	}
	return ""
}

func genP19(r *Rng, idx int, tier string) any {
	s := &p19{Short: r.P(4), Sched: uint64(r.N(1 << 30))}
	for i := r.Pick(1, 1, 2, 3); i > 0; i-- {
		var v []p19op
		for j := r.In(4, 12); j > 0; j-- {
			op := p19op{Kind: r.PickS("rare", "any", "any", "edge"), Sk: r.PickS("new", "new", "ssh", "ssh", "ssh", "file"),
				Pk: r.PickS("own", "own", "file", "ssh", "auth", "marshal"), Ask: r.PickS("", "p", "s", "ps", "ssp", "pps", "psps", "spsp"), Use: r.P(3)}
			op.N = r.N(1 << 30)
			if r.P(5) {
				op.Kind = "twin"
				v = append(v, op)
				op.N ^= 1
			}
			v = append(v, op)
		}
		s.Tasks = append(s.Tasks, v)
	}
	return s
}

func init() {
	runner.Register(&runner.Prop{
		ID: "P19",
		Families: []*runner.Family{
			{Name: "pairs", Weight: 1, Gen: genP19, New: func() any { return &p19{} }, Exec: execP19},
		},
		Rule: "one run = one to three concurrent users, each making or loading keys from chosen random bytes and asking for the conversions of both halves in some order; the public one must be that of the private one (X25519 of the Go runtime), both must stay the same, and neither may touch the key. Keys with bytes 00 or ff at the ends of their coordinates come from a list found by search.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 25, Thorough: 300,
		Assume: []string{"X25519 and Ed25519 of the Go runtime are right"},
	})
}

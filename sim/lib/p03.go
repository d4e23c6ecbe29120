package lib

import (
	"bytes"
	"crypto/ed25519"
	"fmt"

	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P03: a requested sender verification proves who produced the plaintext. The
// attacker is another legitimate recipient: it knows the file key, salt and
// sender signature of the sessions it received, but not the sender's key.

// Forge describes the file the attacker builds.
type Forge struct {
	Base    int      `json:"base"`
	Other   int      `json:"other"`
	Key     string   `json:"key"`     // base, other, new
	Salt    string   `json:"salt"`    // base, other, new
	Pk      string   `json:"pk"`      // base, other, new
	Sender  string   `json:"sender"`  // base, other (bytes); reseal, resealother, zero, attacker, flip (sealed anew); empty
	Keys    string   `json:"keys"`    // base, other, wrap (anew), both
	Chunk   int      `json:"chunk"`   // 0: as in base
	PT      string   `json:"pt"`      // same, alter, trunc, ext, empty, other, join, prefix
	N       int      `json:"n"`       // detail of PT
	Cuts    int      `json:"cuts"`    // 0: as sigtool does; else pieces of that size
	Trailer string   `json:"trailer"` // base, other, zero, rand, attacker, missing, short, hdrsig
	Hdr     bool     `json:"hdr"`     // reuse the base's header bytes as they are
	Muts    []Mut    `json:"muts,omitempty"`
	Extra   []string `json:"extra,omitempty"`
}

type p03 struct {
	Sess  []Enc  `json:"sess"`
	Peer  bool   `json:"peer,omitempty"`
	F     *Forge `json:"f,omitempty"`
	Muts  []Mut  `json:"muts,omitempty"`
	Dec   Dec    `json:"dec"` // Key: key number of the victim; Sender: required sender
	Again bool   `json:"again,omitempty"`
	Prior []Try  `json:"prior,omitempty"` // earlier calls of SetPrivateKey
	Sched uint64 `json:"sched"`
	First uint32 `json:"first,omitempty"` // number of the first chunk
}

// Try is a call of SetPrivateKey before the one that counts.
type Try struct {
	Key    int `json:"key"`
	Sender int `json:"sender"`
}

const attackerKey, victimKey = 1, 0

func (c *ctx) forge(f *Forge, es []Enc, raws, pts [][]byte, r *Rng) ([]byte, bool) {
	return ForgeFile(f, c.key(attackerKey).Ed, c.key(victimKey).EdPk(), raws, r)
}

// ForgeFile makes what a recipient with key ask, who got the files raws, could
// send to the holder of the key victim.
func ForgeFile(f *Forge, ask ed25519.PrivateKey, victim []byte, raws [][]byte, r *Rng) ([]byte, bool) {
	n := len(raws)
	bi, oi := mod(f.Base, n), mod(f.Other, n)
	open := func(i int) *ref.Info {
		var s []byte
		in, err := ref.Open(raws[i], ask, s)
		if err != nil {
			return nil
		}
		return in
	}
	b, o := open(bi), open(oi)
	if b == nil || o == nil {
		return nil, false
	}
	h := &ref.Header{ChunkSize: b.File.Hdr.ChunkSize}
	if f.Chunk > 0 {
		h.ChunkSize = uint32(f.Chunk)
	}
	pick := func(how string, x, y []byte, k int) []byte {
		switch how {
		case "base":
			return x
		case "other":
			return y
		}
		return r.Bytes(k)
	}
	key := pick(f.Key, b.Sess.Key, o.Sess.Key, 32)
	h.Salt = pick(f.Salt, b.File.Hdr.Salt, o.File.Hdr.Salt, 32)
	esk := ref.Clamp(r.Bytes(32))
	h.Pk = pick(f.Pk, b.File.Hdr.Pk, o.File.Hdr.Pk, 32)
	if f.Pk == "new" {
		h.Pk = ref.X25519Base(esk)
	}
	asig := ref.SignMessage(ask, ref.SenderCk(h.Pk, h.Salt, key))
	switch f.Sender {
	case "base":
		h.Sender = b.File.Hdr.Sender
	case "other":
		h.Sender = o.File.Hdr.Sender
	case "reseal":
		h.Sender = ref.SealSender(key, h.Salt, b.Sig)
	case "resealother":
		h.Sender = ref.SealSender(key, h.Salt, o.Sig)
	case "zero":
		h.Sender = ref.SealSender(key, h.Salt, make([]byte, 64))
	case "zeroshort":
		h.Sender = ref.SealSender(key, h.Salt, make([]byte, f.N%64))
	case "attacker":
		h.Sender = ref.SealSender(key, h.Salt, asig)
	case "flip":
		s := append([]byte{}, b.Sig...)
		s[mod(f.N, 64)] ^= 1
		h.Sender = ref.SealSender(key, h.Salt, s)
	case "empty":
	}
	rewrap := func() []ref.WKey {
		var v []ref.WKey
		for _, pk := range [][]byte{victim, ask[32:]} {
			w, err := ref.Wrap(esk, h.Salt, key, r.Bytes(12), pk)
			if err == nil {
				v = append(v, w)
			}
		}
		return v
	}
	switch f.Keys {
	case "base":
		h.Keys = b.File.Hdr.Keys
	case "other":
		h.Keys = o.File.Hdr.Keys
	case "both":
		h.Keys = append(append([]ref.WKey{}, b.File.Hdr.Keys...), rewrap()...)
	default:
		h.Keys = rewrap()
	}
	pt := append([]byte{}, b.PT...)
	switch f.PT {
	case "alter":
		if len(pt) > 0 {
			pt[mod(f.N, len(pt))] ^= 0x20
		} else {
			pt = []byte("x")
		}
	case "trunc":
		pt = pt[:mod(f.N, len(pt)+1)]
	case "prefix":
		// whole chunks only
		k := mod(f.N, len(pt)/int(h.ChunkSize)+1) * int(h.ChunkSize)
		pt = pt[:min(k, len(pt))]
	case "ext":
		pt = append(pt, r.Bytes(1+mod(f.N, 100))...)
	case "empty":
		pt = nil
	case "other":
		pt = append([]byte{}, o.PT...)
	case "join":
		pt = append(pt, o.PT...)
	}
	if f.Hdr {
		h, key = b.File.Hdr, b.Sess.Key
	}
	v := h.Encode()
	if f.Hdr {
		v = b.File.Var
	}
	s := ref.Derive(key, ref.HdrSum(ref.Version, v))
	out := ref.Head(ref.Version, v)
	if f.Hdr {
		out = append([]byte{}, raws[bi][:b.File.HdrLen]...)
	}
	z := int(h.ChunkSize)
	if f.Cuts > 0 {
		z = f.Cuts
	}
	if z < 1 {
		z = 1
	}
	var lens []uint32
	var parts [][]byte
	for i, rest := uint32(0), pt; ; i++ {
		k := min(z, len(rest))
		eof := len(rest) <= z
		fr := s.SealFrame(i, rest[:k], eof)
		out = append(out, fr.Bytes()...)
		lens, parts = append(lens, fr.Len), append(parts, rest[:k])
		rest = rest[k:]
		if eof {
			break
		}
		if i > 3000 {
			return nil, false
		}
	}
	hm := s.Hmac(lens, parts)
	switch f.Trailer {
	case "base":
		out = append(out, b.File.Trailer...)
	case "other":
		out = append(out, o.File.Trailer...)
	case "zero":
		out = append(out, make([]byte, 64)...)
	case "rand":
		out = append(out, r.Bytes(64)...)
	case "attacker":
		out = append(out, ref.SignMessage(ask, hm)...)
	case "hdrsig":
		out = append(out, b.Sig...)
	case "short":
		out = append(out, b.File.Trailer[:mod(f.N, 64)]...)
	case "missing":
	}
	return out, true
}

func execP03(sc any, x *Exec) *Outcome {
	s := sc.(*p03)
	c := newCtx(s.Sched, 3000000, x)
	c.first(s.First)
	defer setFirst(0)
	o := c.o
	raws, pts, ok := c.sessions(s.Sess, s.Peer, s.Sched)
	if !ok {
		return o
	}
	r := kernel.NewRng(kernel.Mix(s.Sched, 0xf0))
	b := raws[0]
	what := "genuine"
	if s.F != nil {
		if b, ok = c.forge(s.F, s.Sess, raws, pts, r); !ok {
			return o
		}
		what = fmt.Sprintf("forged %+v", *s.F)
		o.Fault("forge:sender-" + s.F.Sender)
		o.Fault("forge:key-" + s.F.Key)
		o.Fault("forge:pt-" + s.F.PT)
		o.Fault("forge:trailer-" + s.F.Trailer)
		if s.F.Hdr {
			o.Fault("forge:header-kept")
		}
	}
	if len(s.Muts) > 0 {
		v := append([][]byte{b}, raws...)
		a, err := newAttacked(v)
		if err != nil {
			return o
		}
		for _, m := range s.Muts {
			if m.Op != "" {
				a.apply(m)
				o.Fault("tamper:" + m.Op)
			}
		}
		b = a.bytes()
		what += fmt.Sprintf(" with %v", s.Muts)
	}
	c.w.HashBytes(b)
	d := s.Dec
	d.prior = s.Prior
	for _, p := range s.Prior {
		o.Fault("earlier-try")
		what += fmt.Sprintf(" after %+v", p)
	}
	res, stall := c.attempt(&d, b)
	o.Evals++
	if stall != "" {
		c.failf("stall", "%s", stall)
		return o
	}
	if res.Pan != nil {
		c.failf("panic", "%s: %s\n%s", what, res.Pan.Val, res.Pan.Stack)
		return o
	}
	// which genuine session is this, if any?
	gen := -1
	for i := range raws {
		f, err := ref.Parse(raws[i])
		if err != nil {
			return o
		}
		if n := f.BodyEnd + 64; len(b) >= n && bytes.Equal(b[:n], raws[i][:n]) {
			gen = i
		}
	}
	c.shape(s.F == nil, len(s.Muts), s.Dec.Sender, gen >= 0, errClass(res.Err), d.Stream)
	if res.Auth && res.Got {
		// the key exchange was authenticated: only by the requested sender
		if d.Sender < 0 {
			c.failf("auth-flag", "%s: a sender is reported as authenticated though none was asked for", what)
		}
	}
	if d.Sender == attackerKey && s.F != nil {
		// what the attacker signs as itself is genuine
		return o
	}
	if d.Sender >= 0 {
		if res.Err == nil {
			switch {
			case gen < 0 || s.Sess[gen].Sender != d.Sender:
				c.failf("forged", "%s: accepted as coming from sender %d; got %s", what, d.Sender, short(res.Out))
			case !res.Auth:
				c.failf("auth-flag", "%s: accepted from the right sender but not reported as authenticated", what)
			case !bytes.Equal(res.Out, pts[gen]):
				c.failf("wrong-plaintext", "%s: got %s, want %s", what, short(res.Out), short(pts[gen]))
			}
		} else if gen >= 0 && s.Sess[gen].Sender == d.Sender && has(s.Sess[gen].Recips, d.Key) {
			c.failf("genuine-rejected", "%s: the sender's own intact file is rejected: %s", what, res.Err)
		}
		if gen < 0 || s.Sess[gen].Sender != d.Sender {
			o.NonTrivial = true
			if s.F != nil && res.Got {
				o.Probe("forgery-got-past-the-header")
			}
		}
	} else if gen >= 0 && s.Sess[gen].Sender < 0 && has(s.Sess[gen].Recips, d.Key) {
		o.NonTrivial = true
		if res.Err != nil || !bytes.Equal(res.Out, pts[gen]) || res.Auth {
			c.failf("unauthenticated-rejected", "%s: intact file without sender: err %v, auth %v", what, res.Err, res.Auth)
		}
	}
	if gen >= 0 && s.F == nil {
		o.NonTrivial = true
	}
	return o
}

func has(v []int, k int) bool {
	for _, x := range v {
		if x == k {
			return true
		}
	}
	return false
}

// GenForge picks a forgery.
func GenForge(r *Rng) *Forge {
	f := &Forge{Base: r.N(3), Other: r.N(3), N: r.N(1000)}
	f.Key = r.PickS("base", "base", "base", "new", "other")
	f.Salt = r.PickS("base", "base", "new", "other")
	f.Pk = r.PickS("base", "new", "new", "other")
	f.Sender = r.PickS("base", "reseal", "zero", "attacker", "other", "resealother", "flip", "empty", "zeroshort")
	f.Keys = r.PickS("base", "wrap", "wrap", "both", "other")
	f.PT = r.PickS("same", "alter", "trunc", "prefix", "ext", "empty", "other", "join")
	f.Trailer = r.PickS("base", "base", "other", "zero", "rand", "attacker", "missing", "short", "hdrsig")
	if r.P(4) {
		f.Chunk = r.In(1, 200)
	}
	if r.P(4) {
		f.Cuts = r.In(1, 60)
	}
	if r.P(3) {
		f.Hdr = true
	}
	// the most dangerous combinations more often
	switch r.N(6) {
	case 0:
		f.Key, f.Salt, f.Pk, f.Keys, f.Hdr = "base", "base", "base", "base", true
	case 1:
		f.Key, f.Pk, f.Keys, f.Hdr = "new", "new", "wrap", false
		f.Sender = r.PickS("zero", "reseal", "attacker", "empty", "zeroshort")
	}
	return f
}

func genP03(r *Rng, idx int, tier string) any {
	s := &p03{Peer: r.P(3), Sched: uint64(r.N(1 << 30))}
	if r.P(6) {
		s.First = genFirst(r, 1<<20)
	}
	n := r.In(1, 3)
	for i := 0; i < n; i++ {
		e := smallEnc(r)
		e.Sender = r.Pick(50, 50, 50, 51, -1)
		if i == 0 && !r.P(5) {
			e.Sender = 50
		}
		e.Recips = []int{victimKey, attackerKey}
		if r.P(3) {
			e.Recips = []int{7, attackerKey, victimKey, 9}
		}
		s.Sess = append(s.Sess, e)
	}
	if r.P(4) && n > 1 {
		s.Sess[1].PT = s.Sess[0].PT
	}
	s.Dec = *genDec(r, victimKey, r.Pick(50, 50, 50, 51, attackerKey, -1), s.Sess[0].PT.Len)
	if r.P(12) {
		s.Dec.Key = r.Pick(7, 20)
	}
	for r.P(3) && len(s.Prior) < 3 {
		s.Prior = append(s.Prior, Try{Key: r.Pick(victimKey, victimKey, victimKey, attackerKey, 20), Sender: r.Pick(-1, -1, 50, 51, attackerKey)})
	}
	if r.P(8) {
		return s // genuine
	}
	if !r.P(6) {
		s.F = GenForge(r)
	}
	if s.F == nil || r.P(5) {
		for i := 0; i <= r.N(2); i++ {
			s.Muts = append(s.Muts, genMut(r))
		}
	}
	return s
}

func init() {
	var directed []*p03
	// who produced it x who is asked for x interface
	for _, snd := range []int{50, 51, -1} {
		for _, req := range []int{50, 51, -1, attackerKey} {
			for st := 0; st < 4; st++ {
				directed = append(directed, &p03{Sess: []Enc{{Stream: st&1 == 1, Chunk: 16, Sender: snd, Recips: []int{victimKey, attackerKey}, PT: PT{Len: 40, Seed: 9}}},
					Dec: Dec{Stream: st&2 == 2, Key: victimKey, Sender: req, Rd: kernel.Frag{Mode: 5, Size: 9}}})
			}
		}
	}
	// a first request x the one that counts
	for _, snd := range []int{50, -1} {
		for _, first := range []int{50, 51, -1} {
			for _, req := range []int{50, 51, -1} {
				st := len(directed)
				directed = append(directed, &p03{Prior: []Try{{victimKey, first}}, Sess: []Enc{{Stream: st&1 == 1, Chunk: 16, Sender: snd, Recips: []int{victimKey, attackerKey}, PT: PT{Len: 40, Seed: 9}}},
					Dec: Dec{Stream: st&2 == 2, Key: victimKey, Sender: req, Rd: kernel.Frag{Mode: 5, Size: 9}}})
			}
		}
	}
	// every sender field x plaintext x trailer with kept and fresh header
	for _, sn := range []string{"base", "reseal", "zero", "attacker", "empty", "zeroshort", "flip"} {
		for _, pt := range []string{"same", "alter", "prefix", "ext", "empty"} {
			for _, tr := range []string{"base", "zero", "rand", "attacker", "missing", "hdrsig"} {
				for m := 0; m < 3; m++ {
					f := &Forge{Sender: sn, PT: pt, Trailer: tr, N: 1, Key: "base", Salt: "base", Pk: "base", Keys: "base"}
					switch m {
					case 0:
						if sn != "base" {
							continue
						}
						f.Hdr = true
					case 1:
						f.Pk, f.Keys = "new", "wrap"
					case 2:
						f.Key, f.Salt, f.Pk, f.Keys = "new", "new", "new", "wrap"
					}
					st := len(directed)
					directed = append(directed, &p03{F: f, Sess: []Enc{{Stream: st&1 == 1, Chunk: 16, Sender: 50, Recips: []int{victimKey, attackerKey}, PT: PT{Len: 40, Seed: 9}}},
						Dec: Dec{Stream: st&2 == 2, Key: victimKey, Sender: 50, Rd: kernel.Frag{Mode: 5, Size: 9}}})
				}
			}
		}
	}
	runner.Register(&runner.Prop{
		ID: "P03",
		Families: []*runner.Family{{Name: "forge", Weight: 1, Directed: len(directed), Gen: func(r *Rng, idx int, tier string) any {
			if idx < len(directed) {
				s := *directed[idx]
				s.Sched = uint64(idx)
				return &s
			}
			return genP03(r, idx, tier)
		}, New: func() any { return &p03{} }, Exec: execP03}},
		Rule: "A case is one simulated exchange with a Byzantine participant: genuine sessions are encrypted by one or more senders to a victim and an attacker; the attacker, who knows the file keys of what it received but no sender key, builds a file from any mix of old and new keys, salts, ephemeral keys, sender fields, recipient entries, chunks and trailers (or alters bytes), and the victim decrypts it asking for a sender (in part of the cases after earlier calls with other keys and senders). Non-trivial: the file is not a genuine session of the requested sender (so acceptance is a violation), or it is a genuine one whose acceptance was checked.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900,
		Assume: []string{"the attacker does not break AES-GCM, X25519, SHA-2 or Ed25519", "bytes after the trailer are outside of the protected file"},
	})
}

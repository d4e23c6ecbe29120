package lib

import (
	"bytes"
	"fmt"

	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P02: altered files are never accepted, and only prefixes of the true
// plaintext are released.
type p02 struct {
	Sess  []Enc  `json:"sess"` // session 0 is attacked; the others provide material
	Muts  []Mut  `json:"muts"`
	Dec   Dec    `json:"dec"` // Key: index into the recipients of session 0
	Sched uint64 `json:"sched"`
	Peer  bool   `json:"peer,omitempty"`  // files come from the reference implementation
	First uint32 `json:"first,omitempty"` // number of the first chunk
}

// sweep: every byte and every length of one small file
type p02sweep struct {
	Enc    Enc    `json:"enc"`
	What   string `json:"what"` // flip, trunc, cut
	Xor    int    `json:"xor"`
	Stream bool   `json:"stream"`
	Only   []int  `json:"only,omitempty"` // positions (all if empty)
	Sched  uint64 `json:"sched"`
}

func (c *ctx) peerFile(e *Enc, r *Rng) ([]byte, []byte) {
	pt := e.PT.bytes()
	o := &ref.EncOpts{Key: r.Bytes(32), Salt: r.Bytes(32), ESK: r.Bytes(32), ChunkSize: chunkOf(e.Chunk), Trailer: r.Bytes(64)}
	if e.Sender >= 0 {
		o.Sender = c.key(e.Sender).Ed
	}
	for _, k := range e.Recips {
		o.Recips = append(o.Recips, c.key(k).EdPk())
		o.Nonces = append(o.Nonces, r.Bytes(12))
	}
	b, err := ref.Encrypt(o, pt)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return b, pt
}

func chunkOf(c uint64) uint32 {
	switch {
	case c == 0:
		return 4 * 1048576
	case c > 1<<30:
		return 1 << 30
	}
	return uint32(c)
}

func (c *ctx) sessions(es []Enc, peer bool, seed uint64) (raws, pts [][]byte, ok bool) {
	r := kernel.NewRng(kernel.Mix(seed, 0x9ee7))
	for i := range es {
		e := &es[i]
		if len(e.Recips) == 0 {
			return nil, nil, false
		}
		var raw, pt []byte
		var err error
		if peer {
			raw, pt = c.peerFile(e, r)
		} else {
			raw, pt, err = c.produce(e)
		}
		if err != nil {
			return nil, nil, false // P01 decides about that
		}
		raws, pts = append(raws, raw), append(pts, pt)
	}
	return raws, pts, len(raws) > 0
}

// attempt decrypts file in a simulated task.
func (c *ctx) attempt(d *Dec, file []byte) (*decResult, string) {
	var res *decResult
	var out memSink
	t := c.w.Go("dec", func(t *Task) {
		src := d.Src
		src.F = nil
		res = c.decrypt(d, src.open(t, file), &out)
	})
	stall := c.run()
	if res == nil {
		res = &decResult{Err: fmt.Errorf("did not finish: %s", stall), Pan: t.Panic}
	}
	res.Out = out.Bytes()
	return res, stall
}

func execP02(sc any, x *Exec) *Outcome {
	s := sc.(*p02)
	c := newCtx(s.Sched, 3000000, x)
	c.first(s.First)
	defer setFirst(0)
	o := c.o
	if len(s.Sess) == 0 {
		return o
	}
	raws, pts, ok := c.sessions(s.Sess, s.Peer, s.Sched)
	if !ok {
		return o
	}
	a, err := newAttacked(raws)
	if err != nil {
		return o // P16 decides about the format
	}
	for _, m := range s.Muts {
		if m.Op != "" {
			a.apply(m)
		}
	}
	b := a.bytes()
	d := s.Dec
	e0 := s.Sess[0]
	d.Key = e0.Recips[mod(d.Key, len(e0.Recips))]
	d.Sender = e0.Sender
	res, stall := c.attempt(&d, b)
	c.w.HashBytes(b)
	o.Hash = kernel.Mix(o.Hash, c.w.Hash())
	o.Evals++
	if stall != "" {
		c.failf("stall", "%s", stall)
		return o
	}
	c.judge02(b, raws, pts, a.files, res, fmt.Sprint(s.Muts))
	if len(s.Muts) > 0 {
		c.shape(s.Muts[0].Op, len(s.Muts), d.Stream, e0.Sender >= 0, errClass(res.Err), len(res.Out) > 0)
		for _, m := range s.Muts {
			o.Fault("tamper:" + m.Op)
		}
	}
	return o
}

func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if len(s) > 24 {
		s = s[:24]
	}
	return s
}

func (c *ctx) judge02(b []byte, raws, pts [][]byte, files []*ref.File, res *decResult, what string) {
	if res.Pan != nil {
		c.failf("panic", "%s: %s\n%s", what, res.Pan.Val, res.Pan.Stack)
		return
	}
	for i := range raws {
		if sameCore(b, raws[i], files[i]) {
			// not altered in the protected part (for this session)
			if res.Err == nil && !bytes.Equal(res.Out, pts[i]) {
				c.failf("wrong-plaintext", "%s: unaltered data of session %d gave %s, want %s", what, i, short(res.Out), short(pts[i]))
			}
			if !bytes.HasPrefix(pts[i], res.Out) {
				c.failf("foreign-data", "%s: released %s, not a prefix of %s", what, short(res.Out), short(pts[i]))
			}
			return
		}
	}
	c.o.NonTrivial = true
	if res.Err == nil {
		c.failf("accepted", "%s: altered file accepted, released %d of %d bytes: %s", what, len(res.Out), len(pts[0]), short(res.Out))
		return
	}
	base := 0
	for i := range raws {
		if sameHead(b, raws[i], files[i]) {
			base = i
			break
		}
	}
	if !bytes.HasPrefix(pts[base], res.Out) {
		c.failf("foreign-data", "%s: released %s (%d bytes), which is no prefix of the plaintext %s", what, short(res.Out), len(res.Out), short(pts[base]))
	}
	if len(res.Out) > 0 {
		c.o.Probe("prefix-released-before-error")
	}
}

func smallEnc(r *Rng) Enc {
	e := Enc{Stream: r.P(2), Chunk: uint64(r.Pick(1, 2, 3, 8, 16, 20, 33, 64, 100, 128)), Sender: -1}
	if r.P(2) {
		e.Sender = 50 + r.N(4)
	}
	for i := 0; i <= r.N(3); i++ {
		e.Recips = append(e.Recips, i*3+r.N(3))
	}
	e.PT = PT{Len: genLen(r, e.Chunk, 6, 600), Kind: r.Pick(0, 0, 2), Seed: uint64(r.N(1000))}
	e.Rand = uint64(r.N(1 << 30))
	return e
}

func genP02(r *Rng, idx int, tier string) any {
	s := &p02{Sched: uint64(r.N(1 << 30)), Peer: r.P(3)}
	e := smallEnc(r)
	if r.P(6) {
		e = *genEnc(r, 4, 30, 30000)
		e.Src.Frag, e.Wr = kernel.Frag{}, kernel.Frag{Mode: 5, Size: 4096}
	}
	if r.P(12) {
		// many chunks: swaps at distances 256 and 65536 must be noticed, too
		e.Chunk = uint64(r.Pick(1, 2, 4))
		e.PT = PT{Len: int(e.Chunk) * r.Pick(258, 300, 520, 700), Kind: r.Pick(0, 2), Seed: 1}
	}
	s.Sess = append(s.Sess, e)
	for i := 0; i < 2; i++ {
		f := e
		f.Rand = uint64(r.N(1 << 30))
		if r.P(2) {
			f.PT.Seed = uint64(r.N(1000))
		}
		if r.P(3) {
			f.PT.Len = genLen(r, f.Chunk, 6, 600)
		}
		s.Sess = append(s.Sess, f)
	}
	n := 1
	if r.P(3) {
		n = r.In(2, 4)
	}
	for i := 0; i < n; i++ {
		s.Muts = append(s.Muts, genMut(r))
	}
	if e.Chunk >= 1 && e.Chunk <= 4 && e.PT.Len > 250 && r.P(2) {
		k := r.N(e.PT.Len / int(e.Chunk) / 3)
		dist := r.Pick(1, 2, 128, 255, 256, 257)
		s.Muts = []Mut{{Op: r.PickS("cswap", "cmove", "creplace"), A: k, B: k + dist, S: r.N(3)}}
	}
	s.Dec = *genDec(r, r.N(8), 0, e.PT.Len)
	if r.P(4) {
		s.First = genFirst(r, 1<<20)
	}
	return s
}

// the 65536 distance, for the attackers with patience
type p02far struct {
	Dist  int    `json:"dist"`
	A     int    `json:"a"`
	Same  bool   `json:"same"`
	Op    string `json:"op"`
	Peer  bool   `json:"peer"`
	Sched uint64 `json:"sched"`
}

func execP02far(sc any, x *Exec) *Outcome {
	s := sc.(*p02far)
	if s.Dist < 1 || s.Dist > 1<<25 {
		return &Outcome{}
	}
	e := Enc{Chunk: 1, Sender: -1, Recips: []int{1}, PT: PT{Len: s.Dist + s.A + 5, Seed: 4}, Rand: 5}
	if s.Same {
		e.PT.Kind = 1
	}
	p := &p02{Sess: []Enc{e}, Muts: []Mut{{Op: s.Op, A: s.A, B: s.A + s.Dist}}, Sched: s.Sched, Peer: s.Peer, Dec: Dec{Rd: kernel.Frag{Mode: 5, Size: 8192}}}
	return execP02(p, x)
}

func execP02sweep(sc any, x *Exec) *Outcome {
	s := sc.(*p02sweep)
	c := newCtx(s.Sched, 1<<40, x)
	o := c.o
	if s.Enc.PT.Len > 5000 {
		return o
	}
	es := []Enc{s.Enc}
	raws, pts, ok := c.sessions(es, false, s.Sched)
	if !ok {
		return o
	}
	a, err := newAttacked(raws)
	if err != nil {
		return o
	}
	raw := raws[0]
	f := a.files[0]
	pos := s.Only
	if len(pos) == 0 {
		for i := range raw {
			pos = append(pos, i)
		}
	}
	xor := byte(s.Xor)
	if xor == 0 {
		xor = 1
	}
	for _, p := range pos {
		p = mod(p, len(raw))
		var b []byte
		switch s.What {
		case "trunc":
			b = raw[:p]
		case "cut":
			b = append(append([]byte{}, raw[:p]...), raw[p+1:]...)
		case "dup":
			b = append(append([]byte{}, raw[:p+1]...), raw[p:]...)
		case "hfix":
			// flip in the header with a fresh checksum
			if p >= f.HdrLen-32 {
				continue
			}
			b = append([]byte{}, raw...)
			b[p] ^= xor
			copy(b[f.HdrLen-32:], ref.SumOf(b[:f.HdrLen-32]))
		default:
			b = append([]byte{}, raw...)
			b[p] ^= xor
		}
		d := Dec{Stream: s.Stream, Key: s.Enc.Recips[p%len(s.Enc.Recips)], Sender: s.Enc.Sender, Rd: kernel.Frag{Mode: 5, Size: 100}}
		res, _ := c.attempt(&d, b)
		o.Evals++
		c.judge02(b, raws, pts, a.files, res, fmt.Sprintf("%s at byte %d of %d", s.What, p, len(raw)))
		if len(o.Viol) > 0 {
			// make the minimiser's life easy
			break
		}
	}
	o.Fault("tamper:sweep-" + s.What)
	c.shape(s.What, s.Stream, s.Enc.Sender >= 0, s.Enc.PT.Len)
	o.NonTrivial = true
	return o
}

func genP02sweep(r *Rng, idx int, tier string) any {
	e := smallEnc(r)
	e.PT.Len = r.Pick(0, 1, 15, 16, 17, 33, 60)
	e.Chunk = uint64(r.Pick(1, 7, 16, 17, 33, 64))
	if e.PT.Len/int(e.Chunk) > 9 {
		e.Chunk = 16
	}
	s := &p02sweep{Enc: e, What: r.PickS("flip", "flip", "flip", "trunc", "cut", "dup", "hfix", "hfix"), Xor: 1 << r.N(8), Stream: r.P(2), Sched: uint64(r.N(1 << 30))}
	if r.P(3) {
		s.Xor = r.In(1, 255)
	}
	return s
}

var p02fars = []p02far{
	{Dist: 65536, A: 0, Same: true, Op: "cswap"}, {Dist: 65536, A: 3, Op: "cswap", Peer: true}, {Dist: 65536, A: 1, Op: "cdup"},
	{Dist: 256, A: 1, Op: "cswap"}, {Dist: 256, A: 0, Same: true, Op: "cmove", Peer: true}, {Dist: 32768, A: 1, Op: "cswap"},
}

func init() {
	runner.Register(&runner.Prop{
		ID: "P02",
		Families: []*runner.Family{
			{Name: "tamper", Weight: 6, Gen: genP02, New: func() any { return &p02{} }, Exec: execP02},
			{Name: "sweep", Weight: 1, Directed: 24, Gen: func(r *Rng, idx int, tier string) any {
				if idx < 24 {
					s := genP02sweep(r, idx, tier).(*p02sweep)
					s.What = []string{"flip", "trunc", "cut", "hfix"}[idx%4]
					s.Stream = idx&4 != 0
					s.Enc.PT.Len = []int{0, 16, 50}[idx/8]
					s.Enc.Chunk = 16
					s.Enc.Sender = []int{-1, 51}[idx/4&1]
					s.Xor = []int{1, 0x80, 0x10}[idx/8]
					return s
				}
				return genP02sweep(r, idx, tier)
			}, New: func() any { return &p02sweep{} }, Exec: execP02sweep},
			{Name: "far", Directed: len(p02fars), Gen: func(r *Rng, idx int, tier string) any {
				s := p02fars[idx%len(p02fars)]
				return &s
			}, New: func() any { return &p02far{} }, Exec: execP02far},
			{Name: "place", Weight: 1, Directed: 64, Gen: genP02place, New: func() any { return &p02place{} }, Exec: execP02place},
		},
		Rule: "A case is one simulated transmission: sessions are encrypted (by the library or the independent implementation), an attacker without keys applies a list of changes to the bytes, chunks or header fields (recomputing the unkeyed checksum in most cases, using material of other sessions), and a recipient decrypts the result over a fragmented channel. 'sweep' cases do so for every byte position of a small file. Non-trivial: the protected part of the file was really changed, so that acceptance is a violation.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900,
		Assume: []string{"the attacker does not break AES-GCM, X25519, SHA-2 or Ed25519", "chunk moves within one file over distances up to 65536; over larger distances (all of the 32-bit range) as whole streams, by a hook that sets the number of the first chunk"},
	})
}

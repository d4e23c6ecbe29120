package lib

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P10: freshness of everything random.

type p10op struct {
	Kind string            `json:"kind"` // enc, store, gen
	Enc  *Enc              `json:"enc,omitempty"`
	Rand uint64            `json:"rand"`
	Sh   bool              `json:"short,omitempty"` // short reads from the random source
	F    *kernel.RandFault `json:"fault,omitempty"`
}

type p10 struct {
	Ops   []p10op `json:"ops"`
	Conc  bool    `json:"conc,omitempty"` // all operations run as interleaved tasks
	Bytes bool    `json:"bytes,omitempty"`
	Sched uint64  `json:"sched"`
}

type p10res struct {
	op    *p10op
	out   []byte
	err   error
	pan   *kernel.PanicInfo
	used  int
	fired bool
	rnd   *kernel.Random
}

func (c *ctx) p10do(t *Task, op *p10op, sk *sign.PrivateKey) *p10res {
	r := kernel.NewRandom(kernel.Mix(op.Rand, 10))
	r.F, r.Short, r.T = op.F, op.Sh, t
	res := &p10res{op: op, rnd: r}
	if t != nil {
		t.Rand = r
	} else {
		c.ent.Default = r
	}
	res.err, res.pan = call(func() error {
		switch op.Kind {
		case "enc":
			sink := &kernel.Sink{T: t}
			pt := op.Enc.PT.bytes()
			err := c.encrypt(op.Enc, pt, op.Enc.Src.open(t, pt), sink)
			res.out = sink.Buf
			return err
		case "store":
			b, err := sk.MarshalBinary("c", []byte("pw"))
			res.out = b
			return err
		case "gen":
			n, err := sign.NewPrivateKey()
			if err == nil {
				res.out = append([]byte{}, n.Sk...)
			}
			return err
		}
		return nil
	})
	res.used, res.fired = r.N, r.Fired
	return res
}

func execP10(sc any, x *Exec) *Outcome {
	s := sc.(*p10)
	c := newCtx(s.Sched, 1000000, x)
	o := c.o
	if len(s.Ops) > 80 {
		return o
	}
	base := c.ent.Default
	sk := c.key(3).Sk
	for i := range s.Ops { // make the keys now, in a defined order
		if e := s.Ops[i].Enc; e != nil {
			if len(e.Recips) == 0 || len(e.Recips) > 40 || e.PT.Len > 1<<20 || e.Chunk > 1<<24 {
				return o
			}
			for _, r := range e.Recips {
				c.key(r)
			}
			c.key(max(0, e.Sender))
		}
	}
	res := make([]*p10res, len(s.Ops))
	if s.Conc {
		for i := range s.Ops {
			i := i
			c.w.Go(fmt.Sprint("op", i), func(t *Task) { res[i] = c.p10do(t, &s.Ops[i], sk) })
		}
		if st := c.run(); st != "" {
			c.failf("stall", "%s", st)
			return o
		}
	} else {
		for i := range s.Ops {
			res[i] = c.p10do(nil, &s.Ops[i], sk)
		}
	}
	seen := map[string]map[string]int{}
	uniq := func(what string, b []byte, i int) {
		m := seen[what]
		if m == nil {
			m = map[string]int{}
			seen[what] = m
		}
		if j, ok := m[string(b)]; ok {
			c.failf("reuse", "operations %d and %d share a %s", j, i, what)
		}
		m[string(b)] = i
	}
	cols := map[string][][]byte{}
	for i, r := range res {
		o.Evals++
		op := r.op
		if r.fired {
			o.NonTrivial = true
			o.Fault("entropy:" + op.F.Kind)
			if r.err == nil {
				need := p10need(op)
				if r.used < need {
					c.failf("bad-entropy", "operation %d (%s) completed with %d of at least %d random bytes after the random source failed (%s)", i, op.Kind, r.used, need, op.F.Kind)
				}
				if op.F.Kind == "eof" || !op.F.Once {
					c.failf("bad-entropy", "operation %d (%s) succeeded although the random source failed for good (%s)", i, op.Kind, op.F.Kind)
				}
			}
			continue
		}
		if r.err != nil {
			if r.pan != nil {
				c.failf("panic", "%s: %s\n%s", op.Kind, r.pan.Val, r.pan.Stack)
			} else {
				c.failf("error", "operation %d (%s) fails: %s", i, op.Kind, r.err)
			}
			continue
		}
		if need := p10need(op); r.used < need {
			c.failf("entropy-size", "operation %d (%s) obtained %d random bytes, its secrets have %d", i, op.Kind, r.used, need)
		}
		switch op.Kind {
		case "enc":
			first := op.Enc.Recips[0]
			in, err := ref.Open(r.out, c.key(first).Ed, c.senderPk(op.Enc.Sender))
			if err != nil {
				c.failf("output", "operation %d: the output does not open: %s", i, err)
				continue
			}
			h := in.File.Hdr
			uniq("file key", in.Sess.Key, i)
			uniq("salt", h.Salt, i)
			uniq("ephemeral key", h.Pk, i)
			uniq("data key", in.Sess.DKey, i)
			for j, w := range h.Keys {
				uniq("wrapping nonce", w.Nonce, i*1000+j)
				cols["wrapping nonce"] = append(cols["wrapping nonce"], w.Nonce)
			}
			for _, f := range in.File.Frames {
				if n := f.N(); n >= 8 {
					// identical plaintext: identical ciphertext would be identical keystream
					uniq("ciphertext chunk", f.CT, i)
				}
			}
			cols["file key"] = append(cols["file key"], in.Sess.Key)
			cols["salt"] = append(cols["salt"], h.Salt)
			cols["ephemeral key"] = append(cols["ephemeral key"], h.Pk)
			// none of the values may be another one
			vals := map[string][]byte{"file key": in.Sess.Key, "salt": h.Salt, "ephemeral key": h.Pk}
			for a, x := range vals {
				for b, y := range vals {
					if a < b && bytes.Equal(x, y) {
						c.failf("reuse", "operation %d: %s and %s are the same", i, a, b)
					}
				}
			}
			if bytes.Contains(r.out, in.Sess.Key) {
				c.failf("leak", "operation %d: the file key is in the output", i)
			}
		case "store":
			p, err := ref.ParseKeyFile(r.out)
			if err != nil {
				c.failf("output", "operation %d: %s", i, err)
				continue
			}
			uniq("key salt", p.Salt, i)
			cols["key salt"] = append(cols["key salt"], p.Salt)
		case "gen":
			uniq("private key", r.out[:32], i)
			cols["private key"] = append(cols["private key"], r.out[:32])
		}
	}
	for what, v := range cols {
		if len(v) < 16 {
			continue
		}
		for p := range v[0] {
			same := true
			for _, b := range v[1:] {
				if p >= len(b) || b[p] != v[0][p] {
					same = false
					break
				}
			}
			if same && !(what == "ephemeral key") {
				c.failf("constant", "byte %d of the %s is the same in all of %d operations", p, what, len(v))
			}
		}
		o.NonTrivial = true
	}
	// the same random bytes give the same result, whatever happened before
	for i, r := range res {
		if r.err != nil || r.op.F != nil || (i&3 != 0 && len(res) > 8) {
			continue
		}
		r2 := c.p10do(nil, r.op, sk)
		if r2.err != nil || !bytes.Equal(r.out, r2.out) || r2.used != r.used {
			c.failf("not-determined", "operation %d (%s) is not determined by the %d bytes of its random stream (again: %d bytes, %v)", i, r.op.Kind, r.used, r2.used, r2.err)
		}
		o.Evals++
	}
	c.ent.Default = base
	if len(res) > 1 {
		o.NonTrivial = true
	}
	for _, op := range s.Ops {
		c.shape(op.Kind, op.Sh, op.F != nil)
	}
	c.note(s)
	return o
}

func p10need(op *p10op) int {
	switch op.Kind {
	case "enc":
		return 32 + 32 + 32 + 12*len(op.Enc.Recips)
	case "store", "gen":
		return 32
	}
	return 0
}

func genP10(r *Rng, idx int, tier string) any {
	s := &p10{Sched: uint64(r.N(1 << 30)), Conc: r.P(3)}
	n := r.In(1, 6)
	long := r.P(6)
	if long {
		n = r.In(20, 40)
	}
	var last *Enc
	sh := r.P(4)
	kind := r.PickS("enc", "store", "gen")
	for i := 0; i < n; i++ {
		op := p10op{Kind: r.PickS("enc", "enc", "enc", "enc", "store", "gen"), Rand: uint64(r.N(1<<30))<<8 | uint64(i), Sh: sh}
		if long {
			op.Kind = kind
		}
		if op.Kind == "enc" {
			if last == nil || r.P(5) {
				last = genEnc(r, 6, 3, 20000)
				if last.Chunk == 0 || last.Chunk > 1<<20 {
					last.Chunk = uint64(chunkSizes[r.N(20)])
				}
				if long && r.P(2) {
					last.Recips = last.Recips[:1]
				}
				if last.PT.Len > 3000 {
					last.PT.Len = r.N(3000)
				}
				if last.Chunk < 16 && last.PT.Len > 200 {
					last.PT.Len = 200
				}
			}
			op.Enc = last
		}
		if r.P(5) && !long {
			op.F = &kernel.RandFault{Call: r.N(8), Kind: r.PickS("err", "eof", "part"), Once: r.P(3)}
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

// p10again: one context is asked to encrypt more than once.
type p10again struct {
	Enc   Enc    `json:"enc"`
	Calls []Op   `json:"calls"` // encrypt, stream, add
	Sched uint64 `json:"sched"`
}

func execP10again(sc any, x *Exec) *Outcome {
	s := sc.(*p10again)
	c := newCtx(s.Sched, 1000000, x)
	o := c.o
	e := s.Enc
	if len(e.Recips) == 0 || len(e.Recips) > 40 || e.PT.Len > 1<<16 || e.Chunk > 1<<20 || e.Chunk == 0 || len(s.Calls) > 8 {
		return o
	}
	var sk *sign.PrivateKey
	if e.Sender >= 0 {
		sk = c.key(e.Sender).Sk
	}
	for i := 0; i < 8; i++ {
		c.key(i)
	}
	var outs [][]byte
	var err error
	task := c.w.Go("again", func(t *Task) {
		t.Rand = kernel.NewRandom(kernel.Mix(s.Sched, 11))
		var en *sign.Encryptor
		if en, err = sign.NewEncryptor(sk, e.Chunk); err != nil {
			return
		}
		for _, r := range e.Recips {
			if err = en.AddRecipient(c.key(r).Pk); err != nil {
				return
			}
		}
		for i, op := range s.Calls {
			pt := PT{Len: mod(op.A, 3000), Kind: e.PT.Kind, Seed: e.PT.Seed + uint64(i)}.bytes()
			sink := &kernel.Sink{T: t, F: op.F}
			switch op.Op {
			case "encrypt":
				en.Encrypt(&kernel.Source{T: t, Data: pt, F: op.SF}, sink)
			case "stream":
				w, err := en.NewStreamWriter(sink)
				if err == nil {
					w.Write(pt)
					w.Close()
				}
			case "add":
				en.AddRecipient(c.key(mod(op.A, 8)).Pk)
			}
			if len(sink.Buf) > 0 {
				outs = append(outs, sink.Buf)
			}
		}
	})
	if h := c.run(); h != "" {
		c.failf("hang", "%s", h)
		return o
	}
	if task.Panic != nil {
		c.failf("panic", "%s\n%s", task.Panic.Val, task.Panic.Stack)
		return o
	}
	if err != nil {
		c.failf("error", "%s", err)
		return o
	}
	o.Evals++
	o.NonTrivial = true
	c.shape(len(outs), opShape(s.Calls))
	seen := map[string]int{}
	type sess struct {
		out int
		op  *ref.Opener
	}
	var keys []sess
	for i, b := range outs {
		h := headLen(b)
		if h == 0 {
			// cut off in the header, or never had one
			h = len(b)
			if !bytes.HasPrefix(b, []byte(ref.Magic)[:min(len(b), len(ref.Magic))]) {
				h = 0
			}
		}
		if h >= len(b) {
			// Nothing after the header: no data was encrypted under its
			// secrets, and a caller may try again to write that header.
			continue
		}
		// do its chunks open with the keys of another output?
		for rest, k := b[h:], uint32(0); len(rest) >= 20; k++ {
			f := ref.Frame{Len: binary.BigEndian.Uint32(rest)}
			if len(rest) < 4+f.N()+16 {
				break
			}
			f.CT = rest[4 : 4+f.N()+16]
			rest = rest[4+f.N()+16:]
			for _, s2 := range keys {
				if _, err := s2.op.Open(k, f); err == nil {
					c.failf("reuse", "chunk %d of output %d of one context is sealed with the keys of output %d (calls %+v)", k, i, s2.out, s.Calls)
					return o
				}
			}
		}
		if h == 0 {
			continue
		}
		hd, err := ref.DecodeHeader(b[12 : h-32])
		if err != nil {
			continue
		}
		vals := map[string][]byte{"salt": hd.Salt, "ephemeral key": hd.Pk}
		for _, w := range hd.Keys {
			if k, _, err := ref.Unwrap(hd, w, c.key(e.Recips[0]).Ed); err == nil {
				vals["file key"] = k
				keys = append(keys, sess{i, ref.Derive(k, b[h-32:h]).Opener()})
			}
		}
		for what, v := range vals {
			if j, ok := seen[what+string(v)]; ok {
				c.failf("reuse", "outputs %d and %d of one context share the %s (calls %+v)", j, i, what, s.Calls)
				return o
			}
			seen[what+string(v)] = i
		}
	}
	return o
}

func genP10again(r *Rng, idx int, tier string) any {
	s := &p10again{Enc: smallEnc(r), Sched: uint64(r.N(1 << 30))}
	for n := r.In(2, 4); n > 0; n-- {
		op := Op{Op: r.PickS("encrypt", "encrypt", "stream", "stream", "add"), A: r.N(300)}
		if r.P(3) {
			op.F = genFault(r, 800, true)
		}
		if r.P(4) {
			op.SF = genFault(r, 300, false)
		}
		s.Calls = append(s.Calls, op)
	}
	return s
}

var p10fam = &runner.Family{Name: "fresh", Weight: 1, Gen: genP10, New: func() any { return &p10{} }, Exec: execP10}

func init() {
	runner.Register(&runner.Prop{
		ID:       "P10",
		Families: []*runner.Family{p10fam, {Name: "again", Weight: 1, Gen: genP10again, New: func() any { return &p10again{} }, Exec: execP10again}},
		Rule:     "again: one encryption context is asked several times for an encryption, also after failures of source or sink; no two outputs may share a key or salt. fresh: 1 to 40 encryptions, key stores and key generations with equal inputs in one process, in sequence or interleaved, each with its own simulated random stream (possibly short-reading or failing at a random call); secrets are extracted with the reference and compared across operations and byte positions, and operations are repeated with the same stream. Non-trivial: more than one operation, or a failure of the random source was delivered.",
		Real:     libReal, Stub: libStub, Level: "exploration", Quick: 40, Thorough: 900,
	})
}

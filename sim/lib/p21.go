package lib

import (
	"fmt"
	"io"
	"runtime"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P21: data of any length go through in bounded memory, and chunk by chunk.

// Slack is what an implementation may hold back or fetch ahead besides two
// chunks: buffered readers and writers are fine.
const p21slack = 64 << 10

type p21 struct {
	Op    string `json:"op"` // enc, dec
	Enc   Enc    `json:"enc"`
	Dec   Dec    `json:"dec"`
	Sched uint64 `json:"sched"`
}

// asker looks at the state of affairs whenever more input is asked for.
type asker struct {
	r   io.Reader
	n   int
	ask func(n int)
}

func (a *asker) Read(b []byte) (int, error) {
	if len(b) > 0 {
		a.ask(a.n)
	}
	n, err := a.r.Read(b)
	a.n += n
	return n, err
}

func execP21(sc any, x *Exec) *Outcome {
	s := sc.(*p21)
	c := newCtx(s.Sched, 3000000, x)
	o := c.o
	e := s.Enc
	if len(e.Recips) == 0 || len(e.Recips) > 20 || e.Chunk < 64 || e.Chunk > 64<<10 || e.PT.Len > 4<<20 {
		return o
	}
	C := int(e.Chunk)
	checked := 0
	held := func(what string, in, out, need int) {
		if need <= 0 {
			return
		}
		checked++
		if out < need {
			c.failf("held-back", "%s: more input is asked for after %d bytes of it, when only %d bytes were passed on (chunk size %d, stream %v)", what, in, out, C, s.Enc.Stream)
		}
	}
	pt := e.PT.bytes()
	var t *Task
	var err error
	sink := &kernel.Sink{NoYield: true}
	if s.Op == "enc" {
		t = c.w.Go("enc", func(t *Task) {
			t.Rand = kernel.NewRandom(kernel.Mix(e.Rand, 9))
			sink.T = t
			if !e.Stream {
				src := &asker{r: e.Src.open(t, pt)}
				src.ask = func(n int) { held("encrypt", n, len(sink.Buf), n-2*C-p21slack) }
				err = c.encrypt(&e, nil, src, sink)
				return
			}
			var sk *sign.PrivateKey
			if e.Sender >= 0 {
				sk = c.key(e.Sender).Sk
			}
			en, er := sign.NewEncryptor(sk, e.Chunk)
			if err = er; err != nil {
				return
			}
			for _, r := range e.Recips {
				if err = en.AddRecipient(c.key(r).Pk); err != nil {
					return
				}
			}
			w, er := en.NewStreamWriter(sink)
			if err = er; err != nil {
				return
			}
			fr := kernel.NewFrag(e.Wr)
			for at := 0; at < len(pt); {
				held("stream write", at, len(sink.Buf), at-2*C-p21slack)
				n := fr.Next(len(pt) - at)
				if _, err = w.Write(pt[at : at+n]); err != nil {
					return
				}
				at += n
			}
			err = w.Close()
		})
	} else {
		raw, _, perr := c.produce(&e)
		if perr != nil {
			return o
		}
		f, perr := ref.Parse(raw)
		if perr != nil {
			return o // P16
		}
		ends := []int{f.HdrLen}
		for _, fr := range f.Frames {
			ends = append(ends, ends[len(ends)-1]+4+len(fr.CT))
		}
		// plaintext of the chunks that end before n
		done := func(n int) int {
			z := 0
			for i, fr := range f.Frames {
				if ends[i+1] > n {
					break
				}
				z += fr.N()
			}
			return z
		}
		last := -1 << 30
		t = c.w.Go("dec", func(t *Task) {
			sink.T = t
			d := s.Dec
			d.Key = e.Recips[mod(d.Key, len(e.Recips))]
			d.Sender = e.Sender
			src := &asker{r: d.Src.open(t, raw)}
			src.ask = func(n int) {
				if n-last >= C/2 || n == len(raw) {
					last = n
					held("decrypt", n, len(sink.Buf), done(n-p21slack)-2*C)
				}
			}
			res := c.decrypt(&d, src, sink)
			err = res.Err
			if res.Pan != nil {
				c.failf("panic", "%s\n%s", res.Pan.Val, res.Pan.Stack)
			}
		})
	}
	stall := c.run()
	o.Evals += checked
	o.NonTrivial = checked > 0
	c.shape(s.Op, e.Stream, s.Dec.Stream, C, checked > 0, errClass(err))
	switch {
	case t.Panic != nil:
		c.failf("panic", "%s\n%s", t.Panic.Val, t.Panic.Stack)
	case stall != "":
		c.failf("stall", "%s", stall)
	case err != nil:
		c.failf("refused", "%s of %d bytes fails: %s", s.Op, len(pt), err)
	}
	return o
}

func genP21(r *Rng, idx int, tier string) any {
	s := &p21{Op: r.PickS("enc", "dec"), Sched: uint64(r.N(1 << 30))}
	s.Enc = smallEnc(r)
	s.Enc.Chunk = uint64(r.Pick(64, 100, 512, 1000, 1024, 4096, 10000, 32768, 65536))
	s.Enc.PT = PT{Len: p21slack + int(s.Enc.Chunk)*r.In(2, 10) + r.In(0, 100000), Kind: r.Pick(0, 2), Seed: uint64(r.N(1000))}
	big := func() kernel.Frag {
		return kernel.Frag{Mode: r.Pick(0, 3, 5, 6), Seed: uint64(r.N(1000)), Size: r.Pick(100, 512, int(s.Enc.Chunk), int(s.Enc.Chunk)+20, 4096, 70000)}
	}
	s.Enc.Src.Frag, s.Enc.Wr = big(), big()
	s.Dec = Dec{Key: r.N(8), Stream: r.P(2), Rd: big(), Src: Src{Frag: big(), EOFWith: r.P(2)}}
	if r.P(3) {
		// many more bytes than any buffer
		s.Enc.PT.Len += r.N(1 << 20)
	}
	return s
}

// p21mem: an encryption and a decryption joined by a pipe, and a long stream.
type p21mem struct {
	EncStream bool   `json:"encStream,omitempty"`
	DecStream bool   `json:"decStream,omitempty"`
	Chunk     int    `json:"chunk"`
	Sender    bool   `json:"sender,omitempty"`
	Recips    int    `json:"recips"`
	MiB       int    `json:"mib"`
	Piece     int    `json:"piece"` // of stream reads and writes
	Cap       int    `json:"cap"`
	Sched     uint64 `json:"sched"`
}

type zeros struct{ left int }

func (z *zeros) Read(b []byte) (int, error) {
	if z.left == 0 {
		return 0, io.EOF
	}
	n := min(len(b), z.left)
	clear(b[:n])
	z.left -= n
	return n, nil
}

type nopClose struct{ io.Writer }

func (nopClose) Close() error { return nil }

type memProbe struct {
	n, next   int
	base, max uint64
}

func (p *memProbe) Write(b []byte) (int, error) {
	p.n += len(b)
	for p.n >= p.next {
		p.next += 2 << 20
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if p.base == 0 {
			p.base = m.HeapAlloc
		}
		p.max = max(p.max, m.HeapAlloc)
	}
	return len(b), nil
}

func execP21mem(sc any, x *Exec) *Outcome {
	s := sc.(*p21mem)
	c := newCtx(s.Sched, 30000000, x)
	o := c.o
	if s.Chunk < 32 || s.Chunk > 1<<20 || s.MiB < 8 || s.MiB > 5000 || s.MiB > 256 && s.Chunk < 1<<19 || s.Recips < 1 || s.Recips > 50 || s.Piece < 256 || s.Piece > 4<<20 || s.Cap < 4096 || s.Cap > 1<<20 {
		return o
	}
	total := s.MiB << 20
	for i := 0; i < s.Recips; i++ {
		c.key(i)
	}
	var sk *sign.PrivateKey
	var spk *sign.PublicKey
	if s.Sender {
		sk, spk = c.key(50).Sk, c.key(50).Pk
	}
	pipe := &kernel.Pipe{Cap: s.Cap, CutAt: -1}
	probe := &memProbe{next: 2 << 20}
	var eerr, derr error
	te := c.w.Go("enc", func(t *Task) {
		t.Rand = kernel.NewRandom(9)
		w := kernel.PipeW{P: pipe, T: t}
		defer w.Close()
		en, err := sign.NewEncryptor(sk, uint64(s.Chunk))
		if eerr = err; err != nil {
			return
		}
		for i := 0; i < s.Recips; i++ {
			if eerr = en.AddRecipient(c.key(i).Pk); eerr != nil {
				return
			}
		}
		if !s.EncStream {
			eerr = en.Encrypt(&zeros{total}, nopClose{w})
			return
		}
		sw, err := en.NewStreamWriter(nopClose{w})
		if eerr = err; err != nil {
			return
		}
		b := make([]byte, s.Piece)
		for left := total; left > 0; {
			n := min(left, len(b))
			if _, eerr = sw.Write(b[:n]); eerr != nil {
				return
			}
			left -= n
		}
		eerr = sw.Close()
	})
	td := c.w.Go("dec", func(t *Task) {
		r := kernel.PipeR{P: pipe, T: t}
		defer r.CloseRead()
		de, err := sign.NewDecryptor(r)
		if derr = err; err != nil {
			return
		}
		if derr = de.SetPrivateKey(c.key(0).Sk, spk); derr != nil {
			return
		}
		if !s.DecStream {
			derr = de.Decrypt(probe)
			return
		}
		sr, err := de.NewStreamReader()
		if derr = err; err != nil {
			return
		}
		b := make([]byte, s.Piece)
		for {
			n, err := sr.Read(b)
			probe.Write(b[:n])
			if err == io.EOF {
				return
			}
			if derr = err; err != nil {
				return
			}
		}
	})
	stall := c.run()
	o.Evals++
	o.NonTrivial = true
	c.shape("mem", s.EncStream, s.DecStream, s.Sender, lenClass(s.Chunk))
	for _, t := range []*Task{te, td} {
		if t.Panic != nil {
			c.failf("panic", "%s\n%s", t.Panic.Val, t.Panic.Stack)
			return o
		}
	}
	switch {
	case stall != "":
		c.failf("stall", "%s", stall)
	case eerr != nil || derr != nil:
		c.failf("refused", "a stream of %d MiB fails: %v, %v", s.MiB, eerr, derr)
	case probe.n != total:
		c.failf("length", "%d of %d bytes came through", probe.n, total)
	default:
		// buffers may be made late or grow; what is kept of the data shows
		if lim := uint64(16*s.Chunk + 3<<20); probe.max > probe.base+lim {
			c.failf("memory", "while %d MiB are encrypted and decrypted in chunks of %d bytes, the memory in use grows by %d KiB", s.MiB, s.Chunk, (probe.max-probe.base)>>10)
		}
		o.Probe(fmt.Sprintf("memory-growth-below-%dMiB", ((max(probe.max, probe.base)-probe.base)>>20)+1))
	}
	return o
}

func genP21mem(r *Rng, idx int, tier string) any {
	s := &p21mem{EncStream: r.P(2), DecStream: r.P(2), Sender: r.P(2), Recips: r.In(1, 5), Sched: uint64(r.N(1 << 30))}
	s.Chunk = r.Pick(512, 1000, 4096, 16384, 65536, 131072, 1<<20)
	s.Piece = r.Pick(1000, 4096, 65536, 1<<20)
	s.Cap = r.Pick(16384, 65536, 1<<20)
	s.MiB = 16
	if r.P(6) {
		// what is kept of each chunk shows with many of them
		s.Chunk, s.MiB, s.Cap = r.Pick(32, 48, 64), r.In(8, 12), 1<<20
	}
	if s.Chunk >= 1<<20 {
		s.MiB = 48
	}
	if tier == "thorough" && r.P(4) {
		s.MiB *= 4
	}
	if tier == "thorough" && idx < 2 {
		// more than 32 bits can count
		s.EncStream, s.DecStream = idx == 0, idx == 0
		s.Chunk, s.Piece, s.Cap, s.MiB = 1<<20, 1<<20, 1<<20, 4100
	}
	return s
}

func init() {
	runner.Register(&runner.Prop{
		ID: "P21",
		Families: []*runner.Family{
			{Name: "progress", Weight: 12, Gen: genP21, New: func() any { return &p21{} }, Exec: execP21},
			{Name: "memory", Weight: 1, Directed: 2, Gen: genP21mem, New: func() any { return &p21mem{} }, Exec: execP21mem},
		},
		Rule: "progress: one simulated encryption or decryption (one-shot or stream) whose input asks for an account each time more of it is wanted: what came before must have been passed on, but for two chunks and 64 KiB. memory: an encryption and a decryption joined by a bounded pipe pass 16 to 192 MiB; the live memory is measured after a collection every 2 MiB and must not grow with the data. commands: encrypt and decrypt commands fed by a pipe, judged at each read(2) of it. Non-trivial: at least one judgement was made after more data than may be held back.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 30, Thorough: 600,
		Assume: []string{"chunk sizes of at most 1 MiB; memory is that of the library's heap, not of files mapped for signing"},
	})
}

package lib

import (
	"bytes"
	"io"
	"runtime/debug"

	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P01: whatever is encrypted successfully can be decrypted by every recipient.
type p01 struct {
	Enc   Enc         `json:"enc"`
	NRec  int         `json:"nrec,omitempty"` // >0: that many recipients, from the pool
	Decs  []Dec       `json:"decs"`           // Key is an index into the recipients
	Piped bool        `json:"piped,omitempty"`
	Cap   int         `json:"cap,omitempty"`
	PFrag kernel.Frag `json:"pfrag"`
	Sched uint64      `json:"sched"`
	Big   bool        `json:"big,omitempty"`
	First uint32      `json:"first,omitempty"` // number of the first chunk
}

func (s *p01) recips() []int {
	if s.NRec <= 0 {
		return s.Enc.Recips
	}
	v := make([]int, s.NRec)
	for i := range v {
		v[i] = i % 61
	}
	// the last one is unique
	v[s.NRec-1] = 97
	return v
}

var p01directed = []func(r *Rng) *p01{}

func init() {
	add := func(f func(r *Rng) *p01) { p01directed = append(p01directed, f) }
	simple := func(chunk uint64, n int, stream bool, sender int, rec ...int) func(r *Rng) *p01 {
		return func(r *Rng) *p01 {
			s := &p01{Enc: Enc{Stream: stream, Chunk: chunk, Sender: sender, Recips: rec, PT: PT{Len: n, Seed: 5}}}
			for i := range rec {
				s.Decs = append(s.Decs, Dec{Stream: (i & 1) == 0, Key: i, Rd: kernel.Frag{Mode: 5, Size: 777}})
				s.Decs = append(s.Decs, Dec{Stream: (i & 1) == 1, Key: i, Rd: kernel.Frag{Mode: 5, Size: 777}})
			}
			return s
		}
	}
	// the largest block sizes
	for _, c := range []uint64{1 << 30, 1<<30 + 1, 1 << 40} {
		f := simple(c, 1000, c == 1<<30+1, 51, 3)
		add(func(r *Rng) *p01 { s := f(r); s.Big = true; s.Decs = s.Decs[:1]; return s })
	}
	add(simple(1<<30-1, 10, false, -1, 3))
	add(simple(1<<64-1, 0, false, -1, 2))
	// more chunks than 8 and 16 bits can count
	add(simple(1, 66000, false, 50, 1))
	add(simple(1, 66000, true, -1, 1))
	add(simple(1, 257, true, 50, 1))
	add(simple(2, 513, false, 50, 1))
	add(simple(16, 16*256, false, 50, 4, 5))
	add(simple(16, 16*65537, false, -1, 4))
	// chunks larger than 16 MB
	add(simple(1<<24+5, 1<<24+9, false, -1, 4))
	add(simple(1<<25, 1<<24+1, true, 52, 4))
	// default block size
	add(simple(0, 0, false, -1, 4))
	add(simple(0, 4*1048576, false, 50, 4))
	add(simple(0, 4*1048576+1, true, 50, 4))
	add(simple(0, 3*4*1048576, true, -1, 4))
	// numbers of recipients
	for _, n := range []int{0, 1, 2, 3, 16, 17, 127, 128, 129, 255, 256, 257, 300, 500, 1000, 4096} {
		n := n
		add(func(r *Rng) *p01 {
			s := simple(1024, 3000, n&1 == 0, -1, 1)(r)
			s.Decs = nil
			if n == 0 {
				s.Enc.Recips = nil
			}
			s.NRec = n
			for _, k := range []int{0, n / 2, n - 1} {
				s.Decs = append(s.Decs, Dec{Key: k, Stream: k&1 == 0, Rd: kernel.Frag{Mode: 5, Size: 500}})
			}
			return s
		})
	}
	// around the header limit
	for _, n := range []int{15860, 15880, 15884, 15885, 15886, 15890, 16384, 17000, 32768} {
		n := n
		add(func(r *Rng) *p01 {
			s := simple(1024, 100, n&1 == 0, -1, 1)(r)
			s.Decs = []Dec{{Key: n - 1, Stream: true, Rd: kernel.Frag{Mode: 5, Size: 500}}}
			s.NRec = n
			return s
		})
	}
	// the same recipient many times; sender is also the recipient
	add(simple(64, 1000, false, 7, 7))
	add(simple(64, 1000, true, 7, 7, 7, 8, 7))
	// every length around the chunk boundaries for small chunks
	for c := uint64(1); c <= 9; c++ {
		for n := 0; n <= 3*int(c)+1; n++ {
			add(simple(c, n, n&1 == 0, 49+int(c)%3, 2))
			add(simple(c, n, n&1 == 1, -1, 2))
		}
	}
}

func genP01(r *Rng, idx int, tier string) any {
	if idx < len(p01directed) {
		s := p01directed[idx](r)
		s.Sched = uint64(idx)
		return s
	}
	max := 120000
	chunks := 40
	if r.P(30) {
		max, chunks = 6<<20, 400
	}
	g := genEnc(r, 9, chunks, max)
	if g.Chunk > 40000 && g.Chunk <= 1<<20 && r.P(2) {
		g.PT.Len = genLen(r, g.Chunk, 5, 3<<20)
	}
	s := &p01{Enc: *g, Sched: uint64(r.N(1 << 30)), Piped: r.P(2)}
	if r.P(10) {
		s.NRec = r.Pick(20, 50, 100, 200)
	}
	if r.P(12) && len(s.Enc.Recips) > 1 {
		s.Enc.Recips[0] = s.Enc.Recips[len(s.Enc.Recips)-1]
	}
	if s.Piped {
		s.Cap = r.Pick(1, 7, 64, 512, 4096, 65536)
		s.PFrag = fragFor(r, s.Enc.PT.Len)
		if s.Enc.PT.Len > 8000 && s.Cap < 512 {
			s.Cap = 4096
		}
	}
	if r.P(5) {
		s.First = genFirst(r, 1<<23)
	}
	n := len(s.recips())
	k := min(n, 4)
	for i := 0; i < k; i++ {
		w := i
		if n > 4 {
			w = r.N(n)
		}
		d := genDec(r, w, 0, s.Enc.PT.Len)
		if r.P(4) {
			d.Rd = chunkFrag(r, int(min(s.Enc.Chunk, 1<<20)))
		}
		s.Decs = append(s.Decs, *d)
	}
	return s
}

// tee writes to memory and to a pipe.
type tee struct {
	mem bytes.Buffer
	w   io.WriteCloser
}

func (t *tee) Write(b []byte) (int, error) {
	n, err := t.w.Write(b)
	t.mem.Write(b[:n])
	return n, err
}
func (t *tee) Close() error { return t.w.Close() }

func execP01(sc any, x *Exec) *Outcome {
	s := sc.(*p01)
	c := newCtx(s.Sched, 6000000, x)
	c.first(s.First)
	defer setFirst(0)
	o := c.o
	if s.Big {
		defer debug.FreeOSMemory()
	}
	e := s.Enc
	e.Recips = s.recips()
	if e.PT.Len > 1<<28 {
		e.PT.Len = 1 << 28
	}
	pt := e.PT.bytes()

	var encErr error
	var file []byte
	var piped *decResult
	var pout memSink
	var pd Dec
	src := e.Src
	src.F = nil
	var sink kernel.Sink
	te := &tee{}
	pipe := &kernel.Pipe{Cap: max(1, s.Cap), Frag: s.PFrag, CutAt: -1}
	// keys are made before the tasks start
	for _, r := range e.Recips {
		c.key(r)
	}
	if e.Sender >= 0 {
		c.key(e.Sender)
	}
	finished := false
	enc := c.w.Go("enc", func(t *Task) {
		t.Rand = kernel.NewRandom(kernel.Mix(e.Rand, 10))
		t.Rand.T = t
		t.Rand.Short = e.Rand%3 == 0
		rd := src.open(t, pt)
		var wr io.WriteCloser = &sink
		sink.T = t
		if s.Piped {
			te.w = kernel.PipeW{P: pipe, T: t}
			wr = te
		}
		encErr = c.encrypt(&e, pt, rd, wr)
		if s.Piped {
			if encErr != nil {
				wr.Close()
			}
			file = te.mem.Bytes()
		} else {
			file = sink.Buf
		}
		finished = true
	})
	if s.Piped && len(s.Decs) > 0 && len(e.Recips) > 0 {
		pd = s.Decs[0]
		pd.Key = e.Recips[mod(pd.Key, len(e.Recips))]
		pd.Sender = e.Sender
		c.w.Go("dec", func(t *Task) {
			rd := kernel.PipeR{P: pipe, T: t}
			piped = c.decrypt(&pd, rd, &pout)
			if piped.Err == nil {
				// drain: nothing may follow the end of the file
				io.Copy(io.Discard, rd)
			}
			rd.CloseRead()
		})
	} else if s.Piped {
		c.w.Go("drain", func(t *Task) { io.Copy(io.Discard, kernel.PipeR{P: pipe, T: t}) })
	}
	stall := c.run()
	c.shape(e.Stream, e.Chunk, lenClass(e.PT.Len), len(e.Recips), e.Sender >= 0, s.Piped, encErr != nil)
	o.Evals++
	if stall != "" {
		c.failf("stall", "encrypting %d bytes: %s", len(pt), stall)
		return o
	}
	if enc.Panic != nil {
		c.failf("panic", "encrypt: %s\n%s", enc.Panic.Val, enc.Panic.Stack)
		return o
	}
	// the size the header has in the documented format
	h := &ref.Header{ChunkSize: 1 << 30, Salt: make([]byte, 32), Pk: make([]byte, 32), Sender: make([]byte, 80)}
	w := ref.WKey{DKey: make([]byte, 48), Nonce: make([]byte, 12)}
	for range e.Recips {
		h.Keys = append(h.Keys, w)
	}
	fits := len(h.Encode()) <= ref.MaxHeader
	if encErr != nil || !finished {
		if len(e.Recips) > 0 && fits {
			c.failf("refused", "encrypting %d bytes in blocks of %d to %d recipients failed: %v", len(pt), e.Chunk, len(e.Recips), encErr)
		}
		o.Probe("refused-impossible-request")
		return o
	}
	if len(e.Recips) == 0 {
		c.failf("undecryptable", "encrypting to no recipients reported success")
		return o
	}
	if !s.Piped && sink.Closed != 1 {
		c.failf("not-closed", "encrypt succeeded but closed its output %d times", sink.Closed)
	}
	o.NonTrivial = true
	check := func(what string, d *Dec, res *decResult, out []byte) {
		o.Evals++
		switch {
		case res.Pan != nil:
			c.failf("panic", "%s: %s\n%s", what, res.Pan.Val, res.Pan.Stack)
		case res.Err != nil:
			c.failf("undecryptable", "%s: recipient %d of %d can't decrypt (%d bytes in blocks of %d, sender %v): %s", what, d.Key, len(e.Recips), len(pt), e.Chunk, e.Sender >= 0, res.Err)
		case !bytes.Equal(out, pt):
			c.failf("wrong-plaintext", "%s: got %d bytes %s, want %d bytes %s", what, len(out), short(out), len(pt), short(pt))
		case res.Auth != (e.Sender >= 0):
			c.failf("auth-flag", "%s: AuthenticatedSender() is %v, sender used: %v", what, res.Auth, e.Sender >= 0)
		}
	}
	if piped != nil {
		check("piped", &pd, piped, pout.Bytes())
		o.Probe("piped-ok")
	}
	c.w.HashBytes(file)
	// all others, concurrently, from the stored file
	c.world(kernel.Mix(s.Sched, 2), 6000000)
	type job struct {
		d   Dec
		res *decResult
		out memSink
	}
	jobs := make([]*job, len(s.Decs))
	for i := range s.Decs {
		j := &job{d: s.Decs[i]}
		jobs[i] = j
		j.d.Key = e.Recips[mod(j.d.Key, len(e.Recips))]
		j.d.Sender = e.Sender
		j.d.Src.F = nil
		c.w.Go("dec", func(t *Task) {
			j.res = c.decrypt(&j.d, j.d.Src.open(t, file), &j.out)
		})
	}
	if stall := c.run(); stall != "" {
		c.failf("stall", "decrypting: %s", stall)
		return o
	}
	for i, j := range jobs {
		if j.res == nil {
			c.failf("panic", "decrypt %d did not finish", i)
			continue
		}
		check("stored", &j.d, j.res, j.out.Bytes())
	}
	if len(e.Recips) > 200 {
		o.Probe("many-recipients")
	}
	if e.Chunk > 0 && uint64(len(pt))/e.Chunk > 65536 {
		o.Probe("more-than-65536-chunks")
	}
	return o
}

func init() {
	runner.Register(&runner.Prop{
		ID: "P01",
		Families: []*runner.Family{{
			Name: "roundtrip", Weight: 1, Directed: len(p01directed), Gen: genP01,
			New: func() any { return &p01{} }, Exec: execP01,
		}},
		Rule: "A case is one simulated execution: an encryptor task (one-shot or streaming) fed by a fragmenting source, optionally piped through a bounded channel into a concurrently scheduled decryptor task, then all sampled recipients decrypting the stored file as interleaved tasks. Non-trivial: the encryption succeeded and at least one recipient's plaintext was compared; distinct: by hash of the event log.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900,
		Assume: []string{"readers and writers obey the io.Reader/io.Writer contracts (no short write without error)", "block sizes above 32 MB are exercised with small plaintexts only"},
	})
}

var libReal = []string{"github.com/opencoff/sigtool/sign (working tree)", "github.com/opencoff/sigtool/internal/pb", "Go crypto, x/crypto (scrypt cost reduced unless stated)"}
var libStub = []string{"input and output streams", "system random source (crypto/rand.Reader)", "task scheduler", "scrypt (cheap memory-hard function with the same interface) where key files are involved"}

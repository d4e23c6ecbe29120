// Package lib is the library world: sigtool's sign package runs inside the
// simulator, with simulated streams, random source and task schedule.
package lib

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"io"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

type (
	Rng     = kernel.Rng
	Outcome = runner.Outcome
	Exec    = runner.Exec
	Task    = kernel.Task
)

// KP is a key pair as the library and the reference see it.
type KP struct {
	Sk *sign.PrivateKey
	Pk *sign.PublicKey
	Ed ed25519.PrivateKey
}

func (k *KP) EdPk() []byte { return k.Ed[32:] }

// ctx is one simulated execution in the library world.
type ctx struct {
	w    *kernel.World
	ent  *kernel.Entropy
	o    *Outcome
	x    *Exec
	keys map[int]*KP
	seed uint64
}

func newCtx(seed uint64, steps int, x *Exec) *ctx {
	c := &ctx{seed: seed, x: x, o: &Outcome{}, keys: map[int]*KP{}}
	c.world(seed, steps)
	c.first(0)
	return c
}

// world starts a new simulated world within the same execution.
func (c *ctx) world(seed uint64, steps int) {
	c.w = kernel.NewWorld(seed, steps)
	c.w.KeepTr = c.x.Trace
	c.ent = &kernel.Entropy{W: c.w, Default: kernel.NewRandom(kernel.Mix(seed, 1))}
	rand.Reader = c.ent
}

// run runs the tasks of the current world and books its counters.
func (c *ctx) run() string {
	s := c.w.Run()
	c.o.AddWorld(c.w)
	c.w.Faults, c.w.Probes, c.w.Trace = map[string]int{}, map[string]int{}, nil
	c.w.Steps = 0
	return s
}

func (c *ctx) failf(kind, f string, v ...any) { c.o.Fail(kind, fmt.Sprintf(f, v...)) }

// twins are pairs of seeds (see rareSeeds) whose public keys begin (the first
// 5 pairs) or end (the next 5) with the same bytes, or whose hashes begin with
// the same.
var twins = []uint64{
	23049958, 14614545, 6591727, 8905645, 3290437, 1121707, 147578, 112993, 234495, 316440,
	19498496, 23794103, 184431, 1983607, 2499439, 3665514, 307748, 138517, 343183, 23559,
	19417621, 11147063, 1121328, 4695628, 1810576, 2429350, 30184, 264911, 360251, 247320,
}

// edKey derives the raw key number i. Numbers 0 and 2, 1 and 3, 5 and 6 look
// alike in these ways, and 7 has an odd coordinate.
func edKey(i int) ed25519.PrivateKey {
	seed := kernel.Mix(uint64(i), 0xed25519)
	if i >= 0 && i < 8 && i != 4 {
		seed = kernel.Mix([]uint64{twins[0], twins[10], twins[1], twins[11], 0, twins[20], twins[21], uint64(rareU)}[i], 0x5eed19)
	}
	return ed25519.NewKeyFromSeed(kernel.NewRng(seed).Bytes(32))
}

// key returns key pair number i. Numbers select the way the key came to be:
// OpenSSH file (most, it needs no key derivation), or generated.
func (c *ctx) key(i int) *KP {
	if k := c.keys[i]; k != nil {
		return k
	}
	ed := edKey(i)
	var sk *sign.PrivateKey
	var err error
	if i%5 == 4 {
		// generated from a known random stream
		old := rand.Reader
		rand.Reader = kernelReader(i)
		sk, err = sign.NewPrivateKey()
		rand.Reader = old
		if err == nil {
			ed = append([]byte{}, sk.Sk...)
		}
	} else {
		sk, err = sign.MakePrivateKey(ref.SSHKeyFile(ed, &ref.SSHOpts{Cipher: "none", Check: uint32(i), Comment: "k"}), nil)
		if err != nil {
			// P16 decides whether that is right; here any key will do
			old := rand.Reader
			rand.Reader = kernelReader(i)
			if sk, err = sign.NewPrivateKey(); err == nil {
				ed = append([]byte{}, sk.Sk...)
			}
			rand.Reader = old
		}
	}
	if err != nil {
		panic(fmt.Sprintf("HARNESS: can't make key %d: %s", i, err))
	}
	k := &KP{Sk: sk, Pk: sk.PublicKey(), Ed: ed}
	if i%3 == 1 {
		if pk, err := sign.MakePublicKey([]byte(ref.SSHPub(ed[32:], "user@host"))); err == nil {
			k.Pk = pk
		}
	} else if i%3 == 2 {
		if pk, err := sign.MakePublicKey(ref.PubFile(ed[32:], "")); err == nil {
			k.Pk = pk
		}
	}
	c.keys[i] = k
	return k
}

type rdr struct{ r *kernel.Rng }

func (r rdr) Read(b []byte) (int, error) { r.r.Fill(b); return len(b), nil }

func kernelReader(i int) io.Reader { return rdr{kernel.NewRng(kernel.Mix(uint64(i), 0x4e77))} }

// call runs fn and turns a panic of the code under test into pi.
func call(fn func() error) (err error, pi *kernel.PanicInfo) {
	defer func() {
		if e := recover(); e != nil {
			if kernel.IsKilled(e) {
				panic(e)
			}
			pi = kernel.NewPanic(e)
			err = errors.New("panic: " + pi.Val)
		}
	}()
	return fn(), nil
}

// PT describes a plaintext.
type PT struct {
	Len  int    `json:"len"`
	Kind int    `json:"kind,omitempty"` // 0 random, 1 zeros, 2 same 16 bytes again and again, 3 looks like an encrypted file
	Seed uint64 `json:"seed,omitempty"`
}

func (p PT) bytes() []byte {
	n := p.Len
	if n < 0 {
		n = 0
	}
	b := make([]byte, n)
	switch p.Kind {
	case 1:
	case 2:
		pat := kernel.NewRng(kernel.Mix(p.Seed, 3)).Bytes(16)
		for i := range b {
			b[i] = pat[i%16]
		}
	case 3:
		kernel.NewRng(kernel.Mix(p.Seed, 3)).Fill(b)
		copy(b, "SigTool\x03\x00\x00\x00\x40")
	default:
		kernel.NewRng(kernel.Mix(p.Seed, 3)).Fill(b)
	}
	return b
}

// Src describes how a reader delivers its bytes.
type Src struct {
	Frag    kernel.Frag   `json:"frag"`
	EOFWith bool          `json:"eofwith,omitempty"`
	F       *kernel.Fault `json:"fault,omitempty"`
}

func (s Src) open(t *Task, data []byte) *kernel.Source {
	return &kernel.Source{T: t, Data: data, Frag: s.Frag, EOFWith: s.EOFWith, F: s.F}
}

// Enc describes one encryption.
type Enc struct {
	Stream bool        `json:"stream,omitempty"`
	Chunk  uint64      `json:"chunk"`
	Sender int         `json:"sender"` // key number, -1: none
	Recips []int       `json:"recips"`
	PT     PT          `json:"pt"`
	Src    Src         `json:"src"`
	Wr     kernel.Frag `json:"wr"` // sizes of stream writes
	Rand   uint64      `json:"rand,omitempty"`
}

// encrypt runs e against wr with the plaintext from rd (one-shot) or pt (stream).
func (c *ctx) encrypt(e *Enc, pt []byte, rd io.Reader, wr io.WriteCloser) error {
	var sk *sign.PrivateKey
	if e.Sender >= 0 {
		sk = c.key(e.Sender).Sk
	}
	en, err := sign.NewEncryptor(sk, e.Chunk)
	if err != nil {
		return err
	}
	for _, r := range e.Recips {
		if err := en.AddRecipient(c.key(r).Pk); err != nil {
			return err
		}
	}
	if !e.Stream {
		return en.Encrypt(rd, wr)
	}
	w, err := en.NewStreamWriter(wr)
	if err != nil {
		return err
	}
	fr := kernel.NewFrag(e.Wr)
	for rest := pt; len(rest) > 0; {
		n := fr.Next(len(rest))
		// the caller is free to reuse its buffer after Write returns
		b := append([]byte{}, rest[:n]...)
		m, err := w.Write(b)
		if err != nil {
			return err
		}
		if m != n {
			return fmt.Errorf("stream write accepted %d of %d bytes without error", m, n)
		}
		for i := range b {
			b[i] ^= 0xa5
		}
		rest = rest[n:]
	}
	return w.Close()
}

// Dec describes one decryption.
type Dec struct {
	Stream bool        `json:"stream,omitempty"`
	Key    int         `json:"key"`
	Sender int         `json:"sender"` // key number of the expected sender, -1: none
	Src    Src         `json:"src"`
	Rd     kernel.Frag `json:"rd"` // sizes of stream reads
	Rand   uint64      `json:"rand,omitempty"`
	prior  []Try
}

type decResult struct {
	Err  error
	Auth bool
	Out  []byte
	Pan  *kernel.PanicInfo
	Got  bool // a key was accepted
}

// decrypt runs d on rd; whatever is released goes to sink.
func (c *ctx) decrypt(d *Dec, rd io.Reader, sink io.Writer) *decResult {
	res := &decResult{}
	res.Err, res.Pan = call(func() error {
		de, err := sign.NewDecryptor(rd)
		if err != nil {
			return err
		}
		for _, p := range d.prior {
			var spk *sign.PublicKey
			if p.Sender >= 0 {
				spk = c.key(p.Sender).Pk
			}
			de.SetPrivateKey(c.key(p.Key).Sk, spk)
		}
		var spk *sign.PublicKey
		if d.Sender >= 0 {
			spk = c.key(d.Sender).Pk
		}
		if err := de.SetPrivateKey(c.key(d.Key).Sk, spk); err != nil {
			return err
		}
		res.Got = true
		res.Auth = de.AuthenticatedSender()
		if !d.Stream {
			return de.Decrypt(sink)
		}
		r, err := de.NewStreamReader()
		if err != nil {
			return err
		}
		return pump(r, sink, d.Rd)
	})
	return res
}

// pump reads r to its end in pieces of the given sizes.
func pump(r io.Reader, sink io.Writer, f kernel.Frag) error {
	fr := kernel.NewFrag(f)
	idle := 0
	most := 8192
	if f.Mode == 6 {
		most = min(max(2*f.Size+1, 1), 1<<20)
	}
	for {
		n := fr.Next(most)
		b := make([]byte, n)
		m, err := r.Read(b)
		if m < 0 || m > n {
			return fmt.Errorf("stream read returned %d for a buffer of %d", m, n)
		}
		if m > 0 {
			idle = 0
			if _, e := sink.Write(b[:m]); e != nil {
				return e
			}
		} else if err == nil && n > 0 {
			if idle++; idle > 1000 {
				return errors.New("stream read makes no progress")
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

// memSink collects released plaintext without yielding.
type memSink struct{ bytes.Buffer }

func (m *memSink) Close() error { return nil }

// ---- generators shared by the scenarios ----

var chunkSizes = []int{1, 2, 3, 5, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 500, 512, 1000, 1024, 4096, 10000, 65536, 131072}

func genChunk(r *Rng) uint64 {
	switch r.N(20) {
	case 0:
		return 0 // default: 4 MB
	case 1:
		return uint64(r.In(1, 300))
	case 2:
		return uint64(r.In(1, 20000))
	case 3:
		return uint64(r.Pick(1<<20, 1<<20+1, 1<<22, 1<<22-1, 4*1048576+1))
	case 4:
		return uint64(1) << r.In(0, 24)
	}
	return uint64(chunkSizes[r.N(len(chunkSizes))])
}

// genLen picks a length near multiples of the chunk size, with at most maxChunks
// chunks and max bytes.
func genLen(r *Rng, chunk uint64, maxChunks, max int) int {
	c := int(chunk)
	if c == 0 {
		c = 4 * 1048576
	}
	k := r.N(maxChunks + 1)
	if r.P(2) {
		k = r.N(min(maxChunks, 4) + 1)
	}
	n := k*c + r.Pick(-1, 0, 0, 1, r.N(c+1))
	if r.P(8) {
		n = r.N(40)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = r.N(max + 1)
	}
	return n
}

func genFrag(r *Rng) kernel.Frag {
	f := kernel.Frag{Mode: r.Pick(0, 0, 2, 3, 3, 4, 5, 1), Seed: uint64(r.N(1 << 30))}
	if f.Mode == 5 {
		f.Size = r.In(1, 300)
	}
	return f
}

// fragFor avoids tiny pieces for big data.
func fragFor(r *Rng, n int) kernel.Frag {
	f := genFrag(r)
	if n > 5000 && (f.Mode == 1 || f.Mode == 2 || f.Mode == 4) {
		f.Mode = 3
	}
	if n > 20000 && f.Mode == 5 {
		f.Size = r.In(1000, 100000)
	}
	return f
}

func genSrc(r *Rng, n int) Src { return Src{Frag: fragFor(r, n), EOFWith: r.P(2)} }

func genPT(r *Rng, n int) PT {
	return PT{Len: n, Kind: r.Pick(0, 0, 0, 1, 2, 3), Seed: uint64(r.N(1 << 30))}
}

// genEnc makes a random encryption with nrec recipients out of the key pool.
func genEnc(r *Rng, maxRec, maxChunks, max int) *Enc {
	e := &Enc{Stream: r.P(2), Chunk: genChunk(r), Sender: -1}
	if r.P(2) {
		e.Sender = 50 + r.N(10)
	}
	n := 1
	if maxRec > 1 && r.P(2) {
		n = r.In(1, maxRec)
	}
	p := r.Perm(40)
	for i := 0; i < n; i++ {
		e.Recips = append(e.Recips, p[i%40])
	}
	e.PT = genPT(r, genLen(r, e.Chunk, maxChunks, max))
	e.Src = genSrc(r, e.PT.Len)
	e.Wr = fragFor(r, e.PT.Len)
	c := int(min(e.Chunk, 1<<22))
	if r.P(3) {
		e.Wr = chunkFrag(r, c)
	}
	if r.P(5) {
		e.Src.Frag = chunkFrag(r, c)
	}
	if r.P(4) {
		// any keys
		base := 100 + r.N(1<<20)
		for i := range e.Recips {
			e.Recips[i] += base
		}
		if e.Sender >= 0 {
			e.Sender = 100 + r.N(1<<20)
		}
	}
	e.Rand = uint64(r.N(1 << 30))
	return e
}

// chunkFrag cuts at and around multiples of c, a block size.
func chunkFrag(r *Rng, c int) kernel.Frag {
	return kernel.Frag{Mode: 6, Seed: uint64(r.N(1 << 30)), Size: max(c, 64)}
}

func genDec(r *Rng, key, sender, n int) *Dec {
	return &Dec{Stream: r.P(2), Key: key, Sender: sender, Src: genSrc(r, n), Rd: readFrag(r), Rand: uint64(r.N(1 << 30))}
}

func readFrag(r *Rng) kernel.Frag {
	f := genFrag(r)
	if f.Mode == 0 {
		f = kernel.Frag{Mode: 5, Size: 8192}
	}
	return f
}

// produce encrypts e fault-free outside of tasks and returns the file.
func (c *ctx) produce(e *Enc) ([]byte, []byte, error) {
	pt := e.PT.bytes()
	old := c.ent.Default
	c.ent.Default = kernel.NewRandom(kernel.Mix(e.Rand, 9))
	defer func() { c.ent.Default = old }()
	var sink kernel.Sink
	src := &kernel.Source{Data: pt, Frag: kernel.Frag{}}
	err, pi := call(func() error { return c.encrypt(e, pt, src, &sink) })
	if pi != nil {
		return nil, pt, fmt.Errorf("panic: %s\n%s", pi.Val, pi.Stack)
	}
	return sink.Buf, pt, err
}

func (c *ctx) senderPk(i int) []byte {
	if i < 0 {
		return nil
	}
	return c.key(i).EdPk()
}

func mod(i, n int) int {
	if n <= 0 {
		return 0
	}
	i %= n
	if i < 0 {
		i += n
	}
	return i
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// note ends a run without tasks: scenario and verdicts make its event log.
func (c *ctx) note(s any) {
	b, _ := json.Marshal(s)
	c.w.HashBytes(b)
	for _, v := range c.o.Viol {
		c.w.HashBytes([]byte(v.Kind))
	}
	c.w.HashBytes([]byte(fmt.Sprint(c.o.Evals, c.o.Shape)))
	c.run()
}

// shape mixes a coarse class of the run.
func (c *ctx) shape(v ...any) {
	c.o.Shape = kernel.Mix(c.o.Shape, kernel.MixStr(fmt.Sprint(v...)))
}

func lenClass(n int) int {
	switch {
	case n <= 2:
		return n
	case n < 256:
		return 3
	case n < 65536:
		return 4
	}
	return 5
}

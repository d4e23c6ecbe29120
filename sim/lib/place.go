package lib

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math"

	"verifsim/kernel"
	"verifsim/ref"
)

// Scenarios far inside very long files: a hook lets streams begin with a chunk
// number other than 0, so the chunks near number n are reached without making
// the n before them.

// first makes all streams begin with chunk number n.
func (c *ctx) first(n uint32) {
	if n != 0 && !hooked() {
		n = 0
	}
	setFirst(n)
}

var hookState int

// hooked says whether the hook has any effect on the code under test: a code
// path that doesn't use it counts from 0 whatever it says.
func hooked() bool {
	if !haveHook {
		return false
	}
	if hookState == 0 {
		hookState = 1
		if !probeHook() {
			hookState = -1
		}
	}
	return hookState > 0
}

func probeHook() bool {
	defer setFirst(0)
	const n = 5
	for i := 0; i < 2; i++ {
		c := &ctx{o: &Outcome{}, x: &Exec{}, keys: map[int]*KP{}}
		c.w = kernel.NewWorld(1, 10000)
		c.ent = &kernel.Entropy{W: c.w, Default: kernel.NewRandom(3)}
		e := Enc{Stream: i == 1, Chunk: 4, Sender: -1, Recips: []int{1}, PT: PT{Len: 10}}
		setFirst(n)
		old := rand.Reader
		rand.Reader = c.ent
		raw, pt, err := c.produce(&e)
		rand.Reader = old
		if err != nil {
			return true // something else is wrong
		}
		setFirst(0)
		if in, err := ref.Open(raw, c.key(1).Ed, nil); err == nil && bytes.Equal(in.PT, pt) {
			return false // counts from 0
		}
		zero, _ := c.peerFile(&e, kernel.NewRng(7))
		setFirst(n)
		var out memSink
		if res := c.decrypt(&Dec{Key: 1, Sender: -1, Stream: i == 1, Rd: kernel.Frag{Mode: 5, Size: 100}}, bytes.NewReader(zero), &out); res.Err == nil {
			return false
		}
	}
	return true
}

// genFirst picks a number for the first chunk; n chunks after it must still fit.
func genFirst(r *Rng, n int) uint32 {
	var v uint32
	switch r.N(4) {
	case 0:
		v = 1<<uint(r.In(8, 31)) - uint32(r.N(4))
	case 1:
		v = uint32(r.N(1 << 16))
	case 2:
		v = math.MaxUint32 - uint32(n) - uint32(r.N(3))
	default:
		v = uint32(r.N(1<<31)) * 2
	}
	return min(v, math.MaxUint32-uint32(n))
}

// p02place: the chunks of one place of a long stream are moved to another.
type p02place struct {
	Enc   Enc    `json:"enc"`
	From  uint32 `json:"from"`
	To    uint32 `json:"to"`
	Peer  bool   `json:"peer,omitempty"`
	Dec   Dec    `json:"dec"`
	Sched uint64 `json:"sched"`
}

func execP02place(sc any, x *Exec) *Outcome {
	s := sc.(*p02place)
	c := newCtx(s.Sched, 3000000, x)
	defer setFirst(0)
	o := c.o
	if !hooked() || s.From == s.To || len(s.Enc.Recips) == 0 {
		return o
	}
	c.first(s.From)
	raws, pts, ok := c.sessions([]Enc{s.Enc}, s.Peer, s.Sched)
	if !ok {
		return o
	}
	c.first(s.To)
	d := s.Dec
	d.Key = s.Enc.Recips[mod(d.Key, len(s.Enc.Recips))]
	d.Sender = s.Enc.Sender
	res, stall := c.attempt(&d, raws[0])
	o.Evals++
	o.NonTrivial = true
	o.Fault("tamper:place")
	c.shape("place", d.Stream, s.From&s.To == 0, errClass(res.Err))
	switch {
	case res.Pan != nil:
		c.failf("panic", "%s\n%s", res.Pan.Val, res.Pan.Stack)
	case stall != "":
		c.failf("stall", "%s", stall)
	case res.Err == nil:
		c.failf("accepted", "the chunks %d.. of a stream were accepted as its chunks %d.. (%d bytes)", s.From, s.To, len(pts[0]))
	case len(res.Out) > 0:
		c.failf("foreign-data", "the chunks %d.. of a stream presented as its chunks %d.. gave %d bytes", s.From, s.To, len(res.Out))
	}
	return o
}

func genP02place(r *Rng, idx int, tier string) any {
	s := &p02place{Enc: smallEnc(r), Sched: uint64(r.N(1 << 30)), Peer: r.P(3)}
	s.Enc.PT.Len = r.In(1, int(s.Enc.Chunk)*5)
	s.Dec = Dec{Key: r.N(8), Stream: r.P(2), Src: genSrc(r, 500), Rd: genFrag(r)}
	s.From, s.To = genFirst(r, 20), genFirst(r, 20)
	switch k := r.N(3); {
	case idx < 64:
		s.Dec.Stream = idx&1 == 1
		s.Enc.Stream = idx&2 == 2
		s.From &^= 1 << 31
		s.To = s.From ^ 1<<uint(idx/2)
		s.Peer = false
	case k == 0:
		s.To = s.From ^ 1<<uint(r.N(32))
	case k == 1:
		s.To = s.From + uint32(r.In(1, 5))
	}
	return s
}

// p06count: the last chunk numbers.
type p06count struct {
	Stream bool   `json:"stream,omitempty"`
	Left   int    `json:"left"`   // chunks before the numbers run out
	Chunks int    `json:"chunks"` // full chunks of input
	Rest   int    `json:"rest"`   // bytes after them
	Enc    Enc    `json:"enc"`
	Sched  uint64 `json:"sched"`
}

func execP06count(sc any, x *Exec) *Outcome {
	s := sc.(*p06count)
	c := newCtx(s.Sched, 3000000, x)
	defer setFirst(0)
	o := c.o
	if !hooked() || s.Left < 1 || s.Left > 100 || s.Chunks < 0 || s.Chunks > 200 || len(s.Enc.Recips) == 0 || s.Enc.Chunk > 5000 || s.Enc.Chunk < 1 {
		return o
	}
	c.first(uint32(-s.Left))
	e := s.Enc
	e.Stream = s.Stream
	e.PT.Len = s.Chunks*int(e.Chunk) + mod(s.Rest, int(e.Chunk))
	pt := e.PT.bytes()
	sink := &kernel.Sink{}
	var err error
	t := c.w.Go("enc", func(t *Task) {
		sink.T = t
		t.Rand = kernel.NewRandom(kernel.Mix(e.Rand, 9))
		err = c.encrypt(&e, pt, e.Src.open(t, pt), sink)
	})
	stall := c.run()
	o.Evals++
	o.NonTrivial = true
	c.shape("count", s.Stream, s.Chunks > s.Left, errClass(err))
	if t.Panic != nil {
		c.failf("panic", "%s\n%s", t.Panic.Val, t.Panic.Stack)
		return o
	}
	if stall != "" {
		c.failf("stall", "%s", stall)
		return o
	}
	f, perr := ref.Parse(sink.Buf)
	n := 0
	if perr == nil {
		n = len(f.Frames)
	} else if h := headLen(sink.Buf); h > 0 {
		n = wholeFrames(sink.Buf[h:])
	}
	if n > s.Left {
		c.failf("keystream", "%d chunks before the chunk numbers of a stream run out, %d more were sealed: with the numbers, keys and nonces of the first ones (result: %v)", s.Left, n, err)
		return o
	}
	o.Probe(fmt.Sprintf("last-chunk-numbers:%v", err == nil))
	if err == nil {
		in, rerr := ref.Open(sink.Buf, c.key(e.Recips[0]).Ed, c.senderPk(e.Sender))
		if rerr != nil || !bytes.Equal(in.PT, pt) {
			c.failf("bad-session", "a stream ending with chunk number %d was reported as written but can't be decrypted: %v", math.MaxUint32-s.Left+n, rerr)
		}
		for _, str := range []bool{false, true} {
			res, _ := c.attempt(&Dec{Key: e.Recips[0], Sender: e.Sender, Stream: str, Rd: kernel.Frag{Mode: 5, Size: 1000}}, sink.Buf)
			if res.Pan != nil || res.Err != nil || !bytes.Equal(res.Out, pt) {
				c.failf("bad-session", "a stream ending with chunk number %d was reported as written but decrypting it gives %v", math.MaxUint32-s.Left+n, res.Err)
			}
		}
	}
	return o
}

// wholeFrames counts the whole chunks at the start of b.
func wholeFrames(b []byte) int {
	for n := 0; ; n++ {
		if len(b) < 4 {
			return n
		}
		z := int(uint32(b[0]&0x7f)<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3])) + 20
		if len(b) < z {
			return n
		}
		b = b[z:]
	}
}

func genP06count(r *Rng, idx int, tier string) any {
	s := &p06count{Stream: r.P(2), Left: r.In(1, 6), Enc: smallEnc(r), Sched: uint64(r.N(1 << 30))}
	s.Chunks = max(0, s.Left+r.In(-3, 3))
	s.Rest = r.Pick(0, 0, 1, r.N(100))
	s.Enc.Src = genSrc(r, 300)
	s.Enc.Src.F = nil
	if idx < 12 {
		s.Stream, s.Chunks, s.Rest = idx&1 == 1, s.Left+idx/2%3-1, idx/6
	}
	return s
}

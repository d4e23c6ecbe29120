package lib

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P06: contexts are single-use.

// Op is one call on a context.
type Op struct {
	Op   string        `json:"op"`
	A    int           `json:"a,omitempty"`
	B    int           `json:"b,omitempty"`
	F    *kernel.Fault `json:"f,omitempty"`  // of the sink
	SF   *kernel.Fault `json:"sf,omitempty"` // of the source
	Same bool          `json:"same,omitempty"`
	CE   string        `json:"ce,omitempty"` // closing the sink fails
}

type p06 struct {
	Dec    bool   `json:"dec,omitempty"`
	Enc    Enc    `json:"enc"`
	Src    Src    `json:"src"`
	Ops    []Op   `json:"ops"`
	Sched  uint64 `json:"sched"`
	Cutoff int    `json:"cut,omitempty"`
	Tail   int    `json:"tail,omitempty"` // what follows the file in the source
}

type encSink struct {
	sink   *kernel.Sink
	data   []byte // what was handed over
	recips []int  // at the start
	ok     bool   // success was reported
	stream bool
	failed bool // an error was returned after the start
	w      io.WriteCloser
	closed bool
	how    string
}

func execP06(sc any, x *Exec) *Outcome {
	s := sc.(*p06)
	c := newCtx(s.Sched, 3000000, x)
	if s.Enc.Chunk > 1<<22 || s.Enc.Chunk == 0 || s.Enc.PT.Len > 1<<18 || len(s.Ops) > 200 {
		return c.o
	}
	if s.Dec {
		c.p06dec(s)
	} else {
		c.p06enc(s)
	}
	return c.o
}

func (c *ctx) p06enc(s *p06) {
	o := c.o
	e := s.Enc
	var sk *sign.PrivateKey
	if e.Sender >= 0 {
		sk = c.key(e.Sender).Sk
	}
	for i := 0; i < 8; i++ {
		c.key(i)
	}
	var hist []string
	var sinks []*encSink
	var recips []int
	say := func(f string, v ...any) { hist = append(hist, fmt.Sprintf(f, v...)) }
	task := c.w.Go("enc", func(t *Task) {
		t.Rand = kernel.NewRandom(kernel.Mix(e.Rand, 9))
		en, err := sign.NewEncryptor(sk, e.Chunk)
		if err != nil {
			c.failf("spurious", "NewEncryptor: %v", err)
			return
		}
		emitted := false // a header was written completely
		var streams []*encSink
		tried := false
		for i, op := range s.Ops {
			switch op.Op {
			case "add":
				k := mod(op.A, 8)
				err := en.AddRecipient(c.key(k).Pk)
				say("add(%d)=%v", k, err)
				if err == nil {
					if emitted {
						c.failf("late-recipient", "%v: a recipient was accepted after output had started", hist)
						return
					}
					recips = append(recips, k)
				} else if !tried {
					c.failf("spurious", "%v: AddRecipient failed", hist)
				}
			case "encrypt", "open":
				es := &encSink{sink: &kernel.Sink{T: t, F: op.F, CloseErr: op.CE}, recips: append([]int{}, recips...), stream: op.Op == "open", how: op.Op}
				data := PT{Len: mod(op.A, 2000), Kind: op.B & 1, Seed: uint64(i) + s.Sched}.bytes()
				sinks = append(sinks, es)
				var err error
				if es.stream {
					es.w, err = en.NewStreamWriter(es.sink)
				} else {
					es.data = data
					src := &kernel.Source{T: t, Data: data, Frag: s.Src.Frag, EOFWith: s.Src.EOFWith, F: op.SF}
					err = en.Encrypt(src, es.sink)
				}
				say("%s(%d)=%v", op.Op, len(data), err)
				tried = true
				if err == nil {
					if emitted {
						c.failf("reused", "%v: a second stream was started", hist)
					}
					if len(recips) == 0 {
						c.failf("no-recipients", "%v: output was started without recipients", hist)
					}
					if es.stream {
						streams = append(streams, es)
					} else {
						es.ok = true
					}
				} else {
					es.failed = true
					if !emitted && !es.sink.Fired && !es.sink.CFired && op.SF == nil && len(recips) > 0 && len(sinks) == 1 {
						c.failf("spurious", "%v: the first start failed", hist)
					}
				}
				if n := headLen(es.sink.Buf); n > 0 && !(es.sink.Fired && len(es.sink.Buf) <= n) {
					emitted = true // a start whose first write failed is none
				}
			case "write", "close":
				if len(streams) == 0 {
					continue
				}
				es := streams[mod(op.B, len(streams))]
				if op.Op == "close" {
					err := es.w.Close()
					say("close=%v", err)
					if err == nil {
						if es.closed {
							c.failf("use-after-close", "%v: closed twice", hist)
						}
						if es.failed {
							c.failf("not-sticky", "%v: close succeeded after a failure", hist)
						}
						if es.sink.Fired || es.sink.CFired {
							c.failf("sink-failure-hidden", "%v: the output failed, close succeeded", hist)
						}
						es.ok = true
					} else {
						es.failed = true
						if !es.closed && !es.sink.Fired && !es.sink.CFired && len(streams) == 1 && len(sinks) == 1 {
							c.failf("spurious", "%v: close failed", hist)
						}
					}
					es.closed = true
					continue
				}
				n := mod(op.A, 3000)
				b := PT{Len: n, Seed: uint64(i) * 77}.bytes()
				m, err := es.w.Write(b)
				say("write(%d)=%d,%v", n, m, err)
				if err == nil {
					if n > 0 && es.closed {
						c.failf("use-after-close", "%v: written after close", hist)
					}
					if n > 0 && es.failed {
						c.failf("not-sticky", "%v: written after a failure", hist)
					}
					if m != n {
						c.failf("short-write", "%v", hist)
					}
					es.data = append(es.data, b[:m]...)
				} else {
					if !es.failed && !es.closed && !es.sink.Fired {
						c.failf("spurious", "%v", hist)
					}
					es.failed = true
				}
				for i := range b {
					b[i] = 0xee
				}
			}
		}
	})
	stall := c.run()
	o.Evals++
	for _, h := range hist {
		c.o.Hash = kernel.Mix(c.o.Hash, kernel.MixStr(h))
	}
	c.shape(opShape(s.Ops))
	if task.Panic != nil {
		c.failf("panic", "%v then %s\n%s", hist, task.Panic.Val, task.Panic.Stack)
		return
	}
	if stall != "" {
		c.failf("stall", "%v: %s", hist, stall)
		return
	}
	starts := 0
	for _, es := range sinks {
		if es.ok {
			o.NonTrivial = true
			for _, k := range es.recips {
				in, err := ref.Open(es.sink.Buf, c.key(k).Ed, c.senderPk(e.Sender))
				if err != nil || !bytes.Equal(in.PT, es.data) {
					c.failf("bad-session", "%v: %s reported success but recipient %d can't decrypt what was given: %v", hist, es.how, k, err)
					break
				}
			}
		}
		if es.sink.Late > 0 {
			c.failf("late-output", "%v: %d bytes were written to a closed output", hist, es.sink.Late)
		}
		if headLen(es.sink.Buf) > 0 {
			starts++
		}
	}
	if len(sinks) > 1 {
		o.NonTrivial = true
		o.Probe("second-start-attempted")
	}
	if starts > 1 {
		o.Probe("several-headers-from-one-context")
	}
	c.keystream(sinks, hist)
}

func opShape(ops []Op) string {
	s := ""
	for _, o := range ops {
		if len(s) < 12 {
			s += o.Op[:1]
			if o.F != nil {
				s += "!"
			}
		}
	}
	return s
}

// headLen returns the length of the complete header at the start of b, or 0.
func headLen(b []byte) int {
	if len(b) < 44 || string(b[:7]) != ref.Magic {
		return 0
	}
	n := 12 + int(binary.BigEndian.Uint32(b[8:])) + 32
	if n > len(b) {
		return 0
	}
	return n
}

// keystream looks for two different chunks under one key and nonce among
// everything one context wrote.
func (c *ctx) keystream(sinks []*encSink, hist []string) {
	type kn struct {
		key string
		i   uint32
	}
	seen := map[kn][]byte{}
	for _, es := range sinks {
		b := es.sink.Buf
		for {
			h := headLen(b)
			if h == 0 {
				break
			}
			n := int(binary.BigEndian.Uint32(b[8:]))
			hdr, err := ref.DecodeHeader(b[12 : 12+n])
			if err != nil {
				break
			}
			var key []byte
			for _, k := range es.recips {
				for _, w := range hdr.Keys {
					if kk, _, err := ref.Unwrap(hdr, w, c.key(k).Ed); err == nil {
						key = kk
					}
				}
			}
			if key == nil {
				break
			}
			sess := ref.Derive(key, b[h-32:h])
			b = b[h:]
			op := sess.Opener()
			for i := uint32(0); len(b) >= 4; i++ {
				f := ref.Frame{Len: binary.BigEndian.Uint32(b)}
				if len(b) < 4+f.N()+16 {
					b = nil
					break
				}
				f.CT = b[4 : 4+f.N()+16]
				// whatever the index really is
				idx, ok := i, false
				for d := uint32(0); d < 3 && !ok; d++ {
					if _, err := op.Open(i-d, f); err == nil {
						idx, ok = i-d, true
					}
				}
				if !ok {
					if _, err := op.Open(0, f); err == nil {
						idx, ok = 0, true
					}
				}
				if !ok {
					b = nil
					break
				}
				k := kn{string(sess.DKey) + string(sess.Nonce), idx}
				full := f.Bytes()
				if p, dup := seen[k]; dup && !bytes.Equal(p, full) {
					c.failf("keystream", "%v: two different chunks were sealed with the same key and nonce (chunk number %d)", hist, idx)
					return
				}
				seen[k] = append([]byte{}, full...)
				b = b[len(full):]
				if f.EOF() && len(b) >= 64 {
					b = b[64:]
					break
				}
			}
		}
	}
}

func (c *ctx) p06dec(s *p06) {
	o := c.o
	raw, pt, err := c.produce(&s.Enc)
	if err != nil || len(s.Enc.Recips) == 0 {
		return
	}
	e := s.Enc
	for i := 0; i < 8; i++ {
		c.key(i)
	}
	var hist []string
	say := func(f string, v ...any) { hist = append(hist, fmt.Sprintf(f, v...)) }
	accepted := false
	task := c.w.Go("dec", func(t *Task) {
		all := raw
		switch mod(s.Tail, 4) {
		case 1:
			all = append(append([]byte{}, raw...), raw...)
		case 2:
			f, err := ref.Parse(raw)
			if err == nil {
				all = append(append([]byte{}, raw...), raw[f.HdrLen:]...)
			}
		case 3:
			all = append(append([]byte{}, raw...), make([]byte, 100)...)
		}
		de, err := sign.NewDecryptor(s.Src.open(t, all))
		if err != nil {
			say("new=%v", err)
			return
		}
		type reader struct {
			r    io.Reader
			got  []byte
			done bool
			fail bool
		}
		var rds []*reader
		used := false
		finished, whole := false, false
		check := func(what string, got []byte, end bool) bool {
			if end && !bytes.Equal(got, pt) {
				c.failf("wrong-plaintext", "%v: %s ended normally with %s (%d bytes), want %s (%d bytes)", hist, what, short(got), len(got), short(pt), len(pt))
				return false
			}
			if !bytes.HasPrefix(pt, got) {
				c.failf("wrong-plaintext", "%v: %s delivered %s, no prefix of %s", hist, what, short(got), short(pt))
				return false
			}
			return true
		}
		for _, op := range s.Ops {
			switch op.Op {
			case "setkey":
				k := mod(op.A, 8)
				if !op.Same {
					k = e.Recips[mod(op.A, len(e.Recips))]
				}
				var spk *sign.PublicKey
				sn := -1
				if op.B > 0 {
					sn = 50 + mod(op.B, 3)
					if op.B >= 3 {
						sn = e.Sender
					}
				}
				if sn >= 0 {
					spk = c.key(sn).Pk
				}
				err := de.SetPrivateKey(c.key(k).Sk, spk)
				say("setkey(%d,%d)=%v", k, sn, err)
				if err == nil {
					accepted = true
					if !has(e.Recips, k) {
						c.failf("wrong-key", "%v: a key that is no recipient was accepted", hist)
					}
				}
			case "auth":
				say("auth=%v", de.AuthenticatedSender())
			case "decrypt":
				sink := &kernel.Sink{T: t, F: op.F}
				err := de.Decrypt(sink)
				say("decrypt=%d,%v", len(sink.Buf), err)
				if !accepted && (err == nil || len(sink.Buf) > 0) {
					c.failf("no-key", "%v: decrypted without an accepted key", hist)
				}
				if err == nil && finished {
					c.failf("reused", "%v: decrypted a second time", hist)
				}
				if sink.Fired && err == nil {
					c.failf("sink-failure-hidden", "%v", hist)
				}
				if !check("decrypt", sink.Buf, err == nil) {
					return
				}
				if err == nil {
					finished, whole = true, true
					o.NonTrivial = true
				}
				if used && err == nil {
					c.failf("reused", "%v: decrypted after a stream was opened", hist)
				}
				// a failed attempt may be repeated, if that gives the right result
				used = used || accepted && err == nil
			case "open":
				r, err := de.NewStreamReader()
				say("open=%v", err)
				if err == nil {
					if !accepted {
						c.failf("no-key", "%v: a stream was opened without an accepted key", hist)
					}
					if len(rds) > 0 {
						c.failf("reused", "%v: a second stream was opened", hist)
					}
					if whole {
						c.failf("reused", "%v: a stream was opened after decrypting", hist)
					}
					rds = append(rds, &reader{r: r})
					used = true
				}
			case "read":
				if len(rds) == 0 {
					continue
				}
				r := rds[mod(op.B, len(rds))]
				b := make([]byte, mod(op.A, 4000))
				n, err := r.r.Read(b)
				say("read(%d)=%d,%v", len(b), n, err)
				if n < 0 || n > len(b) {
					c.failf("reader-contract", "%v", hist)
					return
				}
				if n > 0 && (r.done || r.fail) {
					c.failf("not-sticky", "%v: data after the end", hist)
					return
				}
				r.got = append(r.got, b[:n]...)
				if err == io.EOF {
					if r.fail {
						c.failf("not-sticky", "%v: normal end after a failure", hist)
					}
					r.done = true
					finished = true
					o.NonTrivial = true
				} else if err != nil {
					r.fail = true
				}
				if !check("stream", r.got, err == io.EOF && !r.fail) {
					return
				}
			}
		}
	})
	stall := c.run()
	o.Evals++
	for _, h := range hist {
		c.o.Hash = kernel.Mix(c.o.Hash, kernel.MixStr(h))
	}
	c.shape("d", opShape(s.Ops))
	if task.Panic != nil {
		c.failf("panic", "%v then %s\n%s", hist, task.Panic.Val, task.Panic.Stack)
	} else if stall != "" {
		c.failf("stall", "%v: %s", hist, stall)
	}
	if !accepted {
		o.NonTrivial = true
		o.Probe("no-key-accepted")
	}
}

func genP06(r *Rng, idx int, tier string) any {
	s := &p06{Dec: r.P(2), Sched: uint64(r.N(1 << 30))}
	s.Enc = smallEnc(r)
	s.Enc.Chunk = uint64(r.Pick(1, 7, 16, 64, 300, 1000, 5000))
	s.Enc.PT.Len = r.N(int(min(s.Enc.Chunk, 500))*4 + 2)
	s.Src = genSrc(r, 1000)
	if s.Src.Frag.Mode == 1 {
		s.Src.Frag.Mode = 3
	}
	if s.Dec {
		s.Tail = r.Pick(0, 0, 1, 2, 3)
	}
	if s.Dec && r.P(6) {
		s.Src.F = genFault(r, 600, false)
		s.Src.F.Once = true
	}
	n := r.In(2, 12)
	for i := 0; i < n; i++ {
		op := Op{A: r.N(1 << 16), B: r.N(8)}
		if s.Dec {
			op.Op = r.PickS("setkey", "setkey", "decrypt", "open", "read", "read", "read", "auth")
			op.Same = r.P(4) // any key of the pool
			op.B = r.Pick(0, 0, 1, 2, 3, 3, 4)
			if r.P(2) && s.Enc.Sender < 0 {
				op.B = 0
			}
			if op.Op == "decrypt" && r.P(3) {
				op.F = genFault(r, s.Enc.PT.Len, true)
			}
			if op.Op == "read" {
				op.B = 0
				op.A = r.Pick(0, 1, 10, 100, 1000, 3999)
			}
		} else {
			op.Op = r.PickS("add", "encrypt", "encrypt", "open", "write", "write", "write", "close")
			if i == 0 && r.P(2) {
				op.Op = "add"
			}
			op.A = r.Pick(r.N(8), r.N(100), r.N(2000), int(s.Enc.Chunk), 2*int(s.Enc.Chunk))
			if r.P(3) && (op.Op == "encrypt" || op.Op == "open") {
				op.F = genFault(r, 1200, true)
			}
			if r.P(4) && (op.Op == "encrypt" || op.Op == "open") {
				op.CE = r.PickS("eio", "nospace", "reset", "pipe")
			}
			if r.P(4) && op.Op == "encrypt" {
				op.SF = genFault(r, 500, false)
			}
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

func init() {
	mk := func(dec bool, sender int, ops ...string) *p06 {
		s := &p06{Dec: dec, Enc: Enc{Chunk: 16, Sender: sender, Recips: []int{1, 2}, PT: PT{Len: 40, Seed: 4}}}
		for i, w := range ops {
			op := Op{Op: w, A: 40 + i}
			switch w {
			case "setkey":
				op.A = 0
				if sender >= 0 {
					op.B = 3
				}
			case "setkey-wrong":
				op.Op, op.Same, op.A = "setkey", true, 5
			case "setkey-badsender":
				op.Op, op.B = "setkey", 2
			case "setkey-nosender":
				op.Op, op.B = "setkey", 0
			case "decrypt!":
				op.Op, op.F = "decrypt", &kernel.Fault{At: 20, Kind: "eio"}
			case "encrypt!":
				op.Op, op.F = "encrypt", &kernel.Fault{At: 420, Kind: "eio", Once: true}
			case "encrypt?":
				op.Op, op.SF = "encrypt", &kernel.Fault{At: 33, Kind: "eio", Once: true}
			case "open%", "encrypt%":
				op.Op, op.CE = w[:len(w)-1], "eio"
			case "read":
				op.A = 10
			}
			s.Ops = append(s.Ops, op)
		}
		return s
	}
	var d []*p06
	for _, sn := range []int{-1, 50} {
		d = append(d,
			mk(false, sn, "add", "encrypt", "encrypt"), mk(false, sn, "add", "encrypt", "open", "write", "close"),
			mk(false, sn, "add", "open", "write", "close", "open", "write", "close"), mk(false, sn, "add", "open", "open", "write", "close"),
			mk(false, sn, "add", "open", "encrypt"), mk(false, sn, "add", "open", "write", "encrypt", "write", "close"),
			mk(false, sn, "add", "encrypt!", "encrypt"), mk(false, sn, "add", "encrypt?", "encrypt"), mk(false, sn, "add", "encrypt!", "open", "write", "close"),
			mk(false, sn, "encrypt", "add", "encrypt", "add"), mk(false, sn, "open", "write", "close", "add", "open", "write", "close"),
			mk(false, sn, "add", "open", "write", "close", "write", "close", "close"), mk(false, sn, "add", "open", "close", "close"),
			mk(false, sn, "add", "open", "add", "write", "close"),
			mk(false, sn, "add", "open%", "write", "close", "close", "write", "close"), mk(false, sn, "add", "open%", "close", "write", "close"), mk(false, sn, "add", "encrypt%", "encrypt"), mk(false, sn, "add", "encrypt%", "open", "write", "close"),
			mk(true, sn, "decrypt"), mk(true, sn, "open", "read"), mk(true, sn, "setkey-wrong", "decrypt", "open", "read"), mk(true, sn, "setkey-wrong", "setkey", "decrypt"),
			mk(true, sn, "setkey-badsender", "decrypt"), mk(true, sn, "setkey-nosender", "decrypt"), mk(true, sn, "setkey-badsender", "open", "read", "read"),
			mk(true, sn, "setkey-badsender", "setkey", "decrypt", "decrypt", "open"), mk(true, sn, "setkey", "decrypt", "open", "read"),
			mk(true, sn, "setkey", "open", "read", "open", "read", "read"), mk(true, sn, "setkey", "open", "read", "decrypt", "read"),
			mk(true, sn, "setkey", "decrypt!", "decrypt", "open", "read", "read"), mk(true, sn, "setkey", "open", "read", "setkey", "read", "read", "read", "read", "read", "read"),
			mk(true, sn, "setkey", "setkey-wrong", "decrypt"), mk(true, sn, "setkey", "setkey-badsender", "decrypt"))
	}
	runner.Register(&runner.Prop{
		ID: "P06",
		Families: []*runner.Family{{Name: "calls", Weight: 9, Directed: len(d), Gen: func(r *Rng, idx int, tier string) any {
			if idx < len(d) {
				s := *d[idx]
				s.Sched = uint64(idx)
				return &s
			}
			return genP06(r, idx, tier)
		}, New: func() any { return &p06{} }, Exec: execP06},
			{Name: "count", Directed: 12, Weight: 1, Gen: genP06count, New: func() any { return &p06count{} }, Exec: execP06count}},
		Rule: "A case is one simulated history of calls on one encryption or decryption context, in any order, with failing sources and sinks in between; all results are recorded and checked against the rules of a single-use session, every reported success is decrypted by the independent implementation, and everything the context ever wrote is searched for two different chunks under one key and nonce. 'count' cases begin a stream a few chunks before the chunk numbers (part of the nonce) run out. Non-trivial: a session completed, a second one was attempted, or no key was ever accepted.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900,
		Assume: []string{"each start of output gets its own sink", "arguments are not nil"},
	})
}

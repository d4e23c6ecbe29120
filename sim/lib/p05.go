package lib

import (
	"bytes"
	"fmt"
	"io"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// P05: a failing source or sink is never reported as success.

type p05 struct {
	Op    string        `json:"op"` // enc, dec
	Enc   Enc           `json:"enc"`
	Dec   Dec           `json:"dec"`
	SrcF  *kernel.Fault `json:"srcf,omitempty"`
	SinkF *kernel.Fault `json:"sinkf,omitempty"`
	Close string        `json:"close,omitempty"`
	Cut   int           `json:"cut"`   // dec: bytes of ciphertext that arrive (-1: all)
	After []int         `json:"after"` // calls after the first failure: >0 write/read of that size, 0: close
	All   string        `json:"all,omitempty"`
	Piped bool          `json:"piped,omitempty"`
	Sched uint64        `json:"sched"`
}

// streamEnc is the encrypting side with a record of every call's result.
type callRec struct {
	what string
	n    int
	err  error
}

func (c *ctx) encCalls(e *Enc, pt []byte, rd io.Reader, wr io.WriteCloser, after []int, keep bool) (recs []callRec) {
	var sk *sign.PrivateKey
	if e.Sender >= 0 {
		sk = c.key(e.Sender).Sk
	}
	en, err := sign.NewEncryptor(sk, e.Chunk)
	if err != nil {
		return []callRec{{"new", 0, err}}
	}
	for _, r := range e.Recips {
		if err := en.AddRecipient(c.key(r).Pk); err != nil {
			return []callRec{{"addrecipient", 0, err}}
		}
	}
	if !e.Stream {
		return []callRec{{"encrypt", 0, en.Encrypt(rd, wr)}}
	}
	w, err := en.NewStreamWriter(wr)
	if err != nil {
		return []callRec{{"newstreamwriter", 0, err}}
	}
	fr := kernel.NewFrag(e.Wr)
	for rest := pt; len(rest) > 0; {
		n := fr.Next(len(rest))
		m, err := w.Write(rest[:n])
		if n > 0 {
			recs = append(recs, callRec{"write", m, err})
		}
		if err != nil {
			break
		}
		if m != n {
			recs = append(recs, callRec{"write", m, io.ErrShortWrite})
			break
		}
		rest = rest[n:]
	}
	if len(recs) == 0 || recs[len(recs)-1].err == nil {
		recs = append(recs, callRec{"close", 0, w.Close()})
	}
	if keep {
		for _, z := range after {
			if z > 0 {
				m, err := w.Write(make([]byte, min(z, 10000)))
				recs = append(recs, callRec{"write", m, err})
			} else {
				recs = append(recs, callRec{"close", 0, w.Close()})
			}
		}
	}
	return recs
}

func execP05(sc any, x *Exec) *Outcome {
	s := sc.(*p05)
	c := newCtx(s.Sched, 3000000, x)
	if s.Enc.PT.Len > 1<<20 || len(s.Enc.Recips) == 0 {
		return c.o
	}
	for _, r := range s.Enc.Recips {
		c.key(r)
	}
	if s.Enc.Sender >= 0 {
		c.key(s.Enc.Sender)
	}
	if s.All != "" {
		c.p05all(s)
	} else if s.Piped {
		c.p05pipe(s)
	} else {
		c.p05one(s)
	}
	return c.o
}

func (c *ctx) p05one(s *p05) {
	if s.Op == "dec" {
		c.p05dec(s)
	} else {
		c.p05enc(s)
	}
}

// p05all sweeps the fault over every position.
func (c *ctx) p05all(s *p05) {
	raw, pt, err := c.produce(&s.Enc)
	if err != nil {
		return
	}
	n := len(raw)
	if s.Op == "enc" && s.All == "src" {
		n = len(pt)
	}
	if s.Op == "dec" && s.All == "sink" {
		n = len(pt)
	}
	if n > 3000 {
		return
	}
	for k := 0; k <= n; k++ {
		t := *s
		t.All = ""
		switch s.All {
		case "src":
			f := *s.SrcF
			f.At = k
			t.SrcF, t.SinkF, t.Close, t.Cut = &f, nil, "", -1
		case "sink":
			f := *s.SinkF
			f.At = k
			t.SinkF, t.SrcF, t.Close, t.Cut = &f, nil, "", -1
		case "cut":
			t.SinkF, t.SrcF, t.Close, t.Cut = nil, nil, "", k
		default:
			return
		}
		c.world(kernel.Mix(s.Sched, uint64(k)), 3000000)
		c.p05one(&t)
		if len(c.o.Viol) > 0 {
			v := &c.o.Viol[0]
			v.Msg = fmt.Sprintf("%s fault at %d: %s", s.All, k, v.Msg)
			return
		}
	}
}

func (c *ctx) p05enc(s *p05) {
	o := c.o
	e := s.Enc
	pt := e.PT.bytes()
	sink := &kernel.Sink{F: s.SinkF, CloseErr: s.Close}
	var src *kernel.Source
	var recs []callRec
	t := c.w.Go("enc", func(t *Task) {
		t.Rand = kernel.NewRandom(kernel.Mix(e.Rand, 9))
		t.Rand.T = t
		sink.T = t
		sr := e.Src
		sr.F = s.SrcF
		src = sr.open(t, pt)
		recs = c.encCalls(&e, pt, src, sink, s.After, true)
	})
	stall := c.run()
	o.Evals++
	what := fmt.Sprintf("encrypt (stream %v) of %d bytes in blocks of %d", e.Stream, len(pt), e.Chunk)
	c.shape("enc", e.Stream, s.SrcF != nil, s.SinkF != nil, s.Close != "", lenClass(len(pt)))
	switch {
	case stall != "":
		c.failf("stall", "%s: %s", what, stall)
		return
	case t.Panic != nil:
		c.failf("panic", "%s: %s\n%s", what, t.Panic.Val, t.Panic.Stack)
		return
	}
	fired := sink.Fired || sink.CFired || (src != nil && src.Fired)
	first := -1
	done := false // the whole session reported success
	for i, r := range recs {
		if r.err != nil {
			first = i
			break
		}
		if r.what == "encrypt" || r.what == "close" {
			done = true
			first = i
			break
		}
	}
	if fired {
		o.NonTrivial = true
	}
	complete := func() bool {
		in, err := ref.Open(sink.Buf, c.key(e.Recips[0]).Ed, c.senderPk(e.Sender))
		return err == nil && bytes.Equal(in.PT, pt)
	}
	if done {
		transient := src != nil && src.Fired && s.SrcF.Once && s.SrcF.With && !sink.Fired && !sink.CFired
		switch {
		case sink.Fired:
			c.failf("sink-failure-hidden", "%s: a write failed, success was reported", what)
		case sink.CFired:
			c.failf("close-failure-hidden", "%s: closing the output failed, success was reported", what)
		case src != nil && src.Fired && !(transient && complete()):
			c.failf("source-failure-hidden", "%s: the input failed (%s) at byte %d, success was reported", what, s.SrcF.Kind, s.SrcF.At)
		case sink.Closed == 0:
			c.failf("not-closed", "%s: success without closing the output", what)
		case !e.Stream && (src.Off != len(pt) || !src.AtEOF):
			c.failf("input-left", "%s: success after reading %d bytes without seeing the end", what, src.Off)
		case !complete():
			c.failf("incomplete", "%s: success, but the output is no complete encryption of the input", what)
		}
	} else if src != nil && src.Fired && !sink.Fired {
		// a broken input must not look like a complete shorter message
		if in, err := ref.Open(sink.Buf, c.key(e.Recips[0]).Ed, nil); err == nil && !(e.Stream) {
			c.failf("sealed-broken-input", "%s: the input failed (%s) at byte %d, the output is a complete message of %d bytes", what, s.SrcF.Kind, s.SrcF.At, len(in.PT))
		}
	} else if !fired && first >= 0 {
		c.failf("spurious", "%s: nothing failed, but the result is %s: %v", what, recs[first].what, recs[first].err)
	}
	// nothing succeeds after the first failure or after the end
	if first >= 0 {
		for _, r := range recs[first+1:] {
			if r.err == nil {
				c.failf("not-sticky", "%s: %s succeeded after %s gave %v", what, r.what, recs[first].what, recs[first].err)
				break
			}
		}
	}
	if fired && len(recs) > first+1 {
		o.Probe("calls-after-failure")
	}
}

func (c *ctx) p05dec(s *p05) {
	o := c.o
	e := s.Enc
	raw, pt, err := c.produce(&e)
	if err != nil {
		return
	}
	f, err := ref.Parse(raw)
	if err != nil {
		return
	}
	end := f.BodyEnd + 64
	data := raw
	if s.Cut >= 0 && s.Cut < len(raw) {
		data = raw[:s.Cut]
		o.Fault("source:cut")
	}
	d := s.Dec
	d.Key, d.Sender = e.Recips[mod(d.Key, len(e.Recips))], e.Sender
	sink := &kernel.Sink{F: s.SinkF}
	var src *kernel.Source
	var recs []callRec
	var got []byte
	eof := false
	t := c.w.Go("dec", func(t *Task) {
		sink.T = t
		sr := d.Src
		sr.F = s.SrcF
		src = sr.open(t, data)
		de, err := sign.NewDecryptor(src)
		if err != nil {
			recs = append(recs, callRec{"new", 0, err})
			return
		}
		var spk *sign.PublicKey
		if d.Sender >= 0 {
			spk = c.key(d.Sender).Pk
		}
		if err := de.SetPrivateKey(c.key(d.Key).Sk, spk); err != nil {
			recs = append(recs, callRec{"setkey", 0, err})
			return
		}
		if !d.Stream {
			recs = append(recs, callRec{"decrypt", 0, de.Decrypt(sink)})
			got = sink.Buf
			return
		}
		r, err := de.NewStreamReader()
		if err != nil {
			recs = append(recs, callRec{"newstreamreader", 0, err})
			return
		}
		fr := kernel.NewFrag(d.Rd)
		idle := 0
		for {
			n := max(1, fr.Next(8192))
			b := make([]byte, n)
			m, err := r.Read(b)
			if m < 0 || m > n {
				recs = append(recs, callRec{"badread", m, nil})
				return
			}
			got = append(got, b[:m]...)
			if m > 0 {
				idle = 0
			} else if idle++; idle > 100 && err == nil {
				recs = append(recs, callRec{"noprogress", m, nil})
				return
			}
			if err != nil {
				eof = err == io.EOF
				recs = append(recs, callRec{"read", m, err})
				break
			}
		}
		for _, z := range s.After {
			b := make([]byte, max(1, min(z, 10000)))
			m, err := r.Read(b)
			recs = append(recs, callRec{"read", m, err})
		}
	})
	stall := c.run()
	o.Evals++
	what := fmt.Sprintf("decrypt (stream %v) of %d bytes in blocks of %d", d.Stream, len(pt), e.Chunk)
	switch {
	case stall != "":
		c.failf("stall", "%s: %s", what, stall)
		return
	case t.Panic != nil:
		c.failf("panic", "%s: %s\n%s", what, t.Panic.Val, t.Panic.Stack)
		return
	case len(recs) == 0:
		return
	}
	broken := len(data) < end || (src.Fired && s.SrcF.At < end) || sink.Fired
	c.shape("dec", d.Stream, len(data) < end, src.Fired, sink.Fired, lenClass(len(pt)), errClass(recs[0].err))
	if broken {
		o.NonTrivial = true
	}
	r0 := recs[0]
	ok := (r0.what == "decrypt" && r0.err == nil) || (d.Stream && eof)
	if r0.what == "badread" || r0.what == "noprogress" {
		c.failf("reader-contract", "%s: %s %d", what, r0.what, r0.n)
		return
	}
	if ok {
		transient := src.Fired && s.SrcF.Once && s.SrcF.With && len(data) >= end && !sink.Fired
		switch {
		case sink.Fired:
			c.failf("sink-failure-hidden", "%s: a write failed, success was reported", what)
		case len(data) < end:
			c.failf("cut-hidden", "%s: only %d of %d bytes of the file arrived, success was reported with %d bytes of plaintext", what, len(data), end, len(got))
		case broken && !(transient && bytes.Equal(got, pt)):
			c.failf("source-failure-hidden", "%s: the input failed (%s) at byte %d of %d, success was reported", what, s.SrcF.Kind, s.SrcF.At, end)
		case !bytes.Equal(got, pt):
			c.failf("wrong-plaintext", "%s: got %s, want %s", what, short(got), short(pt))
		}
	} else if !broken && !src.Fired {
		c.failf("spurious", "%s: nothing failed, but the result is %s: %v", what, r0.what, r0.err)
	}
	if !bytes.HasPrefix(pt, got) {
		c.failf("foreign-data", "%s: released %s, no prefix of %s", what, short(got), short(pt))
	}
	for _, r := range recs[1:] {
		if r.n > 0 || r.err == nil {
			c.failf("not-sticky", "%s: a read after the end (%v) returned %d bytes, error %v", what, r0.err, r.n, r.err)
			break
		}
		if !eof && r.err == io.EOF {
			c.failf("not-sticky", "%s: a read after the failure (%v) reports the normal end of data", what, r0.err)
			break
		}
	}
	if broken && len(recs) > 1 {
		o.Probe("calls-after-failure")
	}
}

// p05pipe: the encrypting side dies in the middle; the other must notice.
func (c *ctx) p05pipe(s *p05) {
	o := c.o
	e := s.Enc
	pt := e.PT.bytes()
	pipe := &kernel.Pipe{Cap: max(1, s.Dec.Key*37%4096+1), Frag: s.Dec.Src.Frag, CutAt: s.Cut}
	var recs []callRec
	var res *decResult
	var out memSink
	var src *kernel.Source
	enc := c.w.Go("enc", func(t *Task) {
		sr := e.Src
		sr.F = s.SrcF
		src = sr.open(t, pt)
		w := kernel.PipeW{P: pipe, T: t}
		recs = c.encCalls(&e, pt, src, w, nil, false)
		if recs[len(recs)-1].err != nil {
			w.Close() // the process ends
		}
	})
	d := s.Dec
	d.Key, d.Sender = e.Recips[0], e.Sender
	dec := c.w.Go("dec", func(t *Task) {
		rd := kernel.PipeR{P: pipe, T: t}
		res = c.decrypt(&d, rd, &out)
		if res.Err != nil {
			rd.CloseRead()
		} else {
			io.Copy(io.Discard, rd)
		}
	})
	stall := c.run()
	o.Evals++
	c.shape("pipe", e.Stream, d.Stream, pipe.Cut, s.SrcF != nil)
	for _, t := range []*Task{enc, dec} {
		if t.Panic != nil {
			c.failf("panic", "%s: %s\n%s", t.Name, t.Panic.Val, t.Panic.Stack)
			return
		}
	}
	if stall != "" {
		c.failf("stall", "%s", stall)
		return
	}
	encOK := recs[len(recs)-1].err == nil
	broken := pipe.Cut || (src != nil && src.Fired && !(s.SrcF.Once && s.SrcF.With))
	if broken {
		o.NonTrivial = true
		if encOK {
			c.failf("sink-failure-hidden", "piped: the channel or input broke, encrypting reported success")
		}
		if res.Err == nil {
			c.failf("cut-hidden", "piped: the sender failed after %d bytes (%v), decrypting reported success with %d of %d bytes", pipe.Total, recs[len(recs)-1].err, out.Len(), len(pt))
		}
	} else if encOK && (res.Err != nil || !bytes.Equal(out.Bytes(), pt)) {
		c.failf("spurious", "piped: encrypting succeeded, decrypting gave %v, %d of %d bytes", res.Err, out.Len(), len(pt))
	}
	if !bytes.HasPrefix(pt, out.Bytes()) {
		c.failf("foreign-data", "piped: released %s, no prefix of %s", short(out.Bytes()), short(pt))
	}
}

func genFault(r *Rng, n int, sink bool) *kernel.Fault {
	f := &kernel.Fault{At: r.N(n + 1), With: r.P(2), Once: r.P(3)}
	if sink {
		f.Kind = r.PickS("eio", "nospace", "reset", "shortwrite", "pipe", "unexpected", "lost")
		f.Full = r.P(4)
	} else {
		f.Kind = r.PickS("eio", "unexpected", "reset", "noprogress", "shortwrite", "lost", "lost", "shut")
	}
	return f
}

func genP05(r *Rng, idx int, tier string) any {
	s := &p05{Op: r.PickS("enc", "dec"), Enc: smallEnc(r), Cut: -1, Sched: uint64(r.N(1 << 30))}
	if r.P(4) {
		s.Enc = *genEnc(r, 3, 10, 30000)
	}
	e := &s.Enc
	e.Src = genSrc(r, e.PT.Len)
	e.Wr = fragFor(r, e.PT.Len)
	s.Dec = *genDec(r, r.N(4), 0, e.PT.Len)
	for i := r.In(1, 4); i > 0; i-- {
		s.After = append(s.After, r.Pick(0, 0, 1, 10, 500))
	}
	size := 600 + e.PT.Len + e.PT.Len/max(1, int(min(e.Chunk, 1<<30)))*20
	c := max(1, int(min(e.Chunk, 1<<30)))
	near := func(n int) int {
		// chunk boundaries are where things go wrong
		if r.P(2) && n > c {
			return min(n, max(0, (1+r.N(n/c))*c+r.Pick(-1, 0, 0, 1)))
		}
		return r.N(n + 1)
	}
	if r.P(6) && e.PT.Len < 400 && c > 4 {
		s.All = r.PickS("src", "sink", "cut")
		if s.Op == "enc" && s.All == "cut" {
			s.All = "sink"
		}
		s.SrcF, s.SinkF = genFault(r, 0, false), genFault(r, 0, true)
		if e.Stream && s.Op == "enc" {
			s.All = "sink"
		}
		return s
	}
	if r.P(5) {
		s.Piped = true
		if e.PT.Len > 8000 {
			e.PT.Len %= 8000
		}
		if r.P(2) || e.Stream {
			s.Cut = r.N(size)
		} else {
			s.SrcF = genFault(r, 0, false)
			s.SrcF.At = near(e.PT.Len)
		}
		return s
	}
	switch r.N(5) {
	case 0, 1:
		s.SrcF = genFault(r, 0, false)
		if s.Op == "enc" {
			s.SrcF.At = near(e.PT.Len)
			if e.Stream {
				s.SinkF, s.SrcF = genFault(r, size, true), nil
			}
		} else {
			s.SrcF.At = r.N(size)
		}
	case 2, 3:
		s.SinkF = genFault(r, size, true)
		if s.Op == "dec" {
			s.SinkF.At = near(e.PT.Len)
			if s.Dec.Stream {
				s.Cut, s.SinkF = r.N(size), nil
			}
		}
	default:
		if s.Op == "enc" {
			s.Close = r.PickS("eio", "nospace", "reset", "pipe")
		} else {
			s.Cut = r.N(size)
		}
	}
	return s
}

func init() {
	var directed []*p05
	for _, op := range []string{"enc", "dec"} {
		for _, st := range []bool{false, true} {
			for _, n := range []int{0, 1, 16, 32, 33} {
				for _, all := range []string{"src", "sink", "cut"} {
					for v := 0; v < 7; v++ {
						if v > 4 && all != "src" || v == 4 && all != "sink" || (op == "enc" && (all == "cut" || (all == "src" && st))) || (op == "dec" && all == "sink" && st) || (all == "cut" && v > 0) {
							continue
						}
						s := &p05{Op: op, All: all, Cut: -1, Enc: Enc{Stream: st, Chunk: 16, Sender: 49 + n%3, Recips: []int{1}, PT: PT{Len: n, Seed: 3}, Wr: kernel.Frag{Mode: 5, Size: 7}},
							Dec: Dec{Stream: st, Rd: kernel.Frag{Mode: 5, Size: 11}}, After: []int{0, 5, 0}}
						s.SrcF = &kernel.Fault{Kind: []string{"eio", "unexpected", "noprogress", "unexpected", "eio", "lost", "shut"}[v], With: v&1 == 1, Once: v >= 2}
						s.SinkF = &kernel.Fault{Kind: []string{"eio", "nospace", "pipe", "shortwrite", "eio", "eio", "eio"}[v], With: v&1 == 1, Once: v >= 2, Full: v == 4}
						directed = append(directed, s)
					}
				}
			}
		}
	}
	for _, st := range []bool{false, true} {
		for _, k := range []string{"eio", "nospace", "pipe"} {
			directed = append(directed, &p05{Op: "enc", Close: k, Cut: -1, Enc: Enc{Stream: st, Chunk: 16, Sender: 50, Recips: []int{1}, PT: PT{Len: 20}}, After: []int{0, 3, 0}})
		}
	}
	runner.Register(&runner.Prop{
		ID: "P05",
		Families: []*runner.Family{{Name: "iofault", Weight: 1, Directed: len(directed), Gen: func(r *Rng, idx int, tier string) any {
			if idx < len(directed) {
				s := *directed[idx]
				s.Sched = uint64(idx)
				return &s
			}
			return genP05(r, idx, tier)
		}, New: func() any { return &p05{} }, Exec: execP05}},
		Rule: "A case is one simulated encryption or decryption (one-shot or streaming, stored or piped between two tasks) with one injected failure: the source fails at a byte (alone or together with data, once or for good, with any of several errors including io.ErrUnexpectedEOF), the ciphertext is cut, the sink fails at a byte (accepting some or nothing), or close fails; 'all' cases sweep the failure over every byte position. After the failure more calls follow. Non-trivial: the failure really happened before the operation could have ended.",
		Real: libReal, Stub: libStub, Level: "exploration", Quick: 45, Thorough: 900,
		Assume: []string{"readers and writers obey their contracts (no short write without error)", "io.ErrClosedPipe from the input counts as its end, as the code documents by its choice", "a transient error that a reader returns together with data and that does not come again may go unnoticed if all data was processed (io.ReadFull semantics)"},
	})
}

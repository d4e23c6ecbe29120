package kernel

import (
	"errors"
	"fmt"
	"io"
)

// Injected errors. They are ordinary errors as seen by the code under test.
var (
	ErrEIO     = errors.New("simulated: input/output error")
	ErrNoSpace = errors.New("simulated: no space left on device")
	ErrReset   = errors.New("simulated: connection reset by peer")
	ErrEntropy = errors.New("simulated: entropy source failed")
)

// Faults by name, so that scenarios can be stored.
var faultErr = map[string]error{
	"eio":        ErrEIO,
	"nospace":    ErrNoSpace,
	"reset":      ErrReset,
	"unexpected": io.ErrUnexpectedEOF,
	"shortwrite": io.ErrShortWrite,
	"noprogress": io.ErrNoProgress,
	// failures that wrap an end of data without being one
	"lost": fmt.Errorf("simulated: connection lost: %w", io.EOF),
	"shut": fmt.Errorf("simulated: read |0: %w", io.ErrClosedPipe),
	"pipe": io.ErrClosedPipe, // sinks only: a reader's ErrClosedPipe is an end of data for sigtool
}

// IsInjected says whether err is (or wraps) the given fault.
func FaultErr(kind string) error { return faultErr[kind] }

// Fault is one planned failure of a source or sink.
type Fault struct {
	At   int    `json:"at"`             // byte offset at which it fires
	Kind string `json:"kind"`           // name in faultErr
	With bool   `json:"with,omitempty"` // delivered together with the last good bytes
	Once bool   `json:"once,omitempty"` // transient: the endpoint works again afterwards
	Full bool   `json:"full,omitempty"` // sinks: everything is accepted nevertheless
}

// Frag says how a stream is cut into pieces.
type Frag struct {
	Mode int    `json:"mode,omitempty"` // 0 whole, 1 single bytes, 2 small random, 3 random up to request, 4 small with empty reads, 5 fixed Size, 6 multiples of Size and one off
	Seed uint64 `json:"seed,omitempty"`
	Size int    `json:"size,omitempty"`
}

type fragger struct {
	f  Frag
	r  *Rng
	z  int
	at int
}

func newFragger(f Frag) fragger { return fragger{f: f, r: NewRng(Mix(f.Seed, 77))} }

func (f *fragger) next(max int) int {
	if max <= 0 {
		return 0
	}
	n := max
	switch f.f.Mode {
	case 1:
		n = 1
	case 2:
		n = 1 + f.r.N(17)
	case 3:
		n = 1 + f.r.N(max)
	case 4:
		if f.z < 3 && f.r.P(4) {
			f.z++
			return 0
		}
		f.z = 0
		n = 1 + f.r.N(33)
	case 5:
		n = f.f.Size
		if n < 1 {
			n = 1
		}
	case 6:
		// ends at, before and after multiples of Size from the start
		k, z := f.r.N(3), f.f.Size
		if z < 1 {
			z = 1
		}
		if n = (f.at/z+k)*z + f.r.Pick(0, 0, 0, -1, 1, z/2) - f.at; n < 1 {
			n = 1
		}
	}
	if n > max {
		n = max
	}
	f.at += n
	return n
}

// Source is a simulated io.Reader over fixed data.
type Source struct {
	T       *Task
	Data    []byte
	Frag    Frag
	EOFWith bool   // deliver io.EOF with the last bytes
	F       *Fault // may be nil
	NoYield bool

	fr    fragger
	init  bool
	Off   int
	fired bool
	Calls int
	Fired bool // fault fired
	AtEOF bool // reported EOF
}

func (s *Source) Read(b []byte) (int, error) {
	if !s.init {
		s.fr, s.init = newFragger(s.Frag), true
	}
	s.Calls++
	if s.T != nil && !s.NoYield {
		s.T.Yield()
	}
	n, err := s.read(b)
	if s.T != nil {
		s.T.W.Ev(s.T.ID, 'r', n, errno(err))
	}
	return n, err
}

func errno(err error) int {
	switch err {
	case nil:
		return 0
	case io.EOF:
		return 1
	}
	return 2
}

func (s *Source) read(b []byte) (int, error) {
	end := len(s.Data)
	if s.F != nil && !(s.fired && s.F.Once) && s.F.At <= end {
		if s.Off >= s.F.At {
			s.fire()
			return 0, faultErr[s.F.Kind]
		}
		end = s.F.At
	}
	if s.Off >= len(s.Data) {
		s.AtEOF = true
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	m := end - s.Off
	if m > len(b) {
		m = len(b)
	}
	n := s.fr.next(m)
	copy(b, s.Data[s.Off:s.Off+n])
	s.Off += n
	if s.F != nil && s.F.With && !s.fired && s.F.At <= len(s.Data) && s.Off == s.F.At && n > 0 {
		s.fire()
		return n, faultErr[s.F.Kind]
	}
	if s.EOFWith && s.Off == len(s.Data) && n > 0 {
		if s.F == nil || (s.fired && s.F.Once) || s.F.At > len(s.Data) {
			s.AtEOF = true
			return n, io.EOF
		}
	}
	return n, nil
}

func (s *Source) fire() {
	s.Fired = true
	if !s.fired && s.T != nil {
		s.T.W.Fault("source:" + s.F.Kind)
	}
	s.fired = true
}

// Sink is a simulated io.WriteCloser that keeps what it accepted.
type Sink struct {
	T        *Task
	F        *Fault
	CloseErr string // fault kind reported by Close
	Buf      []byte
	Writes   int
	Closed   int
	Late     int  // bytes written after Close
	Fired    bool // a write fault fired
	CFired   bool
	fired    bool
	NoYield  bool
}

func (s *Sink) Write(b []byte) (int, error) {
	if s.T != nil && !s.NoYield {
		s.T.Yield()
	}
	n, err := s.write(b)
	s.Writes++
	if s.T != nil {
		s.T.W.Ev(s.T.ID, 'w', n, errno(err))
	}
	return n, err
}

func (s *Sink) write(b []byte) (int, error) {
	if s.Closed > 0 {
		s.Late += len(b)
		return 0, io.ErrClosedPipe
	}
	if s.F != nil && !(s.fired && s.F.Once) {
		if len(s.Buf)+len(b) > s.F.At || (len(b) == 0 && len(s.Buf) >= s.F.At) {
			n := s.F.At - len(s.Buf)
			if n < 0 || !s.F.With {
				n = 0
			}
			if s.F.Full {
				n = len(b)
			}
			s.Buf = append(s.Buf, b[:n]...)
			if !s.fired && s.T != nil {
				s.T.W.Fault("sink:" + s.F.Kind)
			}
			s.fired, s.Fired = true, true
			return n, faultErr[s.F.Kind]
		}
	}
	s.Buf = append(s.Buf, b...)
	return len(b), nil
}

func (s *Sink) Close() error {
	if s.T != nil && !s.NoYield {
		s.T.Yield()
		s.T.W.Ev(s.T.ID, 'c', s.Closed, 0)
	}
	s.Closed++
	if s.CloseErr != "" && s.Closed == 1 {
		s.CFired = true
		if s.T != nil {
			s.T.W.Fault("close:" + s.CloseErr)
		}
		return faultErr[s.CloseErr]
	}
	return nil
}

// Pipe is a bounded in-memory byte channel between tasks.
type Pipe struct {
	Cap    int
	Frag   Frag
	buf    []byte
	wclose bool
	rclose bool
	fr     fragger
	init   bool
	Total  int
	CutAt  int // the writer side "dies" after this many bytes (-1: never)
	Cut    bool
}

// PipeR and PipeW are the two ends as used by a task.
type PipeR struct {
	P *Pipe
	T *Task
}
type PipeW struct {
	P *Pipe
	T *Task
}

func (r PipeR) Read(b []byte) (int, error) {
	p := r.P
	if !p.init {
		p.fr, p.init = newFragger(p.Frag), true
	}
	r.T.Yield()
	if len(b) == 0 {
		return 0, nil
	}
	r.T.Block("pipe read", func() bool { return len(p.buf) > 0 || p.wclose })
	if len(p.buf) == 0 {
		r.T.W.Ev(r.T.ID, 'R', 0, 1)
		return 0, io.EOF
	}
	m := min(len(b), len(p.buf))
	n := p.fr.next(m)
	copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	r.T.W.Ev(r.T.ID, 'R', n, 0)
	return n, nil
}

// CloseRead makes further writes fail like a broken pipe.
func (r PipeR) CloseRead() { r.P.rclose = true }

func (w PipeW) Write(b []byte) (int, error) {
	p := w.P
	n := 0
	for len(b) > 0 {
		w.T.Yield()
		w.T.Block("pipe write", func() bool { return len(p.buf) < p.Cap || p.rclose || p.Cut })
		if p.rclose || p.wclose {
			return n, ErrReset
		}
		if p.Cut {
			return n, ErrReset
		}
		m := min(len(b), p.Cap-len(p.buf))
		if p.CutAt >= 0 && p.Total+m > p.CutAt {
			m = p.CutAt - p.Total
			p.Cut = true
		}
		p.buf = append(p.buf, b[:m]...)
		p.Total += m
		n += m
		b = b[m:]
		w.T.W.Ev(w.T.ID, 'W', m, 0)
		if p.Cut {
			p.wclose = true
			w.T.W.Fault("pipe:cut")
		}
	}
	return n, nil
}

func (w PipeW) Close() error {
	w.T.Yield()
	w.P.wclose = true
	w.T.W.Ev(w.T.ID, 'C', 0, 0)
	return nil
}

// Frager yields the sizes of the pieces a stream is cut into.
type Frager struct{ f fragger }

func NewFrag(f Frag) *Frager { return &Frager{newFragger(f)} }

// Next returns the size of the next piece, at most max.
func (f *Frager) Next(max int) int { return f.f.next(max) }

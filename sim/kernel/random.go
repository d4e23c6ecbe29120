package kernel

import "io"

// Random is one task's simulated system random source: a seeded stream with an
// optional failure. All bytes it handed out are kept for the oracles.
type Random struct {
	r     *Rng
	Out   []byte
	Keep  bool
	Calls int
	N     int // bytes handed out
	F     *RandFault
	Fired bool
	T     *Task
	Short bool   // hand out short reads (legal for an io.Reader)
	Pre   []byte // comes first
	sr    *Rng
}

// RandFault makes the source fail.
type RandFault struct {
	Call int    `json:"call"` // first failing call (0-based)
	Kind string `json:"kind"` // "err", "eof", "part" (some bytes, then an error)
	Once bool   `json:"once,omitempty"`
}

func NewRandom(seed uint64) *Random {
	return &Random{r: NewRng(Mix(seed, 0xd1ce)), sr: NewRng(Mix(seed, 0x5407))}
}

func (r *Random) read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	c := r.Calls
	r.Calls++
	if r.F != nil && (c == r.F.Call || (c > r.F.Call && !r.F.Once)) {
		r.Fired = true
		switch r.F.Kind {
		case "eof":
			return 0, io.EOF
		case "part":
			n := len(b) / 2
			r.r.Fill(b[:n])
			return n, ErrEntropy
		}
		return 0, ErrEntropy
	}
	n := len(b)
	if r.Short && n > 1 && r.sr.P(2) {
		n = 1 + r.sr.N(n-1)
	}
	m := copy(b[:n], r.Pre)
	r.Pre = r.Pre[m:]
	r.r.Fill(b[m:n])
	if r.Keep {
		r.Out = append(r.Out, b[:n]...)
	}
	r.N += n
	return n, nil
}

// Entropy is installed as crypto/rand.Reader. It serves the running task from
// that task's own stream (or Default outside of tasks).
type Entropy struct {
	W       *World
	Default *Random
}

//go:norace
func (e *Entropy) Read(b []byte) (int, error) {
	r := e.Default
	if e.W != nil {
		if t := e.W.cur; t != nil {
			t.Yield()
			if t.Rand != nil {
				r = t.Rand
			}
		}
	}
	was := r.Fired
	n, err := r.read(b)
	if t := r.T; t != nil {
		t.W.Ev(t.ID, 'e', n, errno(err))
		if r.Fired && !was {
			t.W.Fault("entropy:" + r.F.Kind)
		}
	}
	return n, err
}

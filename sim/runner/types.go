// Package runner drives simulations: it spreads seeded scenarios over worker
// processes, confirms and minimises violations, writes replay files and the
// evidence.
package runner

import (
	"encoding/json"
	"verifsim/kernel"
)

// Viol is one broken property in one run. Kind is a stable class (used for
// minimisation), Msg says what happened.
type Viol struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Outcome is what one simulated run produced.
type Outcome struct {
	Viol       []Viol         `json:"viol,omitempty"`
	Hash       uint64         `json:"hash"`  // of the event log
	Shape      uint64         `json:"shape"` // coarse class of what happened
	NonTrivial bool           `json:"nt"`
	Steps      int            `json:"steps"`
	Evals      int            `json:"evals"` // property evaluations inside the run
	Switches   int            `json:"sw"`
	SimNs      int64          `json:"simns,omitempty"`
	Faults     map[string]int `json:"faults,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
}

func (o *Outcome) Fail(kind, msg string) { o.Viol = append(o.Viol, Viol{kind, msg}) }

// AddWorld takes over the counters of a simulated world.
func (o *Outcome) AddWorld(w *kernel.World) {
	if o.Faults == nil {
		o.Faults = map[string]int{}
	}
	if o.Probes == nil {
		o.Probes = map[string]int{}
	}
	for k, v := range w.Faults {
		o.Faults[k] += v
	}
	for k, v := range w.Probes {
		o.Probes[k] += v
	}
	o.Steps += w.Steps
	o.Switches += w.Switches
	o.Hash = kernel.Mix(o.Hash, w.Hash())
	o.Trace = append(o.Trace, w.Trace...)
}

func (o *Outcome) Fault(k string) {
	if o.Faults == nil {
		o.Faults = map[string]int{}
	}
	o.Faults[k]++
}

func (o *Outcome) Probe(k string) {
	if o.Probes == nil {
		o.Probes = map[string]int{}
	}
	o.Probes[k]++
}

// Family is a kind of scenario that decides a property.
type Family struct {
	Name     string
	Weight   int                                           // relative share of the random runs
	Directed int                                           // number of fixed scenarios run first
	Gen      func(r *kernel.Rng, idx int, tier string) any // idx < Directed: the fixed scenario idx; else random
	New      func() any                                    // empty scenario for decoding
	Exec     func(sc any, x *Exec) *Outcome
}

// Exec is the environment of one execution.
type Exec struct {
	Tier  string
	Trace bool
}

// Prop is one property and how it is decided.
type Prop struct {
	ID       string
	Families []*Family
	Rule     string
	Real     []string // components that run real code
	Stub     []string // components that are simulated
	Assume   []string
	Level    string
	Quick    int // seconds of random exploration
	Thorough int
	Race     bool
	Workers  int // 0: one per core
	Limit    int // seconds before a run counts as hanging (default 100)
}

// Case is one concrete scenario, as stored in replay files.
type Case struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Index    int             `json:"index"`
	Seed     uint64          `json:"seed"`
	Scenario json.RawMessage `json:"scenario"`
	Kind     string          `json:"kind,omitempty"`
	Msg      string          `json:"msg,omitempty"`
	Trace    []string        `json:"trace,omitempty"`
	// for violations that need everything a worker did before
	Seq *Seq `json:"seq,omitempty"`
}

// Seq identifies all the runs of one worker up to a point.
type Seq struct {
	VerifSeed uint64 `json:"verif_seed"`
	Tier      string `json:"tier"`
	From      int    `json:"from"`
	Stride    int    `json:"stride"`
	Upto      int    `json:"upto"`
}

var Props = map[string]*Prop{}

func Register(p *Prop) { Props[p.ID] = p }

// pick maps a global run index to a family and the index within it: first all
// the directed scenarios of all families, then random ones by weight.
func (p *Prop) pick(seed uint64, idx int) (*Family, int, *kernel.Rng) {
	n := idx
	for _, f := range p.Families {
		if n < f.Directed {
			return f, n, kernel.NewRng(kernel.Mix(seed, kernel.MixStr(p.ID), kernel.MixStr(f.Name), uint64(n)))
		}
		n -= f.Directed
	}
	r := kernel.NewRng(kernel.Mix(seed, kernel.MixStr(p.ID), uint64(idx)))
	tot := 0
	for _, f := range p.Families {
		tot += f.Weight
	}
	k := r.N(tot)
	for _, f := range p.Families {
		if k < f.Weight {
			return f, f.Directed + n, r
		}
		k -= f.Weight
	}
	panic("no family")
}

func (p *Prop) directed() int {
	n := 0
	for _, f := range p.Families {
		n += f.Directed
	}
	return n
}

func (p *Prop) family(name string) *Family {
	for _, f := range p.Families {
		if f.Name == name {
			return f
		}
	}
	return nil
}

package runner

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/kernel"
)

// RunCase executes a scenario and turns a panic of the harness or of code that
// runs outside of tasks into a violation-independent error.
func RunCase(p *Prop, fam *Family, sc any, x *Exec) (o *Outcome) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			msg := fmt.Sprint(e)
			if strings.HasPrefix(msg, "HARNESS:") {
				panic(e)
			}
			if !kernel.Blame(e, st) {
				panic(fmt.Sprintf("HARNESS: %v\n%s", e, st))
			}
			o = &Outcome{}
			o.Fail("panic", msg+"\n"+st)
		}
	}()
	return fam.Exec(sc, x)
}

type line struct {
	T    string   `json:"t"` // "s" start, "d" done, "e" end of worker
	I    int      `json:"i"`
	Fam  string   `json:"f,omitempty"`
	Out  *Outcome `json:"o,omitempty"`
	Case *Case    `json:"c,omitempty"`
	Dif  bool     `json:"dif,omitempty"` // repeated run differed
	Rep  bool     `json:"rep,omitempty"` // was repeated
}

// Worker runs scenarios from, from+stride, ... until the deadline or upto.
func Worker(p *Prop, seed uint64, tier string, from, stride, upto int, dur time.Duration, out io.Writer) {
	debug.SetGCPercent(200)
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	emit := func(l *line) {
		enc.Encode(l)
		w.Flush()
	}
	start := time.Now()
	nd := p.directed()
	for i := from; i < upto; i += stride {
		if dur > 0 && i >= nd && time.Since(start) > dur {
			break
		}
		fam, k, r := p.pick(seed, i)
		sc := fam.Gen(r, k, tier)
		js, err := json.Marshal(sc)
		if err != nil {
			panic(err)
		}
		emit(&line{T: "s", I: i, Fam: fam.Name})
		x := &Exec{Tier: tier}
		// run what the replay file will hold, not the generated structure
		sc2 := fam.New()
		if err := json.Unmarshal(js, sc2); err != nil {
			panic(err)
		}
		o := RunCase(p, fam, sc2, x)
		l := &line{T: "d", I: i, Fam: fam.Name, Out: o}
		if len(o.Viol) > 0 || i < 2*stride {
			l.Case = &Case{Property: p.ID, Family: fam.Name, Index: i, Seed: seed, Scenario: js}
		}
		if i >= nd && (i/stride)%23 == 0 && len(o.Viol) == 0 {
			sc3 := fam.New()
			json.Unmarshal(js, sc3)
			o2 := RunCase(p, fam, sc3, x)
			l.Rep = true
			l.Dif = o2.Hash != o.Hash
		}
		emit(l)
	}
	emit(&line{T: "e"})
}

// Serve executes cases read from stdin, one JSON per line, and answers with outcomes.
func Serve(in io.Reader, out io.Writer) {
	rd := bufio.NewReaderSize(in, 1<<20)
	w := bufio.NewWriter(out)
	for {
		b, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var req struct {
			Case  Case
			Tier  string
			Trace bool
		}
		if err := json.Unmarshal(b, &req); err != nil {
			fmt.Fprintf(os.Stderr, "serve: %s\n", err)
			os.Exit(3)
		}
		o := execCase(&req.Case, &Exec{Tier: req.Tier, Trace: req.Trace})
		js, _ := json.Marshal(o)
		w.Write(js)
		w.WriteByte('\n')
		w.Flush()
	}
}

func execCase(c *Case, x *Exec) *Outcome {
	p := Props[c.Property]
	if p == nil {
		return nil
	}
	if c.Seq != nil {
		// run everything the worker ran
		var last *Outcome
		for i := c.Seq.From; i <= c.Seq.Upto; i += c.Seq.Stride {
			fam, k, r := p.pick(c.Seq.VerifSeed, i)
			sc := fam.Gen(r, k, c.Seq.Tier)
			js, _ := json.Marshal(sc)
			sc2 := fam.New()
			json.Unmarshal(js, sc2)
			last = RunCase(p, fam, sc2, x)
		}
		return last
	}
	fam := p.family(c.Family)
	if fam == nil {
		return nil
	}
	sc := fam.New()
	if err := json.Unmarshal(c.Scenario, sc); err != nil {
		return &Outcome{}
	}
	return RunCase(p, fam, sc, x)
}

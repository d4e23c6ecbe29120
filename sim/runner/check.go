package runner

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Config of one check.
type Config struct {
	Prop     string
	Tier     string
	Seed     uint64
	Evidence string
	Replays  string
	Known    string // known-findings file
	Workers  int
	Dur      time.Duration // 0: from the property
	MaxRuns  int
}

var runLimit = 100 * time.Second // wall-clock watchdog for one scenario

// known findings: lines "finding: property=<id> sig=<kind> <text>"
type finding struct{ prop, sig, text string }

func loadKnown(fn string) []finding {
	b, err := os.ReadFile(fn)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) sig=(\S+) (.*)$`)
	var v []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			v = append(v, finding{m[1], m[2], m[3]})
		}
	}
	return v
}

type agg struct {
	runs, nontrivial, steps, evals, switches int
	simns                                    int64
	repeated, differed                       int
	hashes                                   map[uint64]struct{}
	shapes                                   map[uint64]struct{}
	faults, probes, fams                     map[string]int
	samples                                  []any
}

type candidate struct {
	c     *Case
	v     Viol
	crash bool
	seq   *Seq
}

// Check runs the whole check of a property. The exit status is returned.
func Check(cfg *Config) int {
	p := Props[cfg.Prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", cfg.Prop)
		return 2
	}
	t0 := time.Now()
	if p.Limit > 0 {
		runLimit = time.Duration(p.Limit) * time.Second
	}
	dur := cfg.Dur
	if dur == 0 {
		dur = time.Duration(p.Quick) * time.Second
		if cfg.Tier == "thorough" {
			dur = time.Duration(p.Thorough) * time.Second
		}
	}
	nw := cfg.Workers
	if nw == 0 {
		nw = p.Workers
	}
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	upto := cfg.MaxRuns
	if upto == 0 {
		upto = 1 << 40
	}
	a := &agg{hashes: map[uint64]struct{}{}, shapes: map[uint64]struct{}{}, faults: map[string]int{},
		probes: map[string]int{}, fams: map[string]int{}}
	known := loadKnown(cfg.Known)
	printed := map[string]bool{}

	cand := make(chan *candidate, 1000)
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	var harness []string
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			from := k
			for {
				next, err := runWorker(p, cfg, from, nw, upto, dur-time.Since(t0), stop, func(l *line) {
					mu.Lock()
					defer mu.Unlock()
					a.add(l)
				}, func(c *candidate) bool {
					for _, f := range known {
						if f.prop == p.ID && f.sig == c.v.Kind {
							mu.Lock()
							if !printed[f.sig] {
								printed[f.sig] = true
								fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.text)
							}
							mu.Unlock()
							return true // go on
						}
					}
					select {
					case cand <- c:
					default:
					}
					once.Do(func() { close(stop) })
					return false
				})
				if err != nil {
					mu.Lock()
					harness = append(harness, err.Error())
					mu.Unlock()
					return
				}
				if next < 0 {
					return
				}
				from = next
			}
		}(k)
	}
	wg.Wait()
	close(cand)
	explored := time.Since(t0)

	exit := 0
	nviol := 0
	var unconfirmed []string
	var cs []*candidate
	for c := range cand {
		cs = append(cs, c)
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].c.Index < cs[j].c.Index })
	seen := map[string]bool{}
	for _, c := range cs {
		if seen[c.v.Kind] || len(seen) >= 3 {
			continue
		}
		path, ok, why := confirm(p, cfg, c)
		if !ok {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s (run %d): %s", c.v.Kind, c.c.Index, why))
			continue
		}
		seen[c.v.Kind] = true
		nviol++
		fmt.Printf("violated: %s: %s\n", c.v.Kind, c.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		exit = 1
	}
	if exit == 0 && len(unconfirmed) > 0 {
		for _, s := range unconfirmed {
			fmt.Fprintf(os.Stderr, "not reproducible: %s\n", s)
		}
		exit = 2
	}
	if len(harness) > 0 {
		for _, s := range harness {
			fmt.Fprintf(os.Stderr, "harness: %s\n", s)
		}
		if exit == 0 {
			exit = 2
		}
	}
	if exit == 0 && a.runs == 0 {
		fmt.Fprintf(os.Stderr, "harness: nothing was run\n")
		exit = 2
	}
	if err := writeEvidence(p, cfg, a, t0, explored, nviol, nw); err != nil {
		fmt.Fprintf(os.Stderr, "evidence: %s\n", err)
		if exit == 0 {
			exit = 2
		}
	}
	fmt.Printf("%s: %d runs (%d distinct, %d non-trivial), %d evaluations, %d steps, %.1fs, exit %d\n",
		p.ID, a.runs, len(a.hashes), a.nontrivial, a.evals, a.steps, time.Since(t0).Seconds(), exit)
	return exit
}

func (a *agg) add(l *line) {
	o := l.Out
	if o == nil {
		return
	}
	a.runs++
	a.fams[l.Fam]++
	a.steps += o.Steps
	a.evals += o.Evals
	a.switches += o.Switches
	a.simns += o.SimNs
	if l.Rep {
		a.repeated++
		if l.Dif {
			a.differed++
		}
	}
	if o.NonTrivial {
		a.nontrivial++
		a.hashes[o.Hash] = struct{}{}
	}
	a.shapes[o.Shape] = struct{}{}
	for k, v := range o.Faults {
		a.faults[k] += v
	}
	for k, v := range o.Probes {
		a.probes[k] += v
	}
	if l.Case != nil && len(a.samples) < 4 && len(l.Case.Scenario) < 4000 {
		a.samples = append(a.samples, map[string]any{"family": l.Fam, "run": l.I, "scenario": l.Case.Scenario,
			"steps": o.Steps, "log_hash": fmt.Sprintf("%016x", o.Hash)})
	}
}

// runWorker runs one worker process. It returns the index to go on from (the
// worker died) or -1.
func runWorker(p *Prop, cfg *Config, from, stride, upto int, dur time.Duration, stop chan struct{},
	done func(*line), viol func(*candidate) bool) (int, error) {
	select {
	case <-stop:
		return -1, nil
	default:
	}
	if dur < time.Second {
		dur = time.Second
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", "-prop", p.ID, "-tier", cfg.Tier, "-seed", fmt.Sprint(cfg.Seed),
		"-from", fmt.Sprint(from), "-stride", fmt.Sprint(stride), "-upto", fmt.Sprint(upto), "-dur", dur.String())
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	errbuf := &tail{max: 16000}
	cmd.Stderr = errbuf
	so, err := cmd.StdoutPipe()
	if err != nil {
		return -1, err
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return -1, err
	}
	lines := make(chan *line, 16)
	go func() {
		rd := bufio.NewReaderSize(so, 1<<20)
		for {
			b, err := rd.ReadBytes('\n')
			if err != nil {
				break
			}
			var l line
			if json.Unmarshal(b, &l) == nil {
				lines <- &l
			}
		}
		close(lines)
	}()
	kill := func() {
		cmd.Process.Kill()
		for range lines {
		}
		cmd.Wait()
	}
	last, lastFam := -1, ""
	ended := false
	timer := time.NewTimer(runLimit)
	defer timer.Stop()
	for {
		select {
		case <-stop:
			kill()
			return -1, nil
		case <-timer.C:
			kill()
			if last < 0 {
				return -1, fmt.Errorf("worker did not start")
			}
			c := regen(p, cfg, last)
			if viol(&candidate{c: c, v: Viol{"hang", fmt.Sprintf("%s: no end after %s", lastFam, runLimit)}, crash: true}) {
				return last + stride, nil
			}
			return -1, nil
		case l, ok := <-lines:
			if !ok {
				err := cmd.Wait()
				if ended && err == nil {
					return -1, nil
				}
				select {
				case <-stop:
					return -1, nil
				default:
				}
				if ee, ok := err.(*exec.ExitError); ok {
					if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
						return -1, fmt.Errorf("worker was killed (out of memory?) in run %d", last)
					}
				}
				if last < 0 || strings.Contains(errbuf.String(), "HARNESS:") {
					return -1, fmt.Errorf("worker failed: %v\n%s", err, errbuf.String())
				}
				c := regen(p, cfg, last)
				msg := fmt.Sprintf("process died (%v): %s", err, firstLines(errbuf.String(), 12))
				if viol(&candidate{c: c, v: Viol{"crash", msg}, crash: true, seq: &Seq{cfg.Seed, cfg.Tier, from, stride, last}}) {
					return last + stride, nil
				}
				return -1, nil
			}
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			timer.Reset(runLimit)
			switch l.T {
			case "s":
				last, lastFam = l.I, l.Fam
			case "e":
				ended = true
			case "d":
				done(l)
				for _, v := range l.Out.Viol {
					c := *l.Case
					if !viol(&candidate{c: &c, v: v, seq: &Seq{cfg.Seed, cfg.Tier, from, stride, l.I}}) {
						kill()
						return -1, nil
					}
				}
			}
		}
	}
}

func regen(p *Prop, cfg *Config, idx int) *Case {
	fam, k, r := p.pick(cfg.Seed, idx)
	js, _ := json.Marshal(fam.Gen(r, k, cfg.Tier))
	return &Case{Property: p.ID, Family: fam.Name, Index: idx, Seed: cfg.Seed, Scenario: js}
}

func firstLines(s string, n int) string {
	v := strings.Split(strings.TrimSpace(s), "\n")
	if len(v) > n {
		v = v[:n]
	}
	return strings.Join(v, " | ")
}

type tail struct {
	mu  sync.Mutex
	b   []byte
	max int
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := t.max - len(t.b); room > 0 {
		t.b = append(t.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// Server executes single cases in a separate process.
type Server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan []byte
	err *tail
}

func (s *Server) start() error {
	self, _ := os.Executable()
	s.cmd = exec.Command(self, "serve")
	s.err = &tail{max: 16000}
	s.cmd.Stderr = s.err
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	so, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = make(chan []byte, 1)
	ch := s.out
	go func() {
		rd := bufio.NewReaderSize(so, 1<<20)
		for {
			b, err := rd.ReadBytes('\n')
			if err != nil {
				close(ch)
				return
			}
			ch <- b
		}
	}()
	return nil
}

func (s *Server) Stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		for range s.out {
		}
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Run executes a case; crashes and hangs of the process become violations.
func (s *Server) Run(c *Case, tier string, trace bool, limit time.Duration) (*Outcome, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return nil, err
		}
	}
	js, _ := json.Marshal(map[string]any{"Case": c, "Tier": tier, "Trace": trace})
	s.in.Write(append(js, '\n'))
	select {
	case b, ok := <-s.out:
		if ok {
			var o Outcome
			if err := json.Unmarshal(b, &o); err != nil {
				return nil, err
			}
			return &o, nil
		}
		err := s.cmd.Wait()
		msg := s.err.String()
		s.cmd = nil
		if strings.Contains(msg, "HARNESS:") {
			return nil, fmt.Errorf("harness: %s", msg)
		}
		return &Outcome{Viol: []Viol{{"crash", fmt.Sprintf("process died (%v): %s", err, firstLines(msg, 12))}}}, nil
	case <-time.After(limit):
		s.Stop()
		return &Outcome{Viol: []Viol{{"hang", fmt.Sprintf("no end after %s", limit)}}}, nil
	}
}

func find(o *Outcome, kind string) *Viol {
	if o == nil {
		return nil
	}
	for i := range o.Viol {
		if o.Viol[i].Kind == kind {
			return &o.Viol[i]
		}
	}
	return nil
}

// confirm reproduces a violation in a fresh process, minimises it, and writes
// the replay file.
func confirm(p *Prop, cfg *Config, c *candidate) (string, bool, string) {
	s := &Server{}
	defer s.Stop()
	cs := c.c
	o, err := s.Run(cs, cfg.Tier, false, runLimit)
	if err != nil {
		return "", false, err.Error()
	}
	if v := find(o, c.v.Kind); v != nil {
		c.v = *v
		// minimise
		lim := 45 * time.Second
		per := 20 * time.Second
		if c.v.Kind == "hang" {
			lim = 0
		}
		until := time.Now().Add(lim)
		js, _ := shrink(cs.Scenario, func(js json.RawMessage) bool {
			cc := *cs
			cc.Scenario = js
			o, err := s.Run(&cc, cfg.Tier, false, per)
			return err == nil && find(o, c.v.Kind) != nil
		}, until)
		s.Stop()
		min := *cs
		min.Scenario = js
		// the minimised case must fail the same way in a fresh process, twice
		f := &Server{}
		o1, _ := f.Run(&min, cfg.Tier, true, runLimit)
		f.Stop()
		if find(o1, c.v.Kind) == nil {
			min = *cs
			o1, _ = f.Run(&min, cfg.Tier, true, runLimit)
			f.Stop()
		}
		if v := find(o1, c.v.Kind); v != nil {
			min.Kind, min.Msg, min.Trace = v.Kind, v.Msg, o1.Trace
			c.v = *v
			return writeReplay(cfg, &min)
		}
		return "", false, "does not repeat in a fresh process"
	}
	s.Stop()
	if c.seq != nil {
		cc := *cs
		cc.Seq = c.seq
		o, err := s.Run(&cc, cfg.Tier, true, 10*runLimit/5)
		s.Stop()
		if err == nil {
			if v := find(o, c.v.Kind); v != nil {
				cc.Kind, cc.Msg = v.Kind, v.Msg
				cc.Trace = o.Trace
				c.v = *v
				return writeReplay(cfg, &cc)
			}
		}
	}
	return "", false, "does not repeat: " + c.v.Msg
}

func writeReplay(cfg *Config, c *Case) (string, bool, string) {
	os.MkdirAll(cfg.Replays, 0755)
	h := uint64(0)
	for _, b := range c.Scenario {
		h = h*131 + uint64(b)
	}
	kind := regexp.MustCompile(`[^a-zA-Z0-9_.-]+`).ReplaceAllString(c.Kind, "_")
	fn := filepath.Join(cfg.Replays, fmt.Sprintf("%s-%s-%08x.json", c.Property, kind, uint32(h)))
	if len(c.Trace) > 400 {
		c.Trace = c.Trace[:400]
	}
	b, _ := json.MarshalIndent(c, "", " ")
	if err := os.WriteFile(fn, b, 0644); err != nil {
		return "", false, err.Error()
	}
	return fn, true, ""
}

// Replay runs a replay file; 1 if the violation happens again, 0 if not.
func Replay(fn, tier string) int {
	b, err := os.ReadFile(fn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := &Server{}
	defer s.Stop()
	o, err := s.Run(&c, tier, true, runLimit)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range o.Trace {
		fmt.Println("  ", l)
	}
	for _, v := range o.Viol {
		fmt.Printf("violated: %s: %s\n", v.Kind, v.Msg)
	}
	if len(o.Viol) > 0 {
		return 1
	}
	fmt.Println("no violation")
	return 0
}

func writeEvidence(p *Prop, cfg *Config, a *agg, t0 time.Time, explored time.Duration, nviol, nw int) error {
	h := explored.Hours()
	cov := map[string]any{
		"evaluations":         a.evals,
		"distinct_nontrivial": len(a.hashes),
		"rule":                p.Rule,
		"samples":             a.samples,
		"simulated_runs":      a.runs,
		"runs_nontrivial":     a.nontrivial,
		"runs_by_family":      a.fams,
		"directed_scenarios":  p.directed(),
		"runs_per_hour":       int(float64(a.runs) / h),
		"seeds_per_hour":      int(float64(a.runs) / h),
		"simulated_steps":     a.steps,
		"task_switches":       a.switches,
		"distinct_shapes":     len(a.shapes),
		"shape_measure":       "number of distinct coarse outcome classes (parameters class x fault class x result class) reached; distinct_nontrivial counts distinct hashes of the complete event log (every I/O call, its size and result, every schedule decision)",
		"faults_injected":     a.faults,
		"probes_hit":          a.probes,
		"determinism_checked": map[string]int{"runs_repeated": a.repeated, "event_log_differed": a.differed},
		"real_components":     p.Real,
		"stub_components":     p.Stub,
		"workers":             nw,
	}
	if a.simns > 0 {
		cov["simulated_seconds"] = float64(a.simns) / 1e9
	} else {
		cov["simulated_time"] = "the code has no timers; simulated time is counted in steps"
	}
	ev := map[string]any{
		"property":    p.ID,
		"tier":        cfg.Tier,
		"seed":        cfg.Seed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": append([]string{}, p.Assume...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(cfg.Evidence), 0755); err != nil {
		return err
	}
	return os.WriteFile(cfg.Evidence, b, 0644)
}

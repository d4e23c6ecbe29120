package kernel

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// World is one simulated execution. Exactly one task runs at any time; the
// schedule is drawn from Rng at every yield point.
type World struct {
	Rng      *Rng
	MaxSteps int
	Steps    int
	Faults   map[string]int
	Probes   map[string]int
	Switches int

	tasks  []*Task
	cur    *Task
	back   gate
	hash   uint64
	nlog   int
	Trace  []string // kept only if KeepTrace
	KeepTr bool
	over   bool // step budget exhausted
	live   int
}

type tstate int

const (
	ready tstate = iota
	blocked
	done
)

// Task is one simulated thread of control.
type Task struct {
	W     *World
	ID    int
	Name  string
	st    tstate
	g     gate
	why   string
	wake  func() bool
	kill  bool
	Panic *PanicInfo
	Rand  *Random
}

// PanicInfo describes a panic that escaped from the code under test.
type PanicInfo struct {
	Val   string
	Stack string
}

type killed struct{}

// IsKilled says whether a recovered value is the simulator unwinding a task.
func IsKilled(e any) bool { _, ok := e.(killed); return ok }

// Blame says whether a panic happened in (or below) the code under test: going
// up from the panic, that code comes before the simulator's. An invalid access of
// a user of the library (verifsim/lib) is due to what the library returned: no
// object and no error, say.
func Blame(e any, st string) bool {
	i := strings.LastIndex(st, "\npanic(")
	if i < 0 {
		i = 0
	}
	st = st[i:]
	a, b := strings.Index(st, "opencoff/sigtool/"), strings.Index(st, "verifsim/")
	// the tool's own I/O may end in a simulated endpoint that panicked
	if a >= 0 && (b < 0 || a < b) {
		return true
	}
	_, ok := e.(runtime.Error)
	return ok && b >= 0 && strings.HasPrefix(st[b:], "verifsim/lib.")
}

// NewPanic describes the value just recovered. A panic of the simulator itself
// ends the process.
func NewPanic(e any) *PanicInfo {
	p := &PanicInfo{Val: fmt.Sprint(e), Stack: string(debug.Stack())}
	if !Blame(e, p.Stack) {
		fmt.Fprintf(os.Stderr, "HARNESS: panic in the simulator: %s\n%s\n", p.Val, p.Stack)
		os.Exit(3)
	}
	return p
}

func NewWorld(seed uint64, maxSteps int) *World {
	return &World{
		Rng:      NewRng(Mix(seed, 0x5ced)),
		MaxSteps: maxSteps,
		Faults:   map[string]int{},
		Probes:   map[string]int{},
		hash:     1469598103934665603,
	}
}

// Logf records an event in the (hashed) event log. It must be called by the
// running task or between runs only.
func (w *World) Logf(f string, v ...any) {
	s := fmt.Sprintf(f, v...)
	for i := 0; i < len(s); i++ {
		w.hash ^= uint64(s[i])
		w.hash *= 1099511628211
	}
	w.hash ^= '\n'
	w.hash *= 1099511628211
	w.nlog++
	if w.KeepTr && len(w.Trace) < 4000 {
		w.Trace = append(w.Trace, s)
	}
}

// Ev is the cheap form of Logf used by simulated I/O.
//
//go:norace
func (w *World) Ev(task int, op byte, a, b int) {
	h := w.hash
	h = (h ^ uint64(task)) * 1099511628211
	h = (h ^ uint64(op)) * 1099511628211
	h = (h ^ uint64(a)) * 1099511628211
	h = (h ^ uint64(b)) * 1099511628211
	w.hash = h
	w.nlog++
	if w.KeepTr && len(w.Trace) < 4000 {
		w.Trace = append(w.Trace, fmt.Sprintf("t%d %c %d %d", task, op, a, b))
	}
}

// HashBytes mixes data into the event log hash.
func (w *World) HashBytes(b []byte) {
	h := w.hash
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	w.hash = h
}

func (w *World) Hash() uint64      { return w.hash }
func (w *World) Fault(kind string) { w.Faults[kind]++ }
func (w *World) Probe(what string) { w.Probes[what]++ }

//go:norace
func (w *World) Cur() *Task       { return w.cur }
func (w *World) OutOfSteps() bool { return w.over }

// Go adds a task; fn starts running when Run() first picks it.
func (w *World) Go(name string, fn func(t *Task)) *Task {
	t := &Task{W: w, ID: len(w.tasks), Name: name}
	w.tasks = append(w.tasks, t)
	w.live++
	t.g.init()
	go t.main(fn)
	return t
}

//go:norace
func (t *Task) main(fn func(*Task)) {
	t.g.wait()
	defer t.finish()
	if t.kill {
		panic(killed{})
	}
	fn(t)
}

//go:norace
func (t *Task) finish() {
	if e := recover(); e != nil {
		if _, ok := e.(killed); !ok {
			t.Panic = NewPanic(e)
		}
	}
	t.st = done
	t.W.live--
	t.W.back.open()
}

// Yield gives the scheduler the chance to run another task. It does nothing
// when called outside of a task.
//
//go:norace
func (t *Task) Yield() {
	if t == nil {
		return
	}
	w := t.W
	w.Steps++
	if w.live == 1 && t.st == ready && w.Steps <= w.MaxSteps {
		return // nothing to choose
	}
	w.back.open()
	t.g.wait()
	if t.kill {
		panic(killed{})
	}
}

// Block parks the task until cond() is true.
//
//go:norace
func (t *Task) Block(why string, cond func() bool) {
	for !cond() {
		t.st, t.why, t.wake = blocked, why, cond
		t.Yield()
	}
	t.st, t.wake = ready, nil
}

// Run schedules the tasks until all are done, nothing can run (deadlock) or
// the step budget is used up. It returns "" or a description of the stall.
//
//go:norace
func (w *World) Run() string {
	w.back.init()
	stall := ""
	for {
		var run []*Task
		left := 0
		for _, t := range w.tasks {
			if t.st == done {
				continue
			}
			left++
			if t.st == blocked && !t.wake() {
				continue
			}
			run = append(run, t)
		}
		if left == 0 {
			break
		}
		if len(run) == 0 {
			var v []string
			for _, t := range w.tasks {
				if t.st == blocked {
					v = append(v, t.Name+": "+t.why)
				}
			}
			sort.Strings(v)
			stall = fmt.Sprintf("deadlock: %v", v)
			break
		}
		if w.Steps > w.MaxSteps {
			w.over = true
			stall = fmt.Sprintf("no end after %d steps", w.Steps)
			break
		}
		t := run[0]
		if len(run) > 1 {
			t = run[w.Rng.N(len(run))]
		}
		if w.cur != t {
			w.Switches++
			w.hash = (w.hash ^ uint64(t.ID+7)) * 1099511628211
		}
		w.cur = t
		t.g.open()
		w.back.wait()
	}
	w.cur = nil
	// unwind whatever is left
	for _, t := range w.tasks {
		for t.st != done {
			t.kill = true
			w.cur = t
			t.g.open()
			w.back.wait()
		}
	}
	w.cur = nil
	w.tasks = nil
	return stall
}

// Tasks returns the current tasks.
func (w *World) Tasks() []*Task { return append([]*Task{}, w.tasks...) }

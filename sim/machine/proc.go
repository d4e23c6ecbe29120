package machine

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"verifsim/kernel"
)

// Pipe is a bounded byte queue.
type Pipe struct {
	buf     []byte
	cap     int
	readers int
	writers int
	fifo    bool
	fed     bool // by an actor: it always has a writer
	id      int
	Moved   int // bytes that went through
}

func newPipe(cap int) *Pipe { return &Pipe{cap: cap} }

// Tty is a terminal: what the user will type, and what is on the screen.
type Tty struct {
	Lines   []string // still to be typed, each followed by Enter
	cur     []byte
	Termios [36]byte
	Screen  []byte
	Shown   []byte // input that was echoed
	EchoOff int    // reads with echo off
}

const (
	lICANON = 2
	lECHO   = 8
)

func NewTty(lines ...string) *Tty {
	t := &Tty{Lines: lines}
	binary.LittleEndian.PutUint32(t.Termios[0:], 0x4500)
	binary.LittleEndian.PutUint32(t.Termios[4:], 5)
	binary.LittleEndian.PutUint32(t.Termios[8:], 0xbf)
	binary.LittleEndian.PutUint32(t.Termios[12:], 0x8a3b)
	return t
}

func (t *Tty) echo() bool { return binary.LittleEndian.Uint32(t.Termios[12:])&lECHO != 0 }

// File is an open file description.
type File struct {
	ino    *Inode
	pr, pw *Pipe // pipe ends
	tty    *Tty
	cap    *[]byte // captured output
	off    int64
	flags  int
	refs   int
	path   string
}

// Fault is one planned fault: the N-th request (from 0) of class Op ("any" for
// all) of process P (-1: any process).
type Fault struct {
	P      int
	Op     string
	N      int
	Kind   string // errno name, "short", "kill", "power"
	Sticky bool   `json:",omitempty"` // all further requests of the class fail as well
	K      int    `json:",omitempty"` // how short
}

// Proc is one simulated program run.
type Proc struct {
	ID    int
	m     *Machine
	os    *os.Process
	sock  int
	errfd *os.File
	Args  []string

	cwd   *Inode
	cwdP  string
	umask uint32
	cred  cred
	Pid   int
	fds   map[int]*File

	req   *request // next request, waiting to be served
	done  bool
	Nreq  int
	count map[string]int
	stick map[string]string
	rnd   *kernel.Rng
	Drawn []byte // what getrandom gave

	// bytes read from descriptor 0, the same when the last read of it was
	// asked for, and bytes written anywhere but to descriptor 2
	In, Wanted, Out int64
	Reads0          int

	Exit    int // exit status; -1 if killed by a signal
	Signal  int
	Killed  bool // by the plan
	Hung    bool
	Raw     string // written directly by the language runtime (crash reports)
	MaxRSS  int64  // KiB
	Stdout  []byte
	Stderr  []byte
	Asked   int // length of Stderr when the terminal was read last
	Tty     *Tty
	RandBad bool // a fault hit the random source
	EndedAt int  // machine step
}

// Hit says which file a fault was about.
type Hit struct {
	P    int
	Cls  string
	Kind string
	Path string // as given, or "" if the file was open
	Ino  *Inode
}

type request struct {
	nr  int
	a   [6]uint64
	seg [3][]byte
	out int
	cls string
}

// Cmd describes a program run.
type Cmd struct {
	Bin     string // "": the machine's default
	Args    []string
	Env     []string
	Stdin   *File // nil: /dev/null
	Stdout  *File // nil: captured
	Stderr  *File // nil: captured
	Cwd     string
	Umask   int
	Uid     int
	Pid     int
	Rand    uint64 // seed of its random source
	Clock   int64
	RtSeed  uint64 // seed of the language runtime (map order etc.)
	Tty     *Tty
	RealKDF bool
}

// actors other than processes: they move bytes into or out of pipes.
type actor struct {
	name  string
	pipe  *Pipe
	feed  []byte
	isSrc bool
	sink  *[]byte
	left  int // sink: bytes until it goes away; <0: never
	done  bool
}

// Wr is one successful write.
type Wr struct {
	P    int
	Fd   int
	Ino  *Inode // nil: pipe, terminal, captured output
	Data []byte
}

// Foreign is what a process did to a file another, still running process made.
type Foreign struct {
	P, Maker int
	Op       string
	Paths    []string // of the file before
}

func (m *Machine) foreign(p *Proc, n *Inode, op string) {
	if n == nil || n.Kind != Reg || n.Maker < 0 || n.Maker == p.ID || n.Maker >= len(m.Procs) || m.Procs[n.Maker].done {
		return
	}
	m.Foreign = append(m.Foreign, Foreign{p.ID, n.Maker, op, m.FS.Paths(n.Ino)})
}

// Machine is one simulated computer.
type Machine struct {
	FS      *FS
	Rng     *kernel.Rng
	Procs   []*Proc
	actors  []*actor
	Plan    []Fault
	Step    int
	Limit   int
	Power   bool // went off
	Stuck   bool
	Faults  map[string]int
	Hits    []Hit // what the faults hit
	Foreign []Foreign
	Probes  map[string]int
	Sw      int
	last    int
	sticky  int // 1/n chance to switch
	hash    uint64
	KeepTr  bool
	Trace   []string
	After   func(p *Proc, r string) // invariant hook after each request
	KeepWr  bool
	KeepMem bool // measure memory
	Writes  []Wr // what was written, if KeepWr
	nextid  int
	tmo     time.Duration
	Bin     string
}

var DefaultBin string

func New(fs *FS, seed uint64) *Machine {
	m := &Machine{FS: fs, Rng: kernel.NewRng(seed), Limit: 60000, Faults: map[string]int{}, Probes: map[string]int{},
		last: -1, sticky: 1, tmo: 60 * time.Second, Bin: DefaultBin, hash: 1}
	m.sticky = m.Rng.Pick(1, 1, 2, 4, 12)
	return m
}

func (m *Machine) Hash() uint64 { return m.hash }

func (m *Machine) event(s string) {
	m.hash = kernel.Mix(m.hash, kernel.MixStr(s))
	if m.KeepTr {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		m.Trace = append(m.Trace, s)
	}
}

func (m *Machine) fault(k string) { m.Faults[k]++ }
func (m *Machine) probe(k string) { m.Probes[k]++ }

// ---- files for the harness

func (m *Machine) Capture(b *[]byte) *File { return &File{cap: b, flags: 1, path: "capture"} }

func (m *Machine) NewPipe(cap int) (r, w *File) {
	p := newPipe(cap)
	m.nextid++
	p.id = m.nextid
	return &File{pr: p, path: fmt.Sprintf("pipe%d", p.id)}, &File{pw: p, flags: 1, path: fmt.Sprintf("pipe%d", p.id)}
}

// Feed makes a pipe whose other end is fed with data by an independent actor.
func (m *Machine) Feed(data []byte, cap int) *File {
	r, w := m.NewPipe(cap)
	w.pw.writers++
	m.actors = append(m.actors, &actor{name: "feeder", pipe: w.pw, feed: data, isSrc: true})
	return r
}

// Drain makes a pipe whose other end is read by an independent actor, which
// goes away after stop bytes (never if negative).
func (m *Machine) Drain(to *[]byte, cap, stop int) *File {
	r, w := m.NewPipe(cap)
	r.pr.readers++
	m.actors = append(m.actors, &actor{name: "drain", pipe: r.pr, sink: to, left: stop})
	return w
}

// FeedFifo feeds a named pipe.
func (m *Machine) FeedFifo(path string, data []byte) {
	n := m.FS.Stat(path)
	if n.pipe == nil {
		n.pipe = newPipe(65536)
		n.pipe.fifo = true
	}
	n.pipe.writers++
	n.pipe.fed = true
	m.actors = append(m.actors, &actor{name: "fifo", pipe: n.pipe, feed: data, isSrc: true})
}

// OpenFile opens a file as a shell would for a redirection.
func (m *Machine) OpenFile(path string, flags int) *File {
	n := m.FS.Stat(path)
	if n == nil {
		n = m.FS.File(path, nil, 0644, 1000)
	}
	if flags&syscall.O_TRUNC != 0 {
		m.FS.truncate(n, 0)
	}
	n.Opens++
	f := &File{ino: n, flags: flags, path: path}
	return f
}

func (m *Machine) TtyFile(t *Tty) *File { return &File{tty: t, flags: 2, path: "tty"} }

// ---- processes

var devnull *os.File

func (m *Machine) Spawn(c *Cmd) *Proc {
	p := &Proc{ID: len(m.Procs), m: m, Args: c.Args, umask: uint32(c.Umask), cred: cred{c.Uid, c.Uid}, fds: map[int]*File{},
		Pid: c.Pid, count: map[string]int{}, stick: map[string]string{}, rnd: kernel.NewRng(kernel.Mix(c.Rand, 0x7a4d)), Tty: c.Tty}
	if p.Pid == 0 {
		p.Pid = 1000 + p.ID
	}
	p.cwdP = c.Cwd
	p.cwd = m.FS.Stat(c.Cwd)
	if p.cwd == nil || p.cwd.Kind != Dir {
		panic("HARNESS: bad cwd " + c.Cwd)
	}
	set := func(fd int, f *File, def func() *File) {
		if f == nil {
			f = def()
		}
		f.refs++
		if f.refs == 1 {
			if f.pr != nil {
				f.pr.readers++
			}
			if f.pw != nil {
				f.pw.writers++
			}
		}
		p.fds[fd] = f
	}
	set(0, c.Stdin, func() *File { return &File{ino: m.FS.Stat("/dev/null"), path: "/dev/null"} })
	set(1, c.Stdout, func() *File { return m.Capture(&p.Stdout) })
	set(2, c.Stderr, func() *File { return m.Capture(&p.Stderr) })
	m.Procs = append(m.Procs, p)

	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic("HARNESS: socketpair: " + err.Error())
	}
	p.sock = sp[0]
	tv := syscall.NsecToTimeval(int64(m.tmo))
	syscall.SetsockoptTimeval(p.sock, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
	theirs := os.NewFile(uintptr(sp[1]), "sock")
	er, ew, err := os.Pipe()
	if err != nil {
		panic("HARNESS: pipe: " + err.Error())
	}
	if devnull == nil {
		devnull, _ = os.OpenFile("/dev/null", os.O_RDWR, 0)
	}
	env := append([]string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=off", "GOMEMLIMIT=768MiB", "GOTRACEBACK=single",
		fmt.Sprintf("SIMRAND=%d", c.RtSeed>>1), fmt.Sprintf("SIMTIME=%d", 1700000000+c.Clock)}, c.Env...)
	if c.RealKDF {
		env = append(env, "SIM_SCRYPT=real")
	}
	bin := m.Bin
	if c.Bin != "" {
		bin = c.Bin
	}
	pr, err := os.StartProcess(bin, c.Args, &os.ProcAttr{Dir: "/", Env: env, Files: []*os.File{devnull, devnull, ew, theirs}})
	theirs.Close()
	ew.Close()
	if err != nil {
		panic("HARNESS: can't start " + bin + ": " + err.Error())
	}
	p.os, p.errfd = pr, er
	m.event(fmt.Sprintf("p%d start %q", p.ID, c.Args))
	return p
}

func (p *Proc) readN(b []byte) (int, error) {
	n := 0
	for n < len(b) {
		k, err := syscall.Read(p.sock, b[n:])
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return n, err
		}
		if k == 0 {
			return n, nil
		}
		n += k
	}
	return n, nil
}

// fetch waits for the next request of the process, or its end.
func (p *Proc) fetch() {
	var h [72]byte
	n, err := p.readN(h[:])
	if err == syscall.EAGAIN {
		p.Hung = true
		p.m.event(fmt.Sprintf("p%d hangs", p.ID))
		p.os.Kill()
		p.reap()
		return
	}
	if n < len(h) {
		p.reap()
		return
	}
	r := &request{nr: int(binary.LittleEndian.Uint32(h[0:]))}
	for i := range r.a {
		r.a[i] = binary.LittleEndian.Uint64(h[8+8*i:])
	}
	for i := range r.seg {
		k := int(binary.LittleEndian.Uint32(h[56+4*i:]))
		if k > 0 {
			r.seg[i] = make([]byte, k)
			if n, _ := p.readN(r.seg[i]); n < k {
				p.reap()
				return
			}
		}
	}
	r.out = int(binary.LittleEndian.Uint32(h[68:]))
	r.classify()
	p.req = r
	if p.m.KeepMem {
		p.measure()
	}
}

// measure notes how much memory the process has used so far. (ru_maxrss won't
// do: it counts the simulator's memory at the time of the fork.)
func (p *Proc) measure() {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", p.os.Pid))
	if err != nil {
		return
	}
	if _, l, ok := strings.Cut(string(b), "VmHWM:"); ok {
		var n int64
		fmt.Sscan(l, &n)
		p.MaxRSS = max(p.MaxRSS, n)
	}
}

func (p *Proc) reply(ret int64, out []byte) {
	if len(out) > p.req.out {
		out = out[:p.req.out]
	}
	b := make([]byte, 16+len(out))
	binary.LittleEndian.PutUint64(b, uint64(ret))
	binary.LittleEndian.PutUint32(b[8:], uint32(len(out)))
	copy(b[16:], out)
	p.req = nil
	for len(b) > 0 {
		n, err := syscall.SendmsgN(p.sock, b, nil, nil, syscall.MSG_NOSIGNAL)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return // it's gone; fetch will notice
		}
		b = b[n:]
	}
}

// reap collects the end of the process and releases what it held.
func (p *Proc) reap() {
	st, err := p.os.Wait()
	p.done = true
	p.req = nil
	p.EndedAt = p.m.Step
	syscall.Close(p.sock)
	if err == nil {
		ws := st.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			p.Exit, p.Signal = -1, int(ws.Signal())
		} else {
			p.Exit = ws.ExitStatus()
		}
	} else {
		p.Exit = -1
	}
	raw := make([]byte, 65536)
	n, _ := p.errfd.Read(raw)
	p.Raw = string(raw[:max(n, 0)])
	p.errfd.Close()
	for fd := range p.fds {
		p.closeFd(fd)
	}
	p.m.event(fmt.Sprintf("p%d end exit=%d signal=%d", p.ID, p.Exit, p.Signal))
	if p.Exit >= 97 && p.Exit <= 99 {
		panic(fmt.Sprintf("HARNESS: simulated process lost its simulator (exit %d)", p.Exit))
	}
}

func (p *Proc) closeFd(fd int) int {
	f := p.fds[fd]
	if f == nil {
		return eBADF
	}
	delete(p.fds, fd)
	p.m.unref(f)
	return 0
}

func (m *Machine) unref(f *File) {
	f.refs--
	if f.refs > 0 {
		return
	}
	if f.pr != nil {
		f.pr.readers--
	}
	if f.pw != nil {
		f.pw.writers--
	}
	if f.ino != nil {
		delete(f.ino.locks, f)
		f.ino.Opens--
		m.FS.drop(f.ino)
	}
}

// Kill ends a process like SIGKILL.
func (p *Proc) Kill() {
	if p.done {
		return
	}
	p.Killed = true
	p.os.Kill()
	p.reap()
}

// Counts returns the number of requests by class.
func (p *Proc) Counts() map[string]int { return p.count }

// Done tells if the process has ended.
func (p *Proc) Done() bool { return p.done }

// ---- the scheduler

// Run lets everything run until all processes have ended, nothing can go on, or
// the power fails. It reports whether all ended by themselves.
func (m *Machine) Run() bool {
	defer m.stop()
	for {
		var ready []int // process ids, then actors as -1-i
		live := false
		for _, p := range m.Procs {
			if p.done {
				continue
			}
			if p.req == nil {
				p.fetch()
			}
		}
		for _, p := range m.Procs { // an end may have released others
			if p.done {
				continue
			}
			live = true
			if !m.blocked(p) {
				ready = append(ready, p.ID)
			}
		}
		if !live {
			// what is still in the pipes reaches the readers
			for _, a := range m.actors {
				if !a.done && !a.isSrc && len(a.pipe.buf) > 0 {
					k := len(a.pipe.buf)
					if a.left >= 0 && k > a.left {
						k = a.left
					}
					*a.sink = append(*a.sink, a.pipe.buf[:k]...)
				}
			}
			return true
		}
		for i, a := range m.actors {
			if !a.done && a.ready() {
				ready = append(ready, -1-i)
			}
		}
		if len(ready) == 0 {
			m.Stuck = true
			m.event("stuck")
			return false
		}
		m.Step++
		if m.Step > m.Limit {
			m.Stuck = true
			m.event("too many steps")
			return false
		}
		pick := -1
		if len(ready) == 1 {
			pick = 0
		} else {
			if !m.Rng.P(m.sticky) {
				for i, r := range ready {
					if r == m.last {
						pick = i
					}
				}
			}
			if pick < 0 {
				pick = m.Rng.N(len(ready))
			}
		}
		who := ready[pick]
		if who != m.last {
			m.Sw++
			m.last = who
		}
		if who < 0 {
			m.act(m.actors[-1-who])
			continue
		}
		m.serve(m.Procs[who])
		if m.Power {
			return false
		}
	}
}

func (m *Machine) stop() {
	for _, p := range m.Procs {
		if !p.done {
			p.Kill()
		}
	}
}

func (a *actor) ready() bool {
	if a.isSrc {
		return len(a.feed) == 0 || a.pipe.readers == 0 && !a.pipe.fifo || len(a.pipe.buf) < a.pipe.cap
	}
	return len(a.pipe.buf) > 0 || a.pipe.writers == 0
}

func (m *Machine) act(a *actor) {
	if a.isSrc {
		if len(a.feed) == 0 || a.pipe.readers == 0 && !a.pipe.fifo {
			a.pipe.writers--
			a.done = true
			m.event(a.name + " done")
			return
		}
		k := min(a.pipe.cap-len(a.pipe.buf), len(a.feed))
		if m.Rng.P(2) {
			k = m.Rng.In(1, k)
		}
		a.pipe.buf = append(a.pipe.buf, a.feed[:k]...)
		a.feed = a.feed[k:]
		m.event(fmt.Sprintf("%s +%d", a.name, k))
		return
	}
	k := len(a.pipe.buf)
	if k == 0 {
		a.pipe.readers--
		a.done = true
		return
	}
	if m.Rng.P(2) {
		k = m.Rng.In(1, k)
	}
	if a.left >= 0 && k > a.left {
		k = a.left
	}
	*a.sink = append(*a.sink, a.pipe.buf[:k]...)
	a.pipe.buf = a.pipe.buf[k:]
	m.event(fmt.Sprintf("%s -%d", a.name, k))
	if a.left >= 0 {
		if a.left -= k; a.left == 0 {
			a.pipe.readers--
			a.done = true
			m.fault("reader goes away")
			m.event("drain goes away")
		}
	}
}

// serve executes the pending request of p, subject to the fault plan.
func (m *Machine) serve(p *Proc) {
	r := p.req
	p.Nreq++
	m.FS.maker = p.ID
	n, any := p.count[r.cls], p.count["any"]
	p.count[r.cls]++
	p.count["any"]++
	kind := p.stick[r.cls]
	short := 0
	for i := range m.Plan {
		f := &m.Plan[i]
		if f.P >= 0 && f.P != p.ID {
			continue
		}
		if f.Op == r.cls && f.N == n || f.Op == "any" && f.N == any {
			if !applies(f.Kind, r, p) {
				continue
			}
			kind, short = f.Kind, f.K
			if f.Sticky {
				p.stick[r.cls] = kind
			}
			break
		}
	}
	if kind != "" && !applies(kind, r, p) {
		kind = ""
	}
	switch kind {
	case "kill":
		m.fault("kill")
		m.event(fmt.Sprintf("p%d killed at %s", p.ID, r.str()))
		p.Kill()
		return
	case "power":
		m.fault("power loss")
		m.event(fmt.Sprintf("power off at p%d %s", p.ID, r.str()))
		m.Power = true
		return
	}
	desc := r.str()
	var ret int64
	var out []byte
	if kind == "" {
		ret, out = m.sys(p, r)
	} else {
		ret, out = m.faulty(p, r, kind, short)
	}
	fk := ""
	if kind != "" {
		fk = " FAULT " + kind
	}
	m.event(fmt.Sprintf("p%d %s = %d%s", p.ID, desc, ret, fk))
	if m.KeepWr && (r.nr == 1 || r.nr == 18) && ret > 0 {
		var ino *Inode
		if f := p.fds[int(int32(r.a[0]))]; f != nil {
			ino = f.ino
		}
		m.Writes = append(m.Writes, Wr{p.ID, int(int32(r.a[0])), ino, append([]byte{}, r.seg[0][:ret]...)})
	}
	switch {
	case r.nr == 0 && int32(r.a[0]) == 0:
		p.Wanted = p.In
		p.Reads0++
		p.In += max(ret, 0)
	case (r.nr == 1 || r.nr == 18) && int32(r.a[0]) != 2:
		p.Out += max(ret, 0)
	}
	p.reply(ret, out)
	if m.After != nil {
		m.After(p, r.cls)
	}
}

// errnos by name
var errnos = map[string]int{"EIO": 5, "EINTR": 4, "ENOSPC": 28, "EDQUOT": 122, "EACCES": 13, "EMFILE": 24, "ENFILE": 23,
	"ENOMEM": 12, "EROFS": 30, "EAGAIN": 11, "ENOSYS": 38, "EPERM": 1, "ENODEV": 19, "EFBIG": 27, "ESTALE": 116, "ELOOP": 40, "EBUSY": 16, "EXDEV": 18, "ENOTTY": 25}

// Kinds lists the faults that make sense for a class of requests.
var Kinds = map[string][]string{
	"open":      {"EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM", "EINTR", "ESTALE"},
	"creat":     {"EACCES", "EIO", "EMFILE", "ENOSPC", "EDQUOT", "EROFS", "EINTR", "ENOMEM"},
	"read":      {"EIO", "EINTR", "short", "ESTALE", "ENOMEM"},
	"write":     {"ENOSPC", "EDQUOT", "EIO", "EINTR", "short", "EFBIG"},
	"close":     {"EIO", "ENOSPC", "EDQUOT"},
	"fsync":     {"EIO", "ENOSPC", "EDQUOT", "EINTR"},
	"rename":    {"EIO", "EACCES", "ENOSPC", "EBUSY", "EROFS", "ENOMEM"},
	"link":      {"EIO", "EPERM", "ENOSPC"},
	"unlink":    {"EIO", "EACCES"},
	"stat":      {"EIO", "EACCES", "ENOMEM", "ESTALE", "ELOOP"},
	"chmod":     {"EIO", "EPERM"},
	"trunc":     {"EIO", "ENOSPC"},
	"getrandom": {"EINTR", "EIO", "ENOSYS", "short", "EAGAIN"},
	"mmap":      {"ENOMEM", "EACCES", "ENODEV", "EAGAIN"},
	"lseek":     {"EIO"},
	"ioctl":     {"EIO", "ENOTTY"},
	"copy":      {"EIO", "ENOSYS", "EXDEV", "short"},
	"readlink":  {"EIO"},
	"mkdir":     {"EACCES", "ENOSPC"},
	"lock":      {"EIO", "EINTR"},
}

// Classes in a fixed order, those that matter most often first.
var Classes = []string{"write", "creat", "open", "read", "rename", "fsync", "close", "stat", "getrandom", "unlink", "mmap", "ioctl", "lseek", "chmod", "trunc", "link", "copy", "lock", "readlink"}

func applies(kind string, r *request, p *Proc) bool {
	if kind == "kill" || kind == "power" {
		return true
	}
	cls := r.cls
	// losing the words on stderr would only hide what we look at
	if (cls == "write" || cls == "close") && r.a[0] == 2 {
		return false
	}
	if kind == "EINTR" && cls == "read" {
		// the kernel restarts terminal reads, as all handlers ask for it
		if f := p.fds[int(int32(r.a[0]))]; f != nil && (f.tty != nil || f.ino != nil && f.ino.Dev == "tty") {
			return false
		}
	}
	if kind == "short" {
		switch cls {
		case "read", "write", "copy":
			if r.nr == 0 || r.nr == 1 || r.nr == 17 || r.nr == 18 {
				return r.a[2] > 1
			}
			return true
		case "getrandom":
			return r.a[1] > 1
		}
		return false
	}
	if kind == "EINTR" && (cls == "close" || cls == "stat" || cls == "rename" || cls == "unlink" || cls == "mmap") {
		return false
	}
	for _, k := range Kinds[cls] {
		if k == kind {
			return true
		}
	}
	return false
}

func (m *Machine) faulty(p *Proc, r *request, kind string, k int) (int64, []byte) {
	m.fault(r.cls + " " + kind)
	h := Hit{P: p.ID, Cls: r.cls, Kind: kind}
	switch {
	case r.nr == 257:
		h.Path = r.path(0)
	case r.cls == "read" || r.cls == "close" || r.cls == "write":
		if f := p.fds[int(int32(r.a[0]))]; f != nil {
			h.Ino = f.ino
		}
	}
	m.Hits = append(m.Hits, h)
	if r.cls == "getrandom" && kind != "EINTR" {
		p.RandBad = true
	}
	if kind == "short" {
		q := *r
		i := 2
		if r.nr == 318 {
			i = 1
		}
		if r.nr != 40 && r.nr != 326 {
			n := int(r.a[i])
			if k <= 0 || k >= n {
				k = max(1, n/2)
			}
			q.a[i] = uint64(k)
			if r.nr == 1 || r.nr == 18 {
				q.seg[0] = r.seg[0][:k]
			} else {
				q.out = k
			}
		}
		return m.sys(p, &q)
	}
	if r.cls == "close" {
		p.closeFd(int(r.a[0]))
	}
	return -int64(errnos[kind]), nil
}

func (r *request) path(i int) string {
	b := r.seg[i]
	if j := bytes.IndexByte(b, 0); j >= 0 {
		b = b[:j]
	}
	return string(b)
}

// str describes a request without anything that depends on addresses.
func (r *request) str() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s", sysName(r.nr))
	switch r.nr {
	case 0, 17:
		fmt.Fprintf(&sb, "(%d, %d)", r.a[0], r.a[2])
	case 1, 18:
		fmt.Fprintf(&sb, "(%d, %d, %016x)", r.a[0], r.a[2], kernel.MixStr(string(r.seg[0])))
	case 3, 5, 74, 75, 8, 77:
		fmt.Fprintf(&sb, "(%d)", r.a[0])
	case 257:
		fmt.Fprintf(&sb, "(%q, %#x, %#o)", r.path(0), r.a[2], r.a[3])
	case 318:
		fmt.Fprintf(&sb, "(%d)", r.a[1])
	case 9:
		fmt.Fprintf(&sb, "(fd %d, %d)", int32(r.a[4]), r.a[1])
	default:
		for i := range r.seg {
			if len(r.seg[i]) > 0 && len(r.seg[i]) < 4096 && r.seg[i][len(r.seg[i])-1] == 0 {
				fmt.Fprintf(&sb, " %q", r.path(i))
			}
		}
	}
	return sb.String()
}

// Package machine is the machine world: sigtool's real command runs as a
// process all of whose system calls are answered by this simulated machine - an
// in-memory file system with a durability model, pipes, a terminal, a random
// device - under a seeded scheduler and a fault plan.
package machine

import (
	"sort"
	"strings"
	"syscall"

	"verifsim/kernel"
)

// file kinds
const (
	Reg  = 'f'
	Dir  = 'd'
	Lnk  = 'l'
	Fifo = 'p'
	Chr  = 'c'
)

type dataOp struct {
	trunc bool
	off   int64 // or the new size
	b     []byte
}

// Inode is a file as programs see it now, plus what is known to be durable.
type Inode struct {
	Ino    int
	Kind   byte
	Mode   uint32 // permission bits incl. setuid etc.
	Uid    int
	Gid    int
	Nlink  int
	Data   []byte
	Ents   map[string]*Inode
	Up     *Inode
	Target string
	Dev    string
	Maker  int // process that created it, -1: set up before
	Opens  int
	pipe   *Pipe
	locks  map[*File]int

	dur  []byte   // durable data
	pend []dataOp // data operations since

	MinMode, MaxMode uint32 // permission bits it ever lacked/had
	Written          bool   // written to since set-up
}

// meta is one metadata operation in the journal.
type meta struct {
	op        string // create link unlink rename chmod chown
	dir, dir2 int
	name      string
	name2     string
	ino       int
	kind      byte
	mode      uint32
	uid, gid  int
	target    string
	dev       string
}

// FS is the simulated file system.
type FS struct {
	Root    *Inode
	inodes  map[int]*Inode
	next    int
	Free    int64 // bytes left; <0: unlimited
	Quota   bool  // running out is EDQUOT instead of ENOSPC
	RO      bool
	Attr    int // extended attributes
	journal []meta
	jdur    int // journal entries that are durable
	base    *FS // durable state the journal applies to
	Gen     int // changes with every visible change
	maker   int
}

// Kinds of file systems by their extended attributes.
const (
	AttrEmpty = iota // supported, files have none
	AttrLabel        // every file has one
	AttrNone         // not supported
)

func NewFS() *FS {
	fs := &FS{inodes: map[int]*Inode{}, next: 1, Free: -1, maker: -1}
	fs.Root = fs.alloc(Dir, 0755, 0, 0)
	fs.Root.Up = fs.Root
	fs.Root.Nlink = 2
	return fs
}

func (fs *FS) alloc(kind byte, mode uint32, uid, gid int) *Inode {
	n := &Inode{Ino: fs.next, Kind: kind, Mode: mode & 07777, Uid: uid, Gid: gid, Maker: fs.maker,
		MinMode: mode & 07777, MaxMode: mode & 07777}
	fs.next++
	fs.inodes[n.Ino] = n
	if kind == Dir {
		n.Ents = map[string]*Inode{}
	}
	return n
}

func (fs *FS) log(m meta) {
	if fs.base != nil {
		fs.journal = append(fs.journal, m)
	}
	fs.Gen++
}

// Freeze makes the current state durable: the set-up is over.
func (fs *FS) Freeze() {
	for _, n := range fs.inodes {
		n.dur = append([]byte{}, n.Data...)
		n.pend = nil
		n.Maker = -1
		n.Written = false
	}
	fs.journal, fs.jdur = nil, 0
	fs.base = fs.copy()
}

// copy clones the tree (current view).
func (fs *FS) copy() *FS {
	c := &FS{inodes: map[int]*Inode{}, next: fs.next, Free: fs.Free, Quota: fs.Quota, Attr: fs.Attr, maker: -1}
	for i, n := range fs.inodes {
		m := &Inode{Ino: n.Ino, Kind: n.Kind, Mode: n.Mode, Uid: n.Uid, Gid: n.Gid, Nlink: n.Nlink,
			Target: n.Target, Dev: n.Dev, Maker: -1, MinMode: n.Mode, MaxMode: n.Mode}
		m.Data = append([]byte{}, n.Data...)
		m.dur = m.Data
		c.inodes[i] = m
	}
	for i, n := range fs.inodes {
		if n.Kind == Dir {
			m := c.inodes[i]
			m.Ents = make(map[string]*Inode, len(n.Ents))
			for k, e := range n.Ents {
				m.Ents[k] = c.inodes[e.Ino]
			}
			m.Up = c.inodes[n.Up.Ino]
		}
	}
	c.Root = c.inodes[fs.Root.Ino]
	return c
}

// Crash returns a state that may be found after the power failed now. Metadata
// survive as a prefix of the journal not shorter than what was forced out; file
// data not synced survive wholly, partly, or not at all.
func (fs *FS) Crash(r *kernel.Rng) *FS {
	c := fs.base.copy()
	cut := fs.jdur + r.N(len(fs.journal)-fs.jdur+1)
	switch r.N(4) {
	case 0:
		cut = len(fs.journal)
	case 1:
		cut = fs.jdur
	}
	c.next = fs.next
	for _, m := range fs.journal[:cut] {
		c.apply(m)
	}
	inos := make([]int, 0, len(c.inodes))
	for i := range c.inodes {
		inos = append(inos, i)
	}
	sort.Ints(inos)
	for _, i := range inos {
		n := c.inodes[i]
		o := fs.inodes[i]
		if n.Kind != Reg || o == nil {
			continue
		}
		n.Data = crashData(o, r)
		n.dur = n.Data
	}
	// files nobody names are gone
	seen := map[int]int{}
	var walk func(*Inode)
	walk = func(d *Inode) {
		for _, e := range d.Ents {
			seen[e.Ino]++
			if e.Kind == Dir && seen[e.Ino] == 1 {
				walk(e)
			}
		}
	}
	seen[c.Root.Ino] = 1
	walk(c.Root)
	for i, n := range c.inodes {
		if seen[i] == 0 {
			delete(c.inodes, i)
		} else if n.Kind != Dir {
			n.Nlink = seen[i]
		}
	}
	c.Freeze()
	return c
}

func crashData(o *Inode, r *kernel.Rng) []byte {
	d := append([]byte{}, o.dur...)
	if len(o.pend) == 0 {
		return d
	}
	mode := r.N(6)
	put := func(off int64, b []byte) {
		if n := off + int64(len(b)); n > int64(len(d)) {
			d = append(d, make([]byte, n-int64(len(d)))...)
		}
		copy(d[off:], b)
	}
	resize := func(n int64) {
		if n <= int64(len(d)) {
			d = d[:n]
		} else {
			d = append(d, make([]byte, n-int64(len(d)))...)
		}
	}
	switch mode {
	case 0: // nothing made it
	case 1: // everything
		for _, p := range o.pend {
			if p.trunc {
				resize(p.off)
			} else {
				put(p.off, p.b)
			}
		}
	case 2: // a prefix, the last write torn
		k := r.N(len(o.pend) + 1)
		for i, p := range o.pend {
			if i > k {
				break
			}
			if p.trunc {
				if i < k {
					resize(p.off)
				}
				continue
			}
			b := p.b
			if i == k {
				b = b[:r.N(len(b)+1)]
			}
			if len(b) > 0 {
				put(p.off, b)
			}
		}
	case 3: // the size, but not the data
		for _, p := range o.pend {
			if p.trunc {
				resize(p.off)
			} else {
				put(p.off, make([]byte, len(p.b)))
			}
		}
	default: // the size and some of the pages
		for _, p := range o.pend {
			if p.trunc {
				resize(p.off)
				continue
			}
			if n := p.off + int64(len(p.b)); n > int64(len(d)) {
				resize(n)
			}
			for at := 0; at < len(p.b); {
				e := at + 512 - int(p.off+int64(at))%512
				if e > len(p.b) {
					e = len(p.b)
				}
				if r.P(2) {
					put(p.off+int64(at), p.b[at:e])
				}
				at = e
			}
		}
	}
	return d
}

func (fs *FS) apply(m meta) {
	d := fs.inodes[m.dir]
	switch m.op {
	case "create":
		n := &Inode{Ino: m.ino, Kind: m.kind, Mode: m.mode, Uid: m.uid, Gid: m.gid, Target: m.target, Dev: m.dev, Maker: -1}
		n.Nlink = 1
		if m.kind == Dir {
			n.Ents = map[string]*Inode{}
			n.Up = d
			n.Nlink = 2
		}
		fs.inodes[m.ino] = n
		d.Ents[m.name] = n
	case "link":
		d.Ents[m.name] = fs.inodes[m.ino]
	case "unlink":
		delete(d.Ents, m.name)
	case "rename":
		n := d.Ents[m.name]
		delete(d.Ents, m.name)
		d2 := fs.inodes[m.dir2]
		d2.Ents[m.name2] = n
		if n.Kind == Dir {
			n.Up = d2
		}
	case "exchange":
		d2 := fs.inodes[m.dir2]
		d.Ents[m.name], d2.Ents[m.name2] = d2.Ents[m.name2], d.Ents[m.name]
	case "chmod":
		if n := fs.inodes[m.ino]; n != nil {
			n.Mode = m.mode
		}
	case "chown":
		if n := fs.inodes[m.ino]; n != nil {
			n.Uid, n.Gid = m.uid, m.gid
		}
	}
}

// ---- operations used by the system calls; they return an errno (0: fine)

type cred struct {
	uid, gid int
}

// may checks permission bits: 4 read, 2 write, 1 search/execute.
func (n *Inode) may(c cred, want uint32) bool {
	if c.uid == 0 {
		return true
	}
	m := n.Mode & 7
	switch {
	case n.Uid == c.uid:
		m = n.Mode >> 6 & 7
	case n.Gid == c.gid:
		m = n.Mode >> 3 & 7
	}
	return m&want == want
}

const (
	eNOENT  = int(syscall.ENOENT)
	eACCES  = int(syscall.EACCES)
	eNOTDIR = int(syscall.ENOTDIR)
	eLOOP   = int(syscall.ELOOP)
	eEXIST  = int(syscall.EEXIST)
	eISDIR  = int(syscall.EISDIR)
	eINVAL  = int(syscall.EINVAL)
	eBADF   = int(syscall.EBADF)
	eNOSYS  = int(syscall.ENOSYS)
	eNOSPC  = int(syscall.ENOSPC)
	eDQUOT  = int(syscall.EDQUOT)
	ePERM   = int(syscall.EPERM)
	eROFS   = int(syscall.EROFS)
	eNAME   = int(syscall.ENAMETOOLONG)
)

// walk resolves path from dir. It returns the parent, the last name, and the
// inode if it exists. With follow, a symlink at the end is followed.
func (fs *FS) walk(dir *Inode, path string, c cred, follow bool) (parent *Inode, name string, n *Inode, e int) {
	depth := 0
	return fs.walk1(dir, path, c, follow, &depth)
}

func (fs *FS) walk1(dir *Inode, path string, c cred, follow bool, depth *int) (parent *Inode, name string, n *Inode, e int) {
	if path == "" {
		return nil, "", nil, eNOENT
	}
	if len(path) >= 4096 {
		return nil, "", nil, eNAME
	}
	if path[0] == '/' {
		dir = fs.Root
	}
	if dir == nil {
		return nil, "", nil, eNOTDIR
	}
	slash := strings.HasSuffix(path, "/")
	var parts []string
	for _, p := range strings.Split(path, "/") {
		if p != "" && p != "." {
			parts = append(parts, p)
		}
	}
	cur, up, last := dir, dir, "."
	for i, p := range parts {
		if cur.Kind != Dir {
			return nil, "", nil, eNOTDIR
		}
		if !cur.may(c, 1) {
			return nil, "", nil, eACCES
		}
		if len(p) > 255 {
			return nil, "", nil, eNAME
		}
		final := i == len(parts)-1
		if p == ".." {
			up, last, cur = cur.Up, ".", cur.Up
			continue
		}
		nx := cur.Ents[p]
		if nx == nil {
			if final {
				return cur, p, nil, 0
			}
			return nil, "", nil, eNOENT
		}
		if nx.Kind == Lnk && (!final || follow || slash) {
			*depth++
			if *depth > 20 {
				return nil, "", nil, eLOOP
			}
			pp, nm, t, e := fs.walk1(cur, nx.Target, c, true, depth)
			if e != 0 {
				return nil, "", nil, e
			}
			if t == nil {
				if final {
					return pp, nm, nil, 0
				}
				return nil, "", nil, eNOENT
			}
			up, last, cur = pp, nm, t
			continue
		}
		up, last, cur = cur, p, nx
	}
	if slash && cur.Kind != Dir {
		return nil, "", nil, eNOTDIR
	}
	return up, last, cur, 0
}

func (fs *FS) create(dir *Inode, name string, kind byte, mode uint32, c cred, target, dev string) *Inode {
	n := fs.alloc(kind, mode, c.uid, c.gid)
	n.Target, n.Dev = target, dev
	n.Nlink = 1
	if kind == Dir {
		n.Nlink = 2
		n.Up = dir
		dir.Nlink++
	}
	if kind == Fifo {
		n.pipe = newPipe(65536)
		n.pipe.fifo = true
	}
	dir.Ents[name] = n
	fs.log(meta{op: "create", dir: dir.Ino, name: name, ino: n.Ino, kind: kind, mode: n.Mode, uid: n.Uid, gid: n.Gid, target: target, dev: dev})
	return n
}

func (fs *FS) drop(n *Inode) {
	if n.Nlink <= 0 && n.Opens == 0 {
		if n.Kind == Reg && fs.Free >= 0 {
			fs.Free += int64(len(n.Data))
		}
	}
}

func (fs *FS) unlink(dir *Inode, name string, n *Inode) {
	delete(dir.Ents, name)
	if n.Kind == Dir {
		n.Nlink = 0
		dir.Nlink--
	} else {
		n.Nlink--
	}
	fs.log(meta{op: "unlink", dir: dir.Ino, name: name})
	fs.drop(n)
}

func (fs *FS) write(n *Inode, off int64, b []byte) (int, int) {
	need := off + int64(len(b)) - int64(len(n.Data))
	if need > 0 && fs.Free >= 0 {
		if need > fs.Free {
			k := int64(len(b)) - (need - fs.Free)
			if k <= 0 {
				if fs.Quota {
					return 0, eDQUOT
				}
				return 0, eNOSPC
			}
			b = b[:k]
			need = fs.Free
		}
		fs.Free -= need
	}
	if off+int64(len(b)) > 1<<28 {
		return 0, int(syscall.EFBIG)
	}
	if k := off + int64(len(b)); k > int64(len(n.Data)) {
		n.Data = append(n.Data, make([]byte, k-int64(len(n.Data)))...)
	}
	copy(n.Data[off:], b)
	n.Written = true
	if fs.base != nil {
		n.pend = append(n.pend, dataOp{off: off, b: append([]byte{}, b...)})
	}
	fs.Gen++
	return len(b), 0
}

func (fs *FS) truncate(n *Inode, size int64) {
	if size == int64(len(n.Data)) {
		return
	}
	if fs.Free >= 0 {
		fs.Free += int64(len(n.Data)) - size
	}
	if size < int64(len(n.Data)) {
		n.Data = append([]byte{}, n.Data[:size]...)
	} else {
		n.Data = append(n.Data, make([]byte, size-int64(len(n.Data)))...)
	}
	n.Written = true
	if fs.base != nil {
		n.pend = append(n.pend, dataOp{trunc: true, off: size})
	}
	fs.Gen++
}

// sync forces the data of n and all metadata so far out to the disk.
func (fs *FS) sync(n *Inode) {
	if n != nil {
		n.dur = append([]byte{}, n.Data...)
		n.pend = nil
	}
	fs.jdur = len(fs.journal)
}

func (fs *FS) chmod(n *Inode, mode uint32) {
	n.Mode = mode & 07777
	n.MinMode &= n.Mode
	n.MaxMode |= n.Mode
	fs.log(meta{op: "chmod", ino: n.Ino, mode: n.Mode})
}

// ---- set-up and inspection by the harness (as root, absolute paths)

var root = cred{0, 0}

func (fs *FS) lookup(path string, follow bool) *Inode {
	_, _, n, e := fs.walk(fs.Root, path, root, follow)
	if e != 0 {
		return nil
	}
	return n
}

// Get returns the inode at path (not following a final symlink), or nil.
func (fs *FS) Get(path string) *Inode { return fs.lookup(path, false) }

// Stat returns the inode path leads to, or nil.
func (fs *FS) Stat(path string) *Inode { return fs.lookup(path, true) }

func (fs *FS) put(path string, kind byte, mode uint32, uid int, target, dev string) *Inode {
	d, name, n, e := fs.walk(fs.Root, path, root, false)
	if e != 0 {
		panic("HARNESS: bad path " + path)
	}
	if n != nil {
		delete(d.Ents, name)
	}
	return fs.create(d, name, kind, mode, cred{uid, uid}, target, dev)
}

func (fs *FS) Mkdir(path string, mode uint32, uid int) *Inode {
	if n := fs.Get(path); n != nil {
		return n
	}
	return fs.put(path, Dir, mode, uid, "", "")
}

func (fs *FS) File(path string, data []byte, mode uint32, uid int) *Inode {
	n := fs.put(path, Reg, mode, uid, "", "")
	n.Data = append([]byte{}, data...)
	return n
}

func (fs *FS) Symlink(path, target string, uid int) { fs.put(path, Lnk, 0777, uid, target, "") }
func (fs *FS) Mkfifo(path string, mode uint32, uid int) *Inode {
	return fs.put(path, Fifo, mode, uid, "", "")
}
func (fs *FS) Dev(path, dev string) { fs.put(path, Chr, 0666, 0, "", dev) }
func (fs *FS) Link(old, new string) {
	n := fs.Get(old)
	d, name, _, _ := fs.walk(fs.Root, new, root, false)
	d.Ents[name] = n
	n.Nlink++
	fs.log(meta{op: "link", dir: d.Ino, name: name, ino: n.Ino})
}
func (fs *FS) Remove(path string) {
	d, name, n, e := fs.walk(fs.Root, path, root, false)
	if e == 0 && n != nil {
		fs.unlink(d, name, n)
	}
}

// Ent describes a path in a snapshot.
type Ent struct {
	Ino      int
	Kind     byte
	Mode     uint32
	Uid, Gid int
	Data     string
	Maker    int
}

// Snap lists all paths.
func (fs *FS) Snap() map[string]Ent {
	out := map[string]Ent{}
	var rec func(p string, d *Inode)
	rec = func(p string, d *Inode) {
		for k, n := range d.Ents {
			e := Ent{n.Ino, n.Kind, n.Mode, n.Uid, n.Gid, string(n.Data), n.Maker}
			if n.Kind == Lnk {
				e.Data = n.Target
			}
			out[p+"/"+k] = e
			if n.Kind == Dir {
				rec(p+"/"+k, n)
			}
		}
	}
	rec("", fs.Root)
	return out
}

// Paths lists the paths of an inode.
func (fs *FS) Paths(ino int) []string {
	var out []string
	var rec func(p string, d *Inode)
	rec = func(p string, d *Inode) {
		for k, n := range d.Ents {
			if n.Ino == ino {
				out = append(out, p+"/"+k)
			}
			if n.Kind == Dir {
				rec(p+"/"+k, n)
			}
		}
	}
	rec("", fs.Root)
	sort.Strings(out)
	return out
}

// All returns all inodes in order.
func (fs *FS) All() []*Inode {
	ids := make([]int, 0, len(fs.inodes))
	for i := range fs.inodes {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	out := make([]*Inode, 0, len(ids))
	for _, i := range ids {
		out = append(out, fs.inodes[i])
	}
	return out
}

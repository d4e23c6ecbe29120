package machine

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"syscall"
)

var names = map[int]string{0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 7: "poll", 8: "lseek",
	9: "mmap", 16: "ioctl", 17: "pread", 18: "pwrite", 21: "access", 22: "pipe", 32: "dup", 33: "dup2", 292: "dup3", 293: "pipe2",
	35: "nanosleep", 39: "getpid", 40: "sendfile", 326: "copy_file_range", 72: "fcntl", 73: "flock", 74: "fsync", 75: "fdatasync",
	76: "truncate", 77: "ftruncate", 217: "getdents64", 79: "getcwd", 80: "chdir", 82: "rename", 83: "mkdir", 84: "rmdir", 85: "creat",
	86: "link", 87: "unlink", 88: "symlink", 89: "readlink", 90: "chmod", 91: "fchmod", 92: "chown", 93: "fchown", 94: "lchown",
	95: "umask", 257: "openat", 258: "mkdirat", 260: "fchownat", 262: "fstatat", 263: "unlinkat", 264: "renameat", 265: "linkat",
	266: "symlinkat", 267: "readlinkat", 268: "fchmodat", 269: "faccessat", 280: "utimensat", 285: "fallocate", 302: "prlimit",
	316: "renameat2", 318: "getrandom", 439: "faccessat2", 452: "fchmodat2", 162: "sync", 63: "uname", 137: "statfs", 138: "fstatfs",
	188: "setxattr", 191: "getxattr", 192: "lgetxattr", 193: "fgetxattr", 194: "listxattr", 195: "llistxattr", 196: "flistxattr",
	437: "openat2", 332: "statx", 275: "splice", 306: "syncfs", 221: "fadvise"}

func sysName(nr int) string {
	if s := names[nr]; s != "" {
		return s
	}
	return fmt.Sprintf("sys%d", nr)
}

func class(nr int) string {
	switch nr {
	case 0, 17, 217:
		return "read"
	case 1, 18:
		return "write"
	case 3:
		return "close"
	case 74, 75, 162, 306:
		return "fsync"
	case 82, 264, 316:
		return "rename"
	case 86, 265:
		return "link"
	case 87, 263, 84:
		return "unlink"
	case 4, 5, 6, 262, 332, 21, 269, 439, 191, 192, 193, 194, 195, 196:
		return "stat"
	case 90, 91, 268, 452:
		return "chmod"
	case 76, 77, 285:
		return "trunc"
	case 318:
		return "getrandom"
	case 9:
		return "mmap"
	case 8:
		return "lseek"
	case 16:
		return "ioctl"
	case 40, 326, 275:
		return "copy"
	case 89, 267:
		return "readlink"
	case 83, 258:
		return "mkdir"
	case 73:
		return "lock"
	case 2, 85, 257, 437:
		return "open"
	}
	return "other"
}

const oCREAT = 0x40

func (r *request) classify() {
	r.cls = class(r.nr)
	if r.cls == "open" {
		fl := r.a[1]
		if r.nr == 257 {
			fl = r.a[2]
		}
		if r.nr == 437 && len(r.seg[1]) >= 8 {
			fl = binary.LittleEndian.Uint64(r.seg[1])
		}
		if fl&oCREAT != 0 || r.nr == 85 {
			r.cls = "creat"
		}
	}
}

// blocked tells if the pending request of p has to wait.
func (m *Machine) blocked(p *Proc) bool {
	r := p.req
	switch r.nr {
	case 0:
		if f := p.fds[int(int32(r.a[0]))]; f != nil && f.pr != nil && f.flags&0x800 == 0 {
			return len(f.pr.buf) == 0 && f.pr.writers > 0 && r.a[2] > 0
		}
	case 1:
		if f := p.fds[int(int32(r.a[0]))]; f != nil && f.pw != nil && f.flags&0x800 == 0 {
			return f.pw.readers > 0 && len(f.pw.buf) >= f.pw.cap
		}
	case 257, 2:
		i, fl := 0, int(r.a[1])
		dir := p.cwd
		if r.nr == 257 {
			fl = int(r.a[2])
			dir = p.at(r.a[0])
		}
		_, _, n, e := m.FS.walk(dir, r.path(i), p.cred, fl&0x20000 == 0)
		if e != 0 || n == nil || n.Kind != Fifo || fl&0x800 != 0 {
			return false
		}
		if n.pipe == nil {
			n.pipe = newPipe(65536)
			n.pipe.fifo = true
		}
		other := func(acc int) bool {
			for _, q := range m.Procs {
				if q == p || q.done || q.req == nil || (q.req.nr != 257 && q.req.nr != 2) {
					continue
				}
				f2 := int(q.req.a[2])
				if q.req.nr == 2 {
					f2 = int(q.req.a[1])
				}
				if f2&3 == acc && strings.HasSuffix(q.req.path(0), r.path(0)) {
					return true
				}
			}
			return false
		}
		switch fl & 3 {
		case 0:
			return n.pipe.writers == 0 && !n.pipe.fed && !other(1)
		case 1:
			return n.pipe.readers == 0 && !other(0)
		}
	case 73:
		f := p.fds[int(int32(r.a[0]))]
		if f == nil || f.ino == nil || r.a[1]&4 != 0 {
			return false
		}
		return !canLock(f, int(r.a[1]&3))
	}
	return false
}

func canLock(f *File, op int) bool {
	for g, k := range f.ino.locks {
		if g != f && (k == 2 || op == 2) {
			return false
		}
	}
	return true
}

// at is the directory a relative path starts from.
func (p *Proc) at(fd uint64) *Inode {
	if int32(fd) == -100 {
		return p.cwd
	}
	f := p.fds[int(int32(fd))]
	if f == nil {
		return nil
	}
	return f.ino
}

func (p *Proc) newFd(f *File, min int) int {
	for fd := 0; ; fd++ {
		if fd == 3 {
			fd = 20 // the numbers between belong to the host process
		}
		if fd >= min && p.fds[fd] == nil {
			p.fds[fd] = f
			f.refs++
			return fd
		}
	}
}

func (m *Machine) statOf(f *File) []byte {
	if f.ino != nil {
		return statBuf(f.ino)
	}
	b := make([]byte, 144)
	mode, ino, dev := uint32(0010600), uint64(0), uint64(2)
	switch {
	case f.tty != nil:
		mode, ino, dev = 0020620, 3, 9
	case f.pr != nil:
		ino = uint64(f.pr.id)
	case f.pw != nil:
		ino = uint64(f.pw.id)
	default:
		ino = 1 << 30
	}
	binary.LittleEndian.PutUint64(b[0:], dev)
	binary.LittleEndian.PutUint64(b[8:], ino)
	binary.LittleEndian.PutUint64(b[16:], 1)
	binary.LittleEndian.PutUint32(b[24:], mode)
	binary.LittleEndian.PutUint32(b[28:], 1000)
	binary.LittleEndian.PutUint32(b[32:], 1000)
	binary.LittleEndian.PutUint64(b[56:], 4096)
	return b
}

func statBuf(n *Inode) []byte {
	b := make([]byte, 144)
	t := map[byte]uint32{Reg: 0100000, Dir: 0040000, Lnk: 0120000, Fifo: 0010000, Chr: 0020000}[n.Kind]
	size := int64(len(n.Data))
	switch n.Kind {
	case Lnk:
		size = int64(len(n.Target))
	case Dir:
		size = 4096
	}
	binary.LittleEndian.PutUint64(b[0:], 1)
	binary.LittleEndian.PutUint64(b[8:], uint64(n.Ino))
	binary.LittleEndian.PutUint64(b[16:], uint64(n.Nlink))
	binary.LittleEndian.PutUint32(b[24:], t|n.Mode)
	binary.LittleEndian.PutUint32(b[28:], uint32(n.Uid))
	binary.LittleEndian.PutUint32(b[32:], uint32(n.Gid))
	if n.Kind == Chr {
		binary.LittleEndian.PutUint64(b[40:], 0x103)
	}
	binary.LittleEndian.PutUint64(b[48:], uint64(size))
	binary.LittleEndian.PutUint64(b[56:], 4096)
	binary.LittleEndian.PutUint64(b[64:], uint64((size+511)/512))
	return b
}

// sys executes a request.
func (m *Machine) sys(p *Proc, r *request) (int64, []byte) {
	fs := m.FS
	a := r.a
	errn := func(e int) (int64, []byte) { return -int64(e), nil }
	fd := func(i int) *File { return p.fds[int(int32(a[i]))] }
	switch r.nr {
	case 0, 17: // read pread
		f := fd(0)
		if f == nil {
			return errn(eBADF)
		}
		n := int(a[2])
		if n > r.out {
			n = r.out
		}
		if f.flags&3 == 1 {
			return errn(eBADF)
		}
		switch {
		case f.pr != nil:
			if r.nr == 17 {
				return errn(int(syscall.ESPIPE))
			}
			if len(f.pr.buf) == 0 {
				if f.pr.writers > 0 && n > 0 {
					return errn(int(syscall.EAGAIN))
				}
				return 0, nil
			}
			k := min(n, len(f.pr.buf))
			out := append([]byte{}, f.pr.buf[:k]...)
			f.pr.buf = f.pr.buf[k:]
			f.pr.Moved += k
			return int64(k), out
		case f.tty != nil:
			out := f.tty.read(n)
			p.Asked = len(p.Stderr)
			return int64(len(out)), out
		case f.ino != nil:
			switch f.ino.Kind {
			case Dir:
				return errn(eISDIR)
			case Chr:
				switch f.ino.Dev {
				case "null":
					return 0, nil
				case "zero", "full":
					return int64(n), make([]byte, n)
				case "random", "urandom":
					b := p.rnd.Bytes(n)
					p.Drawn = append(p.Drawn, b...)
					return int64(n), b
				case "tty":
					if p.Tty == nil {
						return errn(int(syscall.ENXIO))
					}
					out := p.Tty.read(n)
					return int64(len(out)), out
				}
				return 0, nil
			}
			off := f.off
			if r.nr == 17 {
				off = int64(a[3])
			}
			if off >= int64(len(f.ino.Data)) {
				return 0, nil
			}
			out := f.ino.Data[off:]
			if len(out) > n {
				out = out[:n]
			}
			if r.nr == 0 {
				f.off += int64(len(out))
			}
			return int64(len(out)), out
		}
		return 0, nil
	case 1, 18: // write pwrite
		f := fd(0)
		if f == nil || f.flags&3 == 0 {
			return errn(eBADF)
		}
		b := r.seg[0]
		switch {
		case f.cap != nil:
			*f.cap = append(*f.cap, b...)
			return int64(len(b)), nil
		case f.tty != nil:
			f.tty.Screen = append(f.tty.Screen, b...)
			return int64(len(b)), nil
		case f.pw != nil:
			if f.pw.readers == 0 {
				return errn(int(syscall.EPIPE))
			}
			k := min(len(b), f.pw.cap-len(f.pw.buf))
			if k == 0 && len(b) > 0 {
				return errn(int(syscall.EAGAIN))
			}
			f.pw.buf = append(f.pw.buf, b[:k]...)
			return int64(k), nil
		case f.ino != nil:
			if f.ino.Kind == Chr {
				switch f.ino.Dev {
				case "full":
					return errn(eNOSPC)
				case "tty":
					if p.Tty != nil {
						p.Tty.Screen = append(p.Tty.Screen, b...)
					}
				}
				return int64(len(b)), nil
			}
			off := f.off
			if f.flags&0x400 != 0 {
				off = int64(len(f.ino.Data))
			}
			if r.nr == 18 {
				off = int64(a[3])
			}
			k, e := fs.write(f.ino, off, b)
			if e != 0 {
				return errn(e)
			}
			if r.nr == 1 {
				f.off = off + int64(k)
			}
			return int64(k), nil
		}
		return errn(eBADF)
	case 2:
		return m.open(p, p.cwd, r.path(0), int(a[1]), uint32(a[2]))
	case 85:
		return m.open(p, p.cwd, r.path(0), 0x241, uint32(a[1]))
	case 257:
		return m.open(p, p.at(a[0]), r.path(0), int(a[2]), uint32(a[3]))
	case 3:
		return errn(p.closeFd(int(int32(a[0]))))
	case 4, 6: // stat lstat
		_, _, n, e := fs.walk(p.cwd, r.path(0), p.cred, r.nr == 4)
		return statRes(n, e)
	case 5:
		f := fd(0)
		if f == nil {
			return errn(eBADF)
		}
		return 0, m.statOf(f)
	case 262: // newfstatat
		path := r.path(0)
		if path == "" && a[3]&0x1000 != 0 {
			f := fd(0)
			if f == nil {
				return errn(eBADF)
			}
			return 0, m.statOf(f)
		}
		_, _, n, e := fs.walk(p.at(a[0]), path, p.cred, a[3]&0x100 == 0)
		return statRes(n, e)
	case 7: // poll
		out := append([]byte{}, r.seg[0]...)
		cnt := int64(0)
		for i := 0; i+8 <= len(out); i += 8 {
			ev := binary.LittleEndian.Uint16(out[i+4:])
			re := uint16(0)
			if p.fds[int(int32(binary.LittleEndian.Uint32(out[i:])))] == nil {
				re = 0x20
			} else {
				re = ev & 5
			}
			binary.LittleEndian.PutUint16(out[i+6:], re)
			if re != 0 {
				cnt++
			}
		}
		return cnt, out
	case 8: // lseek
		f := fd(0)
		if f == nil {
			return errn(eBADF)
		}
		if f.ino == nil || f.ino.Kind == Fifo {
			return errn(int(syscall.ESPIPE))
		}
		if f.ino.Kind == Chr {
			return 0, nil
		}
		off := int64(a[1])
		switch a[2] {
		case 1:
			off += f.off
		case 2:
			off += int64(len(f.ino.Data))
		case 0:
		default:
			return errn(eINVAL)
		}
		if off < 0 {
			return errn(eINVAL)
		}
		f.off = off
		return off, nil
	case 9: // mmap of a file
		f := p.fds[int(int32(a[4]))]
		if f == nil {
			return errn(eBADF)
		}
		if f.ino == nil || f.ino.Kind != Reg {
			return errn(int(syscall.ENODEV))
		}
		if f.flags&3 == 1 {
			return errn(eACCES)
		}
		if a[3]&1 != 0 && a[2]&2 != 0 {
			m.probe("unsupported: shared writable mapping")
			return errn(int(syscall.ENODEV))
		}
		off := int64(a[5])
		if off%4096 != 0 || a[1] == 0 {
			return errn(eINVAL)
		}
		if off > int64(len(f.ino.Data)) {
			off = int64(len(f.ino.Data))
		}
		b := f.ino.Data[off:]
		if len(b) > int(a[1]) {
			b = b[:a[1]]
		}
		return 0, b
	case 16:
		return m.ioctl(p, fd(0), a[1], r)
	case 21, 269, 439: // access
		path, i := r.path(0), 1
		dir := p.cwd
		if r.nr != 21 {
			dir, i = p.at(a[0]), 2
		}
		_, _, n, e := fs.walk(dir, path, p.cred, true)
		if e != 0 {
			return errn(e)
		}
		if n == nil {
			return errn(eNOENT)
		}
		if w := uint32(a[i] & 7); w != 0 && !n.may(p.cred, w) {
			return errn(eACCES)
		}
		return 0, nil
	case 22, 293: // pipe
		rf, wf := m.NewPipe(65536)
		rf.pr.readers, rf.pr.writers = 1, 1
		x, y := p.newFd(rf, 0), 0
		y = p.newFd(wf, 0)
		out := make([]byte, 8)
		binary.LittleEndian.PutUint32(out, uint32(x))
		binary.LittleEndian.PutUint32(out[4:], uint32(y))
		m.probe("pipe within a process")
		return 0, out
	case 32: // dup
		f := fd(0)
		if f == nil {
			return errn(eBADF)
		}
		return int64(p.newFd(f, 0)), nil
	case 33, 292:
		f := fd(0)
		if f == nil {
			return errn(eBADF)
		}
		t := int(int32(a[1]))
		if p.fds[t] != nil && t != int(int32(a[0])) {
			p.closeFd(t)
		}
		if p.fds[t] == nil {
			p.fds[t] = f
			f.refs++
		}
		return int64(t), nil
	case 35, 230, 219:
		return 0, nil
	case 39:
		return int64(p.Pid), nil
	case 110:
		return 1, nil
	case 102, 107:
		return int64(p.cred.uid), nil
	case 104, 108:
		return int64(p.cred.gid), nil
	case 115:
		return 0, nil
	case 40, 326: // sendfile copy_file_range
		in, out := fd(1), fd(0)
		n := int(a[3])
		if r.nr == 326 {
			in, out = fd(0), fd(2)
			n = int(a[4])
		}
		if in == nil || out == nil {
			return errn(eBADF)
		}
		if in.ino == nil || in.ino.Kind != Reg || out.flags&3 == 0 {
			return errn(eINVAL)
		}
		if r.nr == 326 && (out.ino == nil || out.ino.Kind != Reg) {
			return errn(eINVAL)
		}
		if in.off >= int64(len(in.ino.Data)) {
			return 0, nil
		}
		b := in.ino.Data[in.off:]
		n = min(n, len(b), 1<<20)
		q := &request{nr: 1, a: [6]uint64{0, 0, uint64(n)}, cls: "write"}
		q.seg[0] = append([]byte{}, b[:n]...)
		for k, f := range p.fds {
			if f == out {
				q.a[0] = uint64(k)
			}
		}
		k, _ := m.sys(p, q)
		if k > 0 {
			in.off += k
		}
		return k, nil
	case 275, 276:
		return errn(eINVAL)
	case 72: // fcntl
		f := fd(0)
		if f == nil {
			return errn(eBADF)
		}
		switch a[1] {
		case 0, 1030:
			return int64(p.newFd(f, int(a[2]))), nil
		case 1:
			return 1, nil
		case 2:
			return 0, nil
		case 3:
			return int64(f.flags | 0x8000), nil
		case 4:
			f.flags = f.flags&^0xc00 | int(a[2])&0xc00
			return 0, nil
		case 6, 7, 37, 38:
			return 0, nil
		}
		return errn(eINVAL)
	case 73: // flock
		f := fd(0)
		if f == nil || f.ino == nil {
			return errn(eBADF)
		}
		op := int(a[1] & 3)
		if a[1]&8 != 0 {
			delete(f.ino.locks, f)
			return 0, nil
		}
		if !canLock(f, op) {
			return errn(int(syscall.EWOULDBLOCK))
		}
		if f.ino.locks == nil {
			f.ino.locks = map[*File]int{}
		}
		f.ino.locks[f] = op
		return 0, nil
	case 74, 75: // fsync
		f := fd(0)
		if f == nil {
			return errn(eBADF)
		}
		if f.ino == nil || f.ino.Kind == Fifo || f.ino.Kind == Chr {
			return errn(eINVAL)
		}
		fs.sync(f.ino)
		return 0, nil
	case 162, 306:
		for _, n := range fs.inodes {
			fs.sync(n)
		}
		return 0, nil
	case 76, 77: // truncate
		var n *Inode
		if r.nr == 77 {
			f := fd(0)
			if f == nil {
				return errn(eBADF)
			}
			if f.ino == nil || f.flags&3 == 0 {
				return errn(eINVAL)
			}
			n = f.ino
		} else {
			var e int
			_, _, n, e = fs.walk(p.cwd, r.path(0), p.cred, true)
			if e == 0 && n == nil {
				e = eNOENT
			}
			if e != 0 {
				return errn(e)
			}
			if !n.may(p.cred, 2) {
				return errn(eACCES)
			}
		}
		if n.Kind != Reg {
			return errn(eINVAL)
		}
		if int64(a[1]) < 0 || int64(a[1]) > 1<<28 {
			return errn(eINVAL)
		}
		fs.truncate(n, int64(a[1]))
		return 0, nil
	case 285: // fallocate
		f := fd(0)
		if f == nil || f.ino == nil || f.flags&3 == 0 {
			return errn(eBADF)
		}
		if a[1] == 0 && int64(a[2]+a[3]) > int64(len(f.ino.Data)) && int64(a[2]+a[3]) <= 1<<28 {
			fs.truncate(f.ino, int64(a[2]+a[3]))
		}
		return 0, nil
	case 78, 217:
		return m.getdents(fd(0), r.out)
	case 79:
		b := append([]byte(p.cwdP), 0)
		if len(b) > r.out {
			return errn(int(syscall.ERANGE))
		}
		return int64(len(b)), b
	case 80, 81: // chdir
		var n *Inode
		if r.nr == 81 {
			if f := fd(0); f != nil {
				n = f.ino
			}
		} else {
			var e int
			_, _, n, e = fs.walk(p.cwd, r.path(0), p.cred, true)
			if e != 0 {
				return errn(e)
			}
			if strings.HasPrefix(r.path(0), "/") {
				p.cwdP = r.path(0)
			} else {
				p.cwdP += "/" + r.path(0)
			}
		}
		if n == nil {
			return errn(eNOENT)
		}
		if n.Kind != Dir {
			return errn(eNOTDIR)
		}
		p.cwd = n
		return 0, nil
	case 82:
		return errn(m.rename(p, p.cwd, r.path(0), p.cwd, r.path(1), 0))
	case 264:
		return errn(m.rename(p, p.at(a[0]), r.path(0), p.at(a[2]), r.path(1), 0))
	case 316:
		return errn(m.rename(p, p.at(a[0]), r.path(0), p.at(a[2]), r.path(1), a[4]))
	case 83, 258: // mkdir
		d, mode := p.cwd, a[1]
		if r.nr == 258 {
			d, mode = p.at(a[0]), a[2]
		}
		par, name, n, e := fs.walk(d, r.path(0), p.cred, false)
		if e != 0 {
			return errn(e)
		}
		if n != nil {
			return errn(eEXIST)
		}
		if e := m.maywrite(p, par); e != 0 {
			return errn(e)
		}
		fs.create(par, name, Dir, uint32(mode)&^p.umask, p.cred, "", "")
		return 0, nil
	case 84:
		return errn(m.unlink(p, p.cwd, r.path(0), true))
	case 87:
		return errn(m.unlink(p, p.cwd, r.path(0), false))
	case 263:
		return errn(m.unlink(p, p.at(a[0]), r.path(0), a[2]&0x200 != 0))
	case 86, 265:
		d1, d2, p1, p2, fl := p.cwd, p.cwd, r.path(0), r.path(1), uint64(0)
		if r.nr == 265 {
			d1, d2, fl = p.at(a[0]), p.at(a[2]), a[4]
		}
		_, _, n, e := fs.walk(d1, p1, p.cred, fl&0x400 != 0)
		if e == 0 && n == nil {
			e = eNOENT
		}
		if e != 0 {
			return errn(e)
		}
		if n.Kind == Dir {
			return errn(ePERM)
		}
		par, name, n2, e := fs.walk(d2, p2, p.cred, false)
		if e != 0 {
			return errn(e)
		}
		if n2 != nil {
			return errn(eEXIST)
		}
		if e := m.maywrite(p, par); e != 0 {
			return errn(e)
		}
		par.Ents[name] = n
		n.Nlink++
		fs.log(meta{op: "link", dir: par.Ino, name: name, ino: n.Ino})
		return 0, nil
	case 88, 266:
		d, i := p.cwd, 1
		if r.nr == 266 {
			d = p.at(a[1])
		}
		par, name, n, e := fs.walk(d, r.path(i), p.cred, false)
		if e != 0 {
			return errn(e)
		}
		if n != nil {
			return errn(eEXIST)
		}
		if e := m.maywrite(p, par); e != 0 {
			return errn(e)
		}
		fs.create(par, name, Lnk, 0777, p.cred, r.path(0), "")
		return 0, nil
	case 89, 267:
		d := p.cwd
		if r.nr == 267 {
			d = p.at(a[0])
		}
		_, _, n, e := fs.walk(d, r.path(0), p.cred, false)
		if e == 0 && n == nil {
			e = eNOENT
		}
		if e != 0 {
			return errn(e)
		}
		if n.Kind != Lnk {
			return errn(eINVAL)
		}
		b := []byte(n.Target)
		if len(b) > r.out {
			b = b[:r.out]
		}
		return int64(len(b)), b
	case 90, 91, 268, 452: // chmod
		var n *Inode
		mode := a[1]
		var e int
		switch r.nr {
		case 90:
			_, _, n, e = fs.walk(p.cwd, r.path(0), p.cred, true)
		case 91:
			f := fd(0)
			if f == nil {
				return errn(eBADF)
			}
			if f.ino == nil {
				return 0, nil
			}
			n = f.ino
		default:
			mode = a[2]
			_, _, n, e = fs.walk(p.at(a[0]), r.path(0), p.cred, r.nr == 268 || a[3]&0x100 == 0)
		}
		if e == 0 && n == nil {
			e = eNOENT
		}
		if e != 0 {
			return errn(e)
		}
		if p.cred.uid != 0 && p.cred.uid != n.Uid {
			return errn(ePERM)
		}
		fs.chmod(n, uint32(mode))
		return 0, nil
	case 92, 93, 94, 260: // chown
		var n *Inode
		var e int
		u, g := int32(a[1]), int32(a[2])
		switch r.nr {
		case 93:
			f := fd(0)
			if f == nil || f.ino == nil {
				return errn(eBADF)
			}
			n = f.ino
		case 260:
			u, g = int32(a[2]), int32(a[3])
			_, _, n, e = fs.walk(p.at(a[0]), r.path(0), p.cred, a[4]&0x100 == 0)
		default:
			_, _, n, e = fs.walk(p.cwd, r.path(0), p.cred, r.nr == 92)
		}
		if e == 0 && n == nil {
			e = eNOENT
		}
		if e != 0 {
			return errn(e)
		}
		if p.cred.uid != 0 && (u >= 0 && int(u) != n.Uid || n.Uid != p.cred.uid || g >= 0 && int(g) != p.cred.gid) {
			return errn(ePERM)
		}
		if u >= 0 {
			n.Uid = int(u)
		}
		if g >= 0 {
			n.Gid = int(g)
		}
		fs.log(meta{op: "chown", ino: n.Ino, uid: n.Uid, gid: n.Gid})
		return 0, nil
	case 95:
		o := p.umask
		p.umask = uint32(a[0]) & 0777
		return int64(o), nil
	case 280, 132, 235, 261, 221:
		return 0, nil
	case 97, 302:
		out := make([]byte, 16)
		binary.LittleEndian.PutUint64(out, 1024)
		binary.LittleEndian.PutUint64(out[8:], 1024)
		return 0, out
	case 160:
		return 0, nil
	case 63:
		out := make([]byte, 390)
		for i, s := range []string{"Linux", "sim", "6.1.0", "#1", "x86_64", ""} {
			copy(out[i*65:], s)
		}
		return 0, out
	case 137, 138:
		out := make([]byte, 120)
		binary.LittleEndian.PutUint64(out[0:], 0xef53)
		binary.LittleEndian.PutUint64(out[8:], 4096)
		binary.LittleEndian.PutUint64(out[16:], 1<<20)
		fr := uint64(1 << 19)
		if fs.Free >= 0 {
			fr = uint64(fs.Free) / 4096
		}
		binary.LittleEndian.PutUint64(out[24:], fr)
		binary.LittleEndian.PutUint64(out[32:], fr)
		return 0, out
	case 318: // getrandom
		n := int(a[1])
		if n > r.out {
			n = r.out
		}
		b := p.rnd.Bytes(n)
		p.Drawn = append(p.Drawn, b...)
		return int64(n), b
	case 188, 189, 190, 197, 198, 199: // nobody may change them
		if fs.Attr == AttrNone {
			return errn(int(syscall.EOPNOTSUPP))
		}
		return errn(ePERM)
	case 191, 192, 193, 194, 195, 196: // getxattr, listxattr
		if r.nr == 193 || r.nr == 196 {
			if fd(0) == nil {
				return errn(eBADF)
			}
		} else {
			_, _, n, e := fs.walk(p.cwd, r.path(0), p.cred, r.nr == 191 || r.nr == 194)
			if e == 0 && n == nil {
				e = eNOENT
			}
			if e != 0 {
				return errn(e)
			}
		}
		if fs.Attr == AttrNone {
			return errn(int(syscall.EOPNOTSUPP))
		}
		const name, label = "security.selinux\x00", "unconfined_u:object_r:user_home_t:s0\x00"
		var v string
		size := a[2]
		if r.nr >= 194 {
			size = a[2]
			if fs.Attr == AttrLabel {
				v = name
			}
		} else {
			size = a[3]
			if fs.Attr != AttrLabel || r.path(1)+"\x00" != name {
				return errn(int(syscall.ENODATA))
			}
			v = label
		}
		switch {
		case size == 0:
			return int64(len(v)), nil
		case int(size) < len(v):
			return errn(int(syscall.ERANGE))
		}
		return int64(len(v)), []byte(v)
	case 62:
		if int(int32(a[0])) == p.Pid || a[0] == 0 {
			m.probe("kill itself")
			p.os.Signal(syscall.Signal(a[1]))
			return 0, nil
		}
		return errn(int(syscall.ESRCH))
	case 435, 56, 57, 58, 59, 61, 247, 424, 434, 41, 42, 53:
		m.probe("unsupported: process or socket call " + sysName(r.nr))
		return errn(eNOSYS)
	case 437, 332: // openat2 statx: like an older kernel
		return errn(eNOSYS)
	}
	m.probe("unsupported: " + sysName(r.nr))
	return errn(eNOSYS)
}

func statRes(n *Inode, e int) (int64, []byte) {
	if e != 0 {
		return -int64(e), nil
	}
	if n == nil {
		return -int64(eNOENT), nil
	}
	return 0, statBuf(n)
}

func (m *Machine) maywrite(p *Proc, d *Inode) int {
	if m.FS.RO {
		return eROFS
	}
	if !d.may(p.cred, 3) {
		return eACCES
	}
	return 0
}

func (m *Machine) sticky1(p *Proc, d, n *Inode) bool {
	return d.Mode&01000 != 0 && p.cred.uid != 0 && p.cred.uid != n.Uid && p.cred.uid != d.Uid
}

func (m *Machine) open(p *Proc, dir *Inode, path string, fl int, mode uint32) (int64, []byte) {
	errn := func(e int) (int64, []byte) { return -int64(e), nil }
	fs := m.FS
	if fl&0x400000 != 0 && fl&0x10000 != 0 {
		return errn(int(syscall.EOPNOTSUPP)) // O_TMPFILE
	}
	acc := fl & 3
	follow := fl&0x20000 == 0 && fl&(oCREAT|0x80) != oCREAT|0x80
	par, name, n, e := fs.walk(dir, path, p.cred, follow)
	if e != 0 {
		return errn(e)
	}
	if n == nil {
		if fl&oCREAT == 0 {
			return errn(eNOENT)
		}
		if strings.HasSuffix(path, "/") {
			return errn(eISDIR)
		}
		if e := m.maywrite(p, par); e != 0 {
			return errn(e)
		}
		if fs.Free == 0 && fs.Quota {
			return errn(eDQUOT)
		}
		n = fs.create(par, name, Reg, mode&0777&^p.umask, p.cred, "", "")
		n.Opens++
		return int64(p.newFd(&File{ino: n, flags: fl &^ 0x802c0, path: path}, 0)), nil
	}
	if fl&(oCREAT|0x80) == oCREAT|0x80 {
		return errn(eEXIST)
	}
	if n.Kind == Lnk {
		return errn(eLOOP)
	}
	if n.Kind == Dir && (acc != 0 || fl&oCREAT != 0) {
		return errn(eISDIR)
	}
	if fl&0x10000 != 0 && n.Kind != Dir {
		return errn(eNOTDIR)
	}
	want := map[int]uint32{0: 4, 1: 2, 2: 6, 3: 6}[acc]
	if !n.may(p.cred, want) {
		return errn(eACCES)
	}
	if acc != 0 && fs.RO && n.Kind == Reg {
		return errn(eROFS)
	}
	f := &File{ino: n, flags: fl &^ 0x802c0, path: path}
	switch n.Kind {
	case Chr:
		if n.Dev == "tty" {
			if p.Tty == nil {
				return errn(int(syscall.ENXIO))
			}
			return int64(p.newFd(&File{tty: p.Tty, flags: acc, path: path}, 0)), nil
		}
		if strings.HasPrefix(n.Dev, "fd") { // /dev/stdin etc.
			if g := p.fds[int(n.Dev[2]-'0')]; g != nil {
				if g.ino == nil {
					return int64(p.newFd(g, 0)), nil
				}
				f.ino = g.ino
				n = g.ino
			} else {
				return errn(int(syscall.ENXIO))
			}
		}
	case Fifo:
		if n.pipe == nil {
			n.pipe = newPipe(65536)
			n.pipe.fifo = true
		}
		if acc == 1 && fl&0x800 != 0 && n.pipe.readers == 0 {
			return errn(int(syscall.ENXIO))
		}
		if acc != 1 {
			f.pr = n.pipe
			n.pipe.readers++
		}
		if acc != 0 {
			f.pw = n.pipe
			n.pipe.writers++
		}
	case Reg:
		if acc != 0 && (len(n.Data) > 0 || fl&0x200 != 0) {
			m.foreign(p, n, "opens to write")
		}
		if fl&0x200 != 0 && acc != 0 {
			fs.truncate(n, 0)
		}
	}
	n.Opens++
	return int64(p.newFd(f, 0)), nil
}

func (m *Machine) unlink(p *Proc, dir *Inode, path string, isdir bool) int {
	par, name, n, e := m.FS.walk(dir, path, p.cred, false)
	if e != 0 {
		return e
	}
	if n == nil {
		return eNOENT
	}
	if isdir != (n.Kind == Dir) {
		if isdir {
			return eNOTDIR
		}
		return eISDIR
	}
	if e := m.maywrite(p, par); e != 0 {
		return e
	}
	if m.sticky1(p, par, n) {
		return ePERM
	}
	if isdir && len(n.Ents) > 0 {
		return int(syscall.ENOTEMPTY)
	}
	m.foreign(p, n, "removes")
	m.FS.unlink(par, name, n)
	return 0
}

func (m *Machine) rename(p *Proc, d1 *Inode, p1 string, d2 *Inode, p2 string, flags uint64) int {
	fs := m.FS
	par, name, n, e := fs.walk(d1, p1, p.cred, false)
	if e != 0 {
		return e
	}
	if n == nil {
		return eNOENT
	}
	par2, name2, n2, e := fs.walk(d2, p2, p.cred, false)
	if e != 0 {
		return e
	}
	if e := m.maywrite(p, par); e != 0 {
		return e
	}
	if e := m.maywrite(p, par2); e != 0 {
		return e
	}
	if flags&2 != 0 {
		if n2 == nil {
			return eNOENT
		}
		par.Ents[name], par2.Ents[name2] = n2, n
		fs.log(meta{op: "exchange", dir: par.Ino, name: name, dir2: par2.Ino, name2: name2})
		return 0
	}
	m.foreign(p, n, "renames")
	if n2 != nil {
		if flags&1 != 0 {
			return eEXIST
		}
		if n == n2 {
			return 0
		}
		m.foreign(p, n2, "replaces")
		if n2.Kind == Dir && n.Kind != Dir {
			return eISDIR
		}
		if n2.Kind != Dir && n.Kind == Dir {
			return eNOTDIR
		}
		if n2.Kind == Dir && len(n2.Ents) > 0 {
			return int(syscall.ENOTEMPTY)
		}
		if m.sticky1(p, par2, n2) {
			return ePERM
		}
		n2.Nlink--
	}
	delete(par.Ents, name)
	par2.Ents[name2] = n
	if n.Kind == Dir {
		n.Up = par2
	}
	fs.log(meta{op: "rename", dir: par.Ino, name: name, dir2: par2.Ino, name2: name2})
	if n2 != nil {
		fs.drop(n2)
	}
	return 0
}

func (m *Machine) getdents(f *File, max int) (int64, []byte) {
	if f == nil {
		return -int64(eBADF), nil
	}
	if f.ino == nil || f.ino.Kind != Dir {
		return -int64(eNOTDIR), nil
	}
	list := []string{".", ".."}
	for k := range f.ino.Ents {
		list = append(list, k)
	}
	sort.Strings(list[2:])
	var out []byte
	for i := int(f.off); i < len(list); i++ {
		nm := list[i]
		rl := (19 + len(nm) + 1 + 7) &^ 7
		if len(out)+rl > max {
			if len(out) == 0 {
				return -int64(eINVAL), nil
			}
			break
		}
		e := make([]byte, rl)
		n := f.ino.Ents[nm]
		if n == nil {
			n = f.ino
		}
		binary.LittleEndian.PutUint64(e, uint64(n.Ino))
		binary.LittleEndian.PutUint64(e[8:], uint64(i+1))
		binary.LittleEndian.PutUint16(e[16:], uint16(rl))
		e[18] = map[byte]byte{Reg: 8, Dir: 4, Lnk: 10, Fifo: 1, Chr: 2}[n.Kind]
		copy(e[19:], nm)
		out = append(out, e...)
		f.off = int64(i + 1)
	}
	return int64(len(out)), out
}

func (m *Machine) ioctl(p *Proc, f *File, cmd uint64, r *request) (int64, []byte) {
	if f == nil {
		return -int64(eBADF), nil
	}
	t := f.tty
	if f.ino != nil && f.ino.Dev == "tty" {
		t = p.Tty
	}
	if t == nil {
		if cmd == 0x40049409 || cmd == 0x4020940d {
			return -int64(syscall.EOPNOTSUPP), nil
		}
		return -int64(syscall.ENOTTY), nil
	}
	switch cmd {
	case 0x5401:
		return 0, append([]byte{}, t.Termios[:]...)
	case 0x5402, 0x5403, 0x5404:
		copy(t.Termios[:], r.seg[0])
		return 0, nil
	case 0x5413:
		return 0, []byte{24, 0, 80, 0, 0, 0, 0, 0}
	}
	return -int64(eINVAL), nil
}

func (t *Tty) read(n int) []byte {
	if len(t.cur) == 0 {
		if len(t.Lines) == 0 {
			return nil
		}
		t.cur = []byte(t.Lines[0] + "\n")
		t.Lines = t.Lines[1:]
		if t.echo() {
			t.Shown = append(t.Shown, t.cur...)
			t.Screen = append(t.Screen, t.cur...)
		} else {
			t.EchoOff++
		}
	}
	if n > len(t.cur) {
		n = len(t.cur)
	}
	out := append([]byte{}, t.cur[:n]...)
	t.cur = t.cur[n:]
	return out
}

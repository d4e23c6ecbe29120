// Package cli is the machine world: whole commands run on a simulated machine.
package cli

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifsim/kernel"
	"verifsim/machine"
	"verifsim/ref"
	"verifsim/runner"
)

type (
	Rng     = kernel.Rng
	Outcome = runner.Outcome
	Exec    = runner.Exec
	Fault   = machine.Fault
)

func init() {
	exe, err := os.Executable()
	if err == nil {
		machine.DefaultBin = filepath.Join(filepath.Dir(exe), "sigtool-sim")
		storeBin = filepath.Join(filepath.Dir(exe), "store-sim")
	}
}

const user = 1000

// Some look alike: 4 and 5 begin with the same 6 bytes, and so do the hashes of
// 6 and 7; 2 and 3 end with the same 6 bytes.
func edKey(i int) ed25519.PrivateKey {
	seed := kernel.Mix(uint64(i), 0xc11)
	if i >= 2 && i < 8 {
		seed = kernel.Mix([]uint64{19498496, 23794103, 23049958, 14614545, 19417621, 11147063}[i-2], 0x5eed19)
	}
	return ed25519.NewKeyFromSeed(kernel.NewRng(seed).Bytes(32))
}

func edPk(i int) []byte { return edKey(i)[32:] }

var passes = []string{"correct horse battery", "päss wörd 42", "x", "a much longer passphrase with spaces, 'quotes' and \"more\" of it 0123456789", "trailing space ", "%s%d%n"}

func pass(i int) string { return passes[mod(i, len(passes))] }

// badPass is a wrong passphrase.
func badPass(i, how int) string {
	p := pass(i)
	q := ""
	switch mod(how, 8) {
	case 2:
		q = p[:len(p)/2]
	case 3:
		q = strings.ToUpper(p)
	case 4:
		q = p + " "
	case 5:
		q = strings.TrimSpace(p)
	case 6:
		q = pass(i + 1)
	case 7:
		return ""
	case 0:
		q = p + p
	}
	if q == "" || q == p {
		return p + "!"
	}
	return q
}

func mod(i, n int) int {
	if n <= 0 {
		return 0
	}
	i %= n
	if i < 0 {
		i += n
	}
	return i
}

// Text describes contents.
type Text struct {
	Len  int    `json:"len"`
	Kind int    `json:"kind,omitempty"` // 0 random, 1 zeros, 2 text lines
	Seed uint64 `json:"seed,omitempty"`
}

func (t Text) bytes() []byte {
	n := min(max(t.Len, 0), 1<<21)
	b := make([]byte, n)
	switch t.Kind {
	case 1:
	case 2:
		for i := range b {
			b[i] = "The quick brown fox\n"[i%20]
		}
	default:
		kernel.NewRng(kernel.Mix(t.Seed, 0x7e)).Fill(b)
	}
	return b
}

// Rcpt is one recipient argument.
type Rcpt struct {
	Key int `json:"key"`
	By  int `json:"by"`
}

// ways to name a recipient
const (
	byPub     = iota // sigtool public key file
	bySSH            // OpenSSH public key file
	byComment        // user@host in authorized_keys
	byMissing        // file that isn't there
	byUnknown        // user@host that isn't there
	byGarbage        // file that is no key
	byRSA            // OpenSSH public key of another type
	byDir            // a directory
	byPriv           // a private key file
	nBy
)

// Op is one command.
type Op struct {
	Cmd    string `json:"cmd"` // generate sign verify encrypt decrypt
	Key    int    `json:"key"` // private key: sign, decrypt; public: verify
	KFmt   int    `json:"kfmt"`
	PW     int    `json:"pw"`
	Pass   int    `json:"pass"`            // 0 environment, 1 typed, 2 --no-password
	Wrong  int    `json:"wrong,omitempty"` // wrong passphrase given; generate: mistyped that often
	Sender int    `json:"sender"`          // encrypt: signing key + 1; decrypt: expected sender + 1
	To     []Rcpt `json:"to,omitempty"`
	In     int    `json:"in"`
	Text   Text   `json:"text"`
	Out    int    `json:"out"`
	Dst    int    `json:"dst"`
	Slot   int    `json:"slot"` // which output path
	Force  bool   `json:"force,omitempty"`
	Block  string `json:"block,omitempty"`
	Test   bool   `json:"test,omitempty"`
	// decrypt: how the input was made
	FTo     []int `json:"fto,omitempty"`
	FSender int   `json:"fsender,omitempty"` // + 1
	FChunk  int   `json:"fchunk,omitempty"`
	// verify: who signed, what was changed
	SKey int `json:"skey,omitempty"`
	Edit int `json:"edit,omitempty"`
	Pos  int `json:"pos,omitempty"`

	Umask int    `json:"umask"`
	Root  bool   `json:"root,omitempty"`
	Rand  uint64 `json:"rand"`
	Rt    uint64 `json:"rt,omitempty"`
	Word  string `json:"word,omitempty"`  // said instead of Cmd
	Extra int    `json:"extra,omitempty"` // 1 + index in badOpts
	Few   int    `json:"few,omitempty"`   // 1 + how many arguments are left
	Clock int64  `json:"clock,omitempty"`
	Pid   int    `json:"pid,omitempty"`
	Abs   int    `json:"abs,omitempty"` // style of the paths: 0 relative, 1 ./x, 2 absolute, 3 ../w/x
	Stop  int    `json:"stop,omitempty"`
	Cap   int    `json:"cap,omitempty"` // capacity of its pipes
	Debug bool   `json:"debug,omitempty"`
	Com   string `json:"com,omitempty"`
	From  int    `json:"from,omitempty"` // inOther: which command
	Atk   *Atk   `json:"atk,omitempty"`  // decrypt: what was done to the input

	raw    []byte // decrypt: the input; verify: the signature file
	rawKey []byte // sign: the private key file
}

// badOpts are no options of any command, nor abbreviations of one.
var badOpts = []string{"--bogus", "--no-such=1", "-Z", "--no-password=maybe", "--overwrite=x", "-\xff", "--test-it", "-qZ", "--keyfile=x"}

// formats of private key files
const (
	kfSig    = iota // sigtool, with the passphrase
	kfSigNo         // sigtool, without (empty) passphrase
	kfSSH           // OpenSSH, not encrypted
	kfSSHEnc        // OpenSSH, encrypted
	nKFmt
)

// kinds of input
const (
	inFile = iota
	inStdinFile
	inStdinPipe
	inFifo
	inLink
	inMissing
	inDir
	inNull
	inUnreadable
	inDevStdin
	inPrev  // stdin is the pipe from the previous command
	inOther // decrypt: the output of an earlier encrypt that may still be replacing it
	nIn
)

// where the output goes
const (
	outFile = iota
	outStdout
	outDash
	outPipe
	outRedirect
	outDefault // sign: <file>.sig
	outFull
	outBrokenPipe
	outNext // pipe to the next command
	nOut
)

// what is at the destination
const (
	dstNone = iota
	dstFile
	dstLink
	dstDangling
	dstDir
	dstFifo
	dstHard
	dstLinkIn
	dstSame
	dstRO
	dstNoParent
	dstROParent
	dstHidden
	dstHardLink // existing file with another name
	dstNull
	nDst
)

// World is one simulated installation.
type World struct {
	names            int
	o                *Outcome
	x                *Exec
	fs               *machine.FS
	m                *machine.Machine
	runs             []*Run
	before           map[string]machine.Ent
	auth             map[string][]int // user name -> keys it may denote
	maybe            map[string][]int // the same if only the first word of a comment counts
	odd              bool             // authorized_keys has lines that make no sense
	authBad, authHid bool             // authorized_keys can't be read (by users)
	seed             uint64
	dmgs             []Dmg
	then             []*Op
	hurt             map[string]bool // files that were damaged
	pipe             *machine.File   // from the last command
	pipeFrom         *Run
}

// Run is one command on the machine with what it is supposed to do.
type Run struct {
	Op      *Op
	W       *World
	P       *machine.Proc
	cmd     *machine.Cmd
	tty     *machine.Tty
	Outs    []string // named outputs, absolute
	Stdout  []byte   // what came out of the pipe at stdout
	InPath  string
	Text    []byte // plaintext, or contents to be signed
	Input   []byte // what the command reads
	want    int    // 1: must succeed when nothing fails, -1: must fail, 0: either
	why     string
	right   bool    // verify: the signature is genuine
	same    bool    // output is the input
	soft    bool    // why is about the destination
	whyRcpt bool    // why is about the recipients
	alts    [][]int // for each recipient: the keys it may denote
	valids  map[uint64]string
	old     []byte // encrypt: the plaintext of what is at its output, for readers
	altText []byte // decrypt: what the input was before, if not nil
	prev    *Run   // whose output it reads
	atk     *attack
	hurt    bool // some of its files were damaged
}

func newWorld(seed uint64, x *Exec) *World {
	fs := machine.NewFS()
	w := &World{o: &Outcome{}, x: x, fs: fs, seed: seed, auth: map[string][]int{}, hurt: map[string]bool{}}
	for _, d := range []string{"/dev", "/etc", "/proc", "/proc/self", "/usr", "/usr/bin", "/home"} {
		fs.Mkdir(d, 0755, 0)
	}
	fs.Mkdir("/tmp", 01777, 0)
	fs.Mkdir("/home/u", 0755, user)
	fs.Mkdir("/home/u/.ssh", 0700, user)
	fs.Mkdir("/w", 0755, user)
	fs.Mkdir("/w/sub", 0755, user)
	for _, d := range []string{"null", "zero", "full", "random", "urandom", "tty"} {
		fs.Dev("/dev/"+d, d)
	}
	fs.Dev("/dev/stdin", "fd0")
	fs.Dev("/dev/stdout", "fd1")
	fs.Dev("/dev/stderr", "fd2")
	fs.File("/usr/bin/sigtool", []byte("elf"), 0755, 0)
	fs.Symlink("/proc/self/exe", "/usr/bin/sigtool", 0)
	fs.File("/w/bystander", []byte("not yours"), 0644, user)
	fs.File("/w/secret", []byte("not yours either"), 0600, user)
	w.m = w.machine(fs, seed)
	return w
}

func (w *World) machine(fs *machine.FS, seed uint64) *machine.Machine {
	m := machine.New(fs, seed)
	m.KeepTr = w.x.Trace
	return m
}

func (w *World) failf(kind, f string, v ...any) { w.o.Fail(kind, fmt.Sprintf(f, v...)) }

// put makes a file unless it is there already.
func (w *World) put(path string, data func() []byte, mode uint32) string {
	if w.fs.Get(path) == nil {
		w.fs.File(path, data(), mode, user)
	}
	return path
}

// cost is how hard the key derivation of a stored key is made.
func cost(key int) (n, r, p int) {
	switch mod(key, 4) {
	case 1:
		return 16384, 8, 1
	case 2:
		return 65536, 4, 3
	}
	return 524288, 8, 1
}

func keyFile(key, kfmt, pw int) []byte {
	sk := edKey(key)
	r := kernel.NewRng(kernel.Mix(uint64(key), uint64(kfmt), uint64(pw), 0xf11e))
	switch mod(kfmt, nKFmt) {
	case kfSig:
		n, rr, p := cost(key)
		return ref.KeyFile(sk, []byte(pass(pw)), r.Bytes(32), n, rr, p, "")
	case kfSigNo:
		n, rr, p := cost(key)
		return ref.KeyFile(sk, nil, r.Bytes(32), n, rr, p, "a comment")
	case kfSSH:
		return ref.SSHKeyFile(sk, &ref.SSHOpts{Cipher: "none", Check: uint32(key), Comment: "u@h"})
	}
	return ref.SSHKeyFile(sk, &ref.SSHOpts{Cipher: "aes256-ctr", PW: []byte(pass(pw)), Salt: r.Bytes(16), Rounds: 16, Check: uint32(key), Comment: "u@h"})
}

func (w *World) privKey(key, kfmt, pw int) string {
	kfmt = mod(kfmt, nKFmt)
	path := w.nm(fmt.Sprintf("/w/k%d.%d.%d.key", key, kfmt, mod(pw, len(passes))), true)
	return w.put(path, func() []byte { return w.touch("key", path, keyFile(key, kfmt, pw)) }, 0600)
}

// nm gives a file the kind of name this scenario is about.
func (w *World) nm(path string, key bool) string {
	dir, b := filepath.Split(path)
	k := mod(w.names, nNames)
	switch k {
	case 0:
		return path
	case 1:
		if dir == "/w/" {
			dir = "/w/sub/"
		}
	case 2:
		b = "my file " + b
	case 3:
		b = "100%s%d%n" + b
	case 4:
		b = "n\nl: " + b
	case 5:
		b = "ï→\xff" + b
	case 6:
		b = "'\"" + b + "\" #"
	case 7:
		b = "." + b + ".tmp"
	case 8:
		b = strings.Repeat("long", 45) + b
	case 9:
		b = "a:b,c;$HOME*?[" + b
	case 10:
		if !key { // me@host names a key by its comment
			b = "me@host" + b
		}
	case 11:
		b += "\r\t "
	}
	return dir + b
}

const nNames = 12

func comment(key int) string { return fmt.Sprintf("user%d@host", key) }

// pubArg returns the argument that names a public key.
func (w *World) pubArg(r Rcpt) (arg string, isPath bool) {
	switch mod(r.By, nBy) {
	case byPub:
		path := w.nm(fmt.Sprintf("/w/k%d.pub", r.Key), true)
		return w.put(path, func() []byte { return w.touch("pub", path, ref.PubFile(edPk(r.Key), "c")) }, 0644), true
	case bySSH:
		path := w.nm(fmt.Sprintf("/w/s%d.pub", r.Key), true)
		return w.put(path, func() []byte { return w.touch("pub", path, []byte(ref.SSHPub(edPk(r.Key), "me at home")+"\n")) }, 0644), true
	case byComment:
		return comment(r.Key), false
	case byUnknown:
		return fmt.Sprintf("nobody%d@host", r.Key), false
	case byGarbage:
		return w.put("/w/garbage", func() []byte { return kernel.NewRng(7).Bytes(200) }, 0644), true
	case byRSA:
		return w.put("/w/rsa.pub", func() []byte { return []byte(ref.SSHPubRSA([]byte("r"), "rsa@host") + "\n") }, 0644), true
	case byDir:
		return "/w/sub", true
	case byPriv:
		return w.privKey(r.Key, kfSigNo, 0), true
	}
	return fmt.Sprintf("/w/missing%d.pub", r.Key), true
}

func (op *Op) path(p string) string {
	if !strings.HasPrefix(p, "/w/") {
		return p
	}
	switch mod(op.Abs, 4) {
	case 0:
		return p[3:]
	case 1:
		return "./" + p[3:]
	case 2:
		return p
	}
	return "../w/" + p[3:]
}

// stdAuth is the usual authorized_keys: keys 0..7 by their comments.
func (w *World) stdAuth() {
	var sb strings.Builder
	sb.WriteString("# my keys\n\n")
	for i := 0; i < 8; i++ {
		w.auth[comment(i)] = []int{i}
		fmt.Fprintf(&sb, "%s\n", ref.SSHPub(edPk(i), comment(i)))
	}
	const path = "/home/u/.ssh/authorized_keys"
	w.fs.File(path, w.touch("auth", path, []byte(sb.String())), 0600, user)
}

func (w *World) fail(r *Run, why string) {
	if r.want != -1 || r.soft {
		r.want, r.why, r.soft = -1, why, false
	}
}

// failDst: the destination is in the way. If there is a complete output there
// in the end nevertheless, it is no false success.
func (w *World) failDst(r *Run, why string) {
	if r.want != -1 {
		r.want, r.why, r.soft = -1, why, true
	}
}

func (w *World) unsure(r *Run) {
	if r.want > 0 {
		r.want = 0
	}
}

var blocks = map[string]int{"1": 1, "16": 16, "64": 64, "100": 100, "512": 512, "1k": 1024, "4k": 4096, "4097": 4097, "64k": 65536, "128k": 131072, "1M": 1 << 20, "": 131072}

// refEnc makes an encrypted file with the reference implementation.
func refEnc(pt []byte, chunk int, to []int, sender int, seed uint64) []byte {
	r := kernel.NewRng(kernel.Mix(seed, 0xe9c))
	o := &ref.EncOpts{Key: r.Bytes(32), Salt: r.Bytes(32), ESK: r.Bytes(32), ChunkSize: uint32(chunk), Trailer: r.Bytes(64)}
	if sender > 0 {
		o.Sender = edKey(sender - 1)
	}
	for _, k := range to {
		o.Recips = append(o.Recips, edPk(k))
		o.Nonces = append(o.Nonces, r.Bytes(12))
	}
	b, err := ref.Encrypt(o, pt)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return b
}

// add prepares a command; i numbers its private files.
func (w *World) add(op *Op) *Run {
	i := len(w.runs)
	r := &Run{Op: op, W: w, want: 1, valids: map[uint64]string{}}
	w.runs = append(w.runs, r)
	c := &machine.Cmd{Cwd: "/w", Umask: op.Umask & 0777, Uid: user, Pid: op.Pid, Rand: op.Rand + uint64(i)<<56, RtSeed: op.Rt, Clock: op.Clock}
	if op.Root {
		c.Uid = 0
	}
	r.cmd = c
	c.Env = []string{"HOME=/home/u", "PATH=/usr/bin", "USER=u", "PW=" + pass(op.PW), "BADPW=" + badPass(op.PW, op.Wrong), "EMPTY="}
	if op.Cmd == "store" {
		w.addStore(r, i)
		return r
	}
	args := []string{"sigtool"}
	if op.Debug {
		args = append(args, "--debug")
	}
	var flags, pos []string

	// passphrase
	usesPw := op.Cmd == "generate" || op.Cmd == "sign" || op.Cmd == "decrypt" || op.Cmd == "encrypt" && op.Sender > 0
	kf := mod(op.KFmt, nKFmt)
	typed := false
	stdinFree := true
	if usesPw {
		switch mod(op.Pass, 3) {
		case 0:
			e := "PW"
			if op.Cmd != "generate" {
				if op.Wrong > 0 && kf == kfSigNo {
					e = "PW"
					w.fail(r, "wrong passphrase")
				} else if op.Wrong > 0 {
					e = "BADPW"
					if kf == kfSig || kf == kfSSHEnc {
						w.fail(r, "wrong passphrase")
					}
				} else if kf == kfSigNo {
					e = "EMPTY"
				}
			}
			flags = append(flags, "-E", e)
		case 1:
			typed = true
			stdinFree = false
			r.tty = machine.NewTty()
			c.Tty = r.tty
			right := pass(op.PW)
			if op.Cmd != "generate" && kf == kfSigNo {
				right = ""
			}
			if op.Cmd == "generate" {
				n := mod(op.Wrong, 4)
				for k := 0; k < n; k++ {
					r.tty.Lines = append(r.tty.Lines, right, right+"x")
				}
				r.tty.Lines = append(r.tty.Lines, right, right)
				if n >= 2 {
					w.unsure(r)
				}
			} else {
				if op.Wrong > 0 {
					bad := badPass(op.PW, op.Wrong)
					if kf == kfSigNo {
						bad = "x"
					}
					r.tty.Lines = append(r.tty.Lines, bad)
					if kf != kfSSH {
						w.fail(r, "wrong passphrase")
					}
				} else {
					r.tty.Lines = append(r.tty.Lines, right)
				}
			}
		default:
			flags = append(flags, "--no-password")
			if op.Cmd != "generate" && (kf == kfSig || kf == kfSSHEnc) {
				w.fail(r, "no passphrase")
			}
		}
	}

	// input
	in := mod(op.In, nIn)
	if op.Cmd == "sign" || op.Cmd == "verify" {
		switch in {
		case inStdinFile:
			in = inFile
		case inStdinPipe, inPrev:
			in = inDevStdin
		}
	}
	if !stdinFree && (in == inStdinFile || in == inStdinPipe || in == inDevStdin || in == inPrev) {
		in = inFile
	}
	pipe, from := w.pipe, w.pipeFrom
	w.pipe, w.pipeFrom = nil, nil
	if in == inPrev {
		if pipe == nil || op.Cmd != "encrypt" && op.Cmd != "decrypt" || !stdinFree {
			in = inFile
		}
	}
	if in != inPrev && from != nil {
		from.cmd.Stdout = nil // nobody reads it
	}
	var other *Run
	if in == inOther {
		in = inFile
		if len(w.runs) > 1 {
			o := w.runs[mod(op.From, len(w.runs)-1)]
			if o.Op.Cmd == "encrypt" && len(o.Outs) == 1 && o.Op.Force && o.want > 0 && op.Cmd == "decrypt" && (o.old != nil || w.fs.Get(o.Outs[0]) == nil) {
				other = o
				in = inOther
			}
		}
	}
	r.Text = op.Text.bytes()
	if in == inPrev {
		r.Text, r.prev = from.Text, from
	}
	r.Input = r.Text
	if op.Cmd == "decrypt" {
		chunk := op.FChunk
		if chunk <= 0 || chunk > 1<<20 {
			chunk = 64
		}
		if len(r.Text)/chunk > 2000 {
			chunk = 4096
		}
		fto := op.FTo
		if fto == nil {
			fto = []int{op.Key}
		}
		switch {
		case op.raw != nil:
			r.Input = op.raw
		case op.Atk != nil:
			w.attack(r, chunk, fto)
		default:
			r.Input = refEnc(r.Text, chunk, fto, op.FSender, kernel.Mix(op.Text.Seed, uint64(op.FSender)))
		}
		r.Input = w.touch("in", w.nm(fmt.Sprintf("/w/in%d", i), false), r.Input)
	}
	inPath := w.nm(fmt.Sprintf("/w/in%d", i), false)
	if in == inOther {
		inPath = other.Outs[0]
		if other.old == nil {
			other.old = append([]byte("old "), other.Text...)
			w.fs.File(inPath, refEnc(other.old, 512, []int{0, 1, 2, 3, 4, 5, 6, 7, op.Key}, other.Op.Sender, 99), 0644, user)
		}
		r.altText = other.old
		r.Text, r.prev = other.Text, other
	}
	inArg := inPath
	if op.Cmd == "verify" {
		w.verifyInput(r, in, i)
	}
	if op.Cmd != "generate" && in != inPrev && in != inOther {
		mode := uint32(0644)
		if in == inUnreadable {
			mode = 0
			if op.Root {
				in = inFile
			}
		}
		switch in {
		case inFile, inStdinFile, inUnreadable, inLink:
			w.fs.File(inPath, r.Input, mode, user)
		case inFifo:
			w.fs.Mkfifo(inPath, 0644, user)
			w.m.FeedFifo(inPath, r.Input)
		case inDir:
			w.fs.Mkdir(inPath, 0755, user)
		}
		switch in {
		case inStdinFile:
			c.Stdin = w.m.OpenFile(inPath, 0)
			inArg = "-"
		case inStdinPipe, inDevStdin:
			c.Stdin = w.m.Feed(r.Input, r.cap())
			inArg = "-"
			if in == inDevStdin {
				inArg = "/dev/stdin"
			}
		case inLink:
			inArg = w.nm(fmt.Sprintf("/w/lin%d", i), false)
			w.fs.Symlink(inArg, filepath.Base(inPath), user)
		case inMissing:
			w.fail(r, "no input file")
		case inDir:
			w.fail(r, "input is a directory")
		case inUnreadable:
			w.fail(r, "input can't be read")
		case inNull:
			inArg = "/dev/null"
			r.Input = nil
			if op.Cmd == "decrypt" {
				w.fail(r, "empty input")
			} else {
				r.Text = nil
			}
		}
	}
	if in == inPrev {
		inArg = "-"
		c.Stdin = pipe
	}
	r.InPath = inPath
	if typed {
		c.Stdin = w.m.TtyFile(r.tty)
	}

	// output
	out := mod(op.Out, nOut)
	dst := mod(op.Dst, nDst)
	if op.Cmd == "generate" {
		out = outFile
		if dst == dstHard || dst == dstLinkIn || dst == dstSame || dst == dstHidden || dst == dstNull {
			dst = dstFile
		}
	}
	if op.Cmd != "sign" && out == outDefault {
		out = outFile
	}
	if op.Cmd == "verify" {
		out = outStdout
	}
	if dst == dstHidden && op.Root {
		dst = dstFile
	}
	outPath := w.nm(fmt.Sprintf("/w/out%d", op.Slot), false)
	switch dst {
	case dstNoParent:
		outPath = w.nm(fmt.Sprintf("/w/nodir/out%d", op.Slot), false)
	case dstROParent:
		outPath = w.nm(fmt.Sprintf("/w/ro/out%d", op.Slot), false)
	case dstHidden:
		outPath = w.nm(fmt.Sprintf("/w/hid/out%d", op.Slot), false)
	}
	if out == outDefault && !strings.HasPrefix(inArg, "/w/") {
		out = outFile
	}
	var outs []string
	named := false
	switch {
	case op.Cmd == "verify":
	case op.Cmd == "generate":
		outs = []string{outPath + ".key", outPath + ".pub"}
		named = true
	case out == outFile:
		if op.Cmd == "sign" {
			outPath += ".sig"
		}
		if dst == dstSame {
			outPath = inPath
			if in == inLink || in == inStdinPipe || in == inDevStdin || in == inPrev || in == inMissing {
				outPath = w.nm(fmt.Sprintf("/w/out%d", op.Slot), false)
			}
		} else if dst == dstNull {
			outPath = "/dev/null"
		}
		outs = []string{outPath}
		flags = append(flags, "-o", op.path(outPath))
		named = true
	case out == outDefault:
		outs = []string{inArg + ".sig"}
		if dst == dstSame || dst == dstHidden || dst == dstROParent || dst == dstNoParent || dst == dstNull {
			dst = dstNone
		}
		named = true
	case out == outDash:
		flags = append(flags, "-o", "-")
	default:
		if op.Cmd == "sign" {
			flags = append(flags, "-o", "-")
		}
	}
	if op.Test && op.Cmd == "decrypt" {
		flags = append(flags, "-t")
		if named {
			outs = nil
			named = false
			// the option says that nothing is written
			flags = trim(flags, "-o")
		}
		out = outStdout
	}
	if named && in == inOther && outPath == inPath {
		w.fail(r, "output is the input")
	}
	if named {
		for k, o := range outs {
			if op.Cmd == "generate" && mod(op.Pos, 2) == 1 && k != mod(op.Pos/2, 2) {
				continue // only one of the pair exists
			}
			w.destination(r, o, dst, in, inPath)
		}
		r.Outs = outs
	}
	switch out {
	case outNext:
		if (op.Cmd == "encrypt" || op.Cmd == "decrypt") && !op.Test {
			w.pipe, c.Stdout = w.m.NewPipe(r.cap())
			w.pipeFrom = r
		}
	case outPipe:
		c.Stdout = w.m.Drain(&r.Stdout, r.cap(), -1)
	case outBrokenPipe:
		c.Stdout = w.m.Drain(&r.Stdout, r.cap(), max(op.Stop, 1))
		w.unsure(r)
	case outRedirect:
		if op.Cmd != "verify" {
			c.Stdout = w.m.OpenFile(fmt.Sprintf("/w/redir%d", i), 1)
		}
	case outFull:
		if op.Cmd != "verify" && !named {
			f := w.m.OpenFile("/dev/full", 1)
			c.Stdout = f
			if !(op.Cmd == "decrypt" && len(r.Text) == 0) && !op.Test {
				w.fail(r, "output device is full")
			}
		}
	}
	if op.Force && op.Cmd != "verify" {
		flags = append(flags, "--overwrite")
	}

	// positional arguments
	switch op.Cmd {
	case "generate":
		if op.Com != "" {
			flags = append(flags, "-c", op.Com)
		}
		pos = []string{op.path(outPath)}
	case "sign":
		pos = []string{op.path(w.privKey(op.Key, kf, op.PW)), op.path(inArg)}
		if op.rawKey != nil {
			pos[0] = op.path(w.put("/w/made.key", func() []byte { return op.rawKey }, 0600))
		}
	case "verify":
		by := Rcpt{op.Key, mod(op.KFmt, 4)}
		arg := ""
		switch by.By {
		case 2:
			arg = base64.StdEncoding.EncodeToString(edPk(op.Key))
		case 3:
			arg = strings.Fields(ref.SSHPub(edPk(op.Key), "c"))[1]
		default:
			a, _ := w.pubArg(by)
			arg = op.path(a)
		}
		pos = []string{arg, op.path(w.nm(fmt.Sprintf("/w/sig%d", i), false)), op.path(inArg)}
		if op.Test {
			flags = append(flags, "-q")
		}
	case "encrypt":
		if op.Sender > 0 {
			flags = append(flags, "-s", op.path(w.privKey(op.Sender-1, kf, op.PW)))
		}
		if op.Block != "" {
			flags = append(flags, "-B", op.Block)
			switch _, want := blockSize(op.Block); {
			case want == 0:
				w.unsure(r)
			case want < 0:
				w.fail(r, "no such size")
			}
		}
		if w.authBad || w.authHid && !op.Root {
			w.fail(r, "authorized_keys can't be read")
			r.whyRcpt = true
		}
		if len(op.To) == 0 {
			w.fail(r, "no recipients")
			r.whyRcpt = true
		}
		for _, t := range op.To {
			a, isPath := w.pubArg(t)
			if isPath {
				a = op.path(a)
			}
			pos = append(pos, a)
			switch mod(t.By, nBy) {
			case byPub, bySSH:
				r.alts = append(r.alts, []int{t.Key})
			case byComment:
				ks, more := w.auth[comment(t.Key)], w.maybe[comment(t.Key)]
				switch {
				case w.authBad || w.authHid && !op.Root:
				case len(ks)+len(more) == 0:
					w.fail(r, "unknown recipient")
					r.whyRcpt = true
				case len(ks) == 0 || len(ks) > 1 || w.odd:
					w.unsure(r)
				}
				if len(ks) > 0 {
					more = nil // that is the one that is meant
				}
				r.alts = append(r.alts, append(append([]int{}, ks...), more...))
			default:
				w.fail(r, "bad recipient")
				r.whyRcpt = true
			}
		}
		pos = append(pos, op.path(inArg))
	case "decrypt":
		if op.Sender > 0 {
			a, _ := w.pubArg(Rcpt{op.Sender - 1, byPub})
			flags = append(flags, "-v", op.path(a))
			if op.Sender != op.FSender && r.prev == nil && r.atk == nil {
				w.fail(r, "another sender")
			}
		}
		if op.Sender == 0 && op.FSender > 0 && r.prev == nil && r.atk == nil {
			w.unsure(r) // the library insists on the sender's key
		}
		if r.atk != nil {
			w.attackWant(r)
			pos = []string{op.path(w.privKey(op.Key, kf, op.PW)), op.path(inArg)}
			break
		}
		if r.prev != nil {
			w.decryptOther(r)
			pos = []string{op.path(w.privKey(op.Key, kf, op.PW)), op.path(inArg)}
			break
		}
		ok := op.FTo == nil
		for _, k := range op.FTo {
			ok = ok || k == op.Key
		}
		if !ok {
			w.fail(r, "not a recipient")
		}
		pos = []string{op.path(w.privKey(op.Key, kf, op.PW))}
		if inArg != "-" || op.Pos%2 == 0 {
			pos = append(pos, op.path(inArg))
		}
	default:
		panic("HARNESS: no command")
	}
	if len(w.hurt) > 0 {
		w.unsure(r)
		r.hurt = true
	}
	word := op.Cmd
	if op.Word != "" {
		word = op.Word
		switch c, sure := command(word); {
		case !sure:
			w.unsure(r)
		case c != op.Cmd:
			w.fail(r, "no such command")
		}
	}
	if op.Extra > 0 {
		w.fail(r, "no such option")
		flags = append(flags, badOpts[mod(op.Extra-1, len(badOpts))])
	}
	if op.Few > 0 {
		least := map[string]int{"generate": 1, "sign": 2, "verify": 3, "encrypt": 2, "decrypt": 1}[op.Cmd]
		w.fail(r, "too few arguments")
		pos = pos[:min(len(pos), mod(op.Few-1, least))]
	}
	if in == inPrev && r.want <= 0 {
		w.unsure(r.prev) // its reader may go away
	}
	args = append(args, word)
	args = append(args, flags...)
	args = append(args, pos...)
	c.Args = args
	return r
}

// cap is the size of its pipes; long data don't go through tiny ones.
func (r *Run) cap() int {
	return max(r.Op.Cap, max(len(r.Input), len(r.Text))/2000, 1)
}

func trim(v []string, opt string) []string {
	var out []string
	for i := 0; i < len(v); i++ {
		if v[i] == opt {
			i++
			continue
		}
		out = append(out, v[i])
	}
	return out
}

// decryptOther: the input is what another command makes.
func (w *World) decryptOther(r *Run) {
	p := r.prev
	op := r.Op
	ok := false
	for _, ks := range p.alts {
		for _, k := range ks {
			ok = ok || k == op.Key
		}
		if len(ks) > 1 {
			w.unsure(r)
		}
	}
	if p.Op.Cmd != "encrypt" {
		return
	}
	if r.altText != nil && (p.Op.Root || p.Op.Umask&0400 != 0) && !op.Root {
		w.unsure(r)
	}
	if !ok || p.want < 0 && mod(op.In, nIn) == inPrev {
		if r.altText != nil {
			w.unsure(r)
		} else {
			w.fail(r, "not for this key")
		}
	}
	if p.want == 0 {
		w.unsure(r)
	}
	if op.Sender > 0 && op.Sender != p.Op.Sender {
		w.fail(r, "another sender")
	}
	if op.Sender == 0 && p.Op.Sender > 0 {
		w.unsure(r)
	}
}

// oldData is what was at a destination before: often nothing.
func (r *Run) oldData(o string, seed uint64) []byte {
	switch seed % 5 {
	case 0:
		return nil
	case 1:
		return kernel.NewRng(seed).Bytes(70000)
	case 2: // an earlier output of this kind
		return r.earlier(o, seed)
	}
	return []byte("what was here before " + o)
}

// earlier is what the command might have put there on another occasion.
func (r *Run) earlier(o string, seed uint64) []byte {
	k := r.Op.Key + 3
	pw := []byte("another passphrase")
	what := r.Op.Cmd
	if what == "generate" {
		what = "key"
		if strings.HasSuffix(o, ".pub") {
			what = "pub"
		}
	} else if what == "store" {
		what = r.Op.store()
	}
	switch what {
	case "key":
		return ref.KeyFile(edKey(k), pw, kernel.NewRng(seed).Bytes(32), 65536, 8, 1, "earlier")
	case "pub":
		return ref.PubFile(edPk(k), "earlier")
	case "sign", "sig":
		return ref.SigFile(ref.SignMessage(edKey(k), ref.FileChecksum(r.Text)), edPk(k), "input=earlier")
	case "encrypt":
		return refEnc([]byte("earlier"), 512, []int{k, k + 1}, 0, seed)
	}
	return append([]byte("earlier "), r.Text...)
}

// destination prepares what is at an output path.
func (w *World) destination(r *Run, o string, dst, in int, inPath string) {
	op := r.Op
	fs := w.fs
	old := r.oldData(o, op.Rand)
	for _, q := range w.runs {
		for _, p := range q.Outs {
			if p == o { // another command's destination as well
				if fs.Get(o) != nil && !op.Force {
					w.failDst(r, "exists")
				} else if fs.Get(o) != nil {
					w.unsure(r)
				} else if q.want <= 0 {
					w.unsure(r)
				}
				return
			}
		}
	}
	if fs.Get(o) != nil && dst != dstSame && dst != dstNull {
		if !op.Force {
			w.failDst(r, "exists")
		}
		return // another command's destination
	}
	needForce := func() {
		if !op.Force {
			w.failDst(r, "destination exists")
		}
	}
	inIno := fs.Stat(inPath)
	if inIno != nil && inIno.Kind != machine.Reg {
		inIno = nil
	}
	refuse := func() {
		r.same = true
		if op.Cmd == "encrypt" || op.Cmd == "decrypt" {
			w.failDst(r, "output is the input")
		} else {
			needForce()
			w.unsure(r)
		}
	}
	switch dst {
	case dstFile:
		fs.File(o, old, 0644, user)
		needForce()
	case dstRO:
		fs.File(o, old, 0400, user)
		needForce()
	case dstLink:
		fs.File(o+".target", old, 0644, user)
		fs.Symlink(o, filepath.Base(o)+".target", user)
		needForce()
	case dstDangling:
		fs.Symlink(o, "nowhere-"+filepath.Base(o), user)
		needForce()
		w.unsure(r)
	case dstDir:
		fs.Mkdir(o, 0755, user)
		w.failDst(r, "destination is a directory")
	case dstFifo:
		fs.Mkfifo(o, 0644, user)
		w.failDst(r, "destination is a fifo")
	case dstHardLink:
		fs.File(o, old, 0644, user)
		fs.Link(o, o+".other")
		needForce()
	case dstHard:
		if inIno == nil {
			fs.File(o, old, 0644, user)
			needForce()
			return
		}
		fs.Link(inPath, o)
		refuse()
	case dstLinkIn:
		if inIno == nil {
			fs.File(o, old, 0644, user)
			needForce()
			return
		}
		fs.Symlink(o, inPath, user)
		refuse()
	case dstSame:
		if inIno != nil && o == inPath {
			refuse()
		} else if fs.Get(o) != nil {
			needForce()
			w.unsure(r)
		}
	case dstNoParent:
		w.failDst(r, "no such directory")
	case dstROParent:
		fs.Mkdir("/w/ro", 0555, user)
		if !op.Root {
			w.failDst(r, "directory is not writable")
		}
	case dstHidden:
		fs.Mkdir("/w/hid", 0, user)
		fs.File(o, old, 0644, user)
		w.failDst(r, "directory can't be searched")
	case dstNull:
		w.failDst(r, "destination is a device")
		if op.Root {
			w.unsure(r)
			r.want = 0
		}
	}
}

// verifyInput makes the signature (and damages something).
func (w *World) verifyInput(r *Run, in int, i int) {
	op := r.Op
	signed := r.Text
	if in == inNull {
		signed = nil
	}
	sig := ref.SignMessage(edKey(op.SKey), ref.FileChecksum(signed))
	file := ref.SigFile(sig, edPk(op.SKey), "input=x")
	content := append([]byte{}, signed...)
	rk := op.SKey == op.Key
	switch mod(op.Edit, 12) {
	case 8: // what stands for the content
		content = ref.FileChecksum(signed)
	case 9:
		h := sha512.Sum512(signed)
		content = h[:]
	case 10: // signature over something else that stands for the content
		h := sha512.Sum512(signed)
		msg := [][]byte{signed, h[:], nil, ref.FileChecksum(ref.FileChecksum(signed))}[mod(op.Pos, 4)]
		sig = ref.SignMessage(edKey(op.SKey), msg)
		file = ref.SigFile(sig, edPk(op.SKey), "")
	case 1: // content changed
		if len(content) > 0 {
			content[mod(op.Pos, len(content))] ^= 1 << (op.Pos & 7)
		} else {
			content = []byte{0}
		}
	case 2: // longer
		content = append(content, byte(op.Pos))
	case 3: // shorter
		if len(content) > 0 {
			content = content[:mod(op.Pos, len(content))]
		} else {
			content = []byte{1}
		}
	case 4: // signature changed
		sig[mod(op.Pos, 64)] ^= 1 << (op.Pos & 7)
		file = ref.SigFile(sig, edPk(op.SKey), "")
	case 5: // signature by another key, claiming to be of this one
		file = ref.SigFile(ref.SignMessage(edKey(op.Key+1), ref.FileChecksum(signed)), edPk(op.Key), "")
		rk = false
	case 7: // of the first part only
		content = append(content, kernel.NewRng(uint64(op.Pos)).Bytes(1+mod(op.Pos, 9000))...)
	case 11: // something in it that is no base64
		line := bytes.SplitAfter(file, []byte("\n"))
		l := &line[len(line)-2-mod(op.Pos, 2)]
		at := len(*l) - 1
		if mod(op.Pos, 3) == 0 {
			at -= 1 + mod(op.Pos, 20)
		}
		*l = append(append(append([]byte{}, (*l)[:at]...), "*.-_"[mod(op.Pos, 4)]), (*l)[at:]...)
		file = bytes.Join(line, nil)
	case 6: // of another file
		file = ref.SigFile(ref.SignMessage(edKey(op.Key), ref.FileChecksum(append(signed, 'x'))), edPk(op.Key), "")
		rk = false
	}
	if in == inNull {
		content = nil
	}
	sg, _, err := ref.ParseSigFile(file)
	if op.raw != nil {
		// what the sign command wrote
		file = op.raw
		if sg, _, err = ref.ParseSigFile(file); err != nil {
			sg = sig
			err = nil
		}
		rk = op.SKey == op.Key
		if mod(op.Edit, 12) == 4 {
			file = ref.SigFile(flipped(sg, op.Pos), edPk(op.SKey), "")
			sg = flipped(sg, op.Pos)
		}
	}
	file = w.touch("sig", w.nm(fmt.Sprintf("/w/sig%d", i), false), file)
	r.right = rk && err == nil && ref.VerifyMessage(edPk(op.Key), ref.FileChecksum(content), sg)
	w.fs.File(w.nm(fmt.Sprintf("/w/sig%d", i), false), file, 0644, user)
	r.Input = content
	r.Text = content
	if !r.right {
		w.fail(r, "signature is not genuine")
	}
}

func flipped(b []byte, at int) []byte {
	b = append([]byte{}, b...)
	if len(b) > 0 {
		b[mod(at, len(b))] ^= 1 << (at & 7)
	}
	return b
}

// start freezes the set-up and starts everything.
func (w *World) start() {
	if w.pipeFrom != nil { // nobody reads it
		w.pipeFrom.cmd.Stdout = nil
		w.pipeFrom = nil
	}
	w.fs.Freeze()
	w.before = w.fs.Snap()
	for _, r := range w.runs {
		r.P = w.m.Spawn(r.cmd)
	}
}

func (w *World) book(m *machine.Machine) {
	o := w.o
	for k, n := range m.Faults {
		for i := 0; i < n; i++ {
			o.Fault(k)
		}
	}
	for k, n := range m.Probes {
		if strings.HasPrefix(k, "unsupported") {
			o.Probe(k)
		}
		_ = n
	}
	o.Steps += m.Step
	o.Switches += m.Sw
	o.Hash = kernel.Mix(o.Hash, m.Hash())
	o.Trace = append(o.Trace, m.Trace...)
}

// out returns what the process wrote to its standard output.
func (r *Run) stdout() []byte {
	switch mod(r.Op.Out, nOut) {
	case outPipe, outBrokenPipe:
		if r.cmd.Stdout != nil {
			return r.Stdout
		}
	case outRedirect:
		if n := r.W.fs.Stat(fmt.Sprintf("/w/redir%d", r.num())); n != nil && r.cmd.Stdout != nil {
			return n.Data
		}
	}
	return r.P.Stdout
}

func (r *Run) num() int {
	for i, q := range r.W.runs {
		if q == r {
			return i
		}
	}
	return -1
}

// check says what is wrong with b as the output at path ("" if it is right).
func (r *Run) check(path string, b []byte) string {
	h := kernel.Mix(kernel.MixStr(path), kernel.MixStr(string(b)))
	if v, ok := r.valids[h]; ok {
		return v
	}
	v := r.check1(path, b)
	r.valids[h] = v
	return v
}

func (r *Run) check1(path string, b []byte) string {
	op := r.Op
	switch op.Cmd {
	case "store":
		return r.checkStore(b)
	case "generate":
		if strings.HasSuffix(path, ".pub") {
			if _, err := ref.ParsePubFile(b); err != nil {
				return err.Error()
			}
			return ""
		}
		if _, err := r.genKey(b); err != nil {
			return err.Error()
		}
		return ""
	case "sign":
		sig, ph, err := ref.ParseSigFile(b)
		if err != nil {
			return err.Error()
		}
		if !bytes.Equal(ph, ref.PkHash(edPk(op.Key))) {
			return "names another key"
		}
		if !ref.VerifyMessage(edPk(op.Key), ref.FileChecksum(r.Text), sig) {
			return "signature does not verify"
		}
		return ""
	case "encrypt":
		return r.checkEnc(b)
	case "decrypt":
		if !bytes.Equal(b, r.Text) && (r.altText == nil || !bytes.Equal(b, r.altText)) {
			return fmt.Sprintf("not the plaintext (%d bytes instead of %d)", len(b), len(r.Text))
		}
		return ""
	}
	return ""
}

func (r *Run) checkEnc(b []byte) string {
	var sender []byte
	if r.Op.Sender > 0 {
		sender = edPk(r.Op.Sender - 1)
	}
	if len(r.alts) == 0 {
		return "no recipients"
	}
	f, err := ref.Parse(b)
	if err != nil {
		return err.Error()
	}
	if len(f.Extra) != 0 {
		return fmt.Sprintf("%d bytes too many", len(f.Extra))
	}
	if n := len(f.Hdr.Keys); n > len(r.Op.To) {
		return fmt.Sprintf("%d recipient entries for %d recipients", n, len(r.Op.To))
	}
	opens := map[int]string{} // "" for yes
	try := func(k int) string {
		if s, ok := opens[k]; ok {
			return s
		}
		s := ""
		in, err := ref.Open(b, edKey(k), sender)
		switch {
		case err != nil:
			s = fmt.Sprintf("recipient %d: %s", k, err)
		case !bytes.Equal(in.PT, r.Text):
			s = fmt.Sprintf("holds %d bytes that are not the input (%d bytes)", len(in.PT), len(r.Text))
		case sender == nil && in.Auth:
			s = "is signed by someone"
		}
		opens[k] = s
		return s
	}
	may := map[int]bool{}
	for _, ks := range r.alts {
		s := "a recipient is missing"
		for _, k := range ks {
			may[k] = true
			if t := try(k); t == "" || s != "" {
				s = t
			}
		}
		if s != "" {
			return s
		}
	}
	for k := 0; k < nKeys; k++ {
		if may[k] {
			continue
		}
		ek := edKey(k)
		sh, err := ref.X25519(ref.CurveSK(ek), f.Hdr.Pk)
		for _, wk := range f.Hdr.Keys {
			if err != nil {
				break
			}
			if _, err := ref.UnwrapShared(f.Hdr, wk, sh, ek[32:]); err == nil {
				return fmt.Sprintf("key %d, which is no recipient, can decrypt it", k)
			}
		}
	}
	return ""
}

// genKey opens a generated private key.
func (r *Run) genKey(b []byte) (ed25519.PrivateKey, error) {
	pw := []byte(pass(r.Op.PW))
	if mod(r.Op.Pass, 3) == 2 {
		pw = nil
	}
	sk, _, k, err := ref.OpenKeyFile(b, pw)
	if err == nil && (k.N < 32768 || k.R*k.P < 1) {
		err = fmt.Errorf("weak key derivation")
	}
	return sk, err
}

// message tells if the command said something about its failure.
func (r *Run) message() bool {
	if r.Op.Cmd == "verify" && (r.Op.Test || len(r.P.Stdout) > 0 || r.W.fired(func(k string) bool { return strings.HasPrefix(k, "write") })) {
		return true
	}
	return len(bytes.TrimSpace(r.P.Stderr[min(r.P.Asked, len(r.P.Stderr)):])) > 0
}

// crashed says if a process died in a way that is never right, and how.
func (r *Run) crashed() string {
	p := r.P
	switch {
	case p.Killed:
		return ""
	case p.Hung:
		return "hangs"
	case strings.Contains(p.Raw, "goroutine ") || strings.Contains(p.Raw, "panic:") || strings.Contains(p.Raw, "fatal error:") || strings.Contains(string(p.Stderr), "goroutine "):
		if p.RandBad {
			return "" // the language's random source gives up
		}
		l := p.Raw
		if i := strings.IndexByte(l, '\n'); i > 0 {
			l = l[:i]
		}
		return "crashes: " + l
	case p.Signal == 13:
		return ""
	case p.Signal != 0:
		return fmt.Sprintf("dies by signal %d", p.Signal)
	}
	return ""
}

func (r *Run) desc() string {
	s := strings.Join(r.P.Args, " ")
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	e := strings.TrimSpace(string(r.P.Stderr))
	if len(e) > 150 {
		e = e[:150] + "..."
	}
	return fmt.Sprintf("'%s' (exit %d%s, stderr %q)", s, r.P.Exit, map[bool]string{true: " killed"}[r.P.Killed], e)
}

func (w *World) shape(v ...any) { w.o.Shape = kernel.Mix(w.o.Shape, kernel.MixStr(fmt.Sprint(v...))) }

func clone[T any](v T) T {
	var o T
	b, _ := json.Marshal(v)
	json.Unmarshal(b, &o)
	return o
}

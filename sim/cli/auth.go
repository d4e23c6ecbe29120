package cli

import (
	"encoding/base64"
	"fmt"
	"strings"

	"verifsim/kernel"
)

// Auth describes an authorized_keys file.
type Auth struct {
	State int        `json:"state"` // how the file is there
	Lines []AuthLine `json:"lines"`
	NoEOL bool       `json:"noeol,omitempty"`
	CRLF  bool       `json:"crlf,omitempty"`
	Pad   int        `json:"pad,omitempty"` // bytes of comment lines in front
}

const (
	authThere = iota
	authMissing
	authDir
	authUnreadable
	authLink
	nAuth
)

// AuthLine is one line.
type AuthLine struct {
	Kind int `json:"kind"`
	Key  int `json:"key"`
	Com  int `json:"com"` // which user its comment names
	Opt  int `json:"opt,omitempty"`
	Sep  int `json:"sep,omitempty"`
}

const (
	alKey      = iota
	alTwoWords // comment of several words that starts with the user
	alInside   // the user is a later word of the comment
	alLonger   // the user with something attached
	alNoComment
	alComment // a comment line
	alBlank
	alOff // a key line commented out
	alRSA
	alECDSA
	alSK        // hardware token key
	alBadB64    // illegal characters
	alTruncated // the blob is cut off
	alInner     // type inside differs
	alGarbage
	alShortKey
	alNoBlob
	nAlKind
)

var options = []string{"", "", "", "no-pty ", `command="echo hi there" `, `command="/bin/x \"q\" y",no-pty `, `from="*.example.com,10.0.0.1" `, "restrict,pty\t", `environment="A=ssh-ed25519 AAAA" `, `command="echo \"a b\" c" `, `from="*",command="x\"y z" `}
var seps = []string{" ", " ", " ", "  ", "\t", " \t "}

func sshStr(b []byte) []byte {
	n := len(b)
	return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...)
}

func (l AuthLine) text() string {
	pk := edPk(mod(l.Key, nKeys))
	com := comment(mod(l.Com, 8))
	opt := options[mod(l.Opt, len(options))]
	sep := seps[mod(l.Sep, len(seps))]
	line := func(typ string, blob []byte, com string) string {
		s := opt + typ + sep + base64.StdEncoding.EncodeToString(blob)
		if com != "" {
			s += sep + com
		}
		return s
	}
	ed := append(sshStr([]byte("ssh-ed25519")), sshStr(pk)...)
	r := kernel.NewRng(kernel.Mix(uint64(l.Key), 0xa17))
	switch mod(l.Kind, nAlKind) {
	case alTwoWords:
		return line("ssh-ed25519", ed, com+" laptop")
	case alInside:
		return line("ssh-ed25519", ed, "old key of "+com)
	case alLonger:
		return line("ssh-ed25519", ed, []string{com + ".example.com", "x" + com, com + ",", strings.ToUpper(com)}[mod(l.Opt, 4)])
	case alNoComment:
		return line("ssh-ed25519", ed, "")
	case alComment:
		return "# " + com
	case alBlank:
		return []string{"", "   ", "\t"}[mod(l.Opt, 3)]
	case alOff:
		return "#" + line("ssh-ed25519", ed, com)
	case alRSA:
		return line("ssh-rsa", append(append(sshStr([]byte("ssh-rsa")), sshStr([]byte{1, 0, 1})...), sshStr(r.Bytes(257))...), com)
	case alECDSA:
		return line("ecdsa-sha2-nistp256", append(append(sshStr([]byte("ecdsa-sha2-nistp256")), sshStr([]byte("nistp256"))...), sshStr(r.Bytes(65))...), com)
	case alSK:
		return line("sk-ssh-ed25519@openssh.com", append(append(sshStr([]byte("sk-ssh-ed25519@openssh.com")), sshStr(pk)...), sshStr([]byte("ssh:"))...), com)
	case alBadB64:
		return opt + "ssh-ed25519" + sep + "AAAAC3NzaC1lZDI1*NTE5!!!" + sep + com
	case alTruncated:
		return line("ssh-ed25519", ed[:len(ed)-mod(l.Opt+1, 40)-1], com)
	case alInner:
		return line("ssh-ed25519", append(sshStr([]byte("ssh-rsa")), sshStr(pk)...), com)
	case alGarbage:
		return "what is this " + com
	case alShortKey:
		return line("ssh-ed25519", append(sshStr([]byte("ssh-ed25519")), sshStr(pk[:31])...), com)
	case alNoBlob:
		return opt + "ssh-ed25519" + sep + com
	}
	return line("ssh-ed25519", ed, com)
}

const nKeys = 12

const authFile = "/home/u/.ssh/authorized_keys"

// put writes the file and notes what each name may denote.
func (a *Auth) put(w *World) {
	var sb strings.Builder
	for i := 0; sb.Len() < min(max(a.Pad, 0), 1<<20); i++ {
		fmt.Fprintf(&sb, "# line %d\n", i)
	}
	eol := "\n"
	if a.CRLF {
		eol = "\r\n"
	}
	w.auth = map[string][]int{}
	w.maybe = map[string][]int{}
	for i, l := range a.Lines {
		sb.WriteString(l.text())
		if i < len(a.Lines)-1 || !a.NoEOL {
			sb.WriteString(eol)
		}
		c, k := comment(mod(l.Com, 8)), mod(l.Key, nKeys)
		switch mod(l.Kind, nAlKind) {
		case alKey:
			w.auth[c] = append(w.auth[c], k)
		case alTwoWords:
			w.maybe[c] = append(w.maybe[c], k)
		case alBadB64, alTruncated, alInner, alGarbage, alShortKey, alNoBlob:
			w.odd = true // refusing the whole file is all right
		}
	}
	const p = authFile
	data := []byte(sb.String())
	gone := func() { w.auth, w.maybe = map[string][]int{}, map[string][]int{} }
	switch mod(a.State, nAuth) {
	case authMissing:
		gone()
	case authDir:
		w.fs.Mkdir(p, 0755, user)
		w.authBad = true
	case authUnreadable:
		w.fs.File(p, data, 0, user)
		w.authHid = true
	case authLink:
		w.fs.File("/home/u/keys", data, 0600, user)
		w.fs.Symlink(p, "../keys", user)
	default:
		w.fs.File(p, data, 0600, user)
	}
}

func genAuth(r *Rng) *Auth {
	a := &Auth{State: r.Pick(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, authMissing, authDir, authUnreadable, authLink)}
	n := r.Pick(1, 3, 5, 8, 8, 20)
	odd := r.P(3)
	for i := 0; i < n; i++ {
		l := AuthLine{Key: r.N(nKeys), Com: r.N(8), Opt: r.N(len(options)), Sep: r.N(len(seps))}
		switch r.N(5) {
		case 0:
			l.Kind = r.In(alTwoWords, alSK)
		case 1:
			if odd {
				l.Kind = r.In(alBadB64, nAlKind-1)
			}
		}
		a.Lines = append(a.Lines, l)
	}
	if r.P(3) && len(a.Lines) > 0 {
		// another line that only looks like one for the same user
		i := r.N(len(a.Lines))
		l := a.Lines[i]
		l.Kind, l.Key = r.Pick(alTwoWords, alTwoWords, alInside, alLonger, alOff), r.N(nKeys)
		if r.P(2) {
			a.Lines = append(a.Lines, l)
		} else {
			a.Lines = append([]AuthLine{l}, a.Lines...)
		}
	}
	a.NoEOL, a.CRLF = r.P(4), r.P(5)
	if r.P(8) {
		a.Pad = r.Pick(500, 512, 4096, 65536)
	}
	return a
}

func genP17(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: []string{"encrypt"}, clean: true, dst: 12})
	op.Text.Len = min(op.Text.Len, 2000)
	op.Debug = false
	s.Auth = genAuth(r)
	n := r.Pick(1, 1, 2, 3, 4)
	op.To = nil
	for i := 0; i < n; i++ {
		t := Rcpt{r.N(8), byComment}
		if len(s.Auth.Lines) > 0 && !r.P(5) {
			t.Key = s.Auth.Lines[r.N(len(s.Auth.Lines))].Com
		}
		if r.P(3) {
			t.By = r.Pick(byPub, bySSH, byPub, bySSH, byMissing, byUnknown, byGarbage, byRSA, byDir, byPriv)
		}
		op.To = append(op.To, t)
	}
	s.Ops = []*Op{op}
	if r.P(24) {
		s.crowd(r)
		return s
	}
	if r.P(2) {
		_, c := s.baseline()
		k := r.Pick(1, 1, 2, 6)
		for i := 0; i < k; i++ {
			f, ok := genFault(r, 0, c[0], "read", "open", "stat")
			if !ok {
				break
			}
			if k == 6 {
				f.Kind, f.Sticky = r.PickS("EINTR", "short"), false
				f.K = r.Pick(1, 5, 50)
			}
			s.Plan = append(s.Plan, f)
		}
	}
	return s
}

// crowd names many recipients.
func (s *Sc) crowd(r *Rng) {
	op := s.Ops[0]
	op.To = nil
	n := r.Pick(20, 40, 100, 255, 256, 257, 300)
	by := r.Pick(byPub, byPub, byPub, bySSH, byMissing)
	if by == byMissing {
		n = r.Pick(255, 256, 257, 512)
	}
	for _, k := range r.Perm(1000)[:n] {
		op.To = append(op.To, Rcpt{k, by})
	}
	if by != byMissing && r.P(4) {
		op.To[r.N(n)] = Rcpt{r.N(1000), r.Pick(byMissing, byGarbage, byUnknown, byRSA)}
	}
}

// judgeRcpts decides P17.
func judgeRcpts(w *World) {
	for _, r := range w.runs {
		if r.Op.Cmd != "encrypt" {
			continue
		}
		w.o.Evals++
		for _, h := range w.m.Hits {
			if h.P == r.P.ID && (h.Cls == "read" || h.Cls == "open") && h.Kind != "EINTR" && h.Kind != "short" && (h.Path == authFile || h.Ino != nil && h.Ino == w.fs.Stat(authFile)) {
				w.fail(r, "reading authorized_keys failed: "+h.Kind)
				r.whyRcpt = true
				w.o.Probe("authorized_keys-unreadable")
			}
		}
		if c := r.crashed(); c != "" {
			w.failf("crash", "%s %s", r.desc(), c)
			continue
		}
		if r.P.Exit == 0 {
			if r.want < 0 && r.whyRcpt {
				w.failf("accepted", "%s succeeds although: %s", r.desc(), r.why)
			}
			if s := r.result(w.fs); s != "" {
				w.failf("recipients", "%s succeeds, but %s", r.desc(), s)
			}
			continue
		}
		if r.want > 0 && w.noFault() {
			w.failf("refused", "%s fails, although all recipients are known", r.desc())
		}
		for _, p := range r.Outs {
			if _, ok := w.before[p]; !ok && w.fs.Get(p) != nil {
				w.failf("output", "%s fails, but leaves %s", r.desc(), p)
			}
		}
	}
}

package cli

import (
	"math/bits"
	"strconv"
	"strings"

	"verifsim/ref"
)

// ---- P20: command words and sizes

// command is what a word means: a command, or none. It isn't sure about what
// is documented nowhere.
func command(word string) (cmd string, sure bool) {
	n := 0
	for _, c := range allCmds {
		if word == c {
			return c, true
		}
		if strings.HasPrefix(c, word) {
			cmd = c
			n++
		}
	}
	switch {
	case word == "":
		return "", true
	case strings.HasPrefix("help", strings.ToLower(word)), word != strings.ToLower(word), strings.HasPrefix(word, "-"):
		return "", false // options; letters of the other case
	case n == 1:
		return cmd, true
	}
	return "", true
}

const maxBlock = 1 << 30

// blockSize is what a size means: want is 1 if it has a meaning, -1 if it can't
// have one, and 0 if that is not documented.
func blockSize(s string) (n uint64, want int) {
	if s == "" {
		return 0, 1
	}
	d := strings.TrimLeft(s, "0123456789")
	num := s[:len(s)-len(d)]
	if num == "" || len(d) > 1 {
		if strings.HasPrefix(d, ".") || strings.HasPrefix(d, "-") || num == "" {
			return 0, -1
		}
		return 0, 0 // 64kb, 64 k
	}
	v, err := strconv.ParseUint(num, 10, 64)
	if err != nil {
		return 0, -1
	}
	i := 0
	if d != "" && d != "B" {
		i = strings.Index("kMGTPE", strings.ReplaceAll(d, "K", "k"))
		if i < 0 {
			return 0, -1
		}
		i++
	}
	hi, lo := bits.Mul64(v, 1<<(10*uint(i)))
	if hi > 0 {
		return 0, -1
	}
	return lo, 1
}

func genWords(r *Rng, idx int, tier string) any {
	s := freshSc(r)
	op := genOp(r, &style{cmds: allCmds, clean: true})
	s.Ops = []*Op{op}
	switch k := r.N(10); {
	case k < 5:
		op.Word = op.Cmd[:r.In(1, len(op.Cmd))]
	case k < 6:
		op.Word = r.PickS(op.Cmd+"s", op.Cmd+"x", op.Cmd[:1]+op.Cmd, op.Cmd[1:], "x", "q", "k", "sv", "ge ", " "+op.Cmd, "sig", "dec rypt", "0", "*", op.Cmd[:2]+"*", "encryptor", "verifying", "signify", "gen-key", "generatee", "\xff", "é", op.Cmd+"\n")
	case k < 7:
		b := []byte(op.Cmd[:r.In(2, len(op.Cmd))])
		switch r.N(3) {
		case 0:
			b[r.N(len(b))] = byte('a' + r.N(26))
		case 1:
			i := r.N(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
		default:
			i := r.N(len(b))
			b = append(b[:i], b[i+1:]...)
		}
		op.Word = string(b)
	default:
		// sizes
		v := r.PickS("", "0", "1", "00", "016", "5", "100", "1023", "1024", "4097", "65536", "1000000", "1048577", "16777216", "9999999999", "18446744073709551615", "18446744073709551616", "-1", "+5", "1.5", "x", "", "2", "3", "17", "64", "999")
		op.Block = v + r.PickS("", "", "k", "K", "M", "B", "G", "T", "P", "E", "m", "g", "b", "kB", "MB", "x", " ", "k ", "KiB", "i", "kk", "5")
		if n, want := blockSize(op.Block); want > 0 && n > 64<<20 && r.P(2) {
			op.Block = "12k" // these take their time
		}
		if op.Block == "" {
			op.Block = "64"
		}
		op.Cmd = "encrypt"
		s.Ops[0] = op
		t := genOp(r, &style{cmds: []string{"encrypt"}, clean: true})
		t.Block = op.Block
		if n, _ := blockSize(t.Block); n < 1000 {
			t.Text.Len = min(t.Text.Len, 20*int(n)+20) // every block is a step
		}
		s.Ops[0] = t
	}
	if c, sure := command(op.Word); op.Word != "" && (!sure || c != "" && c != op.Cmd) {
		op.Word = op.Cmd[:1] // its arguments would mean something else
	}
	return s
}

func judgeWords(w *World) {
	r := w.runs[0]
	if c, sure := command(r.Op.Word); r.Op.Word != "" && (!sure || c != "" && c != r.Op.Cmd) {
		return // it was not called for what it got
	}
	judgeExit(w)
	if r.crashed() != "" || r.P.Killed {
		return
	}
	if r.P.Exit != 0 {
		if r.why == "no such command" || r.why == "no such size" {
			w.o.Probe("refused: " + r.why)
		}
		return
	}
	if r.Op.Cmd == "encrypt" && r.want != 0 || r.Op.Cmd == "encrypt" && r.Op.Block != "" {
		n, want := blockSize(r.Op.Block)
		f, err := ref.Parse(r.output())
		if err != nil || want <= 0 {
			return
		}
		w.o.Probe("size compared")
		got := uint64(f.Hdr.ChunkSize)
		switch {
		case n == 0: // the default
		case n > maxBlock:
			if got != maxBlock {
				w.failf("size", "%s makes blocks of %d bytes, not of the largest size", r.desc(), got)
			}
		case got != n:
			w.failf("size", "%s makes blocks of %d bytes, not %d", r.desc(), got, n)
		}
	}
}

package cli

import (
	"bytes"
	"fmt"

	"verifsim/ref"
)

// The library's calls that store keys and signatures, made by a small program
// that runs on the simulated machine like the command does.

var storeBin string

// store tells what is stored.
func (op *Op) store() string { return []string{"key", "pub", "sig"}[mod(op.Edit, 3)] }

func (w *World) addStore(r *Run, i int) {
	op, c := r.Op, r.cmd
	c.Bin = storeBin
	kf := mod(op.KFmt, nKFmt)
	if kf == kfSigNo {
		kf = kfSig
	}
	if op.Wrong > 0 && kf != kfSSH {
		c.Env = []string{"PW=" + badPass(op.PW, op.Wrong)}
		w.fail(r, "wrong passphrase")
	}
	if mod(op.Pos, 4) > 0 {
		c.Env = append(c.Env, "NEWPW="+op.newPW())
	}
	key := w.privKey(op.Key, kf, op.PW)
	r.Text = op.Text.bytes()
	r.Input = r.Text
	r.InPath = w.nm(fmt.Sprintf("/w/in%d", i), false)
	in := inFile
	switch mod(op.In, nIn) {
	case inMissing:
		if op.store() == "sig" {
			w.fail(r, "no input file")
		}
		in = inMissing
	case inDir:
		w.fs.Mkdir(r.InPath, 0755, user)
		if op.store() == "sig" {
			w.fail(r, "input is a directory")
		}
		in = inDir
	default:
		w.fs.File(r.InPath, r.Input, 0644, user)
	}
	dst := mod(op.Dst, nDst)
	if dst == dstHidden && op.Root {
		dst = dstFile
	}
	o := w.nm(fmt.Sprintf("/w/out%d", op.Slot), false)
	switch dst {
	case dstNoParent:
		o = w.nm(fmt.Sprintf("/w/nodir/out%d", op.Slot), false)
	case dstROParent:
		o = w.nm(fmt.Sprintf("/w/ro/out%d", op.Slot), false)
	case dstHidden:
		o = w.nm(fmt.Sprintf("/w/hid/out%d", op.Slot), false)
	case dstSame:
		if in == inFile {
			o = r.InPath
		}
	case dstNull:
		o = "/dev/null"
	}
	w.destination(r, o, dst, in, r.InPath)
	r.Outs = []string{o}
	ow := "no"
	if op.Force {
		ow = "yes"
	}
	if len(w.hurt) > 0 {
		w.unsure(r)
		r.hurt = true
	}
	c.Args = []string{"store", op.store(), op.path(key), op.path(o), op.Com, ow, op.path(r.InPath)}
}

// newPW is the passphrase under which a key is stored.
func (op *Op) newPW() string {
	if mod(op.Pos, 4) == 0 {
		return ""
	}
	return pass(op.PW + mod(op.Pos, 4))
}

func (r *Run) checkStore(b []byte) string {
	op := r.Op
	switch op.store() {
	case "key":
		sk, _, k, err := ref.OpenKeyFile(b, []byte(op.newPW()))
		switch {
		case err != nil:
			return err.Error()
		case k.N < 32768 || k.R*k.P < 1:
			return "weak key derivation"
		case !bytes.Equal(sk, edKey(op.Key)):
			return "another private key"
		}
	case "pub":
		pk, err := ref.ParsePubFile(b)
		if err != nil {
			return err.Error()
		} else if !bytes.Equal(pk, edPk(op.Key)) {
			return "another public key"
		}
	default:
		sig, ph, err := ref.ParseSigFile(b)
		switch {
		case err != nil:
			return err.Error()
		case !bytes.Equal(ph, ref.PkHash(edPk(op.Key))):
			return "names another key"
		case !ref.VerifyMessage(edPk(op.Key), ref.FileChecksum(r.Text), sig):
			return "signature does not verify"
		}
	}
	return ""
}

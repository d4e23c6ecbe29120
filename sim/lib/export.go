package lib

import (
	"crypto/ed25519"

	"github.com/opencoff/sigtool/sign"
	"verifsim/kernel"
	"verifsim/ref"
	"verifsim/runner"
)

// What the machine world uses of this package's attackers.

type (
	Edit    = p09edit
	Hostile = p15
)

// GenMut picks a step of an attacker.
func GenMut(r *Rng) Mut { return genMut(r) }

// Tamper applies the steps to raws[0]; false if raws are no encrypted files.
func Tamper(raws [][]byte, muts []Mut) ([]byte, bool) {
	a, err := newAttacked(raws)
	if err != nil {
		return nil, false
	}
	for _, m := range muts {
		if m.Op != "" {
			a.apply(m)
		}
	}
	return append([]byte{}, a.bytes()...), true
}

// SameCore says whether b has the protected part of r unchanged.
func SameCore(b, r []byte) bool {
	f, err := ref.Parse(r)
	return err == nil && sameCore(b, r, f)
}

// SameHead says whether b has the header of r.
func SameHead(b, r []byte) bool {
	f, err := ref.Parse(r)
	return err == nil && sameHead(b, r, f)
}

// Damage applies edits to stored bytes.
func Damage(b []byte, es []Edit) []byte { return mutate(append([]byte{}, b...), es) }

// GenEdit picks an accidental damage.
func GenEdit(r *Rng) Edit {
	return Edit{Op: r.PickS("flip", "flip", "flip", "b64", "b64", "b64", "set", "del", "ins", "trunc", "line", "dup", "num", "zeros"), Pos: r.N(1000), N: r.N(600), B: r.N(256)}
}

// GenHostile picks a hostile file.
func GenHostile(r *Rng) *Hostile { return genP15(r, 1<<30, "").(*p15) }

// HostileBytes makes the file; crafted ones are for the holder of ed.
func HostileBytes(s *Hostile, ed ed25519.PrivateKey) []byte {
	c := newCtx(s.Sched, 100000, &Exec{})
	if sk, err := sign.MakePrivateKey(ref.SSHKeyFile(ed, &ref.SSHOpts{Cipher: "none", Check: 2, Comment: "k"}), nil); err == nil {
		c.keys[2] = &KP{Sk: sk, Pk: sk.PublicKey(), Ed: ed}
	}
	b := s.base(c, kernel.NewRng(kernel.Mix(s.Sched, 15)))
	return mutate(b, s.Edits)
}

// Extend adds families to a property.
func Extend(id string, real, stub string, fams ...*runner.Family) {
	p := runner.Props[id]
	p.Families = append(p.Families, fams...)
	p.Real = append(append([]string{}, p.Real...), real)
	p.Stub = append(append([]string{}, p.Stub...), stub)
}

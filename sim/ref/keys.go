package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/dchest/bcrypt_pbkdf"
	"golang.org/x/crypto/scrypt"
)

// Documented scrypt work factor.
const (
	ScryptN = 1 << 19
	ScryptR = 8
	ScryptP = 1
)

// Yaml reads the flat "key: value" files sigtool writes.
func Yaml(b []byte) map[string]string {
	m := map[string]string{}
	// all of YAML's line breaks
	t := strings.NewReplacer("\r", "\n", "\u0085", "\n", "\u2028", "\n", "\u2029", "\n").Replace(string(b))
	for _, l := range strings.Split(t, "\n") {
		i := strings.Index(l, ": ")
		if i <= 0 || l[0] == ' ' || l[0] == '#' {
			continue
		}
		v := strings.TrimSpace(l[i+2:])
		if len(v) >= 2 && (v[0] == '"' || v[0] == '\'') && v[len(v)-1] == v[0] {
			v = v[1 : len(v)-1]
		}
		m[l[:i]] = v
	}
	return m
}

var b64 = base64.StdEncoding

// KeyParams are the fields of a private key file.
type KeyParams struct {
	Esk, Salt []byte
	Algo      string
	N, R, P   int
}

func ParseKeyFile(b []byte) (*KeyParams, error) {
	m := Yaml(b)
	k := &KeyParams{Algo: m["algo"]}
	var err error
	if k.Esk, err = b64.DecodeString(m["esk"]); err != nil || len(k.Esk) == 0 {
		return nil, errors.New("ref: no esk")
	}
	if k.Salt, err = b64.DecodeString(m["salt"]); err != nil || len(k.Salt) == 0 {
		return nil, errors.New("ref: no salt")
	}
	k.N, _ = strconv.Atoi(m["Z"])
	k.R, _ = strconv.Atoi(m["r"])
	k.P, _ = strconv.Atoi(m["p"])
	return k, nil
}

func (k *KeyParams) kek(pw []byte) (cipher.AEAD, []byte, error) {
	if len(k.Salt) < 12 || k.N < 2 || k.R < 1 || k.P < 1 {
		return nil, nil, errors.New("ref: bad params")
	}
	p := sha512.Sum512(pw)
	b, err := scrypt.Key(p[:], k.Salt, k.N, k.R, k.P, 32)
	if err != nil {
		return nil, nil, err
	}
	return gcm(b), b, nil
}

// OpenKeyFile decrypts a private key file; the KEK is returned for leak checks.
func OpenKeyFile(b, pw []byte) (ed25519.PrivateKey, []byte, *KeyParams, error) {
	k, err := ParseKeyFile(b)
	if err != nil {
		return nil, nil, nil, err
	}
	a, kek, err := k.kek(pw)
	if err != nil {
		return nil, nil, k, err
	}
	sk, err := a.Open(nil, k.Salt[:12], k.Esk, nil)
	if err != nil {
		return nil, nil, k, errors.New("ref: wrong passphrase")
	}
	if len(sk) != 64 || !bytes.Equal(sk, ed25519.NewKeyFromSeed(sk[:32])) {
		return nil, nil, k, errors.New("ref: inconsistent key")
	}
	return sk, kek, k, nil
}

// KeyFile writes a private key file.
func KeyFile(sk ed25519.PrivateKey, pw, salt []byte, n, r, p int, comment string) []byte {
	k := &KeyParams{Salt: salt, N: n, R: r, P: p}
	a, _, err := k.kek(pw)
	if err != nil {
		panic(err)
	}
	esk := a.Seal(nil, salt[:12], sk, nil)
	s := ""
	if comment != "" {
		s = "comment: " + strconv.Quote(comment) + "\n"
	}
	s += fmt.Sprintf("esk: %s\nsalt: %s\nalgo: scrypt-sha256\nZ: %d\nr: %d\np: %d\n",
		b64.EncodeToString(esk), b64.EncodeToString(salt), n, r, p)
	return []byte(s)
}

func PubFile(pk []byte, comment string) []byte {
	s := ""
	if comment != "" {
		s = "comment: " + strconv.Quote(comment) + "\n"
	}
	return []byte(s + fmt.Sprintf("pk: %s\nhash: %s\n", b64.EncodeToString(pk), b64.EncodeToString(PkHash(pk))))
}

func ParsePubFile(b []byte) ([]byte, error) {
	m := Yaml(b)
	pk, err := b64.DecodeString(m["pk"])
	if err != nil || len(pk) != 32 {
		return nil, errors.New("ref: bad public key file")
	}
	if m["hash"] != b64.EncodeToString(PkHash(pk)) {
		return nil, errors.New("ref: bad public key hash")
	}
	return pk, nil
}

// SigFile writes a signature file.
func SigFile(sig, pk []byte, comment string) []byte {
	s := ""
	if comment != "" {
		s = "comment: " + strconv.Quote(comment) + "\n"
	}
	return []byte(s + fmt.Sprintf("pkhash: %s\nsignature: %s\n", b64.EncodeToString(PkHash(pk)), b64.EncodeToString(sig)))
}

func ParseSigFile(b []byte) (sig, pkhash []byte, err error) {
	m := Yaml(b)
	if sig, err = b64.DecodeString(m["signature"]); err != nil || len(sig) != 64 {
		return nil, nil, errors.New("ref: bad signature file")
	}
	if pkhash, err = b64.DecodeString(m["pkhash"]); err != nil || len(pkhash) != 16 {
		return nil, nil, errors.New("ref: bad pkhash")
	}
	return
}

// ---- OpenSSH ----

func sshStr(b, s []byte) []byte {
	b = binary.BigEndian.AppendUint32(b, uint32(len(s)))
	return append(b, s...)
}

func sshPubBlob(pk []byte) []byte {
	b := sshStr(nil, []byte("ssh-ed25519"))
	return sshStr(b, pk)
}

// SSHPub is an authorized_keys / .pub line (without newline).
func SSHPub(pk []byte, comment string) string {
	return "ssh-ed25519 " + b64.EncodeToString(sshPubBlob(pk)) + " " + comment
}

// SSHPubRSA is a syntactically valid line of another key type.
func SSHPubRSA(seed []byte, comment string) string {
	b := sshStr(nil, []byte("ssh-rsa"))
	b = sshStr(b, []byte{1, 0, 1})
	n := make([]byte, 257)
	for i := range n[1:] {
		n[i+1] = seed[i%len(seed)] ^ byte(i)
	}
	n[1] |= 0x80
	b = sshStr(b, n)
	return "ssh-rsa " + b64.EncodeToString(b) + " " + comment
}

// SSHOpts describes an OpenSSH private key file.
type SSHOpts struct {
	Cipher  string // none, aes256-ctr, aes256-cbc
	PW      []byte
	Salt    []byte
	Rounds  uint32
	Check   uint32
	Comment string
	Resize  func(field int, b []byte) []byte // nil, or makes the fields other than they should be
}

// SSHFields is how many fields Resize is asked about.
const SSHFields = 11

// SSHBlob makes the binary blob inside of an OpenSSH private key file.
func SSHBlob(sk ed25519.PrivateKey, o *SSHOpts) []byte {
	b := append([]byte("openssh-key-v1"), 0)
	str := func(field int, b, s []byte) []byte {
		if o.Resize != nil {
			s = o.Resize(field, s)
		}
		return sshStr(b, s)
	}
	pub := sshPubBlob(sk[32:])
	var priv []byte
	priv = binary.BigEndian.AppendUint32(priv, o.Check)
	priv = binary.BigEndian.AppendUint32(priv, o.Check)
	priv = str(0, priv, []byte("ssh-ed25519"))
	priv = str(1, priv, sk[32:])
	priv = str(2, priv, sk)
	priv = str(3, priv, []byte(o.Comment))
	bs := 8
	if o.Cipher != "none" {
		bs = 16
	}
	var pad []byte
	for i := 1; (len(priv)+len(pad))%bs != 0; i++ {
		pad = append(pad, byte(i))
	}
	if o.Resize != nil && o.Cipher != "aes256-cbc" {
		pad = o.Resize(4, pad)
	}
	priv = append(priv, pad...)
	if o.Cipher == "none" {
		b = str(5, b, []byte("none"))
		b = str(6, b, []byte("none"))
		b = str(7, b, nil)
	} else {
		b = str(5, b, []byte(o.Cipher))
		b = str(6, b, []byte("bcrypt"))
		opts := str(8, nil, o.Salt)
		opts = binary.BigEndian.AppendUint32(opts, o.Rounds)
		b = str(7, b, opts)
		rounds := int(o.Rounds)
		if rounds > 64 {
			rounds = 1
		}
		k, err := bcrypt_pbkdf.Key(o.PW, o.Salt, rounds, 48)
		if err != nil {
			panic(err)
		}
		blk, _ := aes.NewCipher(k[:32])
		if o.Cipher == "aes256-cbc" {
			cipher.NewCBCEncrypter(blk, k[32:]).CryptBlocks(priv, priv)
		} else {
			cipher.NewCTR(blk, k[32:]).XORKeyStream(priv, priv)
		}
	}
	b = binary.BigEndian.AppendUint32(b, 1)
	b = str(9, b, pub)
	return str(10, b, priv)
}

// SSHKeyFile is the PEM file.
func SSHKeyFile(sk ed25519.PrivateKey, o *SSHOpts) []byte {
	return SSHPem(SSHBlob(sk, o))
}

func SSHPem(blob []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: blob})
}

// Package ref is an independent implementation of sigtool's documented formats:
// encrypted files, signatures and key files. It shares no code with /repo. It is
// the oracle, the attacker's toolbox and "the other implementation" of the
// simulations.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
)

const (
	Magic     = "SigTool"
	Version   = 3
	EOFBit    = uint32(1) << 31
	MaxHeader = 1 << 20
	MaxChunk  = 1 << 30
)

// ---- primitives ----

func HKDF512(n int, secret, salt, info []byte) []byte {
	if len(salt) == 0 {
		salt = make([]byte, sha512.Size)
	}
	m := hmac.New(sha512.New, salt)
	m.Write(secret)
	prk := m.Sum(nil)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m = hmac.New(sha512.New, prk)
		m.Write(t)
		m.Write(info)
		m.Write([]byte{i})
		t = m.Sum(nil)
		out = append(out, t...)
	}
	return out[:n]
}

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

// SignMessage is sigtool's signature of a checksum.
func SignMessage(sk ed25519.PrivateKey, ck []byte) []byte {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(ck)
	return ed25519.Sign(sk, h.Sum(nil))
}

func VerifyMessage(pk []byte, ck, sig []byte) bool {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(ck)
	return len(pk) == 32 && ed25519.Verify(ed25519.PublicKey(pk), h.Sum(nil), sig)
}

// FileChecksum is what file signatures sign.
func FileChecksum(content []byte) []byte {
	h := sha512.New()
	h.Write(content)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(len(content)))
	h.Write(b[:])
	return h.Sum(nil)
}

func PkHash(pk []byte) []byte { h := sha256.Sum256(pk); return h[:16] }

var p25519 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

// CurvePK maps an Ed25519 public key to its X25519 public key.
func CurvePK(edpk []byte) []byte {
	le := append([]byte{}, edpk...)
	le[31] &= 0x7f
	y := new(big.Int).SetBytes(rev(le))
	num := new(big.Int).Add(big.NewInt(1), y)
	den := new(big.Int).Sub(big.NewInt(1), y)
	den.Mod(den, p25519)
	den.Exp(den, new(big.Int).Sub(p25519, big.NewInt(2)), p25519)
	u := num.Mul(num, den)
	u.Mod(u, p25519)
	b := make([]byte, 32)
	u.FillBytes(b)
	return rev(b)
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// CurveSK maps an Ed25519 private key to its X25519 secret.
func CurveSK(sk ed25519.PrivateKey) []byte {
	h := sha512.Sum512(sk[:32])
	return Clamp(h[:32])
}

func Clamp(k []byte) []byte {
	k = append([]byte{}, k[:32]...)
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return k
}

func X25519(sk, pk []byte) ([]byte, error) {
	s, err := ecdh.X25519().NewPrivateKey(sk)
	if err != nil {
		return nil, err
	}
	p, err := ecdh.X25519().NewPublicKey(pk)
	if err != nil {
		return nil, err
	}
	return s.ECDH(p)
}

func X25519Base(sk []byte) []byte {
	s, err := ecdh.X25519().NewPrivateKey(sk)
	if err != nil {
		panic(err)
	}
	return s.PublicKey().Bytes()
}

// ---- header ----

type WKey struct{ DKey, Nonce []byte }

type Header struct {
	ChunkSize uint32
	Salt      []byte
	Pk        []byte
	Sender    []byte
	Keys      []WKey
	Unknown   []byte
}

func uv(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

func lenField(b []byte, num int, v []byte) []byte {
	b = uv(b, uint64(num)<<3|2)
	b = uv(b, uint64(len(v)))
	return append(b, v...)
}

// Encode is the canonical proto3 encoding.
func (h *Header) Encode() []byte {
	var b []byte
	if h.ChunkSize != 0 {
		b = uv(b, 1<<3)
		b = uv(b, uint64(h.ChunkSize))
	}
	if len(h.Salt) > 0 {
		b = lenField(b, 2, h.Salt)
	}
	if len(h.Pk) > 0 {
		b = lenField(b, 3, h.Pk)
	}
	if len(h.Sender) > 0 {
		b = lenField(b, 4, h.Sender)
	}
	for _, k := range h.Keys {
		var w []byte
		if len(k.DKey) > 0 {
			w = lenField(w, 1, k.DKey)
		}
		if len(k.Nonce) > 0 {
			w = lenField(w, 2, k.Nonce)
		}
		b = lenField(b, 5, w)
	}
	return append(b, h.Unknown...)
}

var errProto = errors.New("ref: bad protobuf")

func fields(b []byte, fn func(num int, wt int, v uint64, d []byte, raw []byte) error) error {
	for len(b) > 0 {
		raw := b
		t, n := binary.Uvarint(b)
		if n <= 0 {
			return errProto
		}
		b = b[n:]
		num, wt := int(t>>3), int(t&7)
		var v uint64
		var d []byte
		switch wt {
		case 0:
			v, n = binary.Uvarint(b)
			if n <= 0 {
				return errProto
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return errProto
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return errProto
			}
			b = b[4:]
		case 2:
			v, n = binary.Uvarint(b)
			if n <= 0 || v > uint64(len(b)-n) {
				return errProto
			}
			d = b[n : n+int(v)]
			b = b[n+int(v):]
		default:
			return errProto
		}
		if num == 0 {
			return errProto
		}
		if err := fn(num, wt, v, d, raw[:len(raw)-len(b)]); err != nil {
			return err
		}
	}
	return nil
}

func DecodeHeader(b []byte) (*Header, error) {
	h := &Header{}
	cp := func(d []byte) []byte { return append([]byte{}, d...) }
	err := fields(b, func(num, wt int, v uint64, d, raw []byte) error {
		switch {
		case num == 1 && wt == 0:
			h.ChunkSize = uint32(v)
		case num == 2 && wt == 2:
			h.Salt = cp(d)
		case num == 3 && wt == 2:
			h.Pk = cp(d)
		case num == 4 && wt == 2:
			h.Sender = cp(d)
		case num == 5 && wt == 2:
			var w WKey
			e := fields(d, func(num, wt int, v uint64, d, raw []byte) error {
				switch {
				case num == 1 && wt == 2:
					w.DKey = cp(d)
				case num == 2 && wt == 2:
					w.Nonce = cp(d)
				case num <= 2:
					return errProto
				}
				return nil
			})
			if e != nil {
				return e
			}
			h.Keys = append(h.Keys, w)
		case num <= 5:
			return errProto
		default:
			h.Unknown = append(h.Unknown, raw...)
		}
		return nil
	})
	return h, err
}

// Frame is one data chunk as stored.
type Frame struct {
	Len uint32 // including the EOF bit
	CT  []byte
}

func (f Frame) N() int    { return int(f.Len &^ EOFBit) }
func (f Frame) EOF() bool { return f.Len&EOFBit != 0 }
func (f Frame) Bytes() []byte {
	b := make([]byte, 4, 4+len(f.CT))
	binary.BigEndian.PutUint32(b, f.Len)
	return append(b, f.CT...)
}

// File is a dissected encrypted file.
type File struct {
	Ver     byte
	VarLen  uint32
	Var     []byte
	Sum     []byte // as stored
	Hdr     *Header
	Frames  []Frame
	Trailer []byte
	Extra   []byte
	HdrLen  int // offset of the first chunk
	BodyEnd int // offset of the trailer
}

// HdrSum is the checksum the header should have.
func HdrSum(ver byte, v []byte) []byte {
	h := sha256.New()
	h.Write(FixedHdr(ver, len(v)))
	h.Write(v)
	return h.Sum(nil)
}

func FixedHdr(ver byte, n int) []byte {
	b := append([]byte(Magic), ver, 0, 0, 0, 0)
	binary.BigEndian.PutUint32(b[8:], uint32(n))
	return b
}

// Parse dissects a complete well-formed file.
func Parse(b []byte) (*File, error) {
	if len(b) < 12+32 || string(b[:7]) != Magic {
		return nil, errors.New("ref: not a sigtool file")
	}
	f := &File{Ver: b[7], VarLen: binary.BigEndian.Uint32(b[8:12])}
	if int64(len(b)) < 12+int64(f.VarLen)+32 {
		return nil, errors.New("ref: short header")
	}
	f.Var = b[12 : 12+f.VarLen]
	f.HdrLen = 12 + int(f.VarLen) + 32
	f.Sum = b[12+f.VarLen : f.HdrLen]
	h, err := DecodeHeader(f.Var)
	if err != nil {
		return nil, err
	}
	f.Hdr = h
	o := f.HdrLen
	for {
		if len(b)-o < 4 {
			return nil, errors.New("ref: no last chunk")
		}
		fr := Frame{Len: binary.BigEndian.Uint32(b[o:])}
		o += 4
		n := fr.N() + 16
		if len(b)-o < n {
			return nil, errors.New("ref: short chunk")
		}
		fr.CT = b[o : o+n]
		o += n
		f.Frames = append(f.Frames, fr)
		if fr.EOF() {
			break
		}
	}
	f.BodyEnd = o
	if len(b)-o < 64 {
		return nil, errors.New("ref: no trailer")
	}
	f.Trailer = b[o : o+64]
	f.Extra = b[o+64:]
	return f, nil
}

// ParseHead dissects the header of a file that may be cut short after it.
func ParseHead(b []byte) (*Header, []byte) {
	if len(b) < 12+32 || string(b[:7]) != Magic {
		return nil, nil
	}
	n := int64(binary.BigEndian.Uint32(b[8:12]))
	if int64(len(b)) < 12+n+32 {
		return nil, nil
	}
	h, err := DecodeHeader(b[12 : 12+n])
	if err != nil {
		return nil, nil
	}
	return h, b[12+n : 12+n+32]
}

// Head renders the header with a fresh checksum.
func Head(ver byte, v []byte) []byte {
	b := append(FixedHdr(ver, len(v)), v...)
	return append(b, HdrSum(ver, v)...)
}

// ---- keys of a session ----

type Session struct {
	Key   []byte // root key
	Nonce []byte
	DKey  []byte
	HKey  []byte
}

func Derive(key, hdrsum []byte) *Session {
	b := HKDF512(12+32+32, key, hdrsum, []byte("Data Key Expansion"))
	return &Session{Key: key, Nonce: b[:12], DKey: b[12:44], HKey: b[44:]}
}

// Base is the number of the first chunk of a file: 0, except when scenarios look
// at the far end of very long files.
var Base uint32

func (s *Session) nonce(i uint32) []byte {
	n := append([]byte{}, s.Nonce...)
	binary.BigEndian.PutUint32(n, Base+i)
	return n
}

// SealFrame makes the i-th chunk.
func (s *Session) SealFrame(i uint32, pt []byte, eof bool) Frame {
	z := uint32(len(pt))
	if eof {
		z |= EOFBit
	}
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], z)
	return Frame{Len: z, CT: gcm(s.DKey).Seal(nil, s.nonce(i), pt, l[:])}
}

func (s *Session) OpenFrame(i uint32, f Frame) ([]byte, error) {
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], f.Len)
	return gcm(s.DKey).Open(nil, s.nonce(i), f.CT, l[:])
}

// Opener opens many frames without rebuilding the cipher.
type Opener struct {
	s *Session
	a cipher.AEAD
}

func (s *Session) Opener() *Opener { return &Opener{s, gcm(s.DKey)} }
func (o *Opener) Open(i uint32, f Frame) ([]byte, error) {
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], f.Len)
	return o.a.Open(nil, o.s.nonce(i), f.CT, l[:])
}

func kek(shared, salt, nonce []byte) (k, n []byte) {
	h := sha256.New()
	h.Write(salt)
	h.Write(nonce)
	b := HKDF512(44, shared, h.Sum(nil), []byte("Receiver Key"))
	return b[:32], b[32:]
}

func Wrap(esk, salt, key, nonce, rxEdPk []byte) (WKey, error) {
	sh, err := X25519(esk, CurvePK(rxEdPk))
	if err != nil {
		return WKey{}, err
	}
	k, n := kek(sh, salt, nonce)
	return WKey{DKey: gcm(k).Seal(nil, n, key, rxEdPk), Nonce: nonce}, nil
}

func Unwrap(h *Header, w WKey, sk ed25519.PrivateKey) ([]byte, []byte, error) {
	sh, err := X25519(CurveSK(sk), h.Pk)
	if err != nil {
		return nil, nil, err
	}
	return unwrap(h, w, sh, sk[32:])
}

func unwrap(h *Header, w WKey, sh, edpk []byte) ([]byte, []byte, error) {
	k, n := kek(sh, h.Salt, w.Nonce)
	b, err := gcm(k).Open(nil, n, w.DKey, edpk)
	return b, k, err
}

func senderCipher(key, salt []byte) (cipher.AEAD, []byte) {
	b := HKDF512(44, key, salt, []byte("Sender Sig"))
	return gcm(b[:32]), b[32:]
}

func SenderCk(pk, salt, key []byte) []byte {
	h := sha256.New()
	h.Write([]byte(Magic))
	h.Write([]byte{Version})
	h.Write(pk)
	h.Write(salt)
	h.Write(key)
	return h.Sum(nil)
}

// SealSender makes the header's sender field from a 64-byte signature (or zeros).
func SealSender(key, salt, sig []byte) []byte {
	a, n := senderCipher(key, salt)
	return a.Seal(nil, n, sig, nil)
}

func OpenSender(key, salt, sender []byte) ([]byte, error) {
	a, n := senderCipher(key, salt)
	return a.Open(nil, n, sender, nil)
}

// Hmac computes the running hmac of a list of frames' plaintexts.
func (s *Session) Hmac(lens []uint32, pts [][]byte) []byte {
	m := hmac.New(sha256.New, s.HKey)
	for i := range lens {
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], lens[i])
		m.Write(l[:])
		m.Write(pts[i])
	}
	return m.Sum(nil)
}

// ---- whole files ----

// EncOpts describes a file to be built by the reference implementation.
type EncOpts struct {
	Key, Salt, ESK []byte
	ChunkSize      uint32
	Sender         ed25519.PrivateKey // nil: unauthenticated
	Recips         [][]byte           // ed25519 public keys
	Nonces         [][]byte           // per recipient (12 bytes each)
	Cuts           []int              // chunk lengths; nil: ChunkSize each as sigtool does
	Trailer        []byte             // for unauthenticated files
}

func Encrypt(o *EncOpts, pt []byte) ([]byte, error) {
	h := &Header{ChunkSize: o.ChunkSize, Salt: o.Salt, Pk: X25519Base(Clamp(o.ESK))}
	sig := make([]byte, 64)
	if o.Sender != nil {
		sig = SignMessage(o.Sender, SenderCk(h.Pk, h.Salt, o.Key))
	}
	h.Sender = SealSender(o.Key, h.Salt, sig)
	for i, r := range o.Recips {
		w, err := Wrap(Clamp(o.ESK), o.Salt, o.Key, o.Nonces[i], r)
		if err != nil {
			return nil, err
		}
		h.Keys = append(h.Keys, w)
	}
	return Body(h, o.Key, o.Sender, pt, o.Cuts, o.Trailer), nil
}

// Body renders header h and encrypts pt under key. With cuts == nil the data is
// cut like sigtool's Encrypt does: full chunks, then a last short (maybe empty) one.
func Body(h *Header, key []byte, sender ed25519.PrivateKey, pt []byte, cuts []int, trailer []byte) []byte {
	v := h.Encode()
	out := Head(Version, v)
	s := Derive(key, HdrSum(Version, v))
	var lens []uint32
	var pts [][]byte
	rest := pt
	for i := 0; ; i++ {
		n := int(h.ChunkSize)
		if cuts != nil {
			n = len(rest)
			if i < len(cuts) {
				n = cuts[i]
			}
		}
		eof := n > len(rest) || (cuts != nil && i >= len(cuts)-1)
		if n > len(rest) {
			n = len(rest)
		}
		if eof {
			n = len(rest)
		}
		f := s.SealFrame(uint32(i), rest[:n], eof)
		lens, pts = append(lens, f.Len), append(pts, rest[:n])
		out = append(out, f.Bytes()...)
		rest = rest[n:]
		if eof {
			break
		}
	}
	if sender != nil {
		trailer = SignMessage(sender, s.Hmac(lens, pts))
	}
	return append(out, trailer...)
}

var (
	ErrNotForUs  = errors.New("ref: no recipient entry opens")
	ErrBadSender = errors.New("ref: sender not verified")
)

// Info is everything a recipient can learn from a file.
type Info struct {
	File   *File
	Sess   *Session
	KEK    []byte
	KeyIdx int
	Sig    []byte // sender signature (64 bytes, zeros if unauthenticated)
	Auth   bool   // Sig is not all zeros
	PT     []byte
	Hmac   []byte
}

// Open decrypts file b with sk and checks everything the format promises. A
// non-nil senderPk requires authentication by that sender.
func Open(b []byte, sk ed25519.PrivateKey, senderPk []byte) (*Info, error) {
	f, err := Parse(b)
	if err != nil {
		return nil, err
	}
	if f.Ver != Version {
		return nil, fmt.Errorf("ref: version %d", f.Ver)
	}
	if !bytes.Equal(f.Sum, HdrSum(f.Ver, f.Var)) {
		return nil, errors.New("ref: header checksum")
	}
	h := f.Hdr
	if len(f.Var) > MaxHeader || h.ChunkSize == 0 || h.ChunkSize > MaxChunk || len(h.Salt) != 32 || len(h.Pk) != 32 {
		return nil, errors.New("ref: invalid header")
	}
	in := &Info{File: f, KeyIdx: -1}
	var key []byte
	sh, err := X25519(CurveSK(sk), h.Pk)
	if err != nil {
		return nil, ErrNotForUs
	}
	for i, w := range h.Keys {
		if k, kk, err := unwrap(h, w, sh, sk[32:]); err == nil {
			key, in.KEK, in.KeyIdx = k, kk, i
			break
		}
	}
	if key == nil {
		return nil, ErrNotForUs
	}
	if len(key) != 32 {
		return nil, errors.New("ref: file key size")
	}
	in.Sig, err = OpenSender(key, h.Salt, h.Sender)
	if err != nil {
		return nil, fmt.Errorf("ref: sender field: %w", err)
	}
	in.Auth = !bytes.Equal(in.Sig, make([]byte, 64))
	in.Sess = Derive(key, f.Sum)
	if senderPk != nil {
		if !in.Auth || !VerifyMessage(senderPk, SenderCk(h.Pk, h.Salt, key), in.Sig) {
			return nil, ErrBadSender
		}
	}
	op := in.Sess.Opener()
	var lens []uint32
	var pts [][]byte
	for i, fr := range f.Frames {
		if uint32(fr.N()) > h.ChunkSize || (fr.N() == 0 && !fr.EOF()) {
			return nil, fmt.Errorf("ref: chunk %d has invalid size %d", i, fr.N())
		}
		pt, err := op.Open(uint32(i), fr)
		if err != nil {
			return nil, fmt.Errorf("ref: chunk %d: %w", i, err)
		}
		lens, pts = append(lens, fr.Len), append(pts, pt)
		in.PT = append(in.PT, pt...)
	}
	in.Hmac = in.Sess.Hmac(lens, pts)
	if senderPk != nil && !VerifyMessage(senderPk, in.Hmac, f.Trailer) {
		return nil, errors.New("ref: trailer")
	}
	return in, nil
}

// SumOf is the plain SHA-256 the header checksum consists of.
func SumOf(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

// UnwrapShared tries to open a recipient entry given a shared secret.
func UnwrapShared(h *Header, w WKey, shared, edpk []byte) ([]byte, error) {
	k, n := kek(shared, h.Salt, w.Nonce)
	return gcm(k).Open(nil, n, w.DKey, edpk)
}

package lib

import (
	"bytes"
	"encoding/binary"

	"verifsim/kernel"
	"verifsim/ref"
)

// Mut is one step of an attacker who can change the stored or transmitted file.
type Mut struct {
	Op  string `json:"op"`
	A   int    `json:"a,omitempty"`
	B   int    `json:"b,omitempty"`
	C   int    `json:"c,omitempty"`
	S   int    `json:"s,omitempty"`   // other session
	Fix bool   `json:"fix,omitempty"` // recompute the header checksum
}

var rawOps = []string{"flip", "flip", "set", "trunc", "del", "ins", "copy", "swap", "append", "xsplice"}
var chunkOps = []string{"cdrop", "cdup", "cswap", "cmove", "creplace", "ceofset", "ceofclear", "clen", "cempty", "ctag",
	"cforge", "cforgebare", "ccut", "cbody", "cflip", "cjoin", "csplit", "cdropfirst", "creplay"}
var headOps = []string{"hsalt", "hpk", "hsender", "hchunk", "hdrop", "hdup", "hswap", "hsplice", "hdkey", "hnonce", "hver",
	"hvarlen", "hunknown", "hnoncanon", "hother", "hsum", "hmagic", "hsendother", "hpkother", "hsaltother", "hkeysother"}

func genMut(r *Rng) Mut {
	m := Mut{A: r.N(1 << 20), B: r.N(1 << 16), C: r.N(1 << 16), S: r.N(3), Fix: !r.P(6)}
	if r.P(2) {
		// small numbers hit the first chunks and fields
		m.A, m.B = r.N(6), r.N(6)
	}
	switch r.N(10) {
	case 0, 1, 2:
		m.Op = rawOps[r.N(len(rawOps))]
	case 3, 4, 5, 6:
		m.Op = chunkOps[r.N(len(chunkOps))]
	default:
		m.Op = headOps[r.N(len(headOps))]
	}
	return m
}

// attacked is a file under attack: either still in parts or already raw bytes.
type attacked struct {
	head   []byte // fixed + variable + checksum
	frames []ref.Frame
	tail   []byte // trailer + whatever follows
	raw    []byte // != nil: parts are no longer used
	files  []*ref.File
	raws   [][]byte
}

func newAttacked(raws [][]byte) (*attacked, error) {
	a := &attacked{raws: raws}
	for _, b := range raws {
		f, err := ref.Parse(b)
		if err != nil {
			return nil, err
		}
		a.files = append(a.files, f)
	}
	f := a.files[0]
	a.head = append([]byte{}, raws[0][:f.HdrLen]...)
	a.frames = append([]ref.Frame{}, f.Frames...)
	a.tail = append([]byte{}, raws[0][f.BodyEnd:]...)
	return a, nil
}

func (a *attacked) bytes() []byte {
	if a.raw != nil {
		return a.raw
	}
	b := append([]byte{}, a.head...)
	for _, f := range a.frames {
		b = append(b, f.Bytes()...)
	}
	return append(b, a.tail...)
}

func (a *attacked) header() (byte, *ref.Header) {
	if len(a.head) < 44 {
		return 0, nil
	}
	n := int(binary.BigEndian.Uint32(a.head[8:]))
	if 12+n+32 > len(a.head) {
		return 0, nil
	}
	h, err := ref.DecodeHeader(a.head[12 : 12+n])
	if err != nil {
		return 0, nil
	}
	return a.head[7], h
}

// apply performs one mutation.
func (a *attacked) apply(m Mut) {
	other := a.files[mod(m.S, len(a.files))]
	switch m.Op[0] {
	case 'h':
		if a.raw == nil {
			a.applyHead(m, other)
			return
		}
	case 'c':
		if a.raw == nil && m.Op != "copy" {
			a.applyChunk(m, other)
			return
		}
	}
	b := append([]byte{}, a.bytes()...)
	n := len(b)
	if n == 0 {
		a.raw = b
		return
	}
	switch m.Op {
	case "flip":
		x := byte(m.B)
		if x == 0 {
			x = 1
		}
		b[mod(m.A, n)] ^= x
	case "set":
		p := mod(m.A, n)
		for i := p; i < n && i < p+1+mod(m.B, 64); i++ {
			b[i] = byte(m.C)
		}
	case "trunc":
		b = b[:mod(m.A, n)]
	case "del":
		p := mod(m.A, n)
		e := min(n, p+1+mod(m.B, 300))
		b = append(b[:p:p], b[e:]...)
	case "ins":
		p := mod(m.A, n+1)
		x := kernel.NewRng(uint64(m.C)).Bytes(1 + mod(m.B, 100))
		b = append(append(b[:p:p], x...), b[p:]...)
	case "copy":
		p, q := mod(m.A, n), mod(m.C, n)
		l := 1 + mod(m.B, 200)
		copy(b[q:], append([]byte{}, b[p:min(n, p+l)]...))
	case "swap":
		l := 1 + mod(m.C, 64)
		p, q := mod(m.A, n), mod(m.B, n)
		if p+l <= n && q+l <= n {
			t := append([]byte{}, b[p:p+l]...)
			copy(b[p:], append([]byte{}, b[q:q+l]...))
			copy(b[q:], t)
		}
	case "append":
		b = append(b, kernel.NewRng(uint64(m.C)).Bytes(1+mod(m.B, 200))...)
	case "xsplice":
		// head of this file, tail of the other at the same offset
		o := a.raws[mod(m.S, len(a.raws))]
		p := mod(m.A, min(n, len(o))+1)
		b = append(b[:p:p], o[p:]...)
	default:
		// a structured step after a raw one: flip something there instead
		b[mod(m.A, n)] ^= 0x80
	}
	a.raw = b
}

func (a *attacked) applyChunk(m Mut, other *ref.File) {
	n := len(a.frames)
	ins := func(i int, f ref.Frame) {
		a.frames = append(a.frames[:i:i], append([]ref.Frame{f}, a.frames[i:]...)...)
	}
	rnd := func(k int) []byte { return kernel.NewRng(uint64(m.C) + 77).Bytes(k) }
	if n == 0 {
		a.frames = append(a.frames, ref.Frame{Len: ref.EOFBit, CT: rnd(16)})
		return
	}
	i, j := mod(m.A, n), mod(m.B, n)
	switch m.Op {
	case "cdrop":
		a.frames = append(a.frames[:i:i], a.frames[i+1:]...)
	case "cdropfirst":
		a.frames = append([]ref.Frame{}, a.frames[1:]...)
	case "cdup":
		ins(j, a.frames[i])
	case "cswap":
		a.frames[i], a.frames[j] = a.frames[j], a.frames[i]
	case "cmove":
		f := a.frames[i]
		a.frames = append(a.frames[:i:i], a.frames[i+1:]...)
		ins(mod(m.B, len(a.frames)+1), f)
	case "creplace":
		a.frames[i] = other.Frames[mod(m.B, len(other.Frames))]
	case "cbody":
		a.frames = append([]ref.Frame{}, other.Frames...)
	case "creplay":
		// everything again after the end
		f := a.frames[n-1]
		f.Len &^= ref.EOFBit
		v := append([]ref.Frame{}, a.frames[:n-1]...)
		v = append(v, f)
		a.frames = append(v, a.frames...)
	case "ceofset":
		a.frames[i].Len |= ref.EOFBit
	case "ceofclear":
		a.frames[n-1].Len &^= ref.EOFBit
	case "clen":
		a.frames[i].Len += uint32(mod(m.B, 9) - 4)
	case "cempty":
		// an empty chunk, somewhere, with or without the end marker
		f := ref.Frame{CT: rnd(16)}
		if m.C&1 == 0 {
			f.Len = ref.EOFBit
		}
		ins(mod(m.A, n+1), f)
	case "ctag":
		ct := append([]byte{}, a.frames[i].CT...)
		if len(ct) < 16 {
			ct = append(ct, make([]byte, 16)...)
		}
		ct[len(ct)-1-mod(m.B, 16)] ^= byte(1 << mod(m.C, 8))
		a.frames[i].CT = ct
	case "cflip":
		ct := append([]byte{}, a.frames[i].CT...)
		if len(ct) == 0 {
			ct = append(ct, 0)
		}
		ct[mod(m.B, len(ct))] ^= byte(1 << mod(m.C, 8))
		a.frames[i].CT = ct
	case "cforge":
		// cut at a chunk boundary and mark an end of data
		a.frames = append(a.frames[:i:i], ref.Frame{Len: ref.EOFBit, CT: rnd(16)})
	case "cforgebare":
		a.frames = append(a.frames[:i:i], ref.Frame{Len: ref.EOFBit})
		switch mod(m.C, 3) {
		case 0:
			a.tail = nil
		case 1:
			a.tail = rnd(64)
		}
	case "ccut":
		// cut after chunk i and call that the last one
		a.frames = append([]ref.Frame{}, a.frames[:i+1]...)
		if m.C&1 == 0 {
			a.frames[i].Len |= ref.EOFBit
		}
	case "cjoin":
		if i+1 < n {
			f, g := a.frames[i], a.frames[i+1]
			if f.N() > len(f.CT) {
				return
			}
			k := f.N() + g.N()
			nf := ref.Frame{Len: uint32(k) | g.Len&ref.EOFBit, CT: append(append([]byte{}, f.CT[:f.N()]...), g.CT...)}
			a.frames[i] = nf
			a.frames = append(a.frames[:i+1:i+1], a.frames[i+2:]...)
		}
	case "csplit":
		f := a.frames[i]
		if k := f.N(); k > 1 && k <= len(f.CT) {
			h := 1 + mod(m.B, k-1)
			tag := f.CT[k:]
			f1 := ref.Frame{Len: uint32(h), CT: append(append([]byte{}, f.CT[:h]...), tag...)}
			f2 := ref.Frame{Len: uint32(k-h) | f.Len&ref.EOFBit, CT: append([]byte{}, f.CT[h:]...)}
			a.frames[i] = f1
			ins(i+1, f2)
		}
	}
}

func (a *attacked) applyHead(m Mut, other *ref.File) {
	switch m.Op {
	case "hver":
		if len(a.head) > 7 {
			a.head[7] ^= byte(1 + mod(m.A, 255))
			a.fixSum(m)
		}
		return
	case "hmagic":
		a.head[mod(m.A, 7)] ^= byte(1 + mod(m.B, 255))
		a.fixSum(m)
		return
	case "hvarlen":
		v := int(binary.BigEndian.Uint32(a.head[8:])) + mod(m.B, 65) - 32
		binary.BigEndian.PutUint32(a.head[8:], uint32(max(v, 0)))
		return
	case "hsum":
		a.head[len(a.head)-1-mod(m.A, 32)] ^= byte(1 << mod(m.B, 8))
		return
	case "hother":
		a.head = append([]byte{}, a.raws[mod(m.S, len(a.raws))][:other.HdrLen]...)
		return
	}
	ver, h := a.header()
	if h == nil {
		return
	}
	flip := func(b []byte) []byte {
		b = append([]byte{}, b...)
		if len(b) > 0 {
			b[mod(m.A, len(b))] ^= byte(1 << mod(m.B, 8))
		}
		return b
	}
	n := len(h.Keys)
	i, j := mod(m.A, n), mod(m.B, n)
	var v []byte
	switch m.Op {
	case "hsalt":
		h.Salt = flip(h.Salt)
	case "hpk":
		h.Pk = flip(h.Pk)
	case "hsender":
		h.Sender = flip(h.Sender)
	case "hsendother":
		h.Sender = other.Hdr.Sender
	case "hpkother":
		h.Pk = other.Hdr.Pk
	case "hsaltother":
		h.Salt = other.Hdr.Salt
	case "hkeysother":
		h.Keys = other.Hdr.Keys
	case "hchunk":
		switch mod(m.C, 5) {
		case 0:
			h.ChunkSize++
		case 1:
			h.ChunkSize *= 2
		case 2:
			h.ChunkSize = uint32(1 + mod(m.B, 100000))
		case 3:
			h.ChunkSize = 0
		case 4:
			h.ChunkSize ^= 1 << mod(m.A, 20)
		}
	case "hdrop":
		if n > 0 {
			h.Keys = append(h.Keys[:i:i], h.Keys[i+1:]...)
		}
	case "hdup":
		if n > 0 {
			h.Keys = append(h.Keys, h.Keys[i])
		}
	case "hswap":
		if n > 0 {
			h.Keys[i], h.Keys[j] = h.Keys[j], h.Keys[i]
		}
	case "hsplice":
		k := other.Hdr.Keys[mod(m.B, len(other.Hdr.Keys))]
		if m.C&1 == 0 && n > 0 {
			h.Keys[i] = k
		} else {
			h.Keys = append([]ref.WKey{k}, h.Keys...)
		}
	case "hdkey":
		if n > 0 {
			m.A = m.C
			h.Keys[i].DKey = flip(h.Keys[i].DKey)
		}
	case "hnonce":
		if n > 0 {
			m.A = m.C
			h.Keys[i].Nonce = flip(h.Keys[i].Nonce)
		}
	case "hunknown":
		// unknown field 9 with some bytes
		x := kernel.NewRng(uint64(m.C)).Bytes(1 + mod(m.B, 40))
		h.Unknown = append([]byte{9<<3 | 2, byte(len(x))}, x...)
	case "hnoncanon":
		// same contents, other encoding: the chunk size as an overlong varint at the end
		cs := h.ChunkSize
		h.ChunkSize = 0
		v = h.Encode()
		v = append(v, 1<<3)
		for k := 0; k < 4; k++ {
			v = append(v, byte(cs&0x7f)|0x80)
			cs >>= 7
		}
		v = append(v, byte(cs)|0x80, 0)
	}
	if v == nil {
		v = h.Encode()
	}
	old := a.head[len(a.head)-32:]
	nh := ref.Head(ver, v)
	copy(nh[:7], a.head[:7])
	a.head = nh
	if !m.Fix {
		copy(a.head[len(a.head)-32:], old)
	}
}

func (a *attacked) fixSum(m Mut) {
	if !m.Fix || len(a.head) < 44 {
		return
	}
	n := len(a.head)
	// over whatever the fixed part now says
	s := ref.SumOf(a.head[:n-32])
	copy(a.head[n-32:], s)
}

// sameCore says whether b still has file f's (raw r) protected part unchanged.
func sameCore(b, r []byte, f *ref.File) bool {
	return len(b) >= f.BodyEnd && bytes.Equal(b[:f.BodyEnd], r[:f.BodyEnd])
}

// sameHead says whether b starts with file f's header.
func sameHead(b, r []byte, f *ref.File) bool {
	return len(b) >= f.HdrLen && bytes.Equal(b[:f.HdrLen], r[:f.HdrLen])
}

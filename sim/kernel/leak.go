package kernel

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
)

// Leaks says in which form data contains sec (at least 8 bytes), or "".
func Leaks(data, sec []byte) string {
	if len(sec) < 8 {
		return ""
	}
	if bytes.Contains(data, sec) {
		return "raw"
	}
	if len(sec) >= 16 {
		// half of it is bad enough
		if bytes.Contains(data, sec[:len(sec)/2]) || bytes.Contains(data, sec[len(sec)/2:]) {
			return "partly raw"
		}
	}
	hx := []byte(hex.EncodeToString(sec))
	if bytes.Contains(bytes.ToLower(data), hx) {
		return "hex"
	}
	rv := make([]byte, len(sec))
	for i, c := range sec {
		rv[len(sec)-1-i] = c
	}
	if bytes.Contains(data, rv) {
		return "reversed"
	}
	for sh := 0; sh < 3; sh++ {
		// the middle of the base64 text does not depend on the neighbours
		b := append(make([]byte, sh), sec...)
		for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			t := e.EncodeToString(b)
			lo, hi := 0, len(t)
			if sh > 0 {
				lo = 4
			}
			if len(b)%3 != 0 {
				hi -= hi % 4
			}
			if hi-lo >= 8 && bytes.Contains(data, []byte(t[lo:hi])) {
				return "base64"
			}
		}
	}
	return ""
}

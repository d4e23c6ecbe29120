package runner

import (
	"bytes"
	"encoding/json"
	"time"
)

// shrink minimises the JSON tree of a scenario: test must say whether a
// candidate still shows the same violation.
func shrink(js json.RawMessage, test func(json.RawMessage) bool, until time.Time) (json.RawMessage, int) {
	cur := decode(js)
	tries := 0
	try := func(c any) bool {
		if time.Now().After(until) {
			return false
		}
		b, err := json.Marshal(c)
		if err != nil {
			return false
		}
		tries++
		if test(b) {
			cur = decode(b)
			return true
		}
		return false
	}
	for progress := true; progress && time.Now().Before(until); {
		progress = false
		for _, path := range paths(cur, nil) {
			if time.Now().After(until) {
				break
			}
			v, ok := get(cur, path)
			if !ok {
				continue
			}
			for _, nv := range smaller(v) {
				c := set(clone(cur), path, nv)
				if try(c) {
					progress = true
					break
				}
			}
		}
	}
	b, _ := json.Marshal(cur)
	return b, tries
}

func decode(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	d.Decode(&v)
	return v
}

func clone(v any) any {
	b, _ := json.Marshal(v)
	return decode(b)
}

type step struct {
	key string
	idx int
}

// paths lists all nodes, big ones first (pre-order).
func paths(v any, pre []step) [][]step {
	out := [][]step{append([]step{}, pre...)}
	switch x := v.(type) {
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			out = append(out, paths(x[k], append(pre, step{key: k, idx: -1}))...)
		}
	case []any:
		if len(x) > 200 {
			break
		}
		for i := range x {
			out = append(out, paths(x[i], append(pre, step{idx: i}))...)
		}
	}
	return out
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func get(v any, path []step) (any, bool) {
	for _, s := range path {
		switch x := v.(type) {
		case map[string]any:
			n, ok := x[s.key]
			if !ok || s.idx >= 0 {
				return nil, false
			}
			v = n
		case []any:
			if s.idx < 0 || s.idx >= len(x) {
				return nil, false
			}
			v = x[s.idx]
		default:
			return nil, false
		}
	}
	return v, true
}

type removed struct{}

func set(v any, path []step, nv any) any {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch x := v.(type) {
	case map[string]any:
		if len(path) == 1 {
			if _, ok := nv.(removed); ok {
				delete(x, s.key)
				return x
			}
		}
		x[s.key] = set(x[s.key], path[1:], nv)
		return x
	case []any:
		if s.idx < len(x) {
			x[s.idx] = set(x[s.idx], path[1:], nv)
		}
		return x
	}
	return v
}

func smaller(v any) []any {
	var out []any
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			out = append(out, false)
		}
	case string:
		if x != "" {
			out = append(out, "")
			if len(x) > 8 {
				out = append(out, x[:len(x)/2], x[len(x)/2:])
			}
			if len(x) > 1 {
				out = append(out, x[:len(x)-1])
			}
		}
	case json.Number:
		n, err := x.Int64()
		if err != nil || n == 0 {
			return nil
		}
		out = append(out, 0)
		if n != 1 {
			out = append(out, 1)
		}
		if n > 3 {
			out = append(out, n/2, n-n/4, n-1)
		} else if n > 1 {
			out = append(out, n-1)
		}
		if n < 0 {
			out = append(out, -n)
		}
	case []any:
		n := len(x)
		if n == 0 {
			return nil
		}
		for sz := n; sz >= 1; sz /= 2 {
			for at := 0; at < n; at += sz {
				end := min(at+sz, n)
				c := append([]any{}, x[:at]...)
				c = append(c, x[end:]...)
				out = append(out, c)
				if len(out) > 60 {
					return out
				}
			}
		}
	case map[string]any:
		if len(x) > 0 {
			out = append(out, nil)
		}
	}
	return out
}

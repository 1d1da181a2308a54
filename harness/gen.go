package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// B is a byte string written as hex in cases
type B []byte

func (b B) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(b)) }
func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	x, err := hex.DecodeString(s)
	*b = x
	return err
}

// Cfg is one configuration of the trie
type Cfg struct {
	Kzg   bool `json:"kzg,omitempty"`
	Arity int  `json:"arity"` // 2, 16, 256
	Hash  int  `json:"hash"`  // 20, 32
	Thr   int  `json:"thr,omitempty"`
	Opt   bool `json:"opt,omitempty"`
}

func (c Cfg) arity() trie.PathArity       { return trie.PathArity(c.Arity - 1) }
func (c Cfg) hash() trie_blake2b.HashSize { return trie_blake2b.HashSize(c.Hash) }

func (c Cfg) model() trie.CommitmentModel {
	if c.Kzg {
		return trie_kzg_bn256.Model
	}
	return c.b2b()
}

func (c Cfg) b2b() *trie_blake2b.CommitmentModel {
	if c.Thr > 0 {
		return trie_blake2b.New(c.arity(), c.hash(), c.Thr)
	}
	return trie_blake2b.New(c.arity(), c.hash())
}

func (c Cfg) String() string {
	if c.Kzg {
		return fmt.Sprintf("kzg opt=%v", c.Opt)
	}
	return fmt.Sprintf("b2b arity=%d hash=%d thr=%d opt=%v", c.Arity, c.Hash, c.Thr, c.Opt)
}

func (c Cfg) label() string {
	if c.Kzg {
		return "kzg"
	}
	return fmt.Sprintf("b2b-%d-%d", c.Arity, c.Hash)
}

// gcfg draws a configuration; kzgPct is the percentage of KZG ones
func gcfg(s *Src, kzgPct int) Cfg {
	c := Cfg{}
	c.Arity = pick(s, []int{16, 2, 256})
	c.Hash = pick(s, []int{20, 32})
	if s.Pct(45) {
		c.Thr = pick(s, []int{1, 2, 19, 20, 21, 31, 32, 33, 40, 64, 100, 1 << 20})
	}
	c.Opt = s.Pct(45)
	if kzgPct > 0 && s.Pct(kzgPct) {
		c = Cfg{Kzg: true, Arity: 256, Opt: c.Opt}
	}
	return c
}

func gcfgB(s *Src) Cfg { return gcfg(s, 0) }

// ---------------------------------------------------------------- keys

// keyPool draws a pool of related keys: prefixes, extensions, siblings diverging by a bit or a nibble
func keyPool(s *Src, lo, hi int) []B {
	alpha := pick(s, [][]byte{{0x00, 0x01}, {'a', 'b'}, {0x00, 0x0f, 0xf0, 0xff}, {0x00, 0x01, 0x10, 0x11, 0x80, 0x7f}, {0x00, 0x01, 'a', 0x0f, 0xf0, 0xff, 0x10, 0x80}, {0x12, 0x13, 0x22}})
	dense := s.Pct(6) // many children of one node
	var denseBase []byte
	if dense {
		denseBase = gKeyShort(s, alpha, 2)
	}
	long := s.Pct(12)
	var pool []B
	seen := map[string]bool{}
	add := func(k []byte) {
		if !seen[string(k)] {
			seen[string(k)] = true
			pool = append(pool, append(B{}, k...))
		}
	}
	for tries := 0; tries < 4*hi+8 && len(pool) < hi && (len(pool) < lo || len(pool) < 1 || s.N(hi) != 0); tries++ {
		if dense && s.Pct(70) {
			add(append(append([]byte{}, denseBase...), s.Byte()))
			continue
		}
		if len(pool) == 0 || s.Pct(25) {
			if long && s.Pct(40) {
				l := pick(s, []int{19, 20, 21, 31, 32, 33, 40, 64, 70})
				if s.Pct(8) {
					l = pick(s, []int{127, 128, 129, 255, 256, 300, 1000})
				}
				k := make([]byte, l)
				b := pick(s, alpha)
				for i := range k {
					k[i] = b
				}
				if s.Pct(50) {
					copy(k, s.Seeded(l))
				}
				add(k)
				continue
			}
			add(gKeyShort(s, alpha, 4))
			continue
		}
		add(deriveKey(s, pick(s, pool), alpha, pool))
	}
	return pool
}

func gKeyShort(s *Src, alpha []byte, max int) []byte {
	l := s.N(max + 1)
	k := make([]byte, l)
	for i := range k {
		k[i] = pick(s, alpha)
	}
	return k
}

// deriveKey makes a key related to k
func deriveKey(s *Src, k []byte, alpha []byte, pool []B) []byte {
	k = append([]byte{}, k...)
	switch s.W(30, 15, 15, 10, 10, 5, 5, 10) {
	case 0: // extend
		n := s.Range(1, 3)
		for i := 0; i < n; i++ {
			k = append(k, pick(s, alpha))
		}
	case 1: // cut
		if len(k) > 0 {
			k = k[:s.N(len(k))]
		}
	case 2: // change the last byte in one bit
		if len(k) > 0 {
			k[len(k)-1] ^= 1 << s.N(8)
		}
	case 3: // change some byte in one bit
		if len(k) > 0 {
			k[s.N(len(k))] ^= 1 << s.N(8)
		}
	case 4: // another last byte
		if len(k) > 0 {
			k[len(k)-1] = pick(s, alpha)
		}
	case 5: // concatenate
		if len(k) < 80 {
			k = append(k, pick(s, pool)...)
		}
	case 6: // append zeros
		for i, n := 0, s.Range(1, 3); i < n; i++ {
			k = append(k, 0)
		}
	case 7: // cut and extend differently
		if len(k) > 0 {
			k = k[:s.N(len(k))]
		}
		k = append(k, pick(s, alpha), pick(s, alpha))
	}
	return k
}

// ---------------------------------------------------------------- values

func valueLens(c Cfg) []int {
	ls := []int{1, 1, 1, 2, 3, 5, 19, 20, 21, 31, 32, 33, 34, 63, 64, 65, 100, 255, 256, 300}
	if !c.Kzg {
		ls = append(ls, c.Hash-1, c.Hash, c.Hash+1, c.Hash, c.Hash+1)
		if c.Thr > 0 && c.Thr < 1000 {
			ls = append(ls, c.Thr, c.Thr+1, c.Thr, c.Thr+1)
			if c.Thr > 1 {
				ls = append(ls, c.Thr-1)
			}
		}
	}
	return ls
}

// gValue draws a non-empty value, possibly related to the key
func gValue(s *Src, c Cfg, key []byte) B {
	switch s.W(70, 12, 4, 3, 5, 6, 2) {
	case 1:
		if len(key) > 0 {
			return append(B{}, key...)
		}
	case 2:
		if u := refUnpack(key, c.Arity); len(u) > 0 {
			return u
		}
	case 3:
		if len(key) > 0 {
			return append(append(B{}, key...), 0)
		}
	case 4: // only zeros
		return make(B, pick(s, []int{1, 2, 20, 32, 33}))
	case 5: // any bytes
		return B(s.Seeded(pick(s, valueLens(c))))
	case 6: // only ones
		return bytes.Repeat(B{0xff}, pick(s, valueLens(c)))
	}
	l := 1
	if s.Pct(55) {
		l = pick(s, valueLens(c))
		if s.N(250) == 249 {
			l = pick(s, []int{1000, 4096, 65535, 65536, 70000})
		}
	}
	v := make(B, l)
	a, b := byte(1+s.N(4)), byte(s.N(3))
	for i := range v {
		v[i] = b
	}
	v[0] = a
	if s.Pct(15) {
		v[l-1] = 0
	}
	return v
}

// ---------------------------------------------------------------- contents

type KV struct {
	K B `json:"k"`
	V B `json:"v"`
}

func gContents(s *Src, c Cfg, lo, hi int) []KV {
	pool := keyPool(s, lo, hi)
	out := make([]KV, 0, len(pool))
	for _, k := range pool {
		out = append(out, KV{K: k, V: gValue(s, c, k)})
	}
	return out
}

func kvMap(kvs []KV) map[string]string {
	m := map[string]string{}
	for _, kv := range kvs {
		if len(kv.V) == 0 {
			delete(m, string(kv.K))
		} else {
			m[string(kv.K)] = string(kv.V)
		}
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func copyMap(m map[string]string) map[string]string {
	r := make(map[string]string, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func dumpMap(m map[string]string) string {
	out := ""
	for i, k := range sortedKeys(m) {
		if i == 60 {
			out += fmt.Sprintf(" ... %d pairs", len(m))
			break
		}
		out += fmt.Sprintf(" %x=%x", k, clip(m[k], 40))
	}
	return "{" + out + " }"
}

// probeKeys are keys worth looking up given the contents: present ones and their neighbours
func probeKeys(m map[string]string, extra ...B) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	add := func(k []byte) {
		if !seen[string(k)] {
			seen[string(k)] = true
			out = append(out, append([]byte{}, k...))
		}
	}
	add(nil)
	ks := sortedKeys(m)
	if n := len(ks); n > 80 { // some of them
		some := ks[:0:0]
		for i, k := range ks {
			if i*50/n != (i-1)*50/n || i%97 == 3 {
				some = append(some, k)
			}
		}
		ks = some
	}
	for _, k := range ks {
		add([]byte(k))
	}
	for _, k := range extra {
		add(k)
	}
	for i, k := range ks {
		if i > 40 {
			break
		}
		b := []byte(k)
		add(append(append([]byte{}, b...), 0))
		add(append(append([]byte{}, b...), 0xff))
		if len(b) > 0 {
			add(b[:len(b)-1])
			add(b[:len(b)/2])
			c := append([]byte{}, b...)
			c[len(c)-1] ^= 1
			add(c)
			c = append([]byte{}, b...)
			c[len(c)-1] ^= 0x10
			add(c)
			c = append([]byte{}, b...)
			c[len(c)/2] ^= 0x80
			add(c)
		}
	}
	return out
}

func seededRand(seed int) *rand.Rand { return rand.New(rand.NewSource(int64(seed))) }

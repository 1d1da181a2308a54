package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"go.dedis.ch/kyber/v3"
	"golang.org/x/crypto/blake2b"
)

// ---- reference: written from the definition, shares no code with the trie (only the crypto libraries) ----

// refUnpack splits the key into elements of the arity, most significant first
func refUnpack(key []byte, arity int) []byte {
	var out []byte
	for _, b := range key {
		switch arity {
		case 256:
			out = append(out, b)
		case 16:
			out = append(out, b/16, b%16)
		case 2:
			for bit := 128; bit >= 1; bit /= 2 {
				if int(b)&bit != 0 {
					out = append(out, 1)
				} else {
					out = append(out, 0)
				}
			}
		}
	}
	return out
}

// refEncode is the storage encoding of an unpacked key: nothing for the empty one; for 16 and 2 a byte
// with the number of padding elements followed by the packed elements
func refEncode(u []byte, arity int) []byte {
	if len(u) == 0 {
		return nil
	}
	per := map[int]int{256: 1, 16: 2, 2: 8}[arity]
	if per == 1 {
		return append([]byte{}, u...)
	}
	width := 8 / per
	pad := (per - len(u)%per) % per
	out := []byte{byte(pad)}
	cur, n := 0, 0
	for _, e := range u {
		cur = cur<<width | int(e)
		n++
		if n == per {
			out = append(out, byte(cur))
			cur, n = 0, 0
		}
	}
	if n > 0 {
		for ; n < per; n++ {
			cur <<= width
		}
		out = append(out, byte(cur))
	}
	return out
}

// refNode is a node of the canonical radix tree
type refNode struct {
	key      []byte // unpacked prefix which leads to the node
	pf       []byte
	children map[int]*refNode
	data     []byte // what the terminal commits to, nil if no value
	value    []byte // the value itself
	hash     []byte // commitment
}

type refItem struct {
	u     []byte
	data  []byte
	value []byte
}

// refData is what a pair commits to
func refData(c Cfg, k, v string) []byte {
	if c.Opt && k == v {
		return refUnpack([]byte(k), c.Arity)
	}
	return []byte(v)
}

func refTree(c Cfg, m map[string]string) *refNode {
	var items []refItem
	for k, v := range m {
		items = append(items, refItem{refUnpack([]byte(k), c.Arity), refData(c, k, v), []byte(v)})
	}
	sort.Slice(items, func(i, j int) bool { return bytes.Compare(items[i].u, items[j].u) < 0 })
	return refBuild(items, nil)
}

func refBuild(items []refItem, key []byte) *refNode {
	if len(items) == 0 {
		return nil
	}
	d := len(key)
	// longest common prefix beyond key: of the first and the last in order
	a, b := items[0].u, items[len(items)-1].u
	l := d
	for l < len(a) && l < len(b) && a[l] == b[l] {
		l++
	}
	n := &refNode{key: append([]byte{}, key...), pf: append([]byte{}, a[d:l]...), children: map[int]*refNode{}}
	if len(a) == l {
		n.data, n.value = items[0].data, items[0].value
		items = items[1:]
	}
	for len(items) > 0 {
		e := items[0].u[l]
		j := 0
		for j < len(items) && items[j].u[l] == e {
			j++
		}
		n.children[int(e)] = refBuild(items[:j], append(append([]byte{}, a[:l]...), e))
		items = items[j:]
	}
	return n
}

func (n *refNode) walk(f func(*refNode)) {
	if n == nil {
		return
	}
	f(n)
	for i := 0; i < 256; i++ {
		n.children[i].walk(f)
	}
}

func blake(data []byte, size int) []byte {
	h, err := blake2b.New(size, nil)
	must(err)
	h.Write(data)
	return h.Sum(nil)
}

// refSlot is data up to the hash size as is, longer data hashed
func refSlot(data []byte, size int) []byte {
	if len(data) <= size {
		return data
	}
	return blake(data, size)
}

// refNodeHash is the commitment of one node given those of its children
func refNodeHash(c Cfg, pf []byte, children map[int][]byte, data []byte) []byte {
	w := c.Hash + 1
	buf := make([]byte, (c.Arity+2)*w)
	for i, h := range children {
		copy(buf[i*w:(i+1)*w], h)
	}
	if data != nil {
		copy(buf[c.Arity*w:], refSlot(data, c.Hash))
	}
	copy(buf[(c.Arity+1)*w:], refSlot(pf, c.Hash))
	return blake(buf, c.Hash)
}

// refCommit computes all commitments of the tree, returns the one of n
func refCommit(c Cfg, n *refNode) []byte {
	if n == nil {
		return nil
	}
	ch := map[int][]byte{}
	for i, x := range n.children {
		ch[i] = refCommit(c, x)
	}
	if c.Kzg {
		n.hash = refKzgCommit(n.pf, ch, n.data)
	} else {
		n.hash = refNodeHash(c, n.pf, ch, n.data)
	}
	return n.hash
}

func kzgHashScalar(data []byte) kyber.Scalar {
	h := blake2b.Sum256(data)
	s := trie_kzg_bn256.Model.Suite.G1().Scalar()
	s.SetBytes(h[:])
	return s
}

func refKzgVector(pf []byte, children map[int][]byte, data []byte) map[int]kyber.Scalar {
	vect := map[int]kyber.Scalar{}
	for i, b := range children {
		vect[i] = kzgHashScalar(b)
	}
	if data != nil {
		vect[256] = kzgHashScalar(data)
	}
	// the path fragment is hashed twice
	h := blake2b.Sum256(pf)
	vect[257] = kzgHashScalar(h[:])
	return vect
}

func refKzgCommit(pf []byte, children map[int][]byte, data []byte) []byte {
	m := trie_kzg_bn256.Model
	sum := m.Suite.G1().Point().Null()
	for i, s := range refKzgVector(pf, children, data) {
		sum.Add(sum, m.Suite.G1().Point().Mul(s, m.LagrangeBasis[i]))
	}
	b, err := sum.MarshalBinary()
	must(err)
	return b
}

// refRoot evaluates the definition on the contents
func refRoot(c Cfg, m map[string]string) []byte { return refCommit(c, refTree(c, m)) }

// ---- the padding equivalence: known finding "zero padding" ----

func normSlot(data []byte, size int) string {
	return string(bytes.TrimRight(refSlot(data, size), "\x00"))
}

// padEqual tells that two nodes are indistinguishable for the blake2b commitment because slots are padded
// with zeros: path fragments or values (or, for a value which is exactly the hash of the other, hashes)
// which differ only in trailing zero bytes
func padEqual(c Cfg, a, b *refNode) bool {
	if a == nil || b == nil {
		return a == b
	}
	if normSlot(a.pf, c.Hash) != normSlot(b.pf, c.Hash) || len(a.children) != len(b.children) {
		return false
	}
	if normSlot(a.data, c.Hash) != normSlot(b.data, c.Hash) {
		return false
	}
	for i, x := range a.children {
		if !padEqual(c, x, b.children[i]) || b.children[i] == nil {
			return false
		}
	}
	return true
}

// ---- reference serialisation of nodes ----

// refNodeBytes is the documented layout of a node. kind: 0 terminal in the node, 1 from the value store,
// 2 from the key, 3 both flags
func refNodeBytes(c Cfg, n *refNode, fromKey, fromValue bool) []byte {
	var f byte
	if n.data != nil {
		f |= 0x01
	}
	if fromValue {
		f |= 0x02
	}
	if fromKey {
		f |= 0x04
	}
	if len(n.children) > 0 {
		f |= 0x08
	}
	if len(n.pf) > 0 {
		f |= 0x10
	}
	out := []byte{f}
	if len(n.pf) > 0 {
		e := refEncode(n.pf, c.Arity)
		out = binary.LittleEndian.AppendUint16(out, uint16(len(e)))
		out = append(out, e...)
	}
	if n.data != nil && !fromKey && !fromValue {
		out = append(out, refTermBytes(c, n.data)...)
	}
	if len(n.children) > 0 {
		w := c.Arity / 8
		if w == 0 {
			w = 1
		}
		bm := make([]byte, w)
		for i := range n.children {
			bm[i/8] |= 1 << (i % 8)
		}
		out = append(out, bm...)
		for i := 0; i < c.Arity; i++ {
			if x, ok := n.children[i]; ok {
				out = append(out, x.hash...)
			}
		}
	}
	return out
}

// refTermBytes is a terminal commitment as stored in a node
func refTermBytes(c Cfg, data []byte) []byte {
	if c.Kzg {
		b, err := kzgHashScalar(data).MarshalBinary()
		must(err)
		return b
	}
	s := refSlot(data, c.Hash)
	l := byte(len(s))
	if len(data) > c.Thr {
		l |= 0xC0
	}
	return append([]byte{l}, s...)
}

func (n *refNode) String() string {
	return fmt.Sprintf("key=%x pf=%x children=%d data=%x", n.key, n.pf, len(n.children), n.data)
}

func sortedInts[V any](m map[int]V) []int {
	out := make([]int, 0, len(m))
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

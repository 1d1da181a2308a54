package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

// C12

// BytesCase is a valid encoding of some kind and what is done to it
type BytesCase struct {
	Kind  string     `json:"kind"`
	Cfg   Cfg        `json:"cfg"`
	Proof *ProofCase `json:"proof,omitempty"` // blake2b proof, or the trie the node comes from
	Node  *NodeDef   `json:"node,omitempty"`
	N     int        `json:"n,omitempty"` // which KZG proof, setup, ...
	Raw   B          `json:"raw,omitempty"`
	Muts  [][]Mut    `json:"muts"`
	Ext   []B        `json:"ext"`
}

// Mut is a mutation of a byte string
type Mut struct {
	Op  string `json:"op"`
	Pos int    `json:"p"` // modulo the length; negative: from the end
	D   B      `json:"d,omitempty"`
}

func gMuts(s *Src) [][]Mut {
	var out [][]Mut
	for n := s.Range(4, 24); n > 0; n-- {
		var ms []Mut
		for k := s.Range(1, 3); k > 0; k-- {
			m := Mut{Op: pick(s, []string{"set", "xor", "insert", "delete", "dup", "fill"}), Pos: s.N(4000)}
			switch s.N(4) {
			case 0, 1:
				m.Pos = s.N(12) // the header
			case 2:
				m.Pos = -1 - s.N(40)
			}
			m.D = s.Bytes(s.Range(1, 4))
			if s.Pct(50) {
				m.D = B{pick(s, []byte{0, 1, 2, 3, 7, 8, 15, 16, 20, 32, 33, 0x7f, 0x80, 0xff, 0xfe, 0x1f, 0x3f, 0xc0})}
			}
			ms = append(ms, m)
		}
		out = append(out, ms)
	}
	return out
}

func mutate(b []byte, ms []Mut) []byte {
	b = append([]byte{}, b...)
	for _, m := range ms {
		if len(b) == 0 {
			b = append(b, m.D...)
			continue
		}
		p := m.Pos
		if p < 0 {
			p = len(b) - (-p)%len(b) - 1
		}
		p = ((p % len(b)) + len(b)) % len(b)
		switch m.Op {
		case "set":
			copy(b[p:], m.D)
		case "xor":
			for i, d := range m.D {
				if p+i < len(b) {
					b[p+i] ^= d
				}
			}
		case "insert":
			b = append(b[:p:p], append(append([]byte{}, m.D...), b[p:]...)...)
		case "delete":
			e := p + len(m.D)
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:p:p], b[e:]...)
		case "dup":
			e := p + int(m.D[0])
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:e:e], b[p:]...)
		case "fill":
			for i := p; i < len(b) && i < p+int(m.D[0]); i++ {
				b[i] = m.D[len(m.D)-1]
			}
		}
	}
	return b
}

// NodeDef describes node data
type NodeDef struct {
	Key      B      `json:"key"` // unpacked
	PF       B      `json:"pf"`
	Children []int  `json:"ch,omitempty"`
	HasTerm  bool   `json:"has,omitempty"`
	Data     B      `json:"data,omitempty"` // what the terminal commits to
	Source   string `json:"src,omitempty"`  // "", key, value, both
	Salt     int    `json:"salt,omitempty"`
}

func gNodeDef(s *Src, c Cfg) *NodeDef {
	el := func(max int) B {
		n := s.N(max + 1)
		if s.Pct(4) {
			n = pick(s, []int{255, 256, 257, 300})
		}
		b := make(B, n)
		for i := range b {
			b[i] = byte(s.N(c.Arity))
		}
		return b
	}
	n := &NodeDef{Key: el(10), PF: el(10), Salt: s.N(1000)}
	k := s.N(5)
	if s.Pct(6) {
		k = pick(s, []int{c.Arity, 40})
		for i := 0; i < k; i++ {
			n.Children = append(n.Children, i%c.Arity)
		}
	} else {
		for ; k > 0; k-- {
			n.Children = append(n.Children, pick(s, []int{0, 1, c.Arity - 1, c.Arity - 2, c.Arity / 2, s.N(c.Arity)}))
		}
	}
	if s.Pct(75) {
		n.HasTerm = true
		n.Data = gValue(s, c, nil)
		n.Source = pick(s, []string{"", "", "key", "value", "both"})
		full := append(append([]byte{}, n.Key...), n.PF...)
		switch n.Source {
		case "key", "both":
			if len(full) == 0 {
				n.Source = ""
			} else {
				n.Data = full
			}
		case "value":
			// stored under the packed key: a whole number of bytes
			per := map[int]int{256: 1, 16: 2, 2: 8}[c.Arity]
			for (len(n.Key)+len(n.PF))%per != 0 {
				n.Key = append(n.Key, 0)
			}
		}
	}
	return n
}

var kzgPoints struct {
	sync.Mutex
	m map[int][]byte
}

// kzgPointBytes is a valid KZG vector commitment number i
func kzgPointBytes(i int) []byte {
	kzgPoints.Lock()
	defer kzgPoints.Unlock()
	if kzgPoints.m == nil {
		kzgPoints.m = map[int][]byte{}
	}
	if b, ok := kzgPoints.m[i]; ok {
		return b
	}
	m := trie_kzg_bn256.Model
	b, err := m.Suite.G1().Point().Mul(kzgHashScalar([]byte{byte(i), byte(i >> 8), 77}), nil).MarshalBinary()
	must(err)
	kzgPoints.m[i] = b
	return b
}

func (n *NodeDef) childBytes(c Cfg, i int) []byte {
	if c.Kzg {
		return kzgPointBytes((n.Salt + i) % 40)
	}
	return blake([]byte{byte(n.Salt), byte(n.Salt >> 8), byte(i)}, c.Hash)
}

// ref gives the node for the reference functions
func (n *NodeDef) ref(c Cfg) *refNode {
	r := &refNode{key: n.Key, pf: n.PF, children: map[int]*refNode{}}
	for _, i := range n.Children {
		r.children[i] = &refNode{hash: n.childBytes(c, i)}
	}
	if n.HasTerm {
		r.data = n.Data
	}
	return r
}

func (n *NodeDef) commitment(c Cfg) []byte {
	ch := map[int][]byte{}
	for _, i := range n.Children {
		ch[i] = n.childBytes(c, i)
	}
	var data []byte
	if n.HasTerm {
		data = n.Data
	}
	if c.Kzg {
		return refKzgCommit(n.PF, ch, data)
	}
	return refNodeHash(c, n.PF, ch, data)
}

// data builds the library's node data
func (n *NodeDef) data(c Cfg, m trie.CommitmentModel) (*trie.NodeData, error) {
	d := trie.NewNodeData()
	d.PathFragment = append([]byte{}, n.PF...)
	for _, i := range n.Children {
		v := m.NewVectorCommitment()
		if err := v.Read(bytes.NewReader(n.childBytes(c, i))); err != nil {
			return nil, err
		}
		d.ChildCommitments[byte(i)] = v
	}
	if n.HasTerm {
		d.Terminal = m.CommitToData(append([]byte{}, n.Data...))
	}
	return d, nil
}

func (n *NodeDef) fromKey() bool   { return n.Source == "key" || n.Source == "both" }
func (n *NodeDef) fromValue() bool { return n.Source == "value" || n.Source == "both" }
func (n *NodeDef) committing() bool {
	return len(n.Children) > 0 || n.HasTerm
}

// store has the value of the node under its packed key
func (n *NodeDef) store(c Cfg) *memKV {
	kv := newMemKV()
	if n.HasTerm {
		e := refEncode(append(append([]byte{}, n.Key...), n.PF...), c.Arity)
		if c.Arity != 256 && len(e) > 0 {
			e = e[1:]
		}
		kv.Set(e, n.Data)
	}
	return kv
}

// ---- KZG proofs for mutation: few, because they are slow to make

type kzgSample struct {
	cfg   Cfg
	m     map[string]string
	key   []byte
	bytes []byte
	root  trie.VCommitment
	tr    *trie.Trie
}

var kzgSamples struct {
	sync.Mutex
	m map[int]*kzgSample
}

const nKzgSamples = 6

func kzgProofSample(i int) *kzgSample {
	kzgSamples.Lock()
	defer kzgSamples.Unlock()
	if kzgSamples.m == nil {
		kzgSamples.m = map[int]*kzgSample{}
	}
	if s, ok := kzgSamples.m[i]; ok {
		return s
	}
	c := Cfg{Kzg: true, Arity: 256}
	ms := []map[string]string{
		{"": "1"},
		{"a": "x"},
		{"": "0", "a": "1", "ab": "2", "abcd": "33333333333333333333333333333333333333333333333333"},
		{"a": "1", "b": "2", "c\x00": "3", "c\xff": "4"},
		{"\x00\x00": "\x00", "\x00": "1", "\x00\x00\x00\x00": "2"},
		{"key": "key", "kex": "v"},
	}
	keys := []string{"", "a", "abcd", "c\xff", "\x00\x00\x00\x00", "key"}
	s := &kzgSample{cfg: c, m: ms[i], key: []byte(keys[i]), tr: fresh(c, ms[i])}
	s.root = trie.RootCommitment(s.tr)
	p, ok := trie_kzg_bn256.Model.ProofOfInclusion(append([]byte{}, s.key...), s.tr)
	if !ok {
		panic("no KZG proof of a present key")
	}
	s.bytes = p.Bytes()
	kzgSamples.m[i] = s
	return s
}

// ---- decoders

// decoder decodes, and uses what was decoded; err is that of decoding
type decoder func(b []byte) error

func decB2b(root []byte) decoder {
	return func(b []byte) error {
		p, err := trie_blake2b.ProofFromBytes(append([]byte{}, b...))
		if err != nil {
			return err
		}
		for _, r := range [][]byte{root, nil, {1}} {
			if trie_blake2b_verify.Validate(p, r) == nil && len(p.Path) > 0 {
				trie_blake2b_verify.IsProofOfAbsence(p)
				trie_blake2b_verify.MustKeyWithTerminal(p)
			}
			_ = trie_blake2b_verify.ValidateWithValue(p, r, []byte{1})
		}
		_ = trie_blake2b_verify.ValidateWithValue(p, root, nil)
		// what was decoded can be written again
		var buf bytes.Buffer
		_ = p.Write(&buf)
		return nil
	}
}

func decKzg(root trie.VCommitment, deep bool) decoder {
	return func(b []byte) error {
		p, err := trie_kzg_bn256.ProofOfInclusionFromBytes(append([]byte{}, b...))
		if err != nil {
			return err
		}
		_ = p.Validate(root)
		_ = p.Validate(nil)
		_ = p.Validate(root, []byte("1"))
		_ = p.Validate(root, nil)
		if deep && len(p.Path) > 0 {
			cb, err := p.Path[0].C.MarshalBinary()
			must(err)
			v := trie_kzg_bn256.Model.NewVectorCommitment()
			if v.Read(bytes.NewReader(cb)) == nil {
				_ = p.Validate(v)
			}
		}
		_ = p.Bytes()
		return nil
	}
}

func decNode(c Cfg, key []byte, store trie.KVReader) decoder {
	m := c.model()
	return func(b []byte) error {
		n, err := trie.NodeDataFromBytes(m, append([]byte{}, b...), append([]byte{}, key...), c.arity(), store)
		if err != nil {
			return err
		}
		m.CalcNodeCommitment(n)
		n.Clone()
		return nil
	}
}

func decVector(c Cfg) decoder {
	tr := trie.New(c.model(), newMemKV(), newMemKV(), c.Opt)
	return func(b []byte) error {
		v, err := tr.VectorCommitmentFromBytes(append([]byte{}, b...))
		if err != nil {
			return err
		}
		v.Bytes()
		v.Clone()
		return nil
	}
}

// decTerminal: what is left in the reader counts as not accepted
func decTerminal(c Cfg) decoder {
	m := c.model()
	return func(b []byte) error {
		t := m.NewTerminalCommitment()
		rdr := bytes.NewReader(append([]byte{}, b...))
		if err := t.Read(rdr); err != nil {
			return err
		}
		t.Bytes()
		t.Clone()
		m.ForceStoreTerminalWithNode(t)
		if rdr.Len() != 0 {
			return trie.ErrNotAllBytesConsumed
		}
		return nil
	}
}

func decKey(c Cfg) decoder {
	return func(b []byte) error {
		u, err := trie.DecodeToUnpackedBytes(append([]byte{}, b...), c.arity())
		if err != nil {
			return err
		}
		_, _ = trie.PackUnpackedBytes(u, c.arity())
		return nil
	}
}

func decSetup(b []byte) error {
	b = append([]byte{}, b...)
	if len(b) > 3 && b[1] > 1 && b[3]%32 != 0 {
		b[1] &= 1 // a big dimension takes time: only sometimes
	}
	_, err := trie_kzg_bn256.TrustedSetupFromBytes(bn256.NewSuite(), b)
	return err
}

var setupBin struct {
	sync.Mutex
	m map[int][]byte
}

// setupSample: number i has dimension i/2+1, natural domain or powers of a root of unity
func setupSample(i int) []byte {
	setupBin.Lock()
	defer setupBin.Unlock()
	if setupBin.m == nil {
		setupBin.m = map[int][]byte{}
	}
	if b, ok := setupBin.m[i]; ok {
		return b
	}
	d := uint16(i/2 + 1)
	secret := kzgHashScalar([]byte(fmt.Sprintf("secret %d", i)))
	var ts *trie_kzg_bn256.TrustedSetup
	var err error
	if i%2 == 0 {
		ts, err = trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(bn256.NewSuite(), d, secret)
	} else {
		ts, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(bn256.NewSuite(), d, refROU(i), secret)
	}
	if err != nil {
		panic(fmt.Sprintf("trusted setup of dimension %d: %v", d, err))
	}
	setupBin.m[i] = ts.Bytes()
	return setupBin.m[i]
}

func gBytesCase(s *Src) BytesCase {
	c := gcfg(s, 6)
	bc := BytesCase{Cfg: c}
	switch s.W(28, 30, 3, 12, 4, 14, 9) {
	case 0:
		bc.Kind = "proof"
		bc.Cfg = gcfgB(s)
		p := gProofCase(s)
		p.MoreElems, p.MoreKey, p.MorePF = 0, 0, 0
		bc.Proof, bc.Cfg = &p, p.Cfg
	case 1:
		bc.Kind = "node"
		bc.Node = gNodeDef(s, c)
	case 2:
		bc.Kind = "kzgproof"
		bc.N = s.N(nKzgSamples)
		bc.Cfg = Cfg{Kzg: true, Arity: 256}
	case 3:
		bc.Kind = pick(s, []string{"vector", "terminal"})
		bc.Raw = gValue(s, c, nil)
		bc.N = s.N(40)
	case 4:
		bc.Kind = "setup"
		bc.N = s.N(8)
	case 5:
		bc.Kind = "key"
		n := s.N(20)
		bc.Raw = make(B, n)
		for i := range bc.Raw {
			bc.Raw[i] = byte(s.N(c.Arity))
		}
	case 6:
		bc.Kind = "raw"
		bc.Raw = s.Bytes(s.N(40))
		if s.Pct(30) {
			bc.Raw = s.Seeded(s.N(400))
		}
	}
	bc.Muts = gMuts(s)
	for i := s.Range(1, 3); i > 0; i-- {
		bc.Ext = append(bc.Ext, s.Bytes(s.Range(1, 4)))
	}
	bc.Ext = append(bc.Ext, B{0})
	return bc
}

func (bc *BytesCase) subject() (valid []byte, dec decoder, err error) {
	c := bc.Cfg
	switch bc.Kind {
	case "proof":
		p := bc.Proof.proof()
		var buf bytes.Buffer
		if err := p.Write(&buf); err != nil {
			return nil, nil, err
		}
		var root []byte
		if !bc.Proof.Made {
			root = refRoot(c, kvMap(bc.Proof.KVs))
		}
		return buf.Bytes(), decB2b(root), nil
	case "node":
		if !bc.Node.committing() {
			bc.Node.HasTerm, bc.Node.Data, bc.Node.Source = true, B{1}, ""
		}
		n, err := bc.Node.data(c, c.model())
		if err != nil {
			return nil, nil, err
		}
		var buf bytes.Buffer
		if err := n.Write(&buf, c.arity(), bc.Node.fromKey(), bc.Node.fromValue()); err != nil {
			return nil, nil, err
		}
		return buf.Bytes(), decNode(c, bc.Node.Key, bc.Node.store(c)), nil
	case "kzgproof":
		k := kzgProofSample(bc.N % nKzgSamples)
		return k.bytes, decKzg(k.root, true), nil
	case "vector":
		if c.Kzg {
			return kzgPointBytes(bc.N), decVector(c), nil
		}
		return blake([]byte{byte(bc.N)}, c.Hash), decVector(c), nil
	case "terminal":
		return refTermBytes(c, bc.Raw), decTerminal(c), nil
	case "setup":
		return setupSample(bc.N % 8), decSetup, nil
	case "key":
		return refEncode(bc.Raw, c.Arity), decKey(c), nil
	}
	return bc.Raw, nil, nil
}

func runC12(bc *BytesCase, st *Stats) error {
	c := bc.Cfg
	st.Label("kind:" + bc.Kind)
	valid, dec, err := bc.subject()
	if err != nil {
		return errf("%s: %s can't be written: %v", c, bc.Kind, err)
	}
	try := func(what string, b []byte, f decoder) (err error, pan interface{}) {
		defer func() {
			if r := recover(); r != nil {
				pan = fmt.Sprintf("%s: %s, %s: panic: %v\n bytes %x\n%s", c, bc.Kind, what, r, b, shortStack())
			}
		}()
		return f(b), nil
	}
	if bc.Kind == "raw" {
		decs := map[string]decoder{"node": decNode(c, []byte{1, 0}, newMemKV()), "node without value store": decNode(c, nil, nil), "vector": decVector(c), "terminal": decTerminal(c), "key": decKey(c), "b2bproof": decB2b(nil), "setup": decSetup, "kzgproof": decKzg(nil, true)}
		accepted := 0
		for i := 0; i <= len(bc.Muts); i++ {
			b := []byte(bc.Raw)
			if i > 0 {
				b = mutate(b, bc.Muts[i-1])
			}
			for _, n := range sortedKeys(decs) {
				err, pan := try(n, b, decs[n])
				if pan != nil {
					return fmt.Errorf("%v", pan)
				}
				if err == nil {
					accepted++
				}
			}
		}
		st.LabelN("random-bytes:accepted", accepted)
		st.NonTrivial(len(bc.Raw) > 2)
		return nil
	}
	if err, pan := try("valid encoding", valid, dec); err != nil || pan != nil {
		return errf("%s: %s: valid encoding is rejected: %v %v\n %x", c, bc.Kind, err, pan, valid)
	}
	if bc.Kind != "key" {
		for n := range valid {
			if len(valid) > 600 && n%7 != 0 && n > 60 && n < len(valid)-60 {
				continue
			}
			err, pan := try("prefix", valid[:n], dec)
			if pan != nil {
				return fmt.Errorf("%v", pan)
			}
			if err == nil {
				return errf("%s: prefix of %d of the %d bytes of a %s is accepted\n %x", c, n, len(valid), bc.Kind, valid)
			}
		}
		for _, x := range bc.Ext {
			err, pan := try("extended", append(append([]byte{}, valid...), x...), dec)
			if pan != nil {
				return fmt.Errorf("%v", pan)
			}
			if err == nil {
				return errf("%s: %s followed by %x is accepted\n %x", c, bc.Kind, []byte(x), valid)
			}
		}
		st.LabelN("prefixes", len(valid))
	}
	acc, rej := 0, 0
	for _, m := range bc.Muts {
		err, pan := try("mutated", mutate(valid, m), dec)
		if pan != nil {
			return fmt.Errorf("%v", pan)
		}
		if err == nil {
			acc++
		} else {
			rej++
		}
	}
	if bc.Kind == "node" { // missing values
		for _, store := range []trie.KVReader{newMemKV(), nil} {
			err, pan := try("without the value", valid, decNode(c, bc.Node.Key, store))
			if pan != nil {
				return fmt.Errorf("%v", pan)
			}
			if err == nil && bc.Node.Source == "value" {
				return errf("%s: node is read although its value is missing", c)
			}
		}
	}
	st.LabelN("mutated:accepted", acc)
	st.LabelN("mutated:rejected", rej)
	st.NonTrivial(len(valid) > 1 && acc+rej > 0)
	return nil
}

func init() {
	k := func(kind string, c Cfg, raw ...byte) BytesCase { return BytesCase{Kind: kind, Cfg: c, Raw: raw} }
	a2, a16 := Cfg{Arity: 2, Hash: 20}, Cfg{Arity: 16, Hash: 32}
	fixed := []BytesCase{
		k("raw", a2, 1), k("raw", a2, 0), k("raw", a16, 1), k("raw", a16, 0), k("raw", a2, 7),
		// proofs: an element with the terminal too long; keys of padding only; a path longer than the key
		k("raw", a16, 15, 32, 1, 0, 1, 0, 0), k("raw", a2, 1, 20, 0, 0, 1, 0, 0, 0, 2, 0, 1, 0xff),
		k("raw", a16, 2, 32, 0, 0, 1, 0, 0, 0, 16, 0, 0), k("raw", a16, 16, 32, 0, 0, 1, 0, 0, 0, 16, 0, 0),
		{Kind: "kzgproof", Cfg: Cfg{Kzg: true, Arity: 256}, N: 2}, {Kind: "kzgproof", Cfg: Cfg{Kzg: true, Arity: 256}, N: 4},
	}
	// KZG proofs with the vector indices replaced
	for _, n := range []int{1, 2} {
		b := BytesCase{Kind: "kzgproof", Cfg: Cfg{Kzg: true, Arity: 256}, N: n}
		l := []int{0, 1, 0, 0, 0, 0}[n]
		if n == 2 {
			l = 4
		}
		for e := 0; e < 3; e++ {
			off := 2 + l + 32 + 2 + e*(64+2+64) + 64
			for _, v := range []B{{0, 1}, {1, 1}, {2, 1}, {0xff, 0xff}, {0, 0}, {255, 0}} {
				b.Muts = append(b.Muts, []Mut{{Op: "set", Pos: off, D: v}})
			}
		}
		fixed = append(fixed, b)
	}
	for i := 0; i < 8; i++ {
		fixed = append(fixed, BytesCase{Kind: "setup", Cfg: a16, N: i, Ext: []B{{0}}, Muts: [][]Mut{{{Op: "set", Pos: 0, D: B{0, 0}}}, {{Op: "set", Pos: 0, D: B{0xff}}}, {{Op: "fill", Pos: 2, D: B{32, 0}}}}})
	}
	register("C12", checkOpt{Quick: 20000, Thor: 1000000,
		Rule:   "cases are a valid encoding (blake2b proof of a generated trie or made up, node of every model/arity/terminal source, KZG proof, vector or terminal commitment, encoded key, trusted setup of dimension 1..4) or random bytes; every strict prefix (all of them up to 600 bytes) and every extension must be rejected with an error, and up to 24 mutations (header fields, lengths, bytes inserted, deleted, duplicated, filled) decoded and validated must not panic. Non-trivial: an encoding of more than one byte with mutations tried.",
		Assume: []string{"terminal commitments are read from streams, so bytes after them are the caller's"},
	}, gBytesCase, runC12, fixed...)
}
